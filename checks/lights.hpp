// Traffic lights in messages and requests as text.
#pragma once
#include "world.hpp"

namespace lights
{
using namespace sim;
using namespace world;
// bulbs as text "color status shape confidence"
using Bulbs = std::multiset<std::string>;
struct Light { std::set<std::string> bulbs; double confidence = 1; };
using Channel = std::map<int, Light>;
struct BulbKind { const char * text; const char * color; const char * status; const char * shape; };
inline const std::vector<BulbKind> & bulb_kinds()
{
  static const std::vector<BulbKind> kinds = {
    {"green", "green", "on", "circle"}, {"red", "red", "on", "circle"}, {"amber", "yellow", "on", "circle"}, {"yellow solidOn circle", "yellow", "on", "circle"},
    {"red flashing", "red", "flashing", "circle"}, {"green solidOn right", "green", "on", "right"}, {"green left", "green", "on", "left"}, {"green straight", "green", "on", "up"},
    {"white solidOff cross", "white", "off", "cross"}, {"Red", "red", "on", "circle"}, {"green solidOn lowerRight", "green", "on", "down_right"}, {"yellow flashing down", "yellow", "flashing", "down"}};
  return kinds;
}
inline std::string bulb_text(const std::string & color, const std::string & status, const std::string & shape) { return color + " " + status + " " + shape; }
template <typename M> std::string message_bulb(const M & b)
{
  return bulb_text(b.color == M::RED ? "red" : b.color == M::AMBER ? "yellow" : b.color == M::GREEN ? "green" : b.color == M::WHITE ? "white" : "unknown",
                   b.status == M::SOLID_ON ? "on" : b.status == M::SOLID_OFF ? "off" : b.status == M::FLASHING ? "flashing" : "unknown",
                   b.shape == M::CIRCLE ? "circle" : b.shape == M::LEFT_ARROW ? "left" : b.shape == M::RIGHT_ARROW ? "right" : b.shape == M::UP_ARROW ? "up" : b.shape == M::DOWN_ARROW ? "down" : b.shape == M::DOWN_RIGHT_ARROW ? "down_right" : b.shape == M::CROSS ? "cross" : "unknown") + " " + str(std::round(b.confidence * 1e4) / 1e4);
}
inline std::string request_bulb(const schema::TrafficLight & b)
{
  using T = schema::TrafficLight;
  return bulb_text(b.color() == T::RED ? "red" : b.color() == T::AMBER ? "yellow" : b.color() == T::GREEN ? "green" : b.color() == T::WHITE ? "white" : "unknown",
                   b.status() == T::SOLID_ON ? "on" : b.status() == T::SOLID_OFF ? "off" : b.status() == T::FLASHING ? "flashing" : "unknown",
                   b.shape() == T::CIRCLE ? "circle" : b.shape() == T::LEFT_ARROW ? "left" : b.shape() == T::RIGHT_ARROW ? "right" : b.shape() == T::UP_ARROW ? "up" : b.shape() == T::DOWN_ARROW ? "down" : b.shape() == T::DOWN_RIGHT_ARROW ? "down_right" : b.shape() == T::CROSS ? "cross" : "unknown") + " " + str(std::round(b.confidence() * 1e4) / 1e4);
}
inline Bulbs shown(const Light & l) { Bulbs b; for (auto & x : l.bulbs) b.insert(x + " " + str(l.confidence)); return b; }
inline std::string list(const Bulbs & b) { std::string s; for (auto & x : b) s += (s.empty() ? "" : ", ") + x; return "[" + s + "]"; }
inline std::map<int, Bulbs> output(const Channel & truth, const Channel & detected)
{
  std::map<int, Bulbs> out;
  for (auto & [w, l] : truth) if (!l.bulbs.empty()) out[w] = shown(l);
  for (auto & [w, l] : detected) { out.erase(w); if (!l.bulbs.empty()) out[w] = shown(l); }
  return out;
}
struct Prediction { i64 stamp; Bulbs bulbs; bool open = false; };
}  // namespace lights
