// The road network of the simulated worlds.
#pragma once
#include <sim/lanelet/mini.hpp>
#include <functional>
namespace simlanelet
{
extern std::function<lanelet::LaneletMapPtr()> make_map;      // what loading a map gives
struct Builder
{
  lanelet::LaneletMapPtr map = std::make_shared<lanelet::LaneletMap>();
  lanelet::Id next_point = 1'000'000;
  using P = std::pair<double, double>;
  lanelet::LineString3d line(lanelet::Id id, const std::vector<P> & ps)
  {
    std::vector<lanelet::Point3d> pts;
    for (auto & p : ps) pts.emplace_back(next_point++, p.first, p.second, 0);
    lanelet::LineString3d l(id, pts);
    map->lineStringLayer.add(id, l);
    return l;
  }
  // straight line from (x0,y0) to (x1,y1) with a point about every `step` metres
  static std::vector<P> straight(double x0, double y0, double x1, double y1, double step = 5)
  {
    const int n = std::max(1, static_cast<int>(std::ceil(std::hypot(x1 - x0, y1 - y0) / step)));
    std::vector<P> out;
    for (int k = 0; k <= n; ++k) out.emplace_back(x0 + (x1 - x0) * k / n, y0 + (y1 - y0) * k / n);
    return out;
  }
  static std::vector<P> arc(double cx, double cy, double r, double a0, double a1, int n = 8)
  {
    std::vector<P> out;
    for (int k = 0; k <= n; ++k) { const double a = a0 + (a1 - a0) * k / n; out.emplace_back(cx + r * std::cos(a), cy + r * std::sin(a)); }
    return out;
  }
  lanelet::Lanelet lane(lanelet::Id id, const lanelet::LineString3d & left, const lanelet::LineString3d & right, const std::string & subtype = "road")
  {
    lanelet::Lanelet l(id, left, right);
    l.setAttribute("subtype", subtype);
    l.setAttribute("type", "lanelet");
    map->laneletLayer.add(id, l);
    return l;
  }
};
// Two eastbound lanes (ids 1.. at y=1.75 and 11.. at y=5.25), a westbound lane (21.. at y=-1.75), `n` lanelets of `length` each;
// a right turn 31 after lanelet 3 that leads to the southbound lanelets 32, 33; a crosswalk 101 over lanelets 3/13/21+n-3;
// a traffic light group 500 (lights 501, 502; stop line 503) for lanelets 3 and 13, and a group 510 (light 511, stop line 513) for lanelet 5.
inline lanelet::LaneletMapPtr straight_world(int n = 6, double length = 50)
{
  Builder b;
  const double lane_width = 3.5;
  std::vector<lanelet::Lanelet> a;
  for (int k = 0; k < n; ++k) {
    const double x0 = k * length, x1 = x0 + length;
    auto l0 = b.line(10'000 + k * 10, Builder::straight(x0, 0, x1, 0));
    auto l1 = b.line(10'001 + k * 10, Builder::straight(x0, lane_width, x1, lane_width));
    auto l2 = b.line(10'002 + k * 10, Builder::straight(x0, 2 * lane_width, x1, 2 * lane_width));
    a.push_back(b.lane(1 + k, l1, l0));
    b.lane(11 + k, l2, l1);
    const double w0 = (n - k) * length, w1 = w0 - length;
    auto r0 = b.line(10'003 + k * 10, Builder::straight(w0, 0, w1, 0));
    auto r1 = b.line(10'004 + k * 10, Builder::straight(w0, -lane_width, w1, -lane_width));
    b.lane(21 + k, r0, r1);
  }
  // the turn: from (3*length, 1.75) to the south
  const double x = 3 * length, r = 6, c = -r;
  auto tl = b.line(11'000, Builder::arc(x, c, r + lane_width, M_PI / 2, 0));
  auto tr = b.line(11'001, Builder::arc(x, c, r, M_PI / 2, 0));
  auto turn = b.lane(31, tl, tr);
  turn.setAttribute("turn_direction", "right");
  a[3].setAttribute("turn_direction", "straight");
  for (int k = 0; k < 2; ++k) {
    auto sl = b.line(11'010 + k * 10, Builder::straight(x + r + lane_width, c - k * length, x + r + lane_width, c - (k + 1) * length));
    auto sr = b.line(11'011 + k * 10, Builder::straight(x + r, c - k * length, x + r, c - (k + 1) * length));
    b.lane(32 + k, sl, sr);
  }
  const double cx = 3 * length - 20;
  auto cl = b.line(11'100, Builder::straight(cx, -lane_width - 2, cx, 2 * lane_width + 2));
  auto cr = b.line(11'101, Builder::straight(cx + 4, -lane_width - 2, cx + 4, 2 * lane_width + 2));
  b.lane(101, cl, cr, "crosswalk");
  auto light = [&](lanelet::Id group, const std::vector<lanelet::Id> & ways, lanelet::Id stop, double sx, const std::vector<lanelet::Id> & lanes) {
    auto e = std::make_shared<lanelet::autoware::AutowareTrafficLight>();
    e->i = group;
    e->a["type"] = lanelet::Attribute("regulatory_element");
    e->a["subtype"] = lanelet::Attribute("traffic_light");
    auto s = b.line(stop, {{sx, 0}, {sx, 2 * lane_width}});
    s.setAttribute("type", "stop_line");
    e->stop_line = s;
    for (auto w : ways) {
      auto t = b.line(w, {{sx + 15, 8. + w % 10}, {sx + 15, 9. + w % 10}});
      t.setAttribute("type", "traffic_light");
      t.setAttribute("height", "0.5");
      e->refers.push_back(t);
      std::vector<lanelet::Point3d> pts;
      double z = 5;
      for (auto color : {"red", "yellow", "green"}) { lanelet::Point3d p(b.next_point++, sx + 15, 8.5 + w % 10, z += 0.3); p.setAttribute("color", color); pts.push_back(p); }
      lanelet::LineString3d bulbs(b.next_point++, pts);
      bulbs.setAttribute("traffic_light_id", std::to_string(w));
      e->bulbs.push_back(bulbs);
    }
    b.map->regulatoryElementLayer.add(group, e);
    for (auto l : lanes) b.map->laneletLayer.get(l).d->elements.push_back(e);
  };
  light(500, {501, 502}, 503, cx - 3, {3, 13});
  if (n >= 5) light(510, {511}, 513, 5 * length - 5, {5});
  return b.map;
}
}  // namespace simlanelet
