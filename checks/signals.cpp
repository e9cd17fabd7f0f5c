// C11: traffic signal controllers.  (openscenario_interpreter with traffic_simulator)
#include "osc.hpp"
#include "lights.hpp"
#include <autoware_perception_msgs/msg/traffic_light_group_array.hpp>
#include <traffic_simulator_msgs/msg/traffic_light_array_v1.hpp>

using namespace osc;
using namespace lights;

namespace
{
struct Signal { int id; bool v2i, detected; std::string text; std::set<std::string> bulbs; };
struct Phase { std::string name; double duration = std::numeric_limits<double>::infinity(); std::vector<Signal> signals; };
struct Controller
{
  std::string name;
  int reference = -1;
  double delay = 0, since = 0;
  std::vector<Phase> phases;
  int current = -1, changes = 0;
  std::optional<double> begin_at;
};
struct Prediction { double stamp; Bulbs bulbs; };

const std::map<int, std::vector<int>> groups = {{500, {501, 502}}, {510, {511}}};
std::vector<int> ways(int id) { auto it = groups.find(id); return it == groups.end() ? std::vector<int>{id} : it->second; }
int group(int way) { return way == 511 ? 510 : 500; }

struct Model
{
  std::vector<Controller> controllers;
  Channel conventional, v2i, conventional_detected, v2i_detected;
  std::set<int> enabled;
  std::map<int, std::vector<Prediction>> predictions;
  double time = 0, clock = 0;
  u64 changes = 0, fingerprint = 0;

  void clear(int id, bool v, bool detected)
  {
    for (int x : ways(id)) {
      if (detected) (v ? v2i_detected : conventional_detected).erase(x);
      else {
        (v ? v2i : conventional)[x].bulbs.clear();
        if (!v && enabled.count(x)) v2i[x].bulbs.clear();
      }
    }
  }
  void add(int id, bool v, bool detected, const std::set<std::string> & b)
  {
    auto to = [&](Light & l) { l.bulbs.insert(b.begin(), b.end()); };
    for (int x : ways(id)) {
      if (detected) to((v ? v2i_detected : conventional_detected)[x]);
      else {
        to((v ? v2i : conventional)[x]);
        if (!v && enabled.count(x)) to(v2i[x]);
      }
    }
  }
  bool all_enabled(int id) const { for (int x : ways(id)) if (!enabled.count(x)) return false; return true; }
  std::map<int, std::multiset<std::string>> predicted(const Phase & p) const
  {
    std::map<int, std::multiset<std::string>> r;
    std::set<int> own;
    for (auto & s : p.signals) if (s.v2i && !s.detected) { r[s.id].insert(s.bulbs.begin(), s.bulbs.end()); own.insert(s.id); }
    for (auto & s : p.signals) if (!s.v2i && !s.detected && !own.count(s.id) && all_enabled(s.id)) r[s.id].insert(s.bulbs.begin(), s.bulbs.end());
    return r;
  }
  void change(Controller & c, int next)
  {
    ++changes;
    ++c.changes;
    fingerprint = fingerprint * 1000003 + hash_str(c.name) * 31 + next + static_cast<u64>(time * 1000);
    if (next == 0) for (auto & o : controllers) if (o.reference >= 0 && &controllers[o.reference] == &c) o.begin_at = time + o.delay;
    if (c.current >= 0) for (auto & s : c.phases[c.current].signals) clear(s.id, s.v2i, s.detected);
    c.current = next;
    c.since = time;
    for (auto & p : c.phases) for (auto & s : p.signals) for (int x : ways(s.id)) predictions.erase(x);
    double ahead = c.phases[next].duration;
    for (int i = 1, k = next; i <= 6; ++i) {
      k = (k + 1) % static_cast<int>(c.phases.size());
      if (std::isinf(ahead) || std::isinf(c.phases[k].duration)) break;
      for (auto & [id, b] : predicted(c.phases[k])) for (int x : ways(id)) { Bulbs shown; for (auto & y : b) shown.insert(y + " 1"); predictions[x].push_back({clock + ahead, shown}); }
      ahead += c.phases[k].duration;
    }
    for (auto & s : c.phases[next].signals) clear(s.id, s.v2i, s.detected);
    for (auto & s : c.phases[next].signals) add(s.id, s.v2i, s.detected, s.bulbs);
  }
  void evaluate(Controller & c)
  {
    if (c.reference < 0 ? c.current < 0 : c.begin_at && *c.begin_at < time) {
      if (c.reference >= 0) c.begin_at.reset();
      change(c, 0);
    } else if (c.current >= 0 && c.phases[c.current].duration <= time - c.since) change(c, (c.current + 1) % static_cast<int>(c.phases.size()));
  }
};
struct Event { double at; enum { CONTROLLER, STATE, V2I_STATE, ENABLE, DISABLE } kind; int controller = 0, phase = 0, id = 0; std::string text; std::set<std::string> bulbs; bool done = false; };
struct Watch { bool after; int controller = -1, phase = 0, id = 0; std::string text; std::set<std::string> bulbs; };

struct Maker
{
  Model & m;
  double step, horizon;
  double off_frame(double lo, double hi)             // a multiple of 1/64 s that is no multiple of a frame
  {
    for (int i = 0; i < 200; ++i) {
      const double x = std::round((lo + (hi - lo) * static_cast<double>(w(1000)) / 1000) * 64) / 64, f = x / step - std::floor(x / step);
      if (x > 0 && f > 0.15 && f < 0.85) return x;
    }
    return 0;
  }
  Signal signal(int id, bool v2i, bool detected)
  {
    Signal s{id, v2i, detected, "", {}};
    for (u64 n = 1 + w(2); n--;) {
      const auto & k = bulb_kinds()[w(bulb_kinds().size())];
      s.text += (s.text.empty() ? "" : ", ") + std::string(k.text);
      s.bulbs.insert(bulb_text(k.color, k.status, k.shape));
    }
    return s;
  }
  bool make(Controller & c, const std::vector<std::tuple<int, bool, bool>> & lights)
  {
    const auto n = 1 + w(4);
    double left = 0;
    const auto * reference = c.reference < 0 ? nullptr : &m.controllers[c.reference];
    if (reference) for (auto & p : reference->phases) left += p.duration;
    for (u64 i = 0; i < n; ++i) {
      Phase p;
      p.name = "phase" + std::to_string(i);
      p.duration = off_frame(step, horizon / 3);
      if (reference && std::isinf(left)) p.duration = i + 1 == n ? left : p.duration;
      else if (reference && i + 1 == n) p.duration = left;
      else if (!reference && wchance(1, 8)) p.duration = std::numeric_limits<double>::infinity();
      if (!std::isinf(p.duration)) left -= p.duration;
      const double f = p.duration / step - std::floor(p.duration / step);
      if (!std::isinf(p.duration) && (p.duration <= 0.05 || f < 0.15 || f > 0.85)) return false;
      for (auto & [id, v2i, detected] : lights) if (v2i || !detected || wchance(3, 4)) for (u64 k = 1 + (wchance(1, 6) ? 1 : 0); k--;) p.signals.push_back(signal(id, v2i, detected));
      c.phases.push_back(p);
    }
    return true;
  }
  std::string write(const Controller & c) const
  {
    std::string s = "<TrafficSignalController name=\"" + c.name + "\"" + (c.reference < 0 ? "" : " delay=\"" + num(c.delay) + "\" reference=\"" + m.controllers[c.reference].name + "\"") + ">";
    for (auto & p : c.phases) {
      s += "<Phase name=\"" + p.name + "\"" + (std::isinf(p.duration) ? "" : " duration=\"" + num(p.duration) + "\"") + ">";
      for (auto & x : p.signals) s += "<TrafficSignalState trafficSignalId=\"" + std::to_string(x.id) + (x.v2i ? x.detected ? " v2i_detected" : " v2i" : x.detected ? " conventional_detected" : "") + "\" state=\"" + x.text + "\"/>";
      s += "</Phase>";
    }
    return s + "</TrafficSignalController>";
  }
};
std::string time_condition(double at) { return "<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition value=\"" + num(at) + "\" rule=\"greaterThan\"/></ByValueCondition></Condition>"; }
std::string list_of(const std::set<std::string> & b) { return list(Bulbs(b.begin(), b.end())); }

// a scenario that must be refused
void refuse(Rig & r, const std::string & signals, const std::string & why)
{
  Text t;
  t.signals = signals;
  t.stories = "<Story name=\"s\"><Act name=\"a\"><ManeuverGroup name=\"g\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\"><Event name=\"e\" priority=\"parallel\"><Action name=\"x\">" + command("exitSuccess") + "</Action><StartTrigger><ConditionGroup>" + time_condition(1) + "</ConditionGroup></StartTrigger></Event></Maneuver></ManeuverGroup></Act></Story>";
  write(r, t());
  r.node->configure();
  if (r.state() == Primary::PRIMARY_STATE_INACTIVE) r.node->activate();
  check(!r.active(), "accepted", "a scenario is accepted " + why);
  const auto v = verdict(r.output);
  check(v.errors.size() == 1 && v.failures.empty(), "refusal-verdict", "a scenario " + why + " leaves " + text(v));
  probe("refused");
}
}  // namespace

void signals_scenario()
{
  set_limits(6'000'000, 4000 * sec);
  enable_fault("simulator_slow", wchance(1, 3));
  enable_fault("simulator_refuses", wchance(1, 3));
  enable_fault("frame_late", wchance(1, 3));
  const double rate = std::vector<double>{10, 20, 30, 5}[w(4)], factor = std::vector<double>{1, 1, 2, 0.5}[w(4)];
  auto & r = *boot(rate, factor);
  r.simulator->may_refuse = {"update_frame"};
  const int frames = 20 + static_cast<int>(w(80));
  Model m;
  Maker maker{m, factor / rate, frames / rate * factor};
  for (int x : {501, 502, 511}) if (wchance(1, 3)) m.enabled.insert(x);
  // controllers: the first has group 500, the second group 510, the third what was detected
  const auto n = 1 + w(3);
  m.controllers.reserve(3);
  for (u64 i = 0; i < n; ++i) {
    Controller c;
    c.name = "controller" + std::to_string(i);
    if (i > 0 && wchance(1, 2)) { c.reference = static_cast<int>(w(i)); c.delay = wchance(1, 4) ? 0 : maker.off_frame(0, maker.horizon / 3); }
    std::vector<std::tuple<int, bool, bool>> lights;
    if (i == 2) for (int x : {500, 501, 510, 511}) for (bool v : {false, true}) { if (wchance(1, 3)) lights.push_back({x, v, true}); }
    else {
      const bool whole = wchance(1, 2);
      for (int x : i == 0 ? whole ? std::vector<int>{500} : std::vector<int>{501, 502} : std::vector<int>{whole ? 510 : 511}) {
        if (wchance(3, 4)) lights.push_back({x, false, false});
        if (wchance(1, 2)) lights.push_back({x, true, false});
      }
    }
    bool made = false;
    for (int k = 0; k < 30 && !made; ++k) { c.phases.clear(); made = maker.make(c, lights); }
    if (made) m.controllers.push_back(c); else break;
  }
  if (m.controllers.empty()) return;
  Text t;
  for (auto & c : m.controllers) t.signals += maker.write(c);
  if (wchance(1, 12)) {
    auto c = m.controllers[0];
    c.name = "other";
    const auto k = w(4);
    bool infinite = false;
    for (auto & p : c.phases) infinite = infinite || std::isinf(p.duration);
    if (k == 0 && !infinite) {
      c.reference = 0;
      c.phases[0].duration += 0.25;
      return refuse(r, t.signals + maker.write(c), "although the cycle times of a controller and its reference differ by 0.25 s");
    }
    auto s = maker.write(c);
    auto insert = [&](const std::string & x) { return s.insert(s.find(" name="), x); };
    if (k == 1) return refuse(r, t.signals + insert(" delay=\"1\" reference=\"nowhere\""), "although a controller refers to one that does not exist");
    if (k == 2) return refuse(r, t.signals + insert(" delay=\"1\""), "although a controller has a delay but no reference");
    return refuse(r, t.signals + insert(" delay=\"-1\" reference=\"controller0\""), "although the delay of a controller is negative");
  }
  // actions
  std::vector<Event> events;
  const std::vector<int> ids = {500, 501, 502, 510, 511};
  for (int i = static_cast<int>(w(7)); i--;) {
    Event e{maker.off_frame(0, maker.horizon), std::vector{Event::CONTROLLER, Event::CONTROLLER, Event::STATE, Event::V2I_STATE, Event::ENABLE, Event::DISABLE}[w(6)]};
    e.controller = static_cast<int>(w(m.controllers.size()));
    e.phase = static_cast<int>(w(m.controllers[e.controller].phases.size()));
    e.id = ids[w(ids.size())];
    const auto & k = bulb_kinds()[w(e.kind == Event::V2I_STATE ? 3 : bulb_kinds().size())];   // the argument of a command is one word
    e.text = k.text;
    e.bulbs = {bulb_text(k.color, k.status, k.shape)};
    events.push_back(e);
  }
  auto initially = std::string("EnableTrafficSignalV2IFeatureAction@v1(");
  for (int x : m.enabled) initially += (initially.back() == '(' ? "" : ", ") + std::to_string(x);
  if (!m.enabled.empty()) t.init += command(initially + ")");
  std::vector<Watch> watches[2];
  for (int after : {0, 1}) for (int i = static_cast<int>(w(4)); i--;) {
    Watch x{after == 1};
    if (wchance(1, 2)) { x.controller = static_cast<int>(w(m.controllers.size())); x.phase = static_cast<int>(w(m.controllers[x.controller].phases.size())); }
    else {
      x.id = ids[w(ids.size())];
      if (wchance(1, 4)) x.text = "none";
      else if (wchance(1, 2)) { const auto & k = bulb_kinds()[w(bulb_kinds().size())]; x.text = k.text; x.bulbs = {bulb_text(k.color, k.status, k.shape)}; }
      else for (auto & c : m.controllers) for (auto & p : c.phases) for (auto & s : p.signals) if (s.bulbs.size() == 1 && s.text.find(',') == std::string::npos && (x.text.empty() || wchance(1, 3))) { x.text = s.text; x.bulbs = s.bulbs; }   // a condition is about one bulb
      if (x.text.empty()) x.text = "none";
    }
    watches[after].push_back(x);
  }
  auto act = [](const std::string & name, const std::string & trigger, const std::string & inside) {
    return "<Act name=\"" + name + "\"><ManeuverGroup name=\"group of " + name + "\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"maneuver of " + name + "\">" + inside + "</Maneuver></ManeuverGroup>" +
      (trigger.empty() ? "" : "<StartTrigger><ConditionGroup>" + trigger + "</ConditionGroup></StartTrigger>") + "</Act>";
  };
  auto event = [](const std::string & name, double at, const std::string & action) {
    return "<Event name=\"" + name + "\" priority=\"parallel\" maximumExecutionCount=\"1\"><Action name=\"action of " + name + "\">" + action + "</Action><StartTrigger><ConditionGroup>" + time_condition(at) + "</ConditionGroup></StartTrigger></Event>";
  };
  auto watching = [&](int after) {
    std::string s = "<Story name=\"watch" + std::to_string(after) + "\">";
    int i = 0;
    for (auto & x : watches[after])
      s += act("watch" + std::to_string(after) + "_" + std::to_string(i++), "<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition>" + (x.controller < 0 ? "<TrafficSignalCondition name=\"" + std::to_string(x.id) + "\" state=\"" + x.text + "\"/>" : "<TrafficSignalControllerCondition trafficSignalControllerRef=\"" + m.controllers[x.controller].name + "\" phase=\"" + m.controllers[x.controller].phases[x.phase].name + "\"/>") + "</ByValueCondition></Condition>" + time_condition(1e9),
        event("event of watch" + std::to_string(after) + "_" + std::to_string(i), 1e9, command("exitSuccess")));
    if (watches[after].empty()) s += act("nothing" + std::to_string(after), time_condition(1e9), event("nothing of " + std::to_string(after), 1e9, command("exitSuccess")));
    return s + "</Story>";
  };
  t.stories = watching(0) + "<Story name=\"actions\">";
  std::string inside = event("last", 1e9, command("exitSuccess"));
  for (std::size_t i = 0; i < events.size(); ++i) {
    auto & e = events[i];
    const auto id = std::to_string(e.id);
    inside += event("event" + std::to_string(i), e.at,
      e.kind == Event::CONTROLLER ? "<GlobalAction><InfrastructureAction><TrafficSignalAction><TrafficSignalControllerAction trafficSignalControllerRef=\"" + m.controllers[e.controller].name + "\" phase=\"" + m.controllers[e.controller].phases[e.phase].name + "\"/></TrafficSignalAction></InfrastructureAction></GlobalAction>" :
      e.kind == Event::STATE ? "<GlobalAction><InfrastructureAction><TrafficSignalAction><TrafficSignalStateAction name=\"" + id + "\" state=\"" + e.text + "\"/></TrafficSignalAction></InfrastructureAction></GlobalAction>" :
      e.kind == Event::V2I_STATE ? command("V2ITrafficSignalStateAction(" + id + ", " + e.text + ")") :
      command((e.kind == Event::ENABLE ? "EnableTrafficSignalV2IFeatureAction@v1(" : "DisableTrafficSignalV2IFeatureAction@v1(") + id + ")"));
  }
  t.stories += act("acting", "", inside) + "</Story>" + watching(1);
  write(r, t());

  // what the simulator and Autoware get
  auto compare = [&](const std::map<int, Bulbs> & got, const std::map<int, Bulbs> & want, const std::string & where, const std::string & cls) {
    for (auto & [x, b] : want) check(got.count(x) && got.at(x) == b, cls, "traffic light " + std::to_string(x) + " is " + (got.count(x) ? list(got.at(x)) : "dark") + " in " + where + " instead of " + list(b));
    for (auto & [x, b] : got) check(want.count(x), cls, "traffic light " + std::to_string(x) + " is " + list(b) + " in " + where + " instead of dark");
  };
  std::vector<std::map<int, Bulbs>> requested;
  int messages = 0, predicted = 0;
  bool blurred = false;                              // whether predictions include what V2I detects is left open
  for (auto & c : m.controllers) for (auto & p : c.phases) for (auto & x : p.signals) blurred = blurred || (x.v2i && x.detected);
  double clock = 0;
  r.simulator->observe = [&](const std::string & kind, const auto & x, bool) {
    if (kind == "update_entity_status") clock = r.node->get_clock()->now().seconds();
    if (kind != "update_traffic_lights") return;
    std::map<int, Bulbs> got;
    for (auto & s : x.update_traffic_lights().states()) {
      Bulbs b;
      for (auto & y : s.traffic_light_status()) b.insert(request_bulb(y));
      if (!b.empty()) check(got.emplace(static_cast<int>(s.id()), b).second, "light-request", "traffic light " + std::to_string(s.id()) + " is listed twice in the request");
    }
    requested.push_back(got);
  };
  simros::observe<traffic_simulator_msgs::msg::TrafficLightArrayV1>("/simulation/traffic_lights", [&](const auto & x) {
    std::map<int, Bulbs> got;
    for (auto & l : x.traffic_lights) {
      Bulbs b;
      for (auto & y : l.traffic_light_bulbs) b.insert(message_bulb(y));
      if (!b.empty()) got.emplace(l.lanelet_way_id, b);
    }
    compare(got, output(m.conventional, {}), "/simulation/traffic_lights", "ground-truth");
    ++messages;
  });
  simros::observe<autoware_perception_msgs::msg::TrafficLightGroupArray>("/v2x/traffic_signals", [&](const auto & x) {
    struct Shown { int group; Bulbs bulbs; std::vector<std::pair<double, Bulbs>> predictions; };
    auto text = [](const Shown & g) {
      std::ostringstream o;
      o.precision(14);
      o << g.group << list(g.bulbs);
      for (auto & [at, b] : g.predictions) o << " then " << list(b) << " at " << at;
      return o.str();
    };
    auto by_time = [](auto & a, auto & b) { return a.first < b.first; };
    auto same = [](const Shown & a, const Shown & b) {
      if (a.group != b.group || a.bulbs != b.bulbs || a.predictions.size() != b.predictions.size()) return false;
      for (std::size_t i = 0; i < a.predictions.size(); ++i) if (std::abs(a.predictions[i].first - b.predictions[i].first) > 0.002 || a.predictions[i].second != b.predictions[i].second) return false;
      return true;
    };
    std::vector<Shown> got, want;
    for (auto & g : x.traffic_light_groups) {
      Shown s{static_cast<int>(g.traffic_light_group_id), {}, {}};
      for (auto & y : g.elements) s.bulbs.insert(message_bulb(y));
      if (!blurred) for (auto & y : g.predictions) {
        Bulbs pb;
        for (auto & z : y.simultaneous_elements) pb.insert(message_bulb(z));
        s.predictions.push_back({y.predicted_stamp.sec + y.predicted_stamp.nanosec * 1e-9, pb});
      }
      std::sort(s.predictions.begin(), s.predictions.end(), by_time);
      got.push_back(s);
    }
    for (auto & [way, b] : output(m.v2i, m.v2i_detected)) {
      Shown s{group(way), b, {}};
      if (!blurred) for (auto & y : m.predictions[way]) { s.predictions.push_back({y.stamp, y.bulbs}); ++predicted; }
      std::sort(s.predictions.begin(), s.predictions.end(), by_time);
      auto it = std::find_if(got.begin(), got.end(), [&](auto & g) { return same(g, s); });
      std::string all;
      for (auto & g : got) all += text(g) + "; ";
      check(it != got.end(), "v2i", "the V2I message lacks " + text(s) + "; it has " + all);
      got.erase(it);
    }
    check(got.empty(), "v2i", "the V2I message has " + (got.empty() ? "" : text(got[0])) + " too much");
    ++messages;
  });
  bool have_time = false;
  double time = 0;
  int evaluated = 0;
  r.on_frame = [&](const Frame & f) {
    if (have_time) {
      m.time = time;
      m.clock = clock;
      for (auto & c : m.controllers) m.evaluate(c);
      logf("frame at ", time);
      ++evaluated;
      auto & stories = f.json.at("OpenSCENARIO").at("Storyboard").at("Story").as_array();
      auto watched = [&](int after) {
        for (std::size_t i = 0; i < watches[after].size(); ++i) {
          auto & x = watches[after][i];
          bool holds = true;
          std::string what;
          if (x.controller >= 0) {
            auto & c = m.controllers[x.controller];
            holds = c.current == x.phase;
            what = c.name + " is in " + (c.current < 0 ? "no phase" : c.phases[c.current].name);
          } else {
            for (int y : ways(x.id)) { for (auto & b : x.bulbs) holds = holds && m.conventional[y].bulbs.count(b); if (x.bulbs.empty()) holds = holds && m.conventional[y].bulbs.empty(); }
            what = "light " + std::to_string(x.id) + " is asked to be " + (x.bulbs.empty() ? "none" : list_of(x.bulbs));
          }
          auto & c = stories[after * 2].at("Act").as_array()[i].at("StartTrigger").at("ConditionGroup").as_array()[0].at("Condition").as_array()[0];
          check((c.at("currentValue").as_string() == "true") == holds, x.controller >= 0 ? "controller-condition" : "signal-condition", "a condition is " + std::string(holds ? "false" : "true") + " although " + what + ": " + std::string(c.at("currentEvaluation").as_string()));
        }
      };
      watched(0);
      for (auto & e : events) if (!e.done && m.time > e.at) {
        e.done = true;
        probe(e.kind == Event::CONTROLLER ? "a phase was set" : "a light was set");
        switch (e.kind) {
          case Event::CONTROLLER: m.change(m.controllers[e.controller], e.phase); break;
          case Event::STATE: m.clear(e.id, false, false); m.add(e.id, false, false, e.bulbs); break;
          case Event::V2I_STATE: m.clear(e.id, true, false); m.add(e.id, true, false, e.bulbs); break;
          case Event::ENABLE: for (int x : ways(e.id)) m.enabled.insert(x); break;
          case Event::DISABLE: for (int x : ways(e.id)) m.enabled.erase(x); break;
        }
      }
      watched(1);
    }
    for (auto & q : requested) compare(q, output(m.conventional, m.conventional_detected), "the request to the simulator", "light-request");
    requested.clear();
    state(m.fingerprint);
    if (!std::isnan(f.time)) { have_time = true; time = f.time; }
  };
  r.node->configure();
  check(r.state() == Primary::PRIMARY_STATE_INACTIVE, "scenario-refused", "a valid scenario is refused: " + text(verdict(r.output)));
  r.node->activate();
  check(r.active(), "scenario-refused", "a valid scenario cannot be started: " + text(verdict(r.output)));
  for (int i = 0; i < frames + 8 && r.active(); ++i) {
    if (fault("frame_late", 1, 10)) sim::sleep_ns(static_cast<i64>(choose(F, 300)) * ms);
    serve(r, static_cast<i64>(1e9 / rate), [&] { return !r.active(); });
  }
  check(r.active(), "ended-by-itself", "the scenario ended although nothing ends it: " + text(verdict(r.output)));
  check(evaluated > 0, "not-evaluated", "no frame was evaluated");
  count("phase changes", m.changes);
  count("frames evaluated", evaluated);
  if (predicted) probe("predictions");
  for (auto & c : m.controllers) if (c.reference >= 0 && c.changes) probe("a controller followed another");
  if (m.changes > 2) { nontrivial(m.fingerprint); sample(std::to_string(m.controllers.size()) + " controllers, " + std::to_string(m.changes) + " phase changes, " + std::to_string(events.size()) + " actions, " + std::to_string(messages) + " messages, " + std::to_string(evaluated) + " frames"); }
}
