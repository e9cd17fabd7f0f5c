// C24: conditions on values from ROS topics.  (openscenario_interpreter with traffic_simulator)
#include "osc.hpp"
#include <tier4_simulation_msgs/msg/user_defined_value.hpp>

using namespace osc;
void topics_scenario();

namespace
{
using Message = tier4_simulation_msgs::msg::UserDefinedValue;
using Type = tier4_simulation_msgs::msg::UserDefinedValueType;
const std::vector<std::string> rules{"equalTo", "notEqualTo", "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual"};
template <typename X>
bool compared(const X & a, const std::string & rule, const X & b)
{
  if (rule == "equalTo") return a == b;
  if (rule == "notEqualTo") return a != b;
  if (rule == "lessThan") return a < b;
  if (rule == "lessOrEqual") return a <= b;
  if (rule == "greaterThan") return a > b;
  return a >= b;
}
enum Verdict3 { NO, YES, ERROR };
struct Said { i64 at; int type; std::string value; bool readable = true; };
struct Topic { std::string name; int type; std::vector<Said> said; };
struct Watch { std::size_t topic; std::string rule, value; u64 yes = 0, no = 0; std::size_t seen = 0; };
std::string drawn(int type)
{
  static const std::vector<std::string> words{"alpha", "beta", "gamma", "alphabet", "b"}, times{"2011-03-10T11:23:56.000+0100", "2011-03-10T11:23:57.000+0100", "2020-01-01T00:00:00.000+0900"};
  switch (type) {
    case Type::BOOLEAN: return w(2) ? "true" : "false";
    case Type::DATE_TIME: return times[w(times.size())];
    case Type::DOUBLE: return num((static_cast<double>(w(9)) - 4) / 4);
    case Type::INTEGER: return std::to_string(static_cast<int>(w(7)) - 3);
    case Type::STRING: return words[w(words.size())];
    default: return std::to_string(w(5) * (type == Type::UNSIGNED_INT ? 70000 : 1));
  }
}
Verdict3 holds(const Said & s, const Watch & c)
{
  if (s.value.empty() || s.type > 6) return NO;
  if (!s.readable) return ERROR;
  switch (s.type) {
    case Type::BOOLEAN: return compared(s.value == "true", c.rule, c.value == "true") ? YES : NO;
    case Type::DATE_TIME: case Type::STRING: return compared(s.value, c.rule, c.value) ? YES : NO;
    default: return compared(std::stod(s.value), c.rule, std::stod(c.value)) ? YES : NO;
  }
}
std::string condition(const std::string & name, const std::string & rule, const std::string & value)
{
  return "<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><UserDefinedValueCondition name=\"" + name + "\" value=\"" + value + "\" rule=\"" + rule + "\"/></ByValueCondition></Condition>";
}
std::string time_after(double t) { return "<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition value=\"" + num(t) + "\" rule=\"greaterThan\"/></ByValueCondition></Condition>"; }
std::string one_story(const std::string & conditions)
{
  return "<Story name=\"s\"><Act name=\"a\"><ManeuverGroup name=\"g\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"m\"><Event name=\"e\" priority=\"parallel\" maximumExecutionCount=\"1\"><Action name=\"x\"><UserDefinedAction><CustomCommandAction type=\":\"></CustomCommandAction></UserDefinedAction></Action><StartTrigger><ConditionGroup>" +
    conditions + time_after(1e9) + "</ConditionGroup></StartTrigger></Event></Maneuver></ManeuverGroup><StartTrigger><ConditionGroup>" + time_after(-1) + "</ConditionGroup></StartTrigger></Act></Story>";
}
}  // namespace

void topics_scenario()
{
  enable_fault("simulator_slow", wchance(1, 3));
  enable_fault("frame_late", wchance(1, 3));
  const bool stalls = wchance(1, 4);
  enable_fault("thread_stall", stalls);
  const bool slow = wchance(1, 3);
  enable_fault("callback_late", slow);
  const double rate = std::vector<double>{10, 20, 30}[w(3)], factor = std::vector<double>{1, 2, 0.5}[w(3)];
  auto & r = *boot(rate, factor);
  const i64 delay = static_cast<i64>(std::vector<double>{0, 2, 30, 200}[w(4)] * ms);
  // how late a value may come to the condition: the network, and the thread that receives it
  const i64 late = delay + (stalls ? static_cast<i64>(11e9) : 20 * ms) + (slow ? 3000 * ms : 0);
  std::vector<Topic> topics;
  static const std::vector<std::string> names{"/value", "/name/space/value", "/with-dash/under_score", "/a/b/c/d1"};
  for (u64 i = 0, n = 1 + w(3); i < n; ++i) topics.push_back({names[(i + w(2)) % 4 == i ? i : i], static_cast<int>(w(7)), {}});
  const bool flaws = wchance(1, 5);
  u64 fingerprint = 0, flips = 0, compares = 0, ended_with_error = 0;
  {
    NoInstrument guard;
    simros::network().min_delay = 0;
    simros::network().max_delay = delay;
  }
  const int scenarios = 1 + static_cast<int>(w(2));
  for (int round = 0; round < scenarios; ++round) {
    for (auto & t : topics) t.said.clear();
    if (round) for (auto & t : topics) if (wchance(1, 2)) t.type = static_cast<int>(w(7));
    // who looks at what
    std::vector<Watch> watches;
    Text t;
    std::string all;
    const double heading = (static_cast<double>(w(601)) - 300) / 100;
    const double s = 1 + static_cast<double>(w(48));
    t.entities = vehicle("a");
    t.init = "<Private entityRef=\"a\">" + teleport("<Position><WorldPosition x=\"0\" y=\"1000\" z=\"0\" h=\"" + num(heading) + "\" p=\"0\" r=\"0\"/></Position>") + "</Private>";
    for (u64 i = 0, n = 2 + w(6); i < n; ++i) {
      Watch c;
      c.topic = w(topics.size());
      const int type = topics[c.topic].type;
      c.rule = rules[type == Type::BOOLEAN ? w(2) : w(rules.size())];
      c.value = drawn(type);
      all += condition(topics[c.topic].name, c.rule, c.value);
      watches.push_back(c);
    }
    const double limit = static_cast<double>(w(640)) / 200 - 0.001;
    const bool turned = wchance(1, 2);
    const std::string rule = rules[2 + w(4)];
    if (turned) all += condition("RelativeHeadingCondition(a, " + std::to_string(1 + w(3)) + ", " + num(s) + ")", rule, num(limit));
    t.stories = one_story(all);
    write(r, t());
    // who says what and when
    auto * talking = new bool(true);
    auto speak = [&topics, talking](std::size_t i, Said x) {
      if (!*talking) return;
      NoInstrument guard;
      x.at = now();
      Message m;
      m.type.data = static_cast<std::uint8_t>(x.type);
      m.value = x.value;
      topics[i].said.push_back(x);
      logf("value on ", topics[i].name, ": type ", x.type, " \"", x.value, "\"");
      simros::inject(topics[i].name, m, false);
    };
    i64 horizon = static_cast<i64>((4 + static_cast<double>(w(60)) / 10) * 1e9);
    for (std::size_t i = 0; i < topics.size(); ++i) {
      i64 at = now() + static_cast<i64>(w(4000)) * ms;
      const u64 pace = std::vector<u64>{30, 200, 1000}[w(3)];
      for (u64 n = w(4000 / pace); n-- && at < now() + horizon + 3000 * ms;) {
        Said x{0, topics[i].type, drawn(topics[i].type), true};
        if (wchance(1, 20)) x.value.clear();
        else if (wchance(1, 30)) x.type = 7 + static_cast<int>(w(9));
        else if (flaws && wchance(1, 20) && x.type != Type::STRING && x.type != Type::DATE_TIME) { x.readable = false; x.value = "four"; }
        sim::at(at, [speak, i, x] { speak(i, x); });
        at += static_cast<i64>(1 + w(2 * pace)) * ms;
      }
    }
    u64 frame = 0;
    double last_time = -1;
    i64 evaluated_after = now();                           // the context before was published then
    i64 configured = now();
    bool started = false;
    std::map<std::size_t, bool> before;
    // the values a condition may have seen: [first, last] of what was said since it listens; none: nothing yet
    auto range = [&](const Watch & c) {
      auto & said = topics[c.topic].said;
      std::ptrdiff_t first = -1, last = -1;
      for (std::size_t i = 0; i < said.size(); ++i) {
        if (said[i].at >= configured && said[i].at + late <= evaluated_after) first = static_cast<std::ptrdiff_t>(i);
        last = static_cast<std::ptrdiff_t>(i);
      }
      return std::make_pair(first, last);
    };
    r.on_frame = [&](const Frame & f) {
      if (!started) { if (!std::isnan(f.time)) started = true; evaluated_after = now(); return; }
      ++frame;
      // the context after an error tells what held before it
      if (std::exchange(last_time, f.time) == f.time) return;
      auto & e = f.json.at("OpenSCENARIO").at("Storyboard").at("Story").at(0).at("Act").at(0).at("ManeuverGroup").at(0).at("Maneuver").at(0).at("Event").at(0);
      auto & shown = e.at("StartTrigger").at("ConditionGroup").at(0).at("Condition").as_array();
      if (frame > 2) for (std::size_t i = 0; i < watches.size(); ++i) {
        auto & c = watches[i];
        const bool theirs = shown.at(i).at("currentValue").as_string() == "true";
        auto [first, last] = range(c);
        bool possible[3] = {first < 0, false, false};
        auto & said = topics[c.topic].said;
        std::ptrdiff_t witness = -1;
        for (auto k = std::max<std::ptrdiff_t>(first, static_cast<std::ptrdiff_t>(c.seen)); k <= last; ++k)
          if (k >= 0) { const auto h = holds(said[static_cast<std::size_t>(k)], c); possible[h] = true; if (witness < 0 && h == (theirs ? YES : NO)) witness = k; }
        const std::string text = "the condition " + topics[c.topic].name + " " + c.rule + " " + c.value;
        ++compares;
        // what was seen once is not followed by what was said earlier
        if (witness > 0 && !(first < 0 && !theirs)) c.seen = static_cast<std::size_t>(witness);
        std::string values;
        if (first < 0) values += " nothing";
        for (auto k = std::max<std::ptrdiff_t>(first, static_cast<std::ptrdiff_t>(c.seen)); k <= last; ++k) if (k >= 0) values += " " + quote(said[static_cast<std::size_t>(k)].value) + " (type " + std::to_string(said[static_cast<std::size_t>(k)].type) + ")";
        check(possible[theirs ? YES : NO], possible[ERROR] && !possible[YES] && !possible[NO] ? "unreadable-accepted" : "topic-condition", text + " is " + (theirs ? "true" : "false") + " although what it may have been told is" + values);
        if (before.count(i) && before[i] != theirs) { ++flips; fingerprint = fingerprint * 1000003 + i * 97 + frame; }
        before[i] = theirs;
        probe((std::string("type ") + std::to_string(topics[c.topic].type) + (theirs ? " holds" : " does not hold")).c_str());
      }
      if (turned && frame > 2) {
        const bool theirs = shown.at(watches.size()).at("currentValue").as_string() == "true";
        check(theirs == compared(std::abs(heading), rule, limit), "relative-heading", "the relative heading " + str(std::abs(heading)) + " is " + (theirs ? "" : "not ") + rule + " " + str(limit));
      }
      evaluated_after = now();
    };
    r.node->configure();
    check(r.state() == Primary::PRIMARY_STATE_INACTIVE, "scenario-refused", "a valid scenario is refused: " + osc::text(verdict(r.output)));
    configured = now() + 10 * ms;
    r.node->activate();
    check(r.active() || flaws, "scenario-refused", "a valid scenario cannot be started: " + osc::text(verdict(r.output)));
    const i64 end = now() + horizon;
    while (now() < end && r.active()) {
      if (fault("frame_late", 1, 10)) sim::sleep_ns(static_cast<i64>(choose(F, 300)) * ms);
      serve(r, static_cast<i64>(1e9 / rate), [&] { return !r.active(); });
    }
    if (!r.active()) {
      bool excuse = false;
      for (auto & c : watches) {
        auto [first, last] = range(c);
        for (auto k = std::max<std::ptrdiff_t>(first, 0); k <= last; ++k) excuse = excuse || holds(topics[c.topic].said[static_cast<std::size_t>(k)], c) == ERROR;
      }
      const auto v = verdict(r.output);
      check(excuse, "ended-by-itself", "the scenario ended although nothing ends it: " + osc::text(v));
      check(v.there && v.errors.size() == ended_with_error + 1, "unreadable-no-error", "an unreadable value ends the scenario with: " + osc::text(v));
      probe("an unreadable value ends the scenario");
      ++ended_with_error;
    } else {
      if (wchance(1, 2)) for (auto & c : watches) c.seen = 0;
      r.on_frame = {};
      r.node->deactivate();
    }
    r.on_frame = {};
    if (round + 1 < scenarios) {
      r.node->cleanup();
      check(r.state() == Primary::PRIMARY_STATE_UNCONFIGURED, "not-reusable", "after a scenario the interpreter cannot be cleaned up");
      std::filesystem::remove(r.output + "/result.junit.xml");
      if (wchance(1, 2)) *talking = false;
      sim::sleep_ns(late);
    }
    *talking = false;
  }
  count("comparisons", compares);
  count("ended by an unreadable value", ended_with_error);
  if (flips > 2) nontrivial(fingerprint);
  sample(std::to_string(topics.size()) + " topics, " + std::to_string(scenarios) + " scenarios, " + std::to_string(compares) + " comparisons, " + std::to_string(flips) + " changes");
}
