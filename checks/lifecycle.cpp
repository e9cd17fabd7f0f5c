// C12: the life of the interpreter node: one verdict per scenario, nothing left running.  (openscenario_interpreter with traffic_simulator)
#include "osc.hpp"
#include <sim/os/os.hpp>
#include <signal.h>

using namespace osc;

namespace
{
const std::string ROS2 = "/opt/ros/humble/bin/ros2";

enum Kind { MISSING, MALFORMED, BAD_VALUE, MISSING_ATTRIBUTE, DISTRIBUTION, UNDECLARED, EMPTY,         // cannot be configured
            INIT_REFUSED, SPAWN_REFUSED, INIT_FAILS, INIT_PASSES, RECORDER_FAILS,                  // ends while being activated
            SUCCEEDS, FAILS, BREAKS, LOST_REFERENCE, FRAME_BREAKS, GOES_ON };                      // runs
const char * const names[] = {"missing file", "malformed file", "invalid value", "missing attribute", "parameter value distribution", "undeclared entity", "empty file",
  "initialize refused", "spawn refused", "failure in Init", "success in Init", "recorder cannot be started", "success", "failure", "error", "error in evaluation", "late success", "no end"};

struct Case { int pass = 0; std::vector<std::string> failures, errors; };

struct Rest
{
  Rig & r;
  simos::Os & os;
  std::map<std::pair<std::string, std::string>, Case> cases;
  std::string work;
  u64 contexts = 0, requests = 0, values = 0;
  std::set<std::string> refused;                     // whose despawning the simulator refused

  void expect_nothing_runs(const std::string & when)
  {
    for (auto & [name, e] : r.simulator->entities) check(refused.count(name) > 0, "entity-left", "entity " + name + " is left in the simulator " + when);
    for (auto & [pid, p] : os.table) {
      if (p.state == simos::Process::REAPED) continue;
      if (p.ours) violation("recorder-left", "the process that records is " + std::string(p.state == simos::Process::ZOMBIE ? "not waited for " : "still running ") + when);
    }
  }
  void compare(const std::string & when)
  {
    pugi::xml_document d;
    const auto file = r.output + "/result.junit.xml";
    if (!std::filesystem::exists(file)) { check(cases.empty(), "verdict-missing", "there is no result file " + when); return; }
    check(bool(d.load_file(file.c_str())), "verdict-unreadable", "result.junit.xml is no XML " + when);
    std::map<std::pair<std::string, std::string>, Case> found;
    for (auto & s : d.child("testsuites").children("testsuite")) for (auto & c : s.children("testcase")) {
      auto key = std::pair{std::string(s.attribute("name").value()), std::string(c.attribute("name").value())};
      check(!found.count(key), "verdict-twice", "test case " + key.second + " of " + key.first + " is listed twice " + when);
      auto & x = found[key];
      for (auto & f : c.children("failure")) x.failures.push_back(f.attribute("type").value());
      for (auto & f : c.children("error")) x.errors.push_back(f.attribute("type").value());
    }
    auto list = [](const Case & c) {
      std::string s;
      for (auto & f : c.failures) s += " failure:" + f;
      for (auto & f : c.errors) s += " error:" + f;
      return s.empty() ? " passed" : s;
    };
    for (auto & [key, c] : cases) {
      auto it = found.find(key);
      check(it != found.end(), "verdict-missing", "there is no verdict for " + key.first + "/" + key.second + " " + when + ", expected" + list(c));
      const auto & x = it->second;
      bool same = x.failures.size() == c.failures.size() && x.errors.size() == c.errors.size();
      for (std::size_t i = 0; same && i < c.failures.size(); ++i) same = c.failures[i] == x.failures[i];
      for (std::size_t i = 0; same && i < c.errors.size(); ++i) same = c.errors[i] == "*" ? !x.errors[i].empty() : c.errors[i] == x.errors[i];
      check(same, "verdict", "the verdict for " + key.first + "/" + key.second + " " + when + " is" + list(x) + " instead of" + list(c));
    }
    check(found.size() == cases.size(), "verdict-of-nothing", "the result file has " + std::to_string(found.size()) + " test cases for " + std::to_string(cases.size()) + " scenarios " + when);
  }
};

std::string after_time(double t)
{
  return "<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><SimulationTimeCondition value=\"" + num(t) + "\" rule=\"greaterThan\"/></ByValueCondition></Condition>";
}
std::string events(const std::string & condition, const std::string & action)
{
  return "<Story name=\"story\"><Act name=\"act\"><ManeuverGroup name=\"group\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"/><Maneuver name=\"maneuver\">"
    "<Event name=\"event\" priority=\"parallel\" maximumExecutionCount=\"1\"><Action name=\"action\">" + action + "</Action><StartTrigger><ConditionGroup>" + condition +
    "</ConditionGroup></StartTrigger></Event></Maneuver></ManeuverGroup><StartTrigger><ConditionGroup>" + after_time(-1) + "</ConditionGroup></StartTrigger></Act></Story>";
}
}  // namespace

void lifecycle_scenario()
{
  set_limits(12'000'000, 6000 * sec);
  auto & os = *new simos::Os;
  for (auto k : {"simulator_slow", "simulator_refuses", "frame_late", "eintr", "short_read"}) enable_fault(k, wchance(1, 3));
  enable_fault("fork_fails", false);
  enable_fault("popen_fails", false);
  std::vector<std::string> listing;
  os.on_popen = [&](const std::string & c, std::string & text) { text = c == "which ros2" ? ROS2 + "\n" : ""; return 0; };
  os.on_signal = [&](simos::Process & p, int sig) { if (sig == SIGINT) os.exit_later(p.pid, static_cast<i64>(choose(F, 20000)) * ms, 0); else os.die(p.pid, sig); };

  const double rate = std::vector<double>{10, 20, 30, 5}[w(4)], factor = std::vector<double>{1, 1, 2, 0.5}[w(4)];
  auto & r = *boot(rate, factor);
  Rest rest{r, os};
  r.simulator->observe = [&](const std::string & kind, const auto & request, bool accepted) {
    ++rest.requests;
    const auto s = r.state();
    check(s != Primary::PRIMARY_STATE_UNCONFIGURED && s != Primary::PRIMARY_STATE_INACTIVE && s != Primary::PRIMARY_STATE_FINALIZED, "request-while-inactive", "the simulator gets a request (" + kind + ") while no scenario is active");
    if (kind == "despawn_entity" && !accepted) rest.refused.insert(request.despawn_entity().name());
    if (kind == "initialize" && accepted) { r.simulator->entities.clear(); rest.refused.clear(); }
  };
  bool empty_contexts = false, running = false;
  double last_time = 0;
  bool frame_open = false;
  r.on_frame = [&](const Frame & f) {
    ++rest.contexts;
    check(running, "context-while-inactive", "a context is published while no scenario is active");
    check(f.json.is_null() == empty_contexts, "context-content", empty_contexts ? "the context has content although it shall be empty" : "the context is empty");
    if (!f.json.is_null()) check(f.json.is_object() && f.json.as_object().count("OpenSCENARIO"), "context-content", "the context does not describe the scenario");
    if (!std::isnan(f.time)) check(f.time >= last_time, "context-time", "the time of the scenario goes back");
    if (!std::isnan(f.time)) last_time = f.time;
    frame_open = true;
  };
  std::map<std::string, u64> values;
  for (auto k : {"evaluate", "update", "output"}) simros::observe<tier4_simulation_msgs::msg::UserDefinedValue>(std::string("/simulation/interpreter/execution_time/") + k, [&, k](const auto & m) {
    ++values[k];
    char * e = nullptr;
    const double v = std::strtod(m.value.c_str(), &e);
    check(m.type.data == tier4_simulation_msgs::msg::UserDefinedValueType::DOUBLE && e && !*e && !m.value.empty() && v >= 0, "execution-time", std::string("the execution time of ") + k + " is published as " + m.value);
  });

  const u64 n = 1 + w(4);
  u64 shape = 17;
  bool finalized = false;
  std::vector<std::pair<std::string, std::string>> used;
  for (u64 i = 0; i < n && !finalized; ++i) {
    auto kind = static_cast<Kind>(w(18));
    if (wchance(1, 2)) kind = std::vector{SUCCEEDS, FAILS, BREAKS, GOES_ON}[w(4)];
    // where the scenario is
    auto key = std::pair{"suite" + std::to_string(w(2)), "case_" + std::to_string(i) + std::vector<std::string>{"", ".part", " two"}[w(3)]};
    if (!used.empty() && wchance(1, 4)) key = used[w(used.size())];
    used.push_back(key);
    r.path = scratch() + "/work/" + key.first + "/" + key.second + ".xosc";
    std::filesystem::create_directories(scratch() + "/work/" + key.first);
    std::filesystem::remove(r.path);
    const bool record = wchance(1, 3) || kind == RECORDER_FAILS;
    const auto storage = wchance(1, 2) ? std::string() : "mcap", option = wchance(1, 2) ? std::string() : wchance(1, 2) ? "-x /some/topic" : "--max-cache-size 0  --include-hidden-topics";
    empty_contexts = wchance(1, 4);
    for (auto & p : {rclcpp::Parameter("osc_path", r.path), rclcpp::Parameter("record", record), rclcpp::Parameter("record_storage_id", storage), rclcpp::Parameter("record_option", option), rclcpp::Parameter("publish_empty_context", empty_contexts)}) r.node->set_parameter(p);
    // the scenario
    Text t;
    const u64 cars = kind == SPAWN_REFUSED ? 1 + w(3) : w(4);
    for (u64 k = 0; k < cars; ++k) {
      const auto name = "car" + std::to_string(k);
      t.entities += vehicle(name);
      t.init += "<Private entityRef=\"" + name + "\">" + teleport(lane_position(1 + static_cast<int>(k), 10)) + "</Private>";
    }
    const double at = (0.371 + static_cast<double>(w(25))) * factor / rate;
    auto broken = [](const std::string & what) { return "<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByEntityCondition><TriggeringEntities triggeringEntitiesRule=\"any\"><EntityRef entityRef=\"" + what + "\"/></TriggeringEntities><EntityCondition><SpeedCondition value=\"1\" rule=\"greaterThan\"/></EntityCondition></ByEntityCondition></Condition>"; };
    if (kind == SUCCEEDS || kind == FRAME_BREAKS) t.stories = events(after_time(at), command("exitSuccess"));
    else if (kind == FAILS) t.stories = events(after_time(at), command("exitFailure"));
    else if (kind == BREAKS) t.stories = events(after_time(at), command("debugError"));
    else if (kind == LOST_REFERENCE) t.stories = events("<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition><ParameterCondition parameterRef=\"nothing\" rule=\"equalTo\" value=\"1\"/></ByValueCondition></Condition>", command("exitSuccess"));
    else if (kind == UNDECLARED) t.stories = events(broken("nobody"), command("exitSuccess"));
    else t.stories = events(after_time(1e6), command("exitSuccess"));
    if (kind == INIT_FAILS) t.init = "<UserDefinedAction><CustomCommandAction type=\"debugError\"/></UserDefinedAction>" + t.init;
    if (kind == INIT_PASSES) t.init += "<UserDefinedAction><CustomCommandAction type=\"exitSuccess\"/></UserDefinedAction>";
    auto text = t();
    auto replace = [&](const std::string & a, const std::string & b) { auto at = text.find(a); if (at == std::string::npos) harness_error("replace"); text.replace(at, a.size(), b); };
    if (kind == MALFORMED) text.resize(text.size() / 4 + w(text.size() / 2));
    if (kind == BAD_VALUE) replace("conditionEdge=\"none\"", "conditionEdge=\"sideways\"");
    if (kind == MISSING_ATTRIBUTE) replace(" priority=\"parallel\"", "");
    if (kind == EMPTY) text.clear();
    if (kind == DISTRIBUTION) text = "<?xml version=\"1.0\"?>\n<OpenSCENARIO><FileHeader revMajor=\"1\" revMinor=\"3\" date=\"2024-01-01T00:00:00\" description=\"\" author=\"\"/>"
      "<ParameterValueDistribution><ScenarioFile filepath=\"" + r.path + "\"/><Deterministic><DeterministicSingleParameterDistribution parameterName=\"x\"><DistributionSet><Element value=\"1\"/></DistributionSet></DeterministicSingleParameterDistribution></Deterministic></ParameterValueDistribution></OpenSCENARIO>\n";
    if (kind != MISSING) write(r, text);
    logf("scenario ", i, ": ", names[kind], " at ", key.first, "/", key.second, record ? ", recorded" : "");
    shape = shape * 31 + kind * 2 + record;
    const std::string when = "after scenario " + std::to_string(i) + " (" + names[kind] + ")";

    // ---- configure
    const u64 requests = rest.requests, contexts = rest.contexts;
    r.node->configure();
    auto & verdict = rest.cases[key];
    if (kind <= EMPTY) {
      verdict.errors.push_back("*");
      check(r.state() == Primary::PRIMARY_STATE_UNCONFIGURED, "configured-without-scenario", "the node is configured with a scenario that cannot be read (" + std::string(names[kind]) + ")");
      rest.compare(when);
      check(requests == rest.requests && contexts == rest.contexts, "request-while-inactive", "something is sent without a scenario");
      rest.expect_nothing_runs(when);
      probe(names[kind]);
      continue;
    }
    if (r.state() != Primary::PRIMARY_STATE_INACTIVE) violation("scenario-refused", "a valid scenario is refused: " + osc::text(osc::verdict(r.output)));
    if (verdict.failures.empty() && verdict.errors.empty() && !verdict.pass) rest.cases.erase(key);
    rest.compare("when scenario " + std::to_string(i) + " is configured");
    if (wchance(1, 12)) {                                   // given up before it is started
      serve(r, static_cast<i64>(w(2000)) * ms);
      check(requests == rest.requests && contexts == rest.contexts, "request-while-inactive", "something is sent before the scenario is activated");
      r.node->cleanup();
      check(r.state() == Primary::PRIMARY_STATE_UNCONFIGURED, "not-cleaned-up", "the node cannot be cleaned up");
      if (record) probe("given up before the start");
      continue;
    }
    serve(r, static_cast<i64>(w(2000)) * ms);

    // ---- activate
    r.simulator->may_refuse.clear();
    r.simulator->refusals = 0;
    r.simulator->refuse_num = r.simulator->refuse_den = 1;
    os.exec_fails = {};
    if (kind == INIT_REFUSED) { enable_fault("simulator_refuses", true); r.simulator->may_refuse = {"initialize"}; }
    if (kind == SPAWN_REFUSED) { enable_fault("simulator_refuses", true); r.simulator->may_refuse = {"spawn_vehicle_entity"}; }
    const bool no_fork = kind == RECORDER_FAILS;
    enable_fault("fork_fails", no_fork);
    os.fork_fails_den = 1;
    const auto started = os.table.size();
    running = true;
    last_time = 0;
    values.clear();
    frame_open = false;
    const u64 first_context = rest.contexts;
    r.node->activate();
    if (no_fork) enable_fault("fork_fails", false);
    const bool at_once = kind <= RECORDER_FAILS;
    auto & v = rest.cases[key];
    auto stopped = [&](i64 began) {
      if (!record || no_fork) return;
      check(os.table.size() == started + 1, "recorder-count", std::to_string(os.table.size() - started) + " processes have been started to record");
      auto & p = os.table.rbegin()->second;
      std::vector<std::string> want{"python3", ROS2, "bag", "record", "-a", "-o", r.path.substr(0, r.path.rfind('.'))};
      if (!storage.empty()) { want.push_back("-s"); want.push_back(storage); }
      std::istringstream s(option);
      for (std::string o; s >> o;) want.push_back(o);
      check(p.argv == want, "recorder-arguments", "the recorder is started with other arguments");
      check(p.signals == std::vector<int>{SIGINT}, "recorder-left", "the recorder has got " + std::to_string(p.signals.size()) + " signals instead of one SIGINT " + when);
      check(p.state == simos::Process::REAPED, "recorder-left", "the recorder is not waited for " + when);
      probe("recorded");
      (void)began;
    };
    auto idle = [&] {
      running = false;
      rest.compare(when);
      rest.expect_nothing_runs(when);
      stopped(0);
      const u64 q = rest.requests, c = rest.contexts;
      const auto seen = os.table.size();
      r.simulator->may_refuse.clear();
      serve(r, static_cast<i64>(w(3000)) * ms);
      if (wchance(2, 3)) {                                  // what scenario_test_runner does until it is refused
        r.node->activate();
        check(r.state() == Primary::PRIMARY_STATE_INACTIVE, "activated-twice", "a scenario that has ended can be activated again");
        serve(r, static_cast<i64>(w(500)) * ms);
      }
      check(q == rest.requests && c == rest.contexts && seen == os.table.size(), "request-while-inactive", "something is sent or started after the end of the scenario");
      rest.compare(when + ", later");
      r.node->cleanup();
      check(r.state() == Primary::PRIMARY_STATE_UNCONFIGURED, "not-cleaned-up", "the node cannot be cleaned up " + when);
      serve(r, static_cast<i64>(w(1000)) * ms);
      rest.compare(when + ", cleaned up");
    };
    if (at_once) {
      if (kind == INIT_PASSES) ++v.pass;
      else v.errors.push_back(kind == INIT_FAILS ? "InternalError" : "*");
      check(r.state() == Primary::PRIMARY_STATE_INACTIVE, "not-ended", "a scenario whose activation fails (" + std::string(names[kind]) + ") leaves the node in state " + std::to_string(r.state()));
      idle();
      probe(names[kind]);
      continue;
    }
    if (!r.active()) violation("scenario-refused", "a valid scenario cannot be started: " + osc::text(osc::verdict(r.output)));
    r.simulator->refuse_den = 12;
    if (wchance(1, 2)) r.simulator->may_refuse = {"update_frame"};
    if (wchance(1, 3)) r.simulator->may_refuse.insert("despawn_entity");

    // ---- run
    const i64 limit = now() + static_cast<i64>((kind == GOES_ON ? static_cast<double>(w(60)) : 80) / rate * 1e9) + (kind == GOES_ON ? 0 : 10 * sec);
    while (r.active() && now() < limit) {
      if (fault("frame_late", 1, 20)) sim::sleep_ns(static_cast<i64>(choose(F, 400)) * ms);
      serve(r, std::min<i64>(static_cast<i64>(1e9 / rate), limit - now()), [&] { return !r.active(); });
      if (r.active() && r.count) {
        for (auto & [k, c] : values) check(c == values.begin()->second, "execution-time", "the execution time of " + k + " is published " + std::to_string(c) + " times, that of " + values.begin()->first + " " + std::to_string(values.begin()->second) + " times");
        if (!values.empty()) check(values.begin()->second == rest.contexts - first_context, "execution-time", "execution times are published " + std::to_string(values.begin()->second) + " times in " + std::to_string(rest.contexts - first_context) + " frames");
      }
    }
    check(kind == GOES_ON ? r.active() : !r.active(), kind == GOES_ON ? "ended-by-itself" : "not-ended", kind == GOES_ON ? "a scenario ended although nothing ends it: " + osc::text(osc::verdict(r.output)) : "a scenario (" + std::string(names[kind]) + ") does not end");
    if (kind == GOES_ON) {
      if (wchance(1, 3)) {
        if (v.failures.empty() && v.errors.empty() && !v.pass) rest.cases.erase(key);
        r.node->shutdown();
        running = false;
        check(r.state() == Primary::PRIMARY_STATE_FINALIZED, "not-finalized", "the node is in state " + std::to_string(r.state()) + " after shutdown");
        rest.expect_nothing_runs("after the node was shut down");
        stopped(0);
        const u64 q = rest.requests, c = rest.contexts;
        serve(r, 3 * sec);
        check(q == rest.requests && c == rest.contexts, "request-while-inactive", "something is sent after the node was shut down");
        rest.compare("after the node was shut down");
        finalized = true;
        probe("shut down");
        continue;
      }
      r.node->deactivate();
      check(r.state() == Primary::PRIMARY_STATE_INACTIVE, "not-deactivated", "the node cannot be deactivated");
      v.failures.push_back("Timeout");
    }
    if (kind == SUCCEEDS || kind == FRAME_BREAKS) ++v.pass;
    if (kind == FAILS) v.failures.push_back("SimulationFailure");
    if (kind == BREAKS) v.errors.push_back("InternalError");
    if (kind == LOST_REFERENCE) v.errors.push_back("*");
    check(rest.contexts > first_context || kind == GOES_ON || kind == LOST_REFERENCE, "context-missing", "no context was published for a scenario that ran");
    count("scenarios run");
    idle();
    probe(names[kind]);
  }
  if (!finalized && wchance(1, 2)) {
    r.node->shutdown();
    check(r.state() == Primary::PRIMARY_STATE_FINALIZED, "not-finalized", "the node is in state " + std::to_string(r.state()) + " after shutdown");
  }
  rest.expect_nothing_runs("at the end");
  rest.compare("at the end");
  nontrivial(shape);
  state(shape);
  sample(std::to_string(n) + " scenarios, " + std::to_string(rest.requests) + " requests, " + std::to_string(rest.contexts) + " contexts, " + std::to_string(os.table.size()) + " processes");
}
