// C23: a scenario with Autoware in the loop: set up in order, started by driving, ended with a verdict about what happened.
#include "osc.hpp"
#include <autoware_adapi_v1_msgs/msg/localization_initialization_state.hpp>
#include <autoware_adapi_v1_msgs/msg/mrm_state.hpp>
#include <concealer/field_operator_application.hpp>
#include <sim/os/os.hpp>
#include <signal.h>

using namespace osc;

namespace
{
enum State { initializing, waiting_for_route, planning, waiting_for_engage, driving, arrived_goal };
const char * const state_names[] = {"INITIALIZING", "WAITING_FOR_ROUTE", "PLANNING", "WAITING_FOR_ENGAGE", "DRIVING", "ARRIVED_GOAL"};

enum Trouble { NONE, NOT_LOCALIZED, NOT_PLANNED, NOT_ENGAGED, REJECTS, EMERGENCY, BAD_MRM, DIES, RUNNER };
const char * const troubles[] = {"nothing", "never localized", "never plans", "never engages", "a service that always refuses", "emergency", "unknown MRM state", "death of the process", "timeout of the runner"};

// what was true when, to be compared with what somebody far away believes
struct History
{
  std::vector<std::pair<i64, std::string>> values;
  explicit History(const std::string & first) : values{{-1, first}} {}
  void set(const std::string & v) { if (values.back().second != v) values.emplace_back(now(), v); }
  bool was(const std::string & v, i64 a, i64 b) const
  {
    for (std::size_t i = 0; i < values.size(); ++i)
      if (values[i].second == v && values[i].first <= b && (i + 1 == values.size() || values[i + 1].first >= a)) return true;
    return false;
  }
  i64 since() const { return values.back().first; }
  const std::string & value() const { return values.back().second; }
};

struct Request { std::string signature; i64 answered = -1; int attempts = 0, refused = 0; std::string other; };

struct Autoware
{
  int loc = 1, mode = 1, route = 1;
  bool available = false, enabled = false, running = true;
  i64 arrived_at = 0, latency = 0;
  Trouble trouble = NONE;
  std::string rejecting;                        // the service that always refuses
  bool over = false;                            // the scenario has ended: nobody may ask for anything any more
  std::vector<Request> expected;                // in order
  std::size_t current = 0;
  History state_{"INITIALIZING"}, mrm{""}, behaviour{""}, blinker{"-"};
  u64 total = 0;
  bool refused_any = false;

  State state() const
  {
    if (loc != 3) return initializing;
    if (route == 3) return now() - arrived_at < 2 * sec ? arrived_goal : waiting_for_route;
    if (route == 1) return waiting_for_route;
    if (mode != 1 && enabled) return driving;
    return available ? waiting_for_engage : planning;
  }
  builtin_interfaces::msg::Time stamp(i64 t) const { return rclcpp::Time(t + wall_offset()); }
  void note()
  {
    if (state_.value() != state_names[state()]) { logf("Autoware is ", state_names[state()]); state_.set(state_names[state()]); }
  }
  void publish()
  {
    autoware_adapi_v1_msgs::msg::LocalizationInitializationState l; l.stamp = stamp(now()); l.state = loc;
    autoware_adapi_v1_msgs::msg::RouteState r; r.stamp = stamp(route == 3 ? arrived_at : now()); r.state = route;
    autoware_adapi_v1_msgs::msg::OperationModeState o; o.stamp = stamp(now()); o.mode = mode; o.is_autoware_control_enabled = enabled; o.is_autonomous_mode_available = available;
    simros::inject("/api/localization/initialization_state", l, true);
    simros::inject("/api/routing/state", r, true);
    simros::inject("/api/operation_mode/state", o, true);
    note();
  }
};
Autoware * A;
i64 transition() { return static_cast<i64>(choose(sim::S, 8)) * 300 * ms; }

// 0: accepted, 1: refused, 2: no answer
int attempt(const std::string & service, const std::string & signature)
{
  ++A->total;
  logf("Autoware receives ", signature);
  check(!A->over, "request-after-end", "Autoware receives " + signature + " after the end of the scenario");
  std::size_t i = A->current;
  while (true) {
    check(i < A->expected.size(), "autoware-request", "Autoware receives " + signature + ", which the scenario does not ask for");
    auto & q = A->expected[i];
    if (q.signature == signature || q.other == signature) break;                // how often it may be repeated is another property
    check(q.answered >= 0, "autoware-order", "Autoware receives " + signature + " while " + q.signature + " has not been accepted");
    ++i;
  }
  A->current = i;
  auto & q = A->expected[i];
  ++q.attempts;
  int r = 0;
  if (A->trouble == REJECTS && service == A->rejecting) r = 1;
  else if (A->trouble == REJECTS) r = 0;
  else if (fault("refuses", 1, 5)) r = 1;
  else if (fault("no_answer", 1, 8)) r = 2;
  if (r == 1) { ++q.refused; A->refused_any = true; }
  return r;
}
template <typename Send>
void answer(int r, Send send, const std::function<void()> & apply)
{
  if (r == 2) return;
  if (r == 0) { apply(); A->expected[A->current].answered = now(); }
  after(static_cast<i64>(choose(sim::S, 4)) * 50 * ms, [send, r] { send(r == 0); });
}
autoware_adapi_v1_msgs::msg::ResponseStatus adapi(bool ok) { autoware_adapi_v1_msgs::msg::ResponseStatus s; s.success = ok; s.code = ok ? 0 : 50001; return s; }
tier4_external_api_msgs::msg::ResponseStatus external(bool ok) { tier4_external_api_msgs::msg::ResponseStatus s; s.code = ok ? 1 : 2; return s; }
std::string place(const geometry_msgs::msg::Pose & p) { return pose_text(p); }

void offer()
{
  using namespace autoware_adapi_v1_msgs::srv;
  simros::peer_service<ChangeOperationMode>("/api/operation_mode/change_to_stop", [](auto &, auto reply) {
    answer(attempt("stop", "change_to_stop"), [reply](bool ok) { ChangeOperationMode::Response r; r.status = adapi(ok); reply(r); }, [] { A->mode = 1; A->publish(); });
  });
  simros::peer_service<ChangeOperationMode>("/api/operation_mode/enable_autoware_control", [](auto &, auto reply) {
    answer(attempt("enable", "enable_autoware_control"), [reply](bool ok) { ChangeOperationMode::Response r; r.status = adapi(ok); reply(r); }, [] { A->enabled = true; A->publish(); });
  });
  simros::peer_service<ClearRoute>("/api/routing/clear_route", [](auto &, auto reply) {
    answer(attempt("clear", "clear_route"), [reply](bool ok) { ClearRoute::Response r; r.status = adapi(ok); reply(r); }, [] { A->route = 1; A->mode = 1; A->available = false; A->publish(); });
  });
  simros::peer_service<InitializeLocalization>("/api/localization/initialize", [](auto & q, auto reply) {
    check(q.pose.size() == 1 && q.pose[0].header.frame_id == "map", "initial-pose", "the initial pose is not given in the map frame");
    answer(attempt("initialize", "initialize " + place(q.pose[0].pose.pose)), [reply](bool ok) { InitializeLocalization::Response r; r.status = adapi(ok); reply(r); }, [] {
      A->loc = 2; A->publish();
      if (A->trouble != NOT_LOCALIZED) after(transition(), [] { A->loc = 3; A->publish(); });
    });
  });
  auto route = [] {
    A->route = 2; A->available = false; A->publish();
    if (A->trouble != NOT_PLANNED) after(transition(), [] { A->available = true; A->publish(); });
  };
  simros::peer_service<SetRoutePoints>("/api/routing/set_route_points", [route](auto & q, auto reply) {
    std::string s = "route to " + place(q.goal) + (q.option.allow_goal_modification ? " or nearby" : "");
    for (auto & x : q.waypoints) s += " via " + place(x);
    check(q.header.frame_id == "map", "route-frame", "a route is given in frame " + q.header.frame_id);
    answer(attempt("route", s), [reply](bool ok) { SetRoutePoints::Response r; r.status = adapi(ok); reply(r); }, route);
  });
  simros::peer_service<SetRoute>("/api/routing/set_route", [route](auto & q, auto reply) {
    std::string s = "route to " + place(q.goal) + (q.option.allow_goal_modification ? " or nearby" : "");
    for (auto & x : q.segments) s += " over " + std::to_string(x.preferred.id);
    check(q.header.frame_id == "map", "route-frame", "a route is given in frame " + q.header.frame_id);
    answer(attempt("route", s), [reply](bool ok) { SetRoute::Response r; r.status = adapi(ok); reply(r); }, route);
  });
  using tier4_external_api_msgs::srv::Engage;
  simros::peer_service<Engage>("/api/external/set/engage", [](auto & q, auto reply) {
    check(q.engage, "engage-content", "a request to engage asks to disengage");
    answer(attempt("engage", "engage"), [reply](bool ok) { Engage::Response r; r.status = external(ok); reply(r); }, [] {
      if (A->trouble == NOT_ENGAGED) return;
      after(transition() / 3, [] { A->mode = 2; A->enabled = true; A->publish(); });
    });
  });
  using tier4_external_api_msgs::srv::SetVelocityLimit;
  simros::peer_service<SetVelocityLimit>("/api/autoware/set/velocity_limit", [](auto & q, auto reply) {
    answer(attempt("velocity", "velocity " + str(q.velocity)), [reply](bool ok) { SetVelocityLimit::Response r; r.status = external(ok); reply(r); }, [] {});
  });
  using tier4_rtc_msgs::srv::AutoModeWithModule;
  simros::peer_service<AutoModeWithModule>("/api/external/set/rtc_auto_mode", [](auto & q, auto reply) {
    answer(attempt("auto_mode", "auto_mode " + std::to_string(q.module.type) + " " + std::to_string(q.enable)), [reply](bool ok) { AutoModeWithModule::Response r; r.success = ok; reply(r); }, [] {});
  });
}

std::string condition(const std::string & what) { return "<Condition name=\"\" delay=\"0\" conditionEdge=\"none\"><ByValueCondition>" + what + "</ByValueCondition></Condition>"; }
std::string after_time(double t) { return condition("<SimulationTimeCondition value=\"" + num(t) + "\" rule=\"greaterThan\"/>"); }
std::string value_is(const std::string & name, const std::string & value) { return condition("<UserDefinedValueCondition name=\"" + name + "\" rule=\"equalTo\" value=\"" + value + "\"/>"); }
std::string event(const std::string & name, const std::string & conditions, const std::string & action)
{
  return "<Event name=\"" + name + "\" priority=\"parallel\" maximumExecutionCount=\"1\"><Action name=\"action\">" + action + "</Action><StartTrigger>" + conditions + "</StartTrigger></Event>";
}
std::string group(const std::string & conditions) { return "<ConditionGroup>" + conditions + "</ConditionGroup>"; }
std::string property(const std::string & name, const std::string & value) { return "<Property name=\"" + name + "\" value=\"" + value + "\"/>"; }
std::string acquire(const std::string & position) { return "<PrivateAction><RoutingAction><AcquirePositionAction>" + position + "</AcquirePositionAction></RoutingAction></PrivateAction>"; }
std::string assign(const std::vector<std::string> & positions)
{
  std::string s = "<PrivateAction><RoutingAction><AssignRouteAction><Route closed=\"false\" name=\"route\">";
  for (auto & p : positions) s += "<Waypoint routeStrategy=\"shortest\">" + p + "</Waypoint>";
  return s + "</Route></AssignRouteAction></RoutingAction></PrivateAction>";
}
const std::vector<std::string> watched{"currentState", "currentMinimumRiskManeuverState.state", "currentMinimumRiskManeuverState.behavior", "currentEmergencyState", "currentTurnIndicatorsState"};

geometry_msgs::msg::Pose on_lane(int lane, double s) { return world::pose(50.0 * (lane - 1) + s, 1.75); }
}  // namespace

void ego_scenario()
{
  set_limits(14'000'000, 9000 * sec);
  A = new Autoware;
  auto & a = *A;
  auto & os = *new simos::Os;
  for (auto k : {"simulator_slow", "frame_late", "eintr"}) enable_fault(k, wchance(1, 4));
  enable_fault("fork_fails", false);
  enable_fault("popen_fails", false);
  a.trouble = wchance(1, 2) ? NONE : static_cast<Trouble>(1 + w(8));
  const bool launched = a.trouble == DIES || wchance(1, 3);
  // an Autoware that takes part without flaws, or one that now and then does not answer as wished
  const bool flaws = a.trouble != REJECTS && wchance(1, 3);
  for (auto k : {"refuses", "no_answer"}) enable_fault(k, flaws && wchance(2, 3));
  enable_fault("request_lost", false);
  const bool replans = a.trouble == NONE && wchance(1, 3);
  a.latency = replans || wchance(1, 3) ? 0 : range(W, 1, 60) * ms;

  const double rate = std::vector<double>{10, 20, 30, 5}[w(4)], factor = std::vector<double>{1, 1, 2, 0.5}[w(4)];
  const double step = factor / rate;
  const int duration = 30 + 15 * static_cast<int>(w(4)), localization = 1 + static_cast<int>(w(5)), sigterm = 1 + static_cast<int>(w(6));
  auto & r = *boot(rate, factor, [&](Parameters & p) {
    simros::network().max_delay = a.latency;
    p["launch_autoware"] = rclcpp::ParameterValue(launched);
    p["architecture_type"] = rclcpp::ParameterValue(std::string(w(2) ? "awf/universe/20250130" : "awf/universe/20240605"));
    p["vehicle_id"] = rclcpp::ParameterValue(std::string("default"));
    p["sensor_model"] = rclcpp::ParameterValue(std::string("sensors"));
    p["vehicle_model"] = rclcpp::ParameterValue(std::string("wagon"));
    p["rviz_config"] = rclcpp::ParameterValue(std::string("rviz.config"));
    p["autoware_launch_package"] = rclcpp::ParameterValue(std::string("autoware_launch"));
    p["autoware_launch_file"] = rclcpp::ParameterValue(std::string("planning_simulator.launch.xml"));
    p["simulate_localization"] = rclcpp::ParameterValue(true);
    p["initialize_duration"] = rclcpp::ParameterValue(duration);
    p["initialize_localization"] = rclcpp::ParameterValue(localization);
    p["sigterm_timeout"] = rclcpp::ParameterValue(sigterm);
  });
  os.on_popen = [&](const std::string & c, std::string & text) { text = c == "which ros2" ? "/opt/ros/humble/bin/ros2\n" : ""; return 0; };
  os.on_signal = [&](simos::Process & p, int sig) { if (sig == SIGINT) { if (!fault("ignores_sigint", 1, 4)) os.exit_later(p.pid, static_cast<i64>(choose(F, 8000)) * ms, 0); } else os.die(p.pid, sig); };
  enable_fault("ignores_sigint", wchance(1, 3));
  r.node->set_parameter(rclcpp::Parameter("record", false));
  offer();
  a.publish();

  // ---- the scenario
  Text t;
  const int lane = 1 + static_cast<int>(w(3)), goal_lane = lane + 1 + static_cast<int>(w(2));
  const double s0 = 5 + static_cast<double>(w(30)), s1 = 5 + static_cast<double>(w(40));
  const bool modification = wchance(1, 3), ids = wchance(1, 3);
  std::string properties = property("isEgo", "true");
  if (modification || wchance(1, 3)) properties += property("allowGoalModification", modification ? "true" : "false");
  const double max_speed = 3 + static_cast<double>(w(20));
  properties += property("maxSpeed", num(max_speed));
  struct Sensors { double delay, resolution, fov; int channels; bool clairvoyant; double object_delay, deviation, lost, range, truth_delay; int seed; } sensors;
  sensors = {0.125 * static_cast<double>(w(4)), 0.5 + static_cast<double>(w(3)), 10.0 + static_cast<double>(w(40)), 1 + static_cast<int>(w(32)), static_cast<bool>(w(2)), 0.25 * static_cast<double>(w(5)), 0.125 * static_cast<double>(w(5)), 0.25 * static_cast<double>(w(4)), 50.0 + static_cast<double>(w(300)), 0.5 * static_cast<double>(w(4)), static_cast<int>(w(1000))};
  const bool configured = wchance(2, 3);
  if (configured) {
    properties += property("pointcloudPublishingDelay", num(sensors.delay)) + property("pointcloudHorizontalResolution", num(sensors.resolution)) + property("pointcloudVerticalFieldOfView", num(sensors.fov)) + property("pointcloudChannels", std::to_string(sensors.channels));
    properties += property("isClairvoyant", sensors.clairvoyant ? "true" : "false") + property("detectedObjectPublishingDelay", num(sensors.object_delay)) + property("detectedObjectPositionStandardDeviation", num(sensors.deviation));
    properties += property("detectedObjectMissingProbability", num(sensors.lost)) + property("detectionSensorRange", num(sensors.range)) + property("detectedObjectGroundTruthPublishingDelay", num(sensors.truth_delay)) + property("randomSeed", std::to_string(sensors.seed));
  } else sensors = {0, 1.0, 30.0, 16, false, 0, 0, 0, 300.0, 0, 0};
  static const std::vector<std::pair<std::string, int>> modules{{"CROSSWALK", 10}, {"TRAFFIC_LIGHT", 7}, {"INTERSECTION", 8}};
  std::vector<std::pair<std::string, int>> manual;
  for (auto & m : modules) if (wchance(1, 4)) manual.push_back(m);
  if (!manual.empty()) {
    std::string v;
    for (auto & m : manual) v += (v.empty() ? "" : wchance(1, 2) ? ", " : ",") + m.first;
    properties += property("featureIdentifiersRequiringExternalPermissionForAutonomousDecisions", v);
  }
  const u64 npcs = w(3);
  const bool ego_last = wchance(1, 2);
  auto npc = [&](u64 k) {
    t.entities += vehicle("npc" + std::to_string(k));
    t.init += "<Private entityRef=\"npc" + std::to_string(k) + "\">" + teleport(lane_position(12 + static_cast<int>(k), 10)) + "</Private>";
  };
  if (ego_last) for (u64 k = 0; k < npcs; ++k) npc(k);
  t.entities += vehicle("ego", "", properties);
  if (ids) t.parameters += "<ParameterDeclaration name=\"RoutingAction__use_lane_ids_for_routing\" parameterType=\"boolean\" value=\"true\"/>";
  auto expect = [&](const std::string & s) { a.expected.push_back({s}); };
  auto expect_route = [&](int from, const std::vector<std::pair<int, double>> & stops) {
    std::string s = "route to " + place(on_lane(stops.back().first, stops.back().second)) + (modification ? " or nearby" : "");
    if (ids) for (int l = from; l <= stops.back().first; ++l) s += " over " + std::to_string(l);
    else for (std::size_t i = 0; i + 1 < stops.size(); ++i) s += " via " + place(on_lane(stops[i].first, stops[i].second));
    expect("clear_route");
    if (a.expected.end() == std::find_if(a.expected.begin(), a.expected.end(), [](auto & q) { return q.signature.rfind("initialize", 0) == 0; })) expect("initialize " + place(on_lane(lane, s0)));
    expect(s);
  };
  std::vector<std::pair<int, double>> stops;
  if (wchance(1, 3)) for (int l = lane; l < goal_lane; ++l) if (w(2)) stops.push_back({l, s0 + 8});
  stops.push_back({goal_lane, s1});
  std::string routing;
  if (stops.size() > 1 || wchance(1, 4)) {
    std::vector<std::string> v;
    if (stops.size() < 2) stops.insert(stops.begin(), {lane, s0 + 5});
    for (auto & x : stops) v.push_back(lane_position(x.first, x.second));
    routing = assign(v);
  } else routing = acquire(lane_position(goal_lane, s1));
  expect("change_to_stop");
  expect("velocity " + str(max_speed));
  for (auto & m : manual) expect("auto_mode " + std::to_string(m.second) + " 0");
  expect_route(lane, stops);
  expect("engage");
  t.init += "<Private entityRef=\"ego\">" + teleport(lane_position(lane, s0)) + routing + "</Private>";
  if (!ego_last) for (u64 k = 0; k < npcs; ++k) npc(k);
  const double until = (0.371 + 5 + static_cast<double>(w(60))) * step, timeout = until + 20 * std::max(1.0, factor);
  const bool by_goal = a.trouble == NONE && wchance(1, 2);
  const double replan_at = (0.371 + 1 + static_cast<double>(w(20))) * step;
  std::string conditions, events;
  for (auto & x : watched) conditions += value_is("ego." + x, "never");
  events += event("success", group(by_goal ? value_is("ego.currentState", "ARRIVED_GOAL") : after_time(until)), command("exitSuccess"));
  events += event("failure", group(after_time(timeout)), command("exitFailure"));
  events += event("watch", group(conditions), command("exitFailure"));
  const int second_lane = goal_lane + 1;
  std::vector<std::pair<int, double>> second;
  if (replans && by_goal) {
    auto where = lane_position(second_lane, s1);
    if (wchance(1, 2)) second.push_back({goal_lane, s1 + 1});
    second.push_back({second_lane, s1});
    std::vector<std::string> v;
    for (auto & x : second) v.push_back(lane_position(x.first, x.second));
    auto action = second.size() > 1 ? assign(v) : acquire(where);
    events += event("replan", group(after_time(replan_at)), action);
  }
  t.stories = "<Story name=\"story\"><Act name=\"act\"><ManeuverGroup name=\"group\" maximumExecutionCount=\"1\"><Actors selectTriggeringEntities=\"false\"><EntityRef entityRef=\"ego\"/></Actors><Maneuver name=\"maneuver\">" + events +
    "</Maneuver></ManeuverGroup><StartTrigger>" + group(after_time(-1)) + "</StartTrigger></Act></Story>";
  write(r, t());
  logf("trouble: ", troubles[a.trouble], launched ? ", launched" : "", by_goal ? ", until the goal" : ", until a time");

  // ---- the simulator: a vehicle that drives while Autoware does
  geometry_msgs::msg::Pose body = on_lane(lane, s0);
  double speed = 0;
  i64 started = -1, last_frame = -1;                          // when the simulator was first told that time runs
  double last_scenario = -1, last_simulation = -1;
  u64 frames = 0;
  bool spawned = false;
  std::map<std::string, int> attached;
  r.simulator->respond = [&](const auto & q, auto & response) {
    ++frames;
    for (auto & s : q.status()) {
      if (s.name() != "ego") continue;
      check(spawned, "unknown-entity", "the state of an entity is sent that was not spawned");
      check(same_pose(from(s.pose()), body), "ego-pose", "the ego vehicle is said to be at " + pose_text(from(s.pose())) + " although the simulator put it at " + pose_text(body));
      check(close(s.action_status().twist().linear().x(), speed, 1e-6), "ego-speed", "the ego vehicle is said to move at " + str(s.action_status().twist().linear().x()) + " although the simulator moves it at " + str(speed));
      check(!q.overwrite_ego_status(), "ego-overwritten", "the state of the ego vehicle is to be overwritten although Autoware drives");
      if (q.npc_logic_started() && a.state() == driving) { speed = std::min(max_speed, speed + 0.4); body.position.x += std::min(speed * step, 4.0); }
      else speed = 0;
      auto & o = *response.add_status();
      o.set_name("ego");
      simulation_interface::toProto(body, *o.mutable_pose());
      o.mutable_action_status()->CopyFrom(s.action_status());
      o.mutable_action_status()->mutable_twist()->mutable_linear()->set_x(speed);
    }
    if (started < 0) { if (q.npc_logic_started()) { started = now(); logf("time runs"); } }
    else check(q.npc_logic_started(), "stopped-again", "the other vehicles stop again");
  };
  Recorder::updates = new std::vector<Update>;
  r.simulator->observe = [&](const std::string & kind, const auto & q, bool) {
    check(!a.over, "request-after-end", "the simulator gets a request (" + kind + ") after the end of the scenario");
    last_frame = now();
    if (kind == "spawn_vehicle_entity" && q.spawn_vehicle_entity().parameters().name() == "ego") {
      spawned = true;
      check(q.spawn_vehicle_entity().is_ego(), "ego-kind", "the ego vehicle is spawned as another one");
      check(same_pose(from(q.spawn_vehicle_entity().pose()), body), "ego-pose", "the ego vehicle is spawned at " + pose_text(from(q.spawn_vehicle_entity().pose())) + " instead of " + pose_text(body));
    } else if (kind == "spawn_vehicle_entity") check(!q.spawn_vehicle_entity().is_ego(), "ego-kind", "another vehicle is spawned as the ego vehicle");
    if (kind.rfind("attach", 0) == 0) {
      check(spawned && ++attached[kind] == 1, "sensor-twice", kind + " is requested twice or before the vehicle is there");
      auto same = [&](bool ok, const char * what) { check(ok, "sensor-configuration", kind + ": " + what + " is not as configured"); };
      const auto architecture = simros::network().parameters["architecture_type"].template get<std::string>();
      if (kind == "attach_imu_sensor") { auto & c = q.attach_imu_sensor().configuration(); same(c.entity() == "ego", "entity"); }
      if (kind == "attach_lidar_sensor") {
        auto & c = q.attach_lidar_sensor().configuration();
        same(c.entity() == "ego", "entity"); same(c.architecture_type() == architecture, "architecture"); same(close(c.lidar_sensor_delay(), sensors.delay), "delay"); same(close(c.horizontal_resolution(), sensors.resolution * M_PI / 180), "resolution");
        same(c.vertical_angles_size() == sensors.channels, "channels");
        for (int i = 0; i < c.vertical_angles_size(); ++i) same(close(c.vertical_angles(i), sensors.fov * M_PI / 180 * (0.5 - static_cast<double>(i) / sensors.channels), 1e-9), "angle");
      }
      if (kind == "attach_detection_sensor") {
        auto & c = q.attach_detection_sensor().configuration();
        same(c.entity() == "ego", "entity"); same(c.architecture_type() == architecture, "architecture"); same(c.detect_all_objects_in_range() == sensors.clairvoyant, "clairvoyance"); same(close(c.object_recognition_delay(), sensors.object_delay), "delay");
        same(close(c.pos_noise_stddev(), sensors.deviation), "deviation"); same(close(c.probability_of_lost(), sensors.lost), "missing probability"); same(close(c.range(), sensors.range), "range");
        same(close(c.object_recognition_ground_truth_delay(), sensors.truth_delay), "delay of the truth"); same(c.random_seed() == sensors.seed, "seed");
      }
      if (kind == "attach_occupancy_grid_sensor") { auto & c = q.attach_occupancy_grid_sensor().configuration(); same(c.entity() == "ego", "entity"); same(c.filter_by_range() == sensors.clairvoyant, "clairvoyance"); same(c.architecture_type() == architecture, "architecture"); }
      if (kind == "attach_pseudo_traffic_light_detector") same(q.attach_pseudo_traffic_light_detector().configuration().architecture_type() == architecture, "architecture");
    }
    if (kind == "update_frame") {
      const double s = q.update_frame().current_scenario_time(), m = q.update_frame().current_simulation_time();
      check(std::isnan(s) == (started < 0), "time-runs", started < 0 ? "the time of the scenario runs before Autoware drives" : "the time of the scenario does not run although the other vehicles move");
      check(last_simulation < 0 || close(m - last_simulation, step, 1e-6), "simulation-time", "the simulation advances by " + str(m - last_simulation) + " s in a frame");
      last_simulation = m;
      if (std::isnan(s)) return;
      check(last_scenario < 0 ? close(s, 0, step * 1.01) : close(s - last_scenario, step, 1e-6), "scenario-time", "the scenario advances by " + str(s - last_scenario) + " s in a frame");
      last_scenario = s;
    }
  };

  // ---- what else Autoware says
  auto announce = [&](const std::string & what) {
    using autoware_adapi_v1_msgs::msg::MrmState;
    if (what == "mrm") {
      static const std::vector<std::pair<int, std::string>> states{{MrmState::NORMAL, "NORMAL"}, {MrmState::MRM_OPERATING, "MRM_OPERATING"}, {MrmState::MRM_SUCCEEDED, "MRM_SUCCEEDED"}, {MrmState::MRM_FAILED, "MRM_FAILED"}},
        behaviours{{MrmState::NONE, "NONE"}, {MrmState::EMERGENCY_STOP, "EMERGENCY_STOP"}, {MrmState::COMFORTABLE_STOP, "COMFORTABLE_STOP"}};
      auto & x = states[choose(sim::S, states.size())];
      auto & y = behaviours[choose(sim::S, behaviours.size())];
      MrmState m; m.state = x.first; m.behavior = y.first;
      a.mrm.set(x.second);
      a.behaviour.set(y.second);
      simros::inject("/api/fail_safe/mrm_state", m);
    } else {
      static const std::vector<std::string> n{"NO_COMMAND", "DISABLE", "ENABLE_LEFT", "ENABLE_RIGHT"};
      autoware_vehicle_msgs::msg::TurnIndicatorsCommand m;
      m.command = choose(sim::S, 4);
      a.blinker.set(n[m.command]);
      simros::inject("/control/command/turn_indicators_cmd", m);
    }
  };
  auto & p = *new std::function<void()>;
  p = [&] { if (a.over) return; announce(choose(sim::S, 2) ? "mrm" : "blinker"); after(static_cast<i64>(1 + choose(sim::S, 20)) * 100 * ms, p); };

  // ---- run
  i64 longest = 0, previous = -1, frame_time = static_cast<i64>(1e9 / rate);
  double last_context = -1;
  u64 contexts = 0, running = 0, observed = 0, repeated = 0;
  r.on_frame = [&](const Frame & f) {
    check(!a.over, "context-after-end", "a context is published after the end of the scenario");
    ++contexts;
    if (previous >= 0) longest = std::max(longest, now() - previous);
    previous = now();
    a.note();
    if (std::isnan(f.time)) { check(last_context < 0, "context-time", "the time of the scenario is undefined again"); return; }
    ++running;
    if (last_context >= 0 && f.time == last_context && ++repeated == 1) return;          // the last state, published again when an error ends the scenario
    check(repeated == 0 && (last_context < 0 || close(f.time - last_context, step, 1e-6)), "context-time", "the context advances by " + str(f.time - last_context) + " s");
    last_context = f.time;
    if (running < 3 || a.trouble == RUNNER) return;
    auto & found = f.json.at("OpenSCENARIO").at("Storyboard").at("Story").as_array().at(0).at("Act").as_array().at(0).at("ManeuverGroup").as_array().at(0).at("Maneuver").as_array().at(0).at("Event").as_array().at(2);
    auto & cs = found.at("StartTrigger").at("ConditionGroup").as_array().at(0).at("Condition").as_array();
    const i64 from = now() - a.latency - 2 * longest - 2 * frame_time, to = now();
    for (std::size_t i = 0; i < cs.size(); ++i) {
      std::string s(cs[i].at("currentEvaluation").as_string());
      auto b = s.find("(= "), e = s.find(") is");
      check(b != std::string::npos && e != std::string::npos, "value-description", "the description of a condition is " + s);
      s = s.substr(b + 3, e - b - 3);
      History & h = i == 0 ? a.state_ : i == 1 || i == 3 ? a.mrm : i == 2 ? a.behaviour : a.blinker;
      if (i == 4 && h.was("-", from, to)) { check(s == "DISABLE" || s == "NO_COMMAND" || h.was(s, from, to), "user-defined-value", "ego." + watched[i] + " is " + s); continue; }
      check(h.was(s, from, to), "user-defined-value", "ego." + watched[i] + " is evaluated as " + s + " although it is " + h.value() + " since " + str(static_cast<double>(now() - h.since()) / 1e9) + " s");
      ++observed;
    }
  };
  if (a.trouble == REJECTS) { static const std::vector<std::string> v{"stop", "velocity", "clear", "initialize", "route", "engage"}; a.rejecting = v[w(v.size())]; }
  const i64 began = now();
  r.node->configure();
  if (r.state() != Primary::PRIMARY_STATE_INACTIVE) violation("scenario-refused", "a valid scenario is refused: " + osc::text(verdict(r.output)));
  r.node->activate();
  if (!r.active()) violation("scenario-refused", "a valid scenario cannot be started: " + osc::text(verdict(r.output)));
  const i64 created = now();
  if (wchance(1, 2)) after(static_cast<i64>(w(100)) * 100 * ms, p);
  for (auto k : {"attach_imu_sensor", "attach_lidar_sensor", "attach_detection_sensor", "attach_occupancy_grid_sensor", "attach_pseudo_traffic_light_detector"}) check(attached[k] == 1, "sensor-missing", std::string(k) + " is requested " + std::to_string(attached[k]) + " times");
  pid_t pid = 0;
  for (auto & [id, q] : os.table) if (q.ours) { logf("process ", id, " ", q.argv.size() ? q.argv.back() : ""); check(!pid, "process-count", "two processes have been started"); pid = id; }
  check(launched == (pid != 0), "process-count", launched ? "Autoware was not launched" : "Autoware was launched although it was not to be");
  i64 trouble_at = -1;
  auto happen = [&] {
    trouble_at = now();
    logf("trouble: ", troubles[a.trouble]);
    if (a.trouble == EMERGENCY) { tier4_external_api_msgs::msg::Emergency m; m.emergency = true; simros::inject("/api/external/get/emergency", m); }
    if (a.trouble == BAD_MRM) { autoware_adapi_v1_msgs::msg::MrmState m; m.state = 77; simros::inject("/api/fail_safe/mrm_state", m); }
    if (a.trouble == DIES) { if (w(2)) os.die(pid, SIGSEGV); else os.exit_later(pid, 0, static_cast<int>(w(3))); }
  };
  const bool sudden = a.trouble == EMERGENCY || a.trouble == BAD_MRM || a.trouble == DIES || a.trouble == RUNNER;
  // before or after the start
  const bool early = sudden && wchance(1, 2);
  const i64 sudden_at = early ? created + static_cast<i64>(w(50)) * 100 * ms : -1;
  const double sudden_time = (static_cast<double>(w(40)) + 0.5) * step;
  bool replanned = false, arrived = false;
  i64 driving_since = -1;
  const i64 hopeless = created + duration * sec;
  i64 worst = created + static_cast<i64>(duration) * sec + 20 * sec + static_cast<i64>((timeout + 20) / factor * 1e9) * 2;
  if (a.trouble == REJECTS) worst += 31 * 10 * sec;
  if (flaws) worst += 400 * sec;
  while (r.active() && now() < worst + 30 * longest) {
    if (fault("frame_late", 1, 20)) sim::sleep_ns(static_cast<i64>(choose(F, 400)) * ms);
    serve(r, frame_time / 2, [&] { return !r.active(); });
    if (!r.active()) break;
    a.note();
    if (a.state() == driving) { if (driving_since < 0) driving_since = now(); } else if (started < 0) driving_since = -1;
    // time runs soon after Autoware drives, and not before
    if (started < 0 && driving_since >= 0 && !sudden && !flaws)
      check(now() - driving_since < 2 * sec + 6 * (longest + frame_time) + 4 * a.latency, "not-started", "the scenario has not started " + str(static_cast<double>(now() - driving_since) / 1e9) + " s after Autoware began to drive");
    if (sudden && trouble_at < 0 && (early ? now() >= sudden_at : last_scenario >= sudden_time)) {
      happen();
      if (a.trouble == RUNNER) { r.node->deactivate(); break; }
    }
    if (replans && by_goal && !replanned && last_scenario > replan_at - 2 * step) {
      replanned = true;
      int at = static_cast<int>(body.position.x / 50) + 1;
      // the vehicle may have entered the next lane when the action starts
      int next = static_cast<int>((body.position.x + 13) / 50) + 1;
      expect_route(next, second);
      const std::string other = a.expected.back().signature;
      a.expected.pop_back();
      a.expected.pop_back();
      expect_route(at, second);
      a.expected.back().other = other;
      expect("engage");
    }
    if (by_goal && !arrived && a.state() == driving && started >= 0 && (replans ? a.current + 1 == a.expected.size() && a.expected.back().answered >= 0 && replanned && now() - a.expected.back().answered > 3 * sec : last_scenario > until)) {
      arrived = true;
      a.route = 3;
      a.arrived_at = now();
      a.publish();
    }
  }
  const i64 ended = now();
  const auto v = verdict(r.output);
  logf("verdict: ", osc::text(v));
  const std::string why = " (trouble: " + std::string(troubles[a.trouble]) + ")";
  check(!r.active(), "not-ended", "the scenario has not ended " + str(static_cast<double>(ended - created) / 1e9) + " s after its start" + why);
  check(v.there && v.cases == 1 && v.pass + v.failures.size() + v.errors.size() == 1, "verdict-count", "there is not one verdict but " + osc::text(v));
  if (started >= 0) check(a.state_.was("DRIVING", began, started), "started-early", "the time of the scenario began to run before Autoware drove");
  if (started < 0) check(Recorder::updates->empty(), "moved-early", "another vehicle was moved before the scenario began");
  for (auto & u : *Recorder::updates) check(!std::isnan(u.current), "moved-early", "another vehicle was moved before the scenario began");
  // ---- is the verdict what happened?
  const i64 slack = 3 * sec + 8 * (longest + frame_time) + 4 * a.latency;
  if (a.trouble == NONE && !flaws) check(v.pass == 1, "wrong-verdict", "Autoware did all it was asked to and the verdict is " + osc::text(v));
  if (a.trouble == RUNNER) {
    if (trouble_at >= 0 && !v.pass) check(v.failures.size() == 1 && v.failures[0].first == "Timeout", "wrong-verdict", "the runner gave up and the verdict is " + osc::text(v));
  } else if (v.pass) {
    check(a.trouble == NONE || (sudden && (trouble_at < 0 || ended - trouble_at < slack + static_cast<i64>(sigterm) * sec + 9 * sec)), "wrong-verdict", "the scenario passed" + why);
    check(started >= 0, "wrong-verdict", "the scenario passed without having begun");
    if (!by_goal) check(last_scenario > until - 2 * step, "wrong-verdict", "the scenario passed too early");
    else check(arrived, "wrong-verdict", "the scenario passed before Autoware arrived");
  } else if (!v.failures.empty()) {
    // Autoware that refuses or does not answer may need longer than the scenario grants it
    check(flaws && replans && by_goal && (!arrived || ended - a.arrived_at < slack) && last_scenario > timeout - 2 * step && v.failures.size() == 1, "wrong-verdict", "the verdict is " + osc::text(v) + why);
  } else if (a.trouble != NONE || flaws) {
    const auto & type = v.errors[0].first;
    if (sudden && trouble_at >= 0) {
      check(type == (a.trouble == DIES ? "AutowareError" : "InternalError") || flaws, "wrong-verdict", "the verdict is " + osc::text(v) + why);
      check(ended - trouble_at < slack + static_cast<i64>(sigterm) * sec + 9 * sec, "late-verdict", "the verdict came " + str(static_cast<double>(ended - trouble_at) / 1e9) + " s after the trouble" + why);
    } else {
      check(type == "AutowareError", "wrong-verdict", "the verdict is " + osc::text(v) + why);
      bool thirty = false;
      for (auto & q : a.expected) thirty = thirty || q.attempts >= 30;
      check(thirty || ended >= hopeless - sec, "wrong-verdict", "the verdict is " + osc::text(v) + " before the time for preparation was over" + why);
    }
  }
  if (!flaws && (a.trouble == NOT_LOCALIZED || a.trouble == NOT_PLANNED || a.trouble == NOT_ENGAGED)) {
    check(started < 0, "started-early", "the time of the scenario ran" + why);
    check(ended < hopeless + slack + static_cast<i64>(sigterm) * sec + 9 * sec, "late-verdict", "the verdict came " + str(static_cast<double>(ended - hopeless) / 1e9) + " s after the time for preparation was over" + why);
  }
  // ---- nothing is left
  a.over = true;
  for (auto & [name, e] : r.simulator->entities) violation("entity-left", "entity " + name + " is left in the simulator");
  if (pid) {
    auto & q = os.table.at(pid);
    check(q.state == simos::Process::REAPED, "process-left", std::string("Autoware's process is ") + (q.state == simos::Process::ZOMBIE ? "not waited for" : "still running") + " after the scenario");
  }
  serve(r, 20 * sec);
  const auto again = verdict(r.output);
  check(again.cases == v.cases && again.pass == v.pass && again.errors == v.errors && again.failures == v.failures, "verdict-changed", "the verdict changes after the end to " + osc::text(again));
  r.node->cleanup();
  for (std::size_t i = 0; v.pass && i < a.expected.size(); ++i) check(a.expected[i].answered >= 0, "autoware-request", "Autoware never received " + a.expected[i].signature);
  probe(std::string(troubles[a.trouble]) + (started >= 0 ? ", started" : ", not started") + (v.pass ? ", passed" : v.errors.empty() ? ", failed" : ", error"));
  if (replanned) probe("planned anew");
  if (flaws) probe("with flaws");
  if (observed) count("values observed", observed);
  count("frames", contexts);
  const u64 shape = hash_str(std::to_string(a.trouble) + std::to_string(launched) + std::to_string(by_goal) + std::to_string(replans) + std::to_string(stops.size()) + std::to_string(ids) + std::to_string(a.total) + std::to_string(started >= 0) + std::to_string(contexts / 8));
  if (contexts > 3) nontrivial(shape);
  state(shape);
  sample(std::string(troubles[a.trouble]) + (launched ? ", launched, " : ", ") + std::to_string(a.total) + " requests to Autoware, " + std::to_string(contexts) + " contexts, " + std::to_string(running) + " after the start");
}
