// C01: requests sent to Autoware.  C03: supervision of the Autoware process.  (concealer::FieldOperatorApplication)
#include <sim/kernel/kernel.hpp>
#include <sim/os/os.hpp>
#include <concealer/field_operator_application.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <memory>
#include <optional>
#include <set>
#include <thread>

using namespace sim;
using FOA = concealer::FieldOperatorApplication;

namespace
{
enum State { undefined, initializing, waiting_for_route, planning, waiting_for_engage, driving, arrived_goal };
const char * state_names[] = {"UNDEFINED", "INITIALIZING", "WAITING_FOR_ROUTE", "PLANNING", "WAITING_FOR_ENGAGE", "DRIVING", "ARRIVED_GOAL"};

struct Op
{
  std::string service, signature;
  i64 called = 0, became_current = 0, period = 3 * sec;
  int attempts = 0;
  std::vector<i64> times;
  bool success_replied = false, timely = false, may_skip = false, accepted = true;
  i64 success_at = -1, timely_at = -1;
};
struct Reply { std::size_t op; i64 delivered_by, deadline; bool success; };

struct Peer
{
  // what Autoware is
  int loc = 1, mode = 1, route = 1;
  bool available = false, enabled = false;
  i64 arrived_at = 0;
  std::string refuses;                      // a service whose every request is refused
  bool stuck = false;                       // never makes progress by itself
  bool disturbed = false;                   // something went wrong on Autoware's side in this run
  std::vector<std::pair<i64, State>> history{{-1, initializing}};
  std::map<std::string, std::vector<std::pair<i64, i64>>> absent;   // service -> intervals

  State state() const
  {
    if (loc == 0 || route == 0 || mode == 0) return initializing;
    if (loc != 3) return initializing;
    if (route == 3) return now() - arrived_at < 2 * sec ? arrived_goal : waiting_for_route;
    if (route == 1) return waiting_for_route;
    if (mode != 1 && enabled) return driving;
    return available ? waiting_for_engage : planning;
  }
  builtin_interfaces::msg::Time stamp() const { return rclcpp::Time(now() + wall_offset()); }
  void note()
  {
    if (history.back().second != state()) { history.emplace_back(now(), state()); logf("Autoware is ", state_names[state()]); }
  }
  void publish()
  {
    autoware_adapi_v1_msgs::msg::LocalizationInitializationState l; l.stamp = stamp(); l.state = loc;
    autoware_adapi_v1_msgs::msg::RouteState r; r.stamp = rclcpp::Time((route == 3 ? arrived_at : now()) + wall_offset()); r.state = route;
    autoware_adapi_v1_msgs::msg::OperationModeState o; o.stamp = stamp(); o.mode = mode; o.is_autoware_control_enabled = enabled; o.is_autonomous_mode_available = available;
    simros::inject("/api/localization/initialization_state", l, true);
    simros::inject("/api/routing/state", r, true);
    simros::inject("/api/operation_mode/state", o, true);
    note();
  }
  // states Autoware was in at some time of [a, b]
  bool was(State s, i64 a, i64 b) const
  {
    for (std::size_t i = 0; i < history.size(); ++i) {
      i64 from = history[i].first, to = i + 1 < history.size() ? history[i + 1].first : INT64_MAX;
      if (history[i].second == s && from <= b && to >= a) return true;
    }
    return false;
  }
};
struct Model
{
  Peer peer;
  std::vector<Op> ops;
  std::size_t current = 0;
  std::vector<Reply> replies;
  bool stalls = false, torn_down = false, tearing_down = false, may_lose = false;
  i64 created = 0, limit = 0, last_frame = 0, max_frame = 0, max_latency = 0, tear_down_at = -1;
  bool engaged_once = false; i64 engaged_since = -1; bool failed = false, may_fail_by_module = false;
  u64 total_attempts = 0, rejected = 0, shape = 1;
};
Model * M;

std::string num(double v) { std::ostringstream o; o.precision(9); o << v; return o.str(); }
bool waits_for_state(const Op & o) { return o.service == "initialize" || o.service == "route" || o.service == "engage"; }

// an operation that needs no request when Autoware drives already
void note_skips()
{
  for (std::size_t i = M->current; i < M->ops.size(); ++i)
    if (M->ops[i].service == "engage" && M->peer.was(driving, M->ops[i].called - 2 * M->max_latency - 2 * M->max_frame, now())) M->ops[i].may_skip = true;
}

// A request reached Autoware. Returns what Autoware answers: 0 accept, 1 reject, 2 no answer, 3 accept late, 4 accept but the answer is lost
int attempt(const std::string & service, const std::string & signature)
{
  check(!M->torn_down, "request-after-destruction", "a request " + signature + " is sent after the destruction");
  auto & ops = M->ops;
  ++M->total_attempts;
  note_skips();
  logf("Autoware receives ", signature);
  // which operation is this?
  std::size_t i = M->current;
  while (true) {
    check(i < ops.size(), "unrequested", "Autoware receives " + signature + ", which was not (or not any more) to be sent");
    auto & o = ops[i];
    if (o.signature == signature && !o.timely) break;
    if (o.signature == signature && o.timely) {
      bool later = false;
      for (std::size_t k = i + 1; k < ops.size(); ++k) later = later || ops[k].signature == signature;
      check(later, "repeated", signature + " is sent again although it was answered with success");
    }
    check(o.success_replied || o.may_skip, "order", "Autoware receives " + signature + " while " + o.signature + " is not complete");
    ++i;
    // its first attempts may have been lost: it can have begun as soon as the one before it was answered
    if (i < ops.size()) ops[i].became_current = std::max(ops[i].called, o.success_at);
  }
  M->current = i;
  auto & o = ops[i];
  ++o.attempts;
  o.times.push_back(now());
  check(o.attempts <= 30, "too-many", signature + " is sent for the 31st time");
  if (o.times.size() >= 4) check(o.times.back() - o.times[o.times.size() - 4] >= o.period - 2 * M->max_latency, "rate", signature + " is sent 4 times within " + std::to_string((o.times.back() - o.times[o.times.size() - 4]) / ms) + " ms");
  // the state in which a request may be made
  if (!M->stalls && o.attempts == 1 && M->peer.absent[service].empty()) {
    const i64 a = now() - 3 * M->max_latency - 2 * M->max_frame - 10 * ms, b = now();
    auto & p = M->peer;
    if (service == "engage") check(p.was(waiting_for_engage, a, b) || p.was(driving, a, b) || p.was(arrived_goal, a, b), "engage-early", std::string("Autoware is told to engage in state ") + state_names[p.state()]);
    if (service == "route") check(!(p.was(initializing, a, b) && !p.was(waiting_for_route, a, b) && !p.was(planning, a, b) && !p.was(waiting_for_engage, a, b) && !p.was(driving, a, b) && !p.was(arrived_goal, a, b)), "route-early", "Autoware is given a route while it is initializing");
    if (service == "initialize") check(p.was(initializing, a, b) || p.was(waiting_for_route, a, b), "initialize-late", std::string("Autoware is given an initial pose in state ") + state_names[p.state()]);
  }
  M->shape = M->shape * 31 + hash_str(service);
  int r = 0;
  if (service == M->peer.refuses) r = 1;
  else if (fault("rejects", 1, 4)) r = 1;
  else if (fault("never_answers", 1, 6)) r = 2;
  else if (fault("answers_late", 1, 8)) r = 3;
  else if (fault("answer_lost", 1, 8)) r = 4;
  if (r) M->peer.disturbed = true;
  if (r == 1) ++M->rejected;
  return r;
}

// deliver the answer `send(ok)` and remember whether the caller can still have taken it in time
template <typename Send>
void answer(int r, Send send, const std::function<void()> & apply)
{
  const std::size_t i = M->current;
  auto & o = M->ops[i];
  const i64 arrived = now();
  if (r == 0 || r == 3 || r == 4) apply();
  auto respond = [i, send, arrived](bool ok) {
    auto & o = M->ops[i];
    if (ok) { o.success_replied = true; o.success_at = now(); }
    M->replies.push_back({i, now() + M->max_latency, arrived - M->max_latency + o.period, ok});
    send(ok);
  };
  const i64 think = static_cast<i64>(choose(S, 4)) * 50 * ms;
  if (r == 0) after(think, [respond] { respond(true); });
  if (r == 1) after(think, [respond] { respond(false); });
  if (r == 3) after(o.period + static_cast<i64>(choose(F, 6)) * sec, [respond] { respond(true); });
  if (r == 4) M->ops[i].accepted = true;
}

autoware_adapi_v1_msgs::msg::ResponseStatus adapi(bool ok) { autoware_adapi_v1_msgs::msg::ResponseStatus s; s.success = ok; s.code = ok ? (w(2) ? 0 : 60001) : 50001 + w(3); return s; }
tier4_external_api_msgs::msg::ResponseStatus external(bool ok) { tier4_external_api_msgs::msg::ResponseStatus s; s.code = ok ? 1 : 2 + w(3); return s; }

i64 transition() { return static_cast<i64>(choose(S, 8)) * 300 * ms; }

void serve()
{
  using namespace autoware_adapi_v1_msgs::srv;
  auto & p = M->peer;
  simros::peer_service<ChangeOperationMode>("/api/operation_mode/change_to_stop", [&p](auto &, auto reply) {
    answer(attempt("stop", "change_to_stop"), [reply](bool ok) { ChangeOperationMode::Response r; r.status = adapi(ok); reply(r); }, [&p] { p.mode = 1; p.publish(); });
  });
  simros::peer_service<ChangeOperationMode>("/api/operation_mode/enable_autoware_control", [&p](auto &, auto reply) {
    answer(attempt("enable", "enable_autoware_control"), [reply](bool ok) { ChangeOperationMode::Response r; r.status = adapi(ok); reply(r); }, [&p] { p.enabled = true; p.publish(); });
  });
  simros::peer_service<ClearRoute>("/api/routing/clear_route", [&p](auto &, auto reply) {
    answer(attempt("clear", "clear_route"), [reply](bool ok) { ClearRoute::Response r; r.status = adapi(ok); reply(r); }, [&p] { p.route = 1; p.publish(); });
  });
  simros::peer_service<InitializeLocalization>("/api/localization/initialize", [&p](auto & q, auto reply) {
    check(q.pose.size() == 1 && q.pose[0].header.frame_id == "map", "initial-pose", "the initial pose is not given in the map frame");
    const i64 stamp = rclcpp::Time(q.pose[0].header.stamp).nanoseconds() - wall_offset();
    check(stamp >= M->created && stamp <= now(), "initial-pose", "the initial pose is stamped " + std::to_string((now() - stamp) / ms) + " ms before it arrives");
    answer(attempt("initialize", "initialize " + num(q.pose[0].pose.pose.position.x)), [reply](bool ok) { InitializeLocalization::Response r; r.status = adapi(ok); reply(r); }, [&p] {
      p.loc = 2; p.publish();
      if (!p.stuck) after(transition(), [&p] { p.loc = 3; p.publish(); });
    });
  });
  auto route = [&p] {
    p.route = 2; p.available = false; p.publish();
    if (!p.stuck) after(transition(), [&p] { p.available = true; p.publish(); });
  };
  simros::peer_service<SetRoutePoints>("/api/routing/set_route_points", [route](auto & q, auto reply) {
    std::string s = "route points " + num(q.goal.position.x) + " option " + std::to_string(q.option.allow_goal_modification);
    for (auto & x : q.waypoints) s += " " + num(x.position.x);
    answer(attempt("route", s), [reply](bool ok) { SetRoutePoints::Response r; r.status = adapi(ok); reply(r); }, route);
  });
  simros::peer_service<SetRoute>("/api/routing/set_route", [route](auto & q, auto reply) {
    std::string s = "route segments " + num(q.goal.position.x) + " option " + std::to_string(q.option.allow_goal_modification);
    for (auto & x : q.segments) s += " " + std::to_string(x.preferred.id);
    answer(attempt("route", s), [reply](bool ok) { SetRoute::Response r; r.status = adapi(ok); reply(r); }, route);
  });
  using tier4_external_api_msgs::srv::Engage;
  simros::peer_service<Engage>("/api/external/set/engage", [&p](auto & q, auto reply) {
    check(q.engage, "engage-content", "a request to engage asks to disengage");
    answer(attempt("engage", "engage"), [reply](bool ok) { Engage::Response r; r.status = external(ok); reply(r); }, [&p] {
      if (p.stuck) return;
      after(transition() / 3, [&p] { p.mode = 2; p.enabled = true; p.publish(); });
    });
  });
  using tier4_external_api_msgs::srv::SetVelocityLimit;
  simros::peer_service<SetVelocityLimit>("/api/autoware/set/velocity_limit", [](auto & q, auto reply) {
    answer(attempt("velocity", "velocity " + num(q.velocity)), [reply](bool ok) { SetVelocityLimit::Response r; r.status = external(ok); reply(r); }, [] {});
  });
  using tier4_rtc_msgs::srv::AutoModeWithModule;
  simros::peer_service<AutoModeWithModule>("/api/external/set/rtc_auto_mode", [](auto & q, auto reply) {
    answer(attempt("auto_mode", "auto_mode " + std::to_string(q.module.type) + " " + std::to_string(q.enable)), [reply](bool ok) { AutoModeWithModule::Response r; r.success = ok; reply(r); }, [] {});
  });
  using tier4_rtc_msgs::srv::CooperateCommands;
  simros::peer_service<CooperateCommands>("/api/external/set/rtc_commands", [](auto & q, auto reply) {
    std::string s = "cooperate " + std::to_string(q.stamp.sec) + ":";
    for (auto & c : q.commands) s += " " + std::to_string(c.module.type) + "/" + std::to_string(c.uuid.uuid[0]) + "/" + std::to_string(c.command.type);
    answer(attempt("cooperate", s), [reply, q](bool ok) {
      CooperateCommands::Response r;
      for (auto & c : q.commands) { tier4_rtc_msgs::msg::CooperateResponse x; x.uuid = c.uuid; x.module = c.module; x.success = true; r.responses.push_back(x); }
      if (!ok) { tier4_rtc_msgs::msg::CooperateResponse x; x.success = false; r.responses.insert(r.responses.begin() + w(r.responses.size() + 1), x); }
      reply(r);
    }, [] {});
  });
}

const std::map<std::string, std::string> names = {
  {"stop", "/api/operation_mode/change_to_stop"}, {"enable", "/api/operation_mode/enable_autoware_control"}, {"clear", "/api/routing/clear_route"}, {"initialize", "/api/localization/initialize"},
  {"route", ""}, {"engage", "/api/external/set/engage"}, {"velocity", "/api/autoware/set/velocity_limit"}, {"auto_mode", "/api/external/set/rtc_auto_mode"}, {"cooperate", "/api/external/set/rtc_commands"}};

void make_absent(const std::string & service, i64 from, i64 duration)
{
  M->peer.absent[service].emplace_back(from, from + duration);
  auto set = [service](bool ready) {
    logf("service ", service, ready ? " appears" : " disappears");
    if (service == "route") simros::network().peer_ready["/api/routing/set_route"] = simros::network().peer_ready["/api/routing/set_route_points"] = ready;
    else simros::network().peer_ready[names.at(service)] = ready;
  };
  if (from <= now()) set(false); else at(from, [set] { set(false); });
  at(from + duration, [set] { set(true); });
  count("fault:service_absent");
}
bool absent_for(const Op & o, i64 d)      // was the service away for the whole time [now - d, now]?
{
  for (auto & [a, b] : M->peer.absent[o.service]) if (a <= std::max(now() - d, o.called) + 10 * ms && std::min(b, now()) - std::max(a, o.called) >= d) return true;
  return false;
}

void after_spin(i64 begin)
{
  NoInstrument guard;      // templates shared with instrumented code must not switch threads here
  const i64 end = now();
  auto & rs = M->replies;
  std::set<std::string> taken;      // a turn of the executor takes one answer of each service, in the order of arrival
  std::vector<Reply> rest;
  std::map<std::string, int> pending;      // several at a time may arrive in another order than they were sent
  for (auto & r : rs) ++pending[M->ops[r.op].service];
  for (auto & r : rs) if (pending[M->ops[r.op].service] > 1) r.success = false;      // it is not known which one is taken
  for (auto & r : rs) {
    auto & o = M->ops[r.op];
    if (!taken.insert(o.service).second || r.delivered_by > begin) { rest.push_back(r); continue; }
    if (r.success && end < r.deadline && !o.timely) { o.timely = true; o.timely_at = end; }
  }
  rs = rest;
  note_skips();
}
bool all_sent()
{
  NoInstrument guard;      // templates shared with instrumented code must not switch threads here
  for (std::size_t i = M->current; i < M->ops.size(); ++i) if (!M->ops[i].success_replied && !M->ops[i].may_skip) return false;
  return true;
}
bool surely_sent(i64 margin)
{
  NoInstrument guard;      // templates shared with instrumented code must not switch threads here
  for (std::size_t i = M->current; i < M->ops.size(); ++i) if (!(M->ops[i].timely && M->ops[i].timely_at + margin <= now())) return false;
  return true;
}

// once Autoware has been engaged the time limit does not apply any more
bool released()
{
  for (auto & o : M->ops) if (o.service == "engage" && o.success_replied) return true;
  return M->engaged_once;
}

// may the queue have failed now, and why?
bool justified(std::string & why)
{
  note_skips();
  NoInstrument guard;      // templates shared with instrumented code must not switch threads here
  auto & p = M->peer;
  if (M->may_fail_by_module) { why = "module"; return true; }
  for (std::size_t i = M->current; i < M->ops.size(); ++i) {
    auto & o = M->ops[i];
    if (o.attempts == 30 && !o.timely) { why = "30 attempts"; return true; }
    if (!o.timely && (M->may_lose || !p.absent[o.service].empty()) && now() - o.became_current >= 28 * o.period) { why = "30 attempts"; return true; }
    if (absent_for(o, 180 * sec)) { why = "service absent"; return true; }
    if (waits_for_state(o) && now() >= M->limit && !(M->engaged_since >= 0 && now() - M->engaged_since > 5 * sec + 2 * M->max_frame + M->max_latency + (M->stalls ? 60 * sec : 0))) { why = "time limit"; return true; }
    const i64 a = o.called - 2 * M->max_latency - 2 * M->max_frame, b = now();
    // requested in a state in which it makes no sense
    if (o.service == "engage" && p.was(arrived_goal, a, b)) { why = "state"; return true; }
    if (o.service == "route" && (p.was(planning, a, b) || p.was(waiting_for_engage, a, b) || p.was(driving, a, b))) {
      if (o.attempts == 0) { why = "state"; return true; }
    }
    if (o.service == "initialize" && o.attempts == 0 && (p.was(planning, a, b) || p.was(waiting_for_engage, a, b) || p.was(driving, a, b) || p.was(arrived_goal, a, b))) { why = "state"; return true; }
    if (!o.success_replied && !o.may_skip) break;      // a later operation cannot have been tried
  }
  return false;
}

void reported(const std::exception_ptr & e)
{
  try { std::rethrow_exception(e); }
  catch (const common::AutowareError & x) {
    std::string why;
    logf("reported: ", x.what());
    check(justified(why), "unjustified-error", std::string("a failure is reported without a reason: ") + x.what());
    probe("failure: " + why);
    return;
  }
  catch (const common::Error & x) {
    logf("reported: ", x.what());
    std::string why;
    check(M->may_fail_by_module, "error-type", std::string("a failure of Autoware is not reported as an error of Autoware: ") + x.what());
    probe("failure: module");
    return;
  }
  catch (const std::exception & x) { violation("error-type", std::string("a failure of Autoware is reported as ") + x.what()); }
  catch (...) { violation("error-type", "a failure of Autoware is reported as an unknown exception"); }
}

void begin_run(bool process)
{
  M = new Model;
  simros::reset_network();
  const bool faults = wchance(3, 4);
  for (auto k : {"rejects", "never_answers", "answers_late", "answer_lost", "request_lost"}) enable_fault(k, !process && faults && wchance(1, 3));
  for (auto k : {"thread_stall", "late_wakeup"}) enable_fault(k, faults && wchance(1, 5));
  M->stalls = fault_enabled("thread_stall") || fault_enabled("late_wakeup");
  M->may_lose = fault_enabled("request_lost");
  set_limits(12'000'000, 80000 * sec);
  set_race_detection(true);
  auto & n = simros::network();
  n.max_delay = M->max_latency = wchance(1, 3) ? 0 : range(W, 1, 60) * ms;
  n.parameters["initialize_duration"] = rclcpp::ParameterValue(static_cast<int>(30 + 30 * w(4)));
  n.parameters["initialize_localization"] = rclcpp::ParameterValue(static_cast<int>(1 + w(5)));
  n.parameters["sigterm_timeout"] = rclcpp::ParameterValue(static_cast<int>(1 + w(6)));
  n.parameters["architecture_type"] = rclcpp::ParameterValue(std::string(w(2) ? "awf/universe/20250130" : "awf/universe/20240605"));
  serve();
  M->peer.publish();
}

geometry_msgs::msg::Pose pose(double x) { geometry_msgs::msg::Pose p; p.position.x = x; p.orientation.w = 1; return p; }

const std::pair<const char *, int> modules[] = {{"LANE_CHANGE_LEFT", 1}, {"AVOIDANCE_RIGHT", 4}, {"CROSSWALK", 10}, {"TRAFFIC_LIGHT", 7}, {"INTERSECTION", 8}, {"NONE", 0}, {"NO_DRIVABLE_LANE", 19}};

struct Driver
{
  std::optional<FOA> foa;
  bool initialized = false;
  double serial = 1;
  std::string description;
  int last_kind = -1;
  bool few_modules = w(2);
  bool last_engage = false;
  i64 period(const std::string & s) { return s == "route" ? 10 * sec : s == "initialize" ? static_cast<i64>(simros::network().parameters["initialize_localization"].get<int>()) * sec : 3 * sec; }
  void expect(const std::string & service, const std::string & signature)
  {
  NoInstrument guard;      // templates shared with instrumented code must not switch threads here
    Op o;
    o.service = service;
    o.signature = signature;
    o.called = o.became_current = now();
    o.period = period(service);
    M->ops.push_back(o);
  }
  void create(int pid)
  {
    M->created = now();
    expect("stop", "change_to_stop");
    foa.emplace(pid);
    M->limit = M->created + static_cast<i64>(simros::network().parameters["initialize_duration"].get<int>()) * sec;
  }
  void call(const char * name, const std::string & service, const std::string & signature, const std::function<void()> & f)
  {
    expect(service, signature);
    logf("call ", name);
    description += std::string(" ") + name;
    try { f(); }
    catch (...) { M->failed = true; auto e = std::current_exception(); M->ops.pop_back(); reported(e); }
  }
  void cooperate()
  {
    // what the module announces now, seen by the simulator before it acts on it
    struct S { int module, uuid, command; double distance; };
    static std::vector<S> * used = new std::vector<S>;
    auto & ms_ = modules[few_modules ? w(2) : w(7)];
    tier4_rtc_msgs::msg::CooperateStatusArray a;
    a.stamp.sec = 1 + static_cast<int>(w(5));
    std::vector<S> all;
    for (u64 n = w(few_modules ? 7 : 4); n; --n) {
      S s{modules[w(3)].second, static_cast<int>(w(few_modules ? 2 : 4)), static_cast<int>(w(2)), static_cast<double>(range(W, -30, 30))};
      if (w(2)) s.module = ms_.second;
      all.push_back(s);
      tier4_rtc_msgs::msg::CooperateStatus x;
      x.module.type = s.module; x.uuid.uuid[0] = s.uuid; x.command_status.type = s.command; x.start_distance = -1000; x.finish_distance = s.distance;
      a.statuses.push_back(x);
    }
    simros::inject("/api/external/get/rtc_status", a);
    for (int i = 0; i < 3 && !M->failed; ++i) frame(M->max_latency + ms);
    if (M->failed) return;
    const int command = w(2);
    const S * chosen = nullptr;
    for (auto & s : all) {
      bool was = false;
      for (auto & u : *used) was = was || (u.module == s.module && u.uuid == s.uuid && u.command == s.command);
      if (!chosen && s.module == ms_.second && s.command != command && s.distance >= -20 && !was) chosen = &s;
    }
    description += " cooperate";
    logf("call cooperate ", ms_.first, chosen ? "" : " (impossible)");
    const auto before = M->ops.size();
    if (chosen) expect("cooperate", "cooperate " + std::to_string(a.stamp.sec) + ": " + std::to_string(chosen->module) + "/" + std::to_string(chosen->uuid) + "/" + std::to_string(command));
    try {
      foa->sendCooperateCommand(ms_.first, command ? "ACTIVATE" : "DEACTIVATE");
      check(chosen, "cooperate-invented", "a cooperate command is sent although no module asks for it");
      used->push_back(*chosen);
    } catch (const common::AutowareError &) { M->failed = true; while (M->ops.size() > before) M->ops.pop_back(); reported(std::current_exception()); }
    catch (const common::Error & x) {
      check(!chosen, "cooperate-refused", std::string("a cooperate command that a module asks for is refused: ") + x.what());
    }
  }
  void step()
  {
    int k = static_cast<int>(w(20));
    const auto asked = M->ops.size();
    auto & f = *foa;
    if (k < 4) {
      double x = serial++;
      if (initialized) { f.initialize(pose(x)); return; }      // only the first one counts
      initialized = true;
      call("initialize", "initialize", "initialize " + num(x), [&] { f.initialize(pose(x)); });
    } else if (k < 8) {
      double x = serial++;
      autoware_adapi_v1_msgs::msg::RouteOption option;
      option.allow_goal_modification = w(2);
      const int n = static_cast<int>(w(4));
      const std::string o = " option " + std::to_string(option.allow_goal_modification);
      switch (w(3)) {
        case 0: {
          std::vector<geometry_msgs::msg::Pose> v;
          std::string s = "route points " + num(x) + o;
          for (int i = 0; i < n; ++i) { v.push_back(pose(serial)); s += " " + num(serial++); }
          call("plan", "route", s, [&] { f.plan(pose(x), v, option); });
          break;
        }
        case 1: {
          std::vector<autoware_adapi_v1_msgs::msg::RouteSegment> v;
          std::string s = "route segments " + num(x) + o;
          for (int i = 0; i < n; ++i) { autoware_adapi_v1_msgs::msg::RouteSegment g; g.preferred.id = static_cast<int>(serial); s += " " + std::to_string(static_cast<int>(serial++)); v.push_back(g); }
          call("plan", "route", s, [&] { f.plan(pose(x), v, option); });
          break;
        }
        default: {
          std::vector<geometry_msgs::msg::PoseStamped> v;
          std::string s = "route points " + num(x) + o;
          for (int i = 0; i < n; ++i) { geometry_msgs::msg::PoseStamped p; p.pose = pose(serial); s += " " + num(serial++); v.push_back(p); }
          geometry_msgs::msg::PoseStamped p; p.pose = pose(x); v.push_back(p);
          const bool b = option.allow_goal_modification;
          call("plan", "route", s, [&] { f.plan(v, b); });
        }
      }
    } else if (k < 11) { if (!last_engage) call("engage", "engage", "engage", [&] { f.engage(); }); k = 8; }
    else if (k < 13) { if (last_kind != 11) call("clear", "clear", "clear_route", [&] { f.clearRoute(); }); k = 11; }
    else if (k < 15) { double v = serial++ + 0.5 + 100 * static_cast<double>(w(3)); call("velocity", "velocity", "velocity " + num(v), [&] { f.setVelocityLimit(v); }); }
    else if (k < 17) {
      auto & m = modules[w(7)];
      const bool enable = w(2);
      if (simros::network().packages.count("rtc_auto_mode_manager")) {
        try { f.requestAutoModeForCooperation(m.first, enable); violation("auto-mode", "the auto mode is requested although rtc_auto_mode_manager is present"); }
        catch (const common::Error &) {}
      } else if (last_kind != 15) call("auto_mode", "auto_mode", "auto_mode " + std::to_string(m.second) + " " + std::to_string(enable), [&] { f.requestAutoModeForCooperation(m.first, enable); });
      k = 15;
    } else if (k < 18) { if (last_kind != 17) call("enable", "enable", "enable_autoware_control", [&] { f.enableAutowareControl(); }); k = 17; }
    else for (u64 n = few_modules ? 1 + w(6) : 1; n && !M->failed; --n) cooperate();
    if (M->ops.size() > asked) last_engage = k == 8;
    if (M->ops.size() > asked && k != 8) last_kind = k;      // equal requests in a row could not be told apart
  }
  // one frame of the simulator
  void frame(i64 d)
  {
    M->last_frame = d;
    M->max_frame = std::max(M->max_frame, d);
    sim::sleep_ns(d);
    M->peer.note();
    if (M->peer.state() == driving) { M->engaged_once = true; if (M->engaged_since < 0) M->engaged_since = now(); }
    const i64 begin = now();
    try { foa->spinSome(); }
    catch (...) { on_error(std::current_exception()); return; }
    after_spin(begin);
  }
  std::function<void(const std::exception_ptr &)> special;
  void on_error(const std::exception_ptr & e)
  {
    if (special) { special(e); return; }
    M->failed = true;
    reported(e);
  }
  void observe()
  {
    bool engaged = false, engageable = false;
    try { engaged = foa->engaged(); engageable = foa->engageable(); }
    catch (...) { M->failed = true; reported(std::current_exception()); return; }
    auto & p = M->peer;
    const i64 a = now() - M->max_latency - 2 * M->last_frame - 10 * ms;
    check(!engaged || !engageable, "engaged-and-engageable", "Autoware is said to be engaged and to be waiting for engagement at once");
    if (engaged || engageable) {
      check(all_sent(), "ready-early", std::string("Autoware is said to be ") + (engaged ? "engaged" : "engageable") + " while a request is pending");
      check(M->stalls || p.was(engaged ? driving : waiting_for_engage, a, now()), "ready-wrong", std::string("Autoware is said to be ") + (engaged ? "engaged" : "engageable") + " in state " + state_names[p.state()]);
      probe(engaged ? "engaged" : "engageable");
    }
    if (!M->stalls && surely_sent(3 * sec) && now() - p.history.back().first > 3 * sec + M->max_latency + 2 * M->last_frame && !M->peer.disturbed) {
      if (p.state() == driving) check(engaged, "never-engaged", "Autoware drives and nothing is pending, but it is not said to be engaged");
      if (p.state() == waiting_for_engage) check(engageable, "never-engageable", "Autoware waits for engagement and nothing is pending, but it is not said to be engageable");
    }
  }
};

// what the simulator takes Autoware's state to be, for every combination of what Autoware reports
void states()
{
  begin_run(false);
  for (auto k : {"rejects", "never_answers", "answers_late", "answer_lost", "request_lost"}) enable_fault(k, false);
  auto & p = M->peer;
  Driver d;
  d.create(0);
  for (int i = 0; i < 100 && !M->failed && !surely_sent(sec); ++i) d.frame(100 * ms);
  for (u64 n = 1 + w(12); n && !M->failed; --n) {
    p.loc = static_cast<int>(w(6)); if (p.loc > 3) p.loc = 3;
    p.mode = static_cast<int>(w(5));
    p.route = static_cast<int>(w(5));
    p.enabled = w(2); p.available = w(2);
    p.arrived_at = now() - range(W, 0, 3) * 700 * ms;
    p.publish();
    for (u64 k = 3 + w(8); k && !M->failed; --k) {
      d.frame(M->max_latency + range(W, 1, 5) * 40 * ms);
      if (M->failed) break;
      d.observe();
    }
    if (M->failed || M->stalls) continue;
    const i64 a = now() - 10 * ms;
    const auto seen = d.foa->getLegacyAutowareState().value;
    p.note();
    check(p.was(static_cast<State>(static_cast<int>(seen)), a - 20 * ms, now()), "state-wrong", std::string("Autoware is in state ") + state_names[p.state()] + ", the simulator takes it to be in state " + state_names[static_cast<int>(seen)]);
    bool engaged = false, engageable = false;
    try { engaged = d.foa->engaged(); engageable = d.foa->engageable(); } catch (...) { M->failed = true; reported(std::current_exception()); break; }
    if (surely_sent(3 * sec)) {
      check(engaged == (seen == driving) || p.state() != static_cast<State>(static_cast<int>(seen)), "never-engaged", std::string("Autoware is said to be ") + (engaged ? "" : "not ") + "engaged in state " + state_names[p.state()]);
      check(engageable == (seen == waiting_for_engage) || p.state() != static_cast<State>(static_cast<int>(seen)), "never-engageable", std::string("Autoware is said to be ") + (engageable ? "" : "not ") + "engageable in state " + state_names[p.state()]);
    }
    state(hash_str("states", p.loc + 4 * (p.mode + 5 * (p.route + 5 * (p.enabled + 2 * p.available)))));
  }
  d.foa.reset();
  M->torn_down = true;
  probe("states of Autoware");
  nontrivial(hash_str("states", p.history.size() * 1000003 + static_cast<u64>(now())));
  sample("states of Autoware: " + std::to_string(p.history.size()) + " changes");
}

void c01()
{
  if (wchance(1, 10)) { states(); return; }
  begin_run(false);
  Driver d;
  auto & p = M->peer;
  if (wchance(1, 8)) simros::network().packages["rtc_auto_mode_manager"] = "/x";
  p.stuck = wchance(1, 8);
  if (wchance(1, 8)) { p.refuses = std::vector<const char *>{"stop", "initialize", "route", "engage", "velocity", "clear", "auto_mode", "enable"}[w(8)]; p.disturbed = true; count("fault:service_refuses"); }
  const bool absences = wchance(1, 4);
  if (absences) for (u64 n = 1 + w(2); n; --n) {
    static const char * s[] = {"stop", "enable", "clear", "initialize", "route", "engage", "velocity", "auto_mode", "cooperate"};
    const char * name = s[w(9)];
    if (p.absent[name].empty()) { make_absent(name, wchance(1, 2) ? 0 : now() + range(W, 0, 20) * sec, wchance(1, 3) ? range(W, 200, 400) * sec : range(W, 1, 170) * sec); p.disturbed = true; }
  }
  d.create(0);
  const bool sane = wchance(3, 4);
  const u64 n = 1 + w(8);
  u64 done = 0;
  if (sane) d.special = nullptr;
  // emergencies and manoeuvres reported by Autoware
  const bool emergencies = wchance(1, 6);
  i64 next = now();
  std::vector<int> plan;
  bool engaged_seen = false, driving_route = false;
  for (u64 i = 0; i < n && !M->failed; ++i) {
    if (sane && i < 3 && d.last_kind < 100) {
      // bring Autoware up the way a scenario does
      auto & f = *d.foa;
      double x = d.serial++;
      if (i == 0) { d.initialized = true; d.call("initialize", "initialize", "initialize " + num(x), [&] { f.initialize(pose(x)); }); }
      if (i == 1) { autoware_adapi_v1_msgs::msg::RouteOption o; d.call("plan", "route", "route points " + num(x) + " option 0", [&] { f.plan(pose(x), std::vector<geometry_msgs::msg::Pose>{}, o); }); }
      if (i == 2) { d.call("engage", "engage", "engage", [&] { f.engage(); }); d.last_engage = true; }
    } else d.step();
    ++done;
    for (u64 k = w(6); k && !M->failed; --k) {
      d.frame(range(W, 1, 20) * 25 * ms);
      if (M->failed) break;
      d.observe();
      if (emergencies && wchance(1, 4)) {
        tier4_external_api_msgs::msg::Emergency e;
        e.emergency = w(2);
        simros::inject("/api/external/get/emergency", e);
        bool thrown = false;
        d.special = [&](const std::exception_ptr & x) {
          try { std::rethrow_exception(x); }
          catch (const common::AutowareError &) { M->failed = true; reported(x); }
          catch (const common::Error &) { check(e.emergency, "emergency-invented", "an emergency is reported although there is none"); thrown = true; probe("emergency"); }
        };
        for (int j = 0; j < 3 && !M->failed && !thrown; ++j) d.frame(M->max_latency + 10 * ms);
        d.special = nullptr;
        if (!M->failed) check(thrown == e.emergency, "emergency-swallowed", "Autoware reports an emergency and the scenario does not learn about it");
      }
      if (wchance(1, 12)) {
        autoware_adapi_v1_msgs::msg::MrmState m;
        static const char * sn[] = {"UNKNOWN", "NORMAL", "MRM_OPERATING", "MRM_SUCCEEDED", "MRM_FAILED"};
        static const char * bn[] = {"UNKNOWN", "NONE", "EMERGENCY_STOP", "COMFORTABLE_STOP", "PULL_OVER"};
        m.state = w(5); m.behavior = w(5);
        simros::inject("/api/fail_safe/mrm_state", m);
        for (int j = 0; j < 3 && !M->failed; ++j) d.frame(M->max_latency + 10 * ms);
        if (!M->failed) check(d.foa->minimum_risk_maneuver_state == sn[m.state] && d.foa->minimum_risk_maneuver_behavior == bn[m.behavior], "mrm", "Autoware reports the manoeuvre " + std::string(sn[m.state]) + "/" + bn[m.behavior] + ", the simulator says " + d.foa->minimum_risk_maneuver_state + "/" + d.foa->minimum_risk_maneuver_behavior);
      }
    }
  }
  (void)next; (void)engaged_seen; (void)driving_route;
  // Autoware disturbs nothing any more in some runs; everything must come to an end in all of them
  if (wchance(3, 4)) {
    for (auto k : {"request_lost"}) enable_fault(k, fault_enabled(k) && w(2));
    const i64 begin = now();
    i64 bound = 20 * sec + std::max<i64>(0, M->limit - now());
    for (std::size_t i = M->current; i < M->ops.size(); ++i) { bound += 190 * sec + 65 * M->ops[i].period; }
    if (M->stalls) bound *= 3;
    bool engage_pending = false;
    for (auto & o : M->ops) if (waits_for_state(o)) engage_pending = true;
    i64 since = now();
    std::size_t cur = M->current;
    int att = -1;
    const i64 idle = 620 * sec + std::max<i64>(0, M->limit - now()) + (M->stalls ? 60 * sec : 0);
    while (!M->failed && now() - begin < bound) {
      d.frame(std::min<i64>(1000, 50 + (now() - begin) / (20 * ms)) * ms);
      if (M->failed) break;
      d.observe();
      if (M->failed) break;
      if (surely_sent(3 * sec) && (p.stuck ? now() > M->limit + 10 * sec : now() - p.history.back().first > 5 * sec)) break;
      if (cur != M->current || (M->current < M->ops.size() && att != M->ops[M->current].attempts)) { cur = M->current; att = M->current < M->ops.size() ? M->ops[M->current].attempts : 0; since = now(); }
      if (now() - since > idle) break;
      // stuck in a state: the time limit must end it
      if (!M->stalls && M->current < M->ops.size()) {
        auto & o = M->ops[M->current];
        const State s = p.state();
        const bool waiting = o.timely && ((o.service == "initialize" && s == initializing) || (o.service == "route" && (s == waiting_for_route || s == planning)) || (o.service == "engage" && s == waiting_for_engage));
        if (waiting && !released() && now() - p.history.back().first > 5 * sec)
          check(now() < std::max(M->limit, o.timely_at) + 5 * sec + 2 * M->max_frame, "no-time-limit", std::string("Autoware stays ") + state_names[s] + " long after the time limit and no failure is reported");
        // a service that never appears
        if (!waits_for_state(o) && absent_for(o, 200 * sec + 2 * o.period) && o.became_current < now() - 200 * sec - 2 * o.period && o.attempts == 0)
          violation("no-availability-limit", "a service is not available for more than 200 s and no failure is reported");
      }
    }
    if (!M->failed && !released() && !p.stuck) {
      std::size_t i = M->current;
      while (i < M->ops.size() && (M->ops[i].timely || M->ops[i].success_replied || M->ops[i].may_skip)) ++i;
      check(i >= M->ops.size() || (now() - begin < bound && now() - since <= idle), "no-progress", "the request " + (i < M->ops.size() ? M->ops[i].signature : "") + " is neither completed nor reported as failed");
    }
    (void)engage_pending; (void)since;
  }
  if (M->failed) {
    // the failure stays visible, and nothing more is sent
    const u64 sent = M->total_attempts;
    for (u64 k = w(4); k; --k) {
      sim::sleep_ns(range(W, 1, 40) * 100 * ms);
      bool again = false;
      try { if (w(2)) d.foa->spinSome(); else if (w(2)) (void)d.foa->engaged(); else { d.foa->setVelocityLimit(1); } }
      catch (const common::Error &) { again = true; }
      check(again, "failure-forgotten", "a failure was reported once, then the simulator goes on as if nothing had happened");
    }
    sim::sleep_ns(10 * sec);
    check(M->total_attempts == sent, "request-after-failure", "a request is sent after a failure was reported");
    probe("failed");
  } else probe("succeeded");
  if (wchance(1, 8)) { simros::network().ok = false; sim::log("ROS shuts down"); }
  M->tearing_down = true;
  M->tear_down_at = now();
  d.foa.reset();
  const i64 took = now() - M->tear_down_at;
  M->torn_down = true;
  check(took <= 25 * sec + (M->stalls ? 60 * sec : 0), "slow-destruction", "the destruction takes " + std::to_string(took / sec) + " s");
  sim::sleep_ns(40 * sec);
  state(M->shape % 1000003);
  nontrivial(hash_str(d.description, M->shape));
  sample(d.description + "; " + std::to_string(M->total_attempts) + " requests, " + std::to_string(M->rejected) + " rejected" + (M->failed ? ", failed" : ""));
}

void c03()
{
  begin_run(true);
  auto & os = *new simos::Os;
  const bool faults = wchance(3, 4);
  for (auto k : {"eintr", "sigchld_taken_by_other_thread"}) enable_fault(k, faults && wchance(1, 3));
  auto & launcher = os.spawn(true);
  const int pid = launcher.pid;
  if (w(2)) launcher.pgrp = 1000;         // it did not make itself the leader of a process group
  auto & sibling = os.spawn(false);
  const int sibling_pid = sibling.pid;
  const i64 grace = static_cast<i64>(simros::network().parameters["sigterm_timeout"].get<int>()) * sec;
  os.on_foreign = [](const std::string & what) { violation("foreign-process", what); };
  // how the launcher takes the request to stop
  const int manner = static_cast<int>(w(4));      // at once, within the grace period, long after it, never
  const i64 reaction = manner == 0 ? range(W, 0, 5) * ms : manner == 1 ? range(W, 0, grace / ms * 8 / 10) * ms : manner == 2 ? grace + range(W, 500, 20000) * ms : -1;
  i64 interrupted_at = -1, killed_at = -1;
  os.on_signal = [&, pid](simos::Process & p, int sig) {
    check(p.pid == pid, "foreign-process", "a signal for another process");
    if (sig == SIGINT) {
      if (interrupted_at < 0) interrupted_at = now();
      if (reaction >= 0) { os.exit_later(pid, reaction, 0); if (reaction > grace) p.ours = true; }
    } else if (sig != SIGCONT) os.die(pid, sig);
  };
  Driver d;
  d.create(pid);
  const bool dies = wchance(1, 2);
  const i64 death = now() + range(W, 0, 8000) * ms;
  const bool by_signal = w(2);
  const int code = by_signal ? std::vector<int>{SIGSEGV, SIGABRT, SIGKILL, SIGTERM, SIGINT}[w(5)] : static_cast<int>(w(4) * 37 % 256);
  // its exit status may be taken by another part of the program, or be discarded because SIGCHLD is ignored
  const bool taken = dies && wchance(1, 5);
  if (taken) os.on_foreign = [](const std::string &) {};
  if (dies) at(death, [&, pid, taken] {
    if (!os.alive(pid)) return;
    os.die(pid, by_signal ? code : code << 8);
    if (taken) { auto & x = os.table.at(pid); x.state = simos::Process::REAPED; x.reaped_at = now(); count("fault:status_taken"); }
  });
  if (wchance(1, 4)) { at(now() + range(W, 0, 4000) * ms, [&, pid] { if (os.alive(pid)) os.stop(pid); }); if (!dies || w(2)) at(now() + 4500 * ms, [&, pid] { if (os.alive(pid)) os.cont(pid); }); count("fault:process_stops"); }
  if (wchance(1, 3)) { at(now() + range(W, 0, 20000) * ms, [&, sibling_pid] { if (os.alive(sibling_pid)) os.die(sibling_pid, 0); }); count("fault:sibling_dies"); }
  i64 reported_at = -1;
  d.special = [&](const std::exception_ptr & e) {
    try { std::rethrow_exception(e); }
    catch (const common::AutowareError & x) {
      logf("reported: ", x.what());
      check(!os.alive(pid), "death-invented", std::string("Autoware is reported to have ended but it runs: ") + x.what());
      check(reported_at < 0, "death-twice", "the end of Autoware is reported twice");
      if (!taken) check(std::string(x.what()).find(std::to_string(code)) != std::string::npos, "death-status", "Autoware ended with " + std::string(by_signal ? "signal " : "exit code ") + std::to_string(code) + ", reported is: " + x.what());
      reported_at = now();
      probe("end of Autoware reported");
    }
    catch (const std::exception & x) { violation("error-type", std::string("the end of Autoware is reported as ") + x.what()); }
  };
  const u64 frames = w(60);
  for (u64 i = 0; i < frames; ++i) {
    const bool dead_before = !os.alive(pid) && reported_at < 0;
    if (wchance(1, 20)) { double v = d.serial++ + 0.5; d.call("velocity", "velocity", "velocity " + num(v), [&] { d.foa->setVelocityLimit(v); }); }
    d.frame(range(W, 1, 20) * 20 * ms);
    if (dead_before) check(reported_at >= 0, "death-swallowed", "Autoware has ended and the scenario does not learn about it");
  }
  const bool alive = os.alive(pid);
  const bool reaped = os.table.at(pid).state == simos::Process::REAPED;
  if (wchance(1, 8)) simros::network().ok = false;
  sim::log("destruction");
  if (wchance(1, 6)) { at(now() + range(W, 0, grace / ms) * ms, [&, sibling_pid] { if (os.alive(sibling_pid)) os.die(sibling_pid, 0); }); count("fault:sibling_dies"); }
  const i64 begin = now();
  i64 died = -1;
  (void)died;
  on_deadlock = [&] { violation("destruction-hangs", "Autoware does not end on its own and the destruction waits for it forever"); };
  d.foa.reset();
  const i64 took = now() - begin;
  M->torn_down = true;
  auto & p = os.table.at(pid);
  if (alive && (p.died_at < 0 || !p.signals.empty() || p.died_at > begin + 100 * ms + (M->stalls ? 30 * sec : 0))) {
    check(interrupted_at >= 0, "not-interrupted", "Autoware was not asked to end");
    check(std::count(p.signals.begin(), p.signals.end(), SIGINT) == 1, "interrupted-twice", "Autoware is asked to end more than once");
    if (auto k = std::find(p.signals.begin(), p.signals.end(), SIGKILL); k != p.signals.end()) { probe("killed"); killed_at = now(); check(begin + grace <= now(), "killed-early", "Autoware is killed after " + std::to_string((now() - begin) / ms) + " ms, it has " + std::to_string(grace / ms)); }
    else probe("ended on its own");
    if (reaction >= 0 && reaction < grace && !M->stalls && !fault_enabled("sigchld_taken_by_other_thread")) check(killed_at < 0, "killed-needlessly", "Autoware is killed although it ended within the grace period");
    check(p.signals.empty() || p.signals[0] == SIGINT, "not-interrupted", "Autoware is killed without being asked to end");
  }
  check(p.state == simos::Process::REAPED, "zombie", "the Autoware process is left behind");
  if (reaped) check(p.signals.empty() || true, "", "");
  const i64 service = 190 * sec + 65 * 3 * sec * static_cast<i64>(M->ops.size());
  (void)service;
  state(hash_str(d.description, manner * 16 + dies * 8 + (reported_at >= 0) * 4 + (killed_at >= 0) * 2 + reaped));
  // the process itself is given up after the grace period; what remains is the queue of requests
  check(p.reaped_at >= 0 && p.reaped_at - begin <= grace + 2 * sec + (M->stalls ? 60 * sec : 0), "slow-termination", "it takes " + std::to_string((p.reaped_at - begin) / ms) + " ms to end Autoware, the grace period is " + std::to_string(grace / ms) + " ms");
  check(took <= grace + 900 * sec * (M->stalls ? 3 : 1), "slow-destruction", "the destruction takes " + std::to_string(took / sec) + " s");
  nontrivial(hash_str(d.description, manner * 1000003ull + (dies ? death / ms + code * 7919 : 0) + reaction / ms * 31));
  sample(std::string(dies ? (by_signal ? "dies of signal " : "exits with ") + std::to_string(code) : "lives") + (alive ? (reaction < 0 ? ", ignores SIGINT" : ", ends " + std::to_string(reaction / ms) + " ms after SIGINT") : "") + ", " + std::to_string(frames) + " frames" + d.description);
}
}  // namespace

int main(int argc, char ** argv)
{
  return driver_main(argc, argv, {
    {"C01", c01,
     "workload: 1-8 requests to Autoware (initial pose, route by points or segments, engage, clear, velocity limit, cooperation, control) at random frames, sane or arbitrary order, with emergencies and manoeuvre reports, against a reactive model of Autoware's API; "
     "faults: requests rejected, ignored, answered late, answers lost, requests lost, services absent for seconds to minutes, Autoware stuck, message latency, threads stalled; non-trivial: every run sends requests; distinct by calls and attempts",
     {"concealer: FieldOperatorApplication, Service, Subscriber, TaskQueue, LegacyAutowareState, PathWithLaneId", "scenario_simulator_exception", "get_parameter"},
     {"Autoware (reactive model behind topics and services)", "rclcpp (simros)", "scheduler, clocks, sleep"}},
    {"C03", c03,
     "workload: an Autoware process that lives, stops, exits or is killed at any time, 0-60 frames, then destruction; it takes SIGINT at once, within the grace period, after it or never; another child of the program may die; "
     "faults: waits interrupted, SIGCHLD taken by another thread, threads stalled; non-trivial: every run; distinct by behaviour and times",
     {"concealer: FieldOperatorApplication (process supervision), TaskQueue, Service"}, {"process table, signals, waits (simulated)", "Autoware (reactive model)", "rclcpp (simros)", "scheduler, clocks, sleep"}},
  });
}
