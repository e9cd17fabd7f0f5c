// C04: what Autoware is told about the vehicle, and what it commands (concealer::AutowareUniverse).
#include <sim/kernel/kernel.hpp>
#include <concealer/autoware_universe.hpp>
#include <Eigen/Geometry>
#include <geometry_msgs/msg/transform_stamped.hpp>
#include <sensor_msgs/msg/imu.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <cmath>
#include <memory>
#include <optional>
#include <thread>

using namespace sim;

namespace
{
using U = concealer::AutowareUniverse;
// a value and when it can have been in force
struct Value { double id; i64 from, to = INT64_MAX; };       // from: the call that sets it begins; to: the call that sets the next one has ended
struct Track
{
  std::vector<Value> values;
  void begin(double id) { values.push_back({id, now()}); }
  void end() { if (values.size() > 1) values[values.size() - 2].to = now(); }
  // was `id` in force at some time of [a, b]?
  bool was(double id, i64 a, i64 b) const
  {
    for (auto & v : values) if (v.id == id && v.from <= b && v.to >= a) return true;
    return false;
  }
};
struct Topic { i64 last = -1; u64 n = 0; i64 longest = 0; };
struct Model
{
  Track pose, twist, accel, control, gear, turn, path;
  std::map<std::string, Topic> topics;
  i64 created = 0, constructed = -1, gone = -1;
  bool stalls = false, localization = false;
  i64 slack = 0;
  double last_control = -1, last_gear = -1;
  // every setting of the control mode: it takes effect between `from` and `to`
  struct Mode { int mode; i64 from, to; };
  std::vector<Mode> modes{{1, 0, 0}};
  bool mode_was(int mode, i64 a, i64 b) const
  {
    for (auto & s : modes) {
      if (s.mode != mode || s.from > b) continue;
      bool replaced = false;
      for (auto & t : modes) replaced = replaced || (t.from > s.to && t.to < a);
      if (!replaced) return true;
    }
    return false;
  }
};
// the orientation that goes with the pose of number k
double yaw_of(double k) { return k * 0.1; }
Model * M;
std::string str(double v) { std::ostringstream o; o.precision(12); o << v; return o.str(); }

void seen(const std::string & topic)
{
  check(M->gone < 0, "published-after-destruction", topic + " is published after the destruction");
  auto & t = M->topics[topic];
  if (t.last >= 0) t.longest = std::max(t.longest, now() - t.last);
  t.last = now();
  ++t.n;
}
// the value published on `topic` was the current one since the last message or shortly before now
void current(const std::string & topic, const Track & track, double id, i64 since)
{
  bool known = id == 0;
  for (auto & v : track.values) known = known || v.id == id;
  check(known, "unknown-value", topic + " carries " + str(id) + ", which nobody set");
  if (simros::network().publish_failures) since = 0;         // the thread that receives commands has ended; rethrow() tells
  check(track.was(id, since, now()), "stale-value", topic + " carries " + str(id) + " at " + str(now() / 1e6) + " ms, which was replaced long ago");
}
i64 since(const std::string & topic) { auto & t = M->topics[topic]; return (t.last < 0 ? M->created : t.last) - M->slack; }
template <typename P> void pose_is(const std::string & topic, const P & p)
{
  const double k = p.position.x;
  check(p.position.y == k * 2 && p.position.z == k * 3 && std::abs(p.orientation.x) + std::abs(p.orientation.y) < 1e-9 && (k == 0 || (std::abs(p.orientation.z - std::sin(yaw_of(k) / 2)) < 1e-9 && std::abs(p.orientation.w - std::cos(yaw_of(k) / 2)) < 1e-9)), "torn-value", topic + " carries a pose that was never set: " + str(p.position.x) + " " + str(p.position.y) + " " + str(p.position.z));
  current(topic, M->pose, k, since(topic));
}
template <typename T> void twist_is(const std::string & topic, const T & t)
{
  const double k = t.linear.x;
  check(t.linear.y == k * 2 && t.linear.z == k * 3 && t.angular.x == k * 4 && t.angular.y == k * 5 && t.angular.z == k * 6, "torn-value", topic + " carries a twist that was never set");
  current(topic, M->twist, k, since(topic));
}
template <typename H> void stamped(const std::string & topic, const H & stamp)
{
  const i64 t = rclcpp::Time(stamp).nanoseconds() - wall_offset();
  check(t <= now() && t >= now() - M->slack - 1 * ms, "stamp", topic + " is stamped " + str((now() - t) / 1e6) + " ms off");
}

void watch()
{
  const bool l = M->localization;
  const std::string acceleration = l ? "/localization/acceleration" : "/simulation/debug/localization/acceleration",
                    odometry = l ? "/localization/kinematic_state" : "/simulation/debug/localization/kinematic_state",
                    pose = l ? "/simulation/debug/localization/pose_estimator/pose_with_covariance" : "/localization/pose_estimator/pose_with_covariance",
                    frame = l ? "base_link" : "base_link_ground_truth";
  for (auto & t : {acceleration, odometry, pose, std::string("/vehicle/status/steering_status"), std::string("/vehicle/status/gear_status"), std::string("/vehicle/status/control_mode"), std::string("/vehicle/status/velocity_status"), std::string("/vehicle/status/turn_indicators_status"), std::string("/tf")}) M->topics[t];
  simros::observe<U::AccelWithCovarianceStamped>(acceleration, [acceleration](const auto & m) {
    const auto & a = m.accel.accel;
    check(a.linear.y == a.linear.x * 2 && a.angular.z == a.linear.x * 6 && a.linear.z == a.linear.x * 3, "torn-value", acceleration + " carries an acceleration that was never set");
    current(acceleration, M->accel, a.linear.x, since(acceleration));
    stamped(acceleration, m.header.stamp);
    seen(acceleration);
  });
  simros::observe<U::Odometry>(odometry, [odometry](const auto & m) {
    pose_is(odometry, m.pose.pose);
    twist_is(odometry, m.twist.twist);
    check(m.header.frame_id == "map", "frame", "odometry is in frame " + m.header.frame_id);
    stamped(odometry, m.header.stamp);
    seen(odometry);
  });
  simros::observe<U::PoseWithCovarianceStamped>(pose, [pose](const auto & m) {
    pose_is(pose, m.pose.pose);
    stamped(pose, m.header.stamp);
    seen(pose);
  });
  simros::observe<geometry_msgs::msg::TransformStamped>("/tf", [frame](const auto & m) {
    check(m.header.frame_id == "map" && m.child_frame_id == frame, "frame", "transform from " + m.header.frame_id + " to " + m.child_frame_id);
    const auto & t = m.transform.translation;
    const auto & o = m.transform.rotation;
    check(t.y == t.x * 2 && t.z == t.x * 3 && (t.x == 0 || (std::abs(o.z - std::sin(yaw_of(t.x) / 2)) < 1e-9 && std::abs(o.w - std::cos(yaw_of(t.x) / 2)) < 1e-9 && std::abs(o.x) + std::abs(o.y) < 1e-9)), "torn-value", "/tf carries a pose that was never set");
    current("/tf", M->pose, t.x, since("/tf") - 20 * ms - M->slack);
    stamped("/tf", m.header.stamp);
    seen("/tf");
  });
  simros::observe<U::VelocityReport>("/vehicle/status/velocity_status", [](const auto & m) {
    const double k = m.longitudinal_velocity;
    check(std::abs(m.lateral_velocity - k * 2) < 1e-3 && std::abs(m.heading_rate - k * 6) < 1e-3, "torn-value", "velocity report that was never set");
    current("/vehicle/status/velocity_status", M->twist, k, since("/vehicle/status/velocity_status"));
    stamped("/vehicle/status/velocity_status", m.header.stamp);
    seen("/vehicle/status/velocity_status");
  });
  simros::observe<U::SteeringReport>("/vehicle/status/steering_status", [](const auto & m) {
    current("/vehicle/status/steering_status", M->control, m.steering_tire_angle, since("/vehicle/status/steering_status"));
    stamped("/vehicle/status/steering_status", m.stamp);
    seen("/vehicle/status/steering_status");
  });
  simros::observe<U::GearReport>("/vehicle/status/gear_status", [](const auto & m) {
    current("/vehicle/status/gear_status", M->gear, m.report, since("/vehicle/status/gear_status"));
    seen("/vehicle/status/gear_status");
  });
  simros::observe<U::TurnIndicatorsReport>("/vehicle/status/turn_indicators_status", [](const auto & m) {
    const std::string t = "/vehicle/status/turn_indicators_status";
    check(m.report != 0, "turn-indicator", "the turn indicator report carries the value of NO_COMMAND instead of DISABLE");
    if (m.report == U::TurnIndicatorsReport::DISABLE) check(M->turn.was(0, since(t), now()) || M->turn.was(U::TurnIndicatorsReport::DISABLE, since(t), now()), "stale-value", t + " reports DISABLE although an indicator is commanded");
    else current(t, M->turn, m.report, since(t));
    seen(t);
  });
  simros::observe<U::ControlModeReport>("/vehicle/status/control_mode", [](const auto & m) {
    const std::string t = "/vehicle/status/control_mode";
    check(M->mode_was(m.mode, simros::network().publish_failures ? 0 : since(t), now()), "control-mode", "control mode " + std::to_string(m.mode) + " is reported, which is not the one in force");
    seen("/vehicle/status/control_mode");
  });
}

void drive()
{
  M = new Model;
  simros::reset_network();
  auto & n = simros::network();
  const bool faults = wchance(2, 3);
  for (auto k : {"thread_stall", "late_wakeup"}) enable_fault(k, faults && wchance(1, 4));
  enable_fault("publish_fails", faults && wchance(1, 4));
  M->stalls = fault_enabled("thread_stall") || fault_enabled("late_wakeup");
  M->slack = M->stalls ? 3600 * sec : 10 * ms;
  M->localization = wchance(1, 2);
  set_limits(3'000'000, 8000 * sec);
  set_race_detection(true);
  const i64 latency = wchance(1, 2) ? 0 : range(W, 1, 40) * ms;
  n.max_delay = latency;
  n.parameters["architecture_type"] = rclcpp::ParameterValue(std::string(w(2) ? "awf/universe/20250130" : "awf/universe/20240605"));
  // parameters of the noise model: any seed with no error is no noise
  for (auto t : {"/localization/kinematic_state", "/simulation/debug/localization/kinematic_state", "/vehicle/status/velocity_status", "/localization/pose_estimator/pose_with_covariance", "/simulation/debug/localization/pose_estimator/pose_with_covariance"})
    n.parameters[std::string(t) + ".seed"] = rclcpp::ParameterValue(static_cast<int>(1 + w(1000)));
  for (auto t : {&M->pose, &M->twist, &M->accel, &M->control, &M->gear, &M->turn, &M->path}) t->begin(0);
  watch();
  const int frames = 1 + static_cast<int>(w(30));
  const i64 step = std::vector<i64>{33 * ms, 50 * ms, 10 * ms, 100 * ms}[w(4)];
  M->created = now();
  u64 shape = M->localization, requests = 0, answered = 0;
  bool failure_reported = false;
  std::vector<double> paths;
  {
    std::optional<U> universe;
    universe.emplace(M->localization);
    M->constructed = now();
    double serial = 0;
    int manual = 0;
    auto command = [&](int what) {
      // Autoware commands: `was` must not claim a value is too old before the message can have arrived
      const double id = ++serial;
      i64 arrival = latency + (M->stalls ? 3600 * sec : 30 * ms);
      if (what == 0) {
        autoware_control_msgs::msg::Control c;
        c.longitudinal.velocity = static_cast<float>(id * 2); c.longitudinal.acceleration = static_cast<float>(id * 3); c.lateral.steering_tire_angle = static_cast<float>(id);
        M->control.begin(id);
        if (M->control.values.size() > 1) M->control.values[M->control.values.size() - 2].to = now() + arrival;
        simros::inject("/control/command/control_cmd", c);
      } else if (what == 1) {
        U::GearCommand g;
        g.command = static_cast<std::uint8_t>(std::vector<int>{2, 20, 21, 22, 1}[w(5)]);
        M->gear.begin(g.command);
        M->gear.values[M->gear.values.size() - 2].to = now() + arrival;
        simros::inject("/control/command/gear_cmd", g);
      } else if (what == 2) {
        U::TurnIndicatorsCommand t;
        t.command = static_cast<std::uint8_t>(w(4));
        M->turn.begin(t.command);
        M->turn.values[M->turn.values.size() - 2].to = now() + arrival;
        simros::inject("/control/command/turn_indicators_cmd", t);
      } else {
        std::vector<std::int64_t> ids;
        auto make = [&](auto message) {
          for (u64 p = w(4); p; --p) {
            decltype(message.points[0]) point = message.points.emplace_back();
            for (u64 k = w(3); k; --k) { point.lane_ids.push_back(static_cast<std::int64_t>(id * 100 + static_cast<double>(ids.size()))); ids.push_back(point.lane_ids.back()); }
          }
          if (message.points.empty()) { message.points.emplace_back(); message.points.back().lane_ids.push_back(static_cast<std::int64_t>(id * 100)); ids.push_back(static_cast<std::int64_t>(id * 100)); }
          simros::inject("/planning/scenario_planning/lane_driving/behavior_planning/path_with_lane_id", message);
        };
        if (n.parameters["architecture_type"].get<std::string>() >= "awf/universe/20250130") make(autoware_internal_planning_msgs::msg::PathWithLaneId());
        else make(tier4_planning_msgs::msg::PathWithLaneId());
        if (ids.empty()) ids.push_back(0);
        M->path.begin(static_cast<double>(ids.front()));
        M->path.values[M->path.values.size() - 2].to = now() + arrival;
      }
    };
    auto request_mode = [&] {
      auto r = std::make_shared<U::ControlModeCommand::Request>();
      r->mode = static_cast<std::uint8_t>(wchance(1, 2) ? 1 : w(6));
      const int mode = r->mode;
      const auto set = M->modes.size();
      if (mode == 1) M->modes.push_back({1, now(), INT64_MAX});
      ++requests;
      simros::peer_call<U::ControlModeCommand>("/control/control_mode_request", *r, [&, mode, set](const auto & response) {
        NoInstrument q;
        ++answered;
        if (mode == 1) M->modes[set].to = now();
        check(response.success == (mode == 1), "control-mode-answer", "a request of control mode " + std::to_string(mode) + " is answered with " + (response.success ? "success" : "failure"));
      });
    };
    for (int f = 0; f < frames; ++f) {
      const double k = f + 1;
      const auto what = w(8);
      if (what & 1) {
        geometry_msgs::msg::Pose p; p.position.x = k; p.position.y = k * 2; p.position.z = k * 3; p.orientation.z = std::sin(yaw_of(k) / 2); p.orientation.w = std::cos(yaw_of(k) / 2);
        { NoInstrument q; M->pose.begin(k); }
        universe->current_pose.store(p);
        NoInstrument q; M->pose.end();
      }
      if (what & 2) {
        geometry_msgs::msg::Twist t; t.linear.x = k; t.linear.y = k * 2; t.linear.z = k * 3; t.angular.x = k * 4; t.angular.y = k * 5; t.angular.z = k * 6;
        { NoInstrument q; M->twist.begin(k); }
        universe->current_twist.store(t);
        NoInstrument q; M->twist.end();
      }
      if (what & 4) {
        geometry_msgs::msg::Accel t; t.linear.x = k; t.linear.y = k * 2; t.linear.z = k * 3; t.angular.z = k * 6;
        { NoInstrument q; M->accel.begin(k); }
        universe->current_acceleration.store(t);
        NoInstrument q; M->accel.end();
      }
      { NoInstrument q; for (u64 c = w(3); c; --c) { auto kind = static_cast<int>(w(5)); if (kind == 4) request_mode(); else command(kind); shape = shape * 7 + kind; } }
      if (wchance(1, 6)) {
        std::size_t set;
        { NoInstrument q; set = M->modes.size(); M->modes.push_back({4, now(), INT64_MAX}); ++manual; }
        universe->setManualMode();
        { NoInstrument q; M->modes[set].to = now(); }
      }
      sim::sleep_ns(step);
      // what Autoware commands
      const i64 asked = now();
      const auto [velocity, acceleration, steering, sign, gear] = universe->getVehicleCommand();
      const auto lanelets = universe->getRouteLanelets();
      const i64 asked_mode = now();
      const auto mode = universe->getControlModeReport().mode;
      {
        NoInstrument q;
        check(velocity == steering * 2 && acceleration == steering * 3, "torn-value", "the vehicle command mixes messages: velocity " + str(velocity) + ", steering " + str(steering));
        current("the vehicle command", M->control, steering, asked);
        check(steering >= M->last_control, "older-command", "the vehicle command goes back to an older one");
        M->last_control = steering;
        current("the vehicle command", M->gear, gear, asked);
        const double expected = gear == U::GearCommand::REVERSE || gear == U::GearCommand::REVERSE_2 ? -1 : gear == U::GearCommand::NONE ? 0 : 1;
        check(sign == expected, "gear-sign", "gear " + std::to_string(gear) + " has sign " + str(sign));
        const double first = lanelets.empty() ? 0 : static_cast<double>(lanelets.front());
        current("the route", M->path, first, asked);
        for (std::size_t i = 0; i < lanelets.size(); ++i) check(first + static_cast<double>(i) == static_cast<double>(lanelets[i]), "torn-value", "the lanelets of the route are out of order or incomplete");
        check(M->mode_was(mode, asked_mode, now()), "control-mode", "control mode " + std::to_string(mode) + " is not the one in force");
      }
      // errors of the spinner surface, unchanged, and only then
      const bool failed_long_ago = n.publish_failures && n.publish_failed_at + (M->stalls ? 3600 * sec : 20 * ms) < now();
      try {
        universe->rethrow();
        check(!failed_long_ago, "error-swallowed", "publishing failed ('" + n.publish_failure + "') and rethrow() does not report it");
      } catch (const std::exception & e) {
        NoInstrument q;
        check(n.publish_failures > 0 && n.publish_failure == e.what(), "wrong-error", std::string("rethrow() reports '") + e.what() + "'");
        failure_reported = true;
        break;
      } catch (...) { violation("wrong-error", "rethrow() throws something that is not the error that happened ('" + n.publish_failure + "')"); }
    }
    // an undisturbed vehicle publishes at the rates Autoware needs
    if (!M->stalls && !n.publish_failures) {
      const i64 lived = now() - M->constructed;
      for (auto & [t, x] : M->topics) {
        const bool vehicle = t.find("/vehicle/") == 0;
        const i64 period = t == "/tf" ? 5 * ms : vehicle ? 33 * ms : 20 * ms;
        const i64 due = lived - (t == "/tf" ? 20 * ms : 0);
        check(x.longest <= period + 8 * ms, "rate", t + " is silent for " + str(x.longest / 1e6) + " ms");
        check(static_cast<i64>(x.n) >= due / period - 2 - due / (period * 10) && static_cast<i64>(x.n) <= lived / period + 2, "rate", t + " is published " + std::to_string(x.n) + " times in " + str(lived / 1e6) + " ms");
      }
      if (requests) { sim::sleep_ns(latency * 2 + 50 * ms); check(answered == requests || n.publish_failures, "control-mode-answer", "a request of a control mode is not answered"); }
    }
    const i64 begin = now();
    universe.reset();
    check(now() - begin <= (M->stalls ? 3600 * sec : 100 * ms), "slow-destruction", "the destruction takes " + str((now() - begin) / 1e6) + " ms");
    M->gone = now();
  }
  sim::sleep_ns(200 * ms);
  u64 total = 0;
  for (auto & [t, x] : M->topics) total += x.n;
  state(shape % 65536 * 64 + total % 64);
  if (failure_reported) probe("a publishing failure surfaced");
  if (requests) probe("a control mode was requested");
  if (total > 10) { nontrivial(shape * 1000 + frames); sample(std::to_string(frames) + " frames of " + str(step / 1e6) + " ms, " + std::to_string(total) + " messages, localization " + (M->localization ? "simulated" : "real") + (failure_reported ? ", publishing failed" : "")); }
}

// The noise added to a topic depends on its seed and its messages only.
void noise()
{
  M = new Model;
  simros::reset_network();
  set_limits(2'000'000, 5000 * sec);
  auto & n = simros::network();
  const bool random = wchance(2, 3);
  std::map<std::string, double> parameter;
  const std::string topic = "/localization/kinematic_state", velocity = "/vehicle/status/velocity_status", other = "/other";
  auto number = [&](double scale) { return (static_cast<double>(choose(W, 2001)) - 1000) / 1000 * scale; };
  for (auto & t : {topic, velocity, other}) n.parameters[t + ".seed"] = rclcpp::ParameterValue(static_cast<int>(1 + w(1000)));
  auto error = [&](const std::string & name) {
    for (auto kind : {".error.additive", ".error.multiplicative"}) {
      const auto mean = parameter[name + kind + std::string(".mean")] = number(0.5);
      n.parameters[name + kind + ".mean"] = rclcpp::ParameterValue(mean);
      n.parameters[name + kind + ".standard_deviation"] = rclcpp::ParameterValue(random ? std::abs(number(0.5)) : 0.0);
    }
  };
  const std::string o = ".nav_msgs::msg::Odometry.", v = ".autoware_vehicle_msgs::msg::VelocityReport.";
  for (auto & t : {topic, other}) {
    for (auto f : {"pose.pose.position.local_x", "pose.pose.position.local_y", "pose.pose.position.local_z", "pose.pose.orientation.r", "pose.pose.orientation.p", "pose.pose.orientation.y", "twist.twist.linear.x", "twist.twist.linear.y", "twist.twist.linear.z", "twist.twist.angular.x", "twist.twist.angular.y", "twist.twist.angular.z"}) error(t + o + f);
    n.parameters[t + o + "speed_threshold"] = rclcpp::ParameterValue(1.0);
  }
  for (auto f : {"longitudinal_velocity", "lateral_velocity", "heading_rate"}) error(velocity + v + f);
  n.parameters[velocity + v + "speed_threshold"] = rclcpp::ParameterValue(1.0);
  const std::string pose = "/localization/pose_estimator/pose_with_covariance", c = ".geometry_msgs::msg::PoseWithCovarianceStamped.", imu = "/sensing/imu/imu_data", u = ".sensor_msgs::msg::Imu.";
  for (auto & t : {pose, imu}) n.parameters[t + ".seed"] = rclcpp::ParameterValue(static_cast<int>(1 + w(1000)));
  const std::vector<std::string> diagonal{"x_x", "y_y", "z_z", "roll_roll", "pitch_pitch", "yaw_yaw"};
  for (auto f : {"pose.pose.position.local_x", "pose.pose.position.local_y", "pose.pose.position.local_z", "pose.pose.orientation.r", "pose.pose.orientation.p", "pose.pose.orientation.y"}) error(pose + c + f);
  for (auto & f : diagonal) error(pose + c + "pose.covariance." + f);
  for (auto f : {"orientation.r", "orientation.p", "orientation.y", "angular_velocity.x", "angular_velocity.y", "angular_velocity.z", "linear_acceleration.x", "linear_acceleration.y", "linear_acceleration.z"}) error(imu + u + f);
  for (int i = 0; i < 3; ++i) { error(imu + u + "orientation_covariance." + diagonal[3 + i]); error(imu + u + "angular_velocity_covariance." + diagonal[i]); error(imu + u + "linear_acceleration_covariance." + diagonal[i]); }
  using O = nav_msgs::msg::Odometry;
  using P = geometry_msgs::msg::PoseWithCovarianceStamped;
  using I = sensor_msgs::msg::Imu;
  std::vector<P> poses, in_poses;
  std::vector<I> imus, in_imus;
  simros::observe<P>(pose, [&](const P & m) { poses.push_back(m); });
  simros::observe<I>(imu, [&](const I & m) { imus.push_back(m); });
  using V = autoware_vehicle_msgs::msg::VelocityReport;
  std::vector<O> odometry;
  std::vector<V> reports;
  simros::observe<O>(topic, [&](const O & m) { odometry.push_back(m); });
  simros::observe<V>(velocity, [&](const V & m) { reports.push_back(m); });
  std::vector<O> in;
  std::vector<V> in_reports;
  const int count = 1 + static_cast<int>(w(8));
  u64 shape = random;
  for (int i = 0; i < count; ++i) {
    O m;
    m.pose.pose.position.x = number(100);
    const double yaw = number(3);
    m.pose.pose.orientation.z = std::sin(yaw / 2); m.pose.pose.orientation.w = std::cos(yaw / 2);
    m.twist.twist.linear.x = number(wchance(1, 3) ? 0.9 : 10); m.twist.twist.angular.z = number(1);
    in.push_back(m);
    V r;
    r.longitudinal_velocity = static_cast<float>(number(wchance(1, 3) ? 0.9 : 10)); r.heading_rate = static_cast<float>(number(1));
    in_reports.push_back(r);
    P s;
    s.pose.pose = m.pose.pose;
    s.pose.pose.position.y = number(100); s.pose.pose.position.z = number(10);
    s.pose.covariance.at(1) = 7;
    in_poses.push_back(s);
    I j;
    const double turn = number(1.5);
    j.orientation.z = std::sin(turn / 2); j.orientation.w = std::cos(turn / 2);
    j.angular_velocity.x = number(1); j.angular_velocity.y = number(1); j.angular_velocity.z = number(1);
    j.linear_acceleration.x = number(5); j.linear_acceleration.y = number(5); j.linear_acceleration.z = number(5);
    in_imus.push_back(j);
    shape = shape * 1009 + static_cast<u64>(std::abs(m.twist.twist.linear.x) * 100) * 3 + (std::abs(r.longitudinal_velocity) < 1);
  }
  auto round = [&](bool disturbed) {
    rclcpp::Node node("n", "simulation");
    concealer::Publisher<O, concealer::NormalDistribution> p(topic, node);
    concealer::Publisher<V, concealer::NormalDistribution> q(velocity, node);
    concealer::Publisher<P, concealer::NormalDistribution> pp(pose, node);
    concealer::Publisher<I, concealer::NormalDistribution> pi(imu, node);
    std::optional<concealer::Publisher<O, concealer::NormalDistribution>> noisy;
    if (disturbed) noisy.emplace(other, node);
    for (int i = 0; i < count; ++i) {
      if (disturbed) { sim::sleep_ns(range(W, 0, 100) * ms); if (w(2)) { auto m = in[i]; m.twist.twist.linear.x = 50; (*noisy)(m); } }
      p(in[i]);
      q(in_reports[i]);
      pp(in_poses[i]);
      pi(in_imus[i]);
    }
  };
  round(false);
  const auto first = odometry;
  const auto first_reports = reports;
  const auto first_poses = poses;
  const auto first_imus = imus;
  odometry.clear(); reports.clear(); poses.clear(); imus.clear();
  round(true);
  check(static_cast<int>(first.size()) == count && odometry.size() == first.size() && reports.size() == first_reports.size() && static_cast<int>(first_poses.size()) == count && poses.size() == first_poses.size() && static_cast<int>(first_imus.size()) == count && imus.size() == first_imus.size(), "message-lost", "messages are lost or multiplied");
  for (int i = 0; i < count; ++i) {
    const auto &a = first[i].pose.pose, &b = odometry[i].pose.pose, &c = in[i].pose.pose;
    const auto &ta = first[i].twist.twist, &tb = odometry[i].twist.twist, &tc = in[i].twist.twist;
    check(a.position.x == b.position.x && a.position.y == b.position.y && a.position.z == b.position.z && a.orientation.x == b.orientation.x && a.orientation.w == b.orientation.w && a.orientation.z == b.orientation.z && ta.linear.x == tb.linear.x && ta.angular.z == tb.angular.z && ta.linear.y == tb.linear.y,
      "noise-not-reproducible", "the noise of message " + std::to_string(i) + " differs between two runs with the same seed");
    check(first_reports[i].longitudinal_velocity == reports[i].longitudinal_velocity && first_reports[i].heading_rate == reports[i].heading_rate && first_reports[i].lateral_velocity == reports[i].lateral_velocity, "noise-not-reproducible", "the noise of velocity report " + std::to_string(i) + " differs between two runs with the same seed");
    auto near = [](double x, double y) { return std::abs(x - y) <= 1e-4 * (1 + std::abs(x) + std::abs(y)); };
    auto e = [&](const std::string & name, double value) { return value * (parameter[name + ".error.multiplicative.mean"] + 1) + parameter[name + ".error.additive.mean"]; };
    const bool slow = std::abs(tc.linear.x) < 1.0, slow_report = std::abs(in_reports[i].longitudinal_velocity) < 1.0f;
    if (slow) check(near(a.position.x, c.position.x) && near(a.position.y, c.position.y) && near(a.orientation.z, c.orientation.z) && near(ta.linear.x, tc.linear.x) && near(ta.angular.z, tc.angular.z), "noise-at-standstill", "noise is added below the speed threshold");
    else if (!random) {
      const double yaw = 2 * std::atan2(c.orientation.z, c.orientation.w);
      const double dx = e(topic + o + "pose.pose.position.local_x", 0), dy = e(topic + o + "pose.pose.position.local_y", 0);
      check(near(a.position.x, c.position.x + std::cos(yaw) * dx - std::sin(yaw) * dy) && near(a.position.y, c.position.y + std::sin(yaw) * dx + std::cos(yaw) * dy) && near(a.position.z, c.position.z + e(topic + o + "pose.pose.position.local_z", 0)), "noise-wrong", "the position error is not the configured one");
      check(near(ta.linear.x, e(topic + o + "twist.twist.linear.x", tc.linear.x)) && near(ta.linear.y, e(topic + o + "twist.twist.linear.y", 0)) && near(ta.linear.z, e(topic + o + "twist.twist.linear.z", 0)) && near(ta.angular.x, e(topic + o + "twist.twist.angular.x", 0)) && near(ta.angular.y, e(topic + o + "twist.twist.angular.y", 0)) && near(ta.angular.z, e(topic + o + "twist.twist.angular.z", tc.angular.z)), "noise-wrong", "the twist error is not the configured one");
    }
    if (slow_report) check(near(first_reports[i].longitudinal_velocity, in_reports[i].longitudinal_velocity) && near(first_reports[i].heading_rate, in_reports[i].heading_rate), "noise-at-standstill", "noise is added to the velocity report below the speed threshold");
    else if (!random) check(near(first_reports[i].longitudinal_velocity, e(velocity + v + "longitudinal_velocity", in_reports[i].longitudinal_velocity)) && near(first_reports[i].lateral_velocity, e(velocity + v + "lateral_velocity", 0)) && near(first_reports[i].heading_rate, e(velocity + v + "heading_rate", in_reports[i].heading_rate)), "noise-wrong", "the error of the velocity report is not the configured one");
  }
  using Q = Eigen::Quaterniond;
  auto near = [](double x, double y) { return std::abs(x - y) <= 1e-4 * (1 + std::abs(x) + std::abs(y)); };
  auto e = [&](const std::string & name, double value) { return value * (parameter[name + ".error.multiplicative.mean"] + 1) + parameter[name + ".error.additive.mean"]; };
  auto quaternion = [](const auto & q) { return Q(q.w, q.x, q.y, q.z); };
  auto same = [](const Q & a, const Q & b) { return std::abs(a.norm() - 1) < 1e-4 && std::abs(std::abs(a.dot(b)) - 1) < 1e-4; };
  auto about = [](double angle, const Eigen::Vector3d & axis) { return Eigen::AngleAxisd(angle, axis); };
  const Eigen::Vector3d X = Eigen::Vector3d::UnitX(), Y = Eigen::Vector3d::UnitY(), Z = Eigen::Vector3d::UnitZ();
  for (int i = 0; i < count; ++i) {
    const auto &a = first_poses[i].pose, &b = poses[i].pose, &d = in_poses[i].pose;
    const auto &x = first_imus[i], &y = imus[i], &z = in_imus[i];
    check(a.pose == b.pose && a.covariance == b.covariance, "noise-not-reproducible", "the noise of pose " + std::to_string(i) + " differs between two runs with the same seed");
    check(x.orientation == y.orientation && x.angular_velocity == y.angular_velocity && x.linear_acceleration == y.linear_acceleration && x.orientation_covariance == y.orientation_covariance && x.angular_velocity_covariance == y.angular_velocity_covariance && x.linear_acceleration_covariance == y.linear_acceleration_covariance, "noise-not-reproducible", "the noise of IMU message " + std::to_string(i) + " differs between two runs with the same seed");
    if (random) continue;
    const Eigen::Vector3d moved = quaternion(d.pose.orientation) * Eigen::Vector3d(e(pose + c + "pose.pose.position.local_x", 0), e(pose + c + "pose.pose.position.local_y", 0), e(pose + c + "pose.pose.position.local_z", 0));
    check(near(a.pose.position.x, d.pose.position.x + moved.x()) && near(a.pose.position.y, d.pose.position.y + moved.y()) && near(a.pose.position.z, d.pose.position.z + moved.z()), "noise-wrong", "the position error of the estimated pose is not the configured one");
    const Q turned(about(e(pose + c + "pose.pose.orientation.y", 0), Z) * about(e(pose + c + "pose.pose.orientation.p", 0), Y) * about(e(pose + c + "pose.pose.orientation.r", 0), X));
    check(same(quaternion(a.pose.orientation), quaternion(d.pose.orientation) * turned), "noise-wrong", "the orientation error of the estimated pose is not the configured one");
    for (int k = 0; k < 36; ++k) check(near(a.covariance.at(k), k % 7 ? d.covariance.at(k) : e(pose + c + "pose.covariance." + diagonal[k / 7], 0)), "noise-wrong", "element " + std::to_string(k) + " of the covariance of the estimated pose is not the configured one");
    const double yaw = 2 * std::atan2(z.orientation.z, z.orientation.w);
    const Q rotated(about(e(imu + u + "orientation.y", yaw), Z) * about(e(imu + u + "orientation.p", 0), Y) * about(e(imu + u + "orientation.r", 0), X));
    check(same(quaternion(x.orientation), rotated), "noise-wrong", "the orientation error of the IMU is not the configured one");
    auto vector = [&](const std::string & name, const auto & got, const auto & given) {
      check(near(got.x, e(imu + u + name + ".x", given.x)) && near(got.y, e(imu + u + name + ".y", given.y)) && near(got.z, e(imu + u + name + ".z", given.z)), "noise-wrong", "the error of the " + name + " of the IMU is not the configured one");
    };
    vector("angular_velocity", x.angular_velocity, z.angular_velocity);
    vector("linear_acceleration", x.linear_acceleration, z.linear_acceleration);
    for (int k = 0; k < 3; ++k)
      check(near(x.orientation_covariance.at(4 * k), e(imu + u + "orientation_covariance." + diagonal[3 + k], 0)) && near(x.angular_velocity_covariance.at(4 * k), e(imu + u + "angular_velocity_covariance." + diagonal[k], 0)) && near(x.linear_acceleration_covariance.at(4 * k), e(imu + u + "linear_acceleration_covariance." + diagonal[k], 0)), "noise-wrong", "a covariance of the IMU is not the configured one");
    // the Odometry's orientation: the angles of one of the decompositions of the given rotation, each with its error
    const auto & ta = in[i].twist.twist;
    if (std::abs(ta.linear.x) < 1.0) continue;
    const double heading = 2 * std::atan2(in[i].pose.pose.orientation.z, in[i].pose.pose.orientation.w), pi = M_PI;
    bool one = false;
    for (double r : {0., pi, -pi}) for (double dy : {0., pi, -pi, 2 * pi, -2 * pi}) for (double p : r == 0 ? std::vector<double>{0} : std::vector<double>{pi, -pi})
      if ((r == 0) == (std::abs(dy) != pi))
        one = one || same(quaternion(first[i].pose.pose.orientation), Q(about(e(topic + o + "pose.pose.orientation.r", r), X) * about(e(topic + o + "pose.pose.orientation.p", p), Y) * about(e(topic + o + "pose.pose.orientation.y", heading + dy), Z)));
    check(one, "noise-wrong", "the orientation error of the odometry is not the configured one");
  }
  probe("noise");
  nontrivial(shape);
  sample("noise: " + std::to_string(count) + " messages, " + (random ? "random" : "constant") + " errors");
}

void scenario()
{
  if (wchance(1, 6)) noise(); else drive();
}
}  // namespace

int main(int argc, char ** argv)
{
  return driver_main(argc, argv, {{"C04", scenario,
    "workload: 1-30 frames in which the simulator sets pose, twist, acceleration and Autoware commands control, gear, indicators, path and control mode, with or without simulated localization, or noise models with any seed and errors; "
    "faults: message latency, stalled threads, a publish call that fails; race detection is on; non-trivial: more than ten messages published; distinct by commands and number of frames",
    {"concealer/src/*.cpp (AutowareUniverse, Publisher, Subscriber, ContinuousTransformBroadcaster)"}, {"ROS transport, clock, timers and executors (simulated)", "tf2 broadcaster"}}});
}
