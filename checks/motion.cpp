// C18: what the simulator process answers, and how the Autoware vehicle moves
#include "simulator.hpp"
#include <autoware_control_msgs/msg/control.hpp>
#include <autoware_vehicle_msgs/msg/control_mode_report.hpp>
#include <autoware_vehicle_msgs/msg/gear_command.hpp>
#include <autoware_vehicle_msgs/msg/gear_report.hpp>
#include <autoware_vehicle_msgs/msg/steering_report.hpp>
#include <autoware_vehicle_msgs/msg/velocity_report.hpp>
#include <autoware_vehicle_msgs/srv/control_mode_command.hpp>
#include <nav_msgs/msg/odometry.hpp>
#include <deque>
#include <fstream>
#include <unistd.h>

namespace
{
using Gear = autoware_vehicle_msgs::msg::GearCommand;
using Control = autoware_control_msgs::msg::Control;
using Mode = autoware_vehicle_msgs::srv::ControlModeCommand;

// ---------------------------------------------------------------- the vehicle models, as documented by Autoware's planning simulator
struct Model
{
  std::string type;
  double L, vlim, slim, arate, srate, atc, atd, stc, std_, dead, bias, ascale, sscale, vtc, vtd;
  std::vector<double> map_v, map_a;
  std::vector<std::vector<double>> map;
  // state
  double x = 0, y = 0, yaw = 0, v = 0, steer = 0, acc = 0, pedal = 0, ax = 0, previous_v = 0;
  std::deque<double> first, second;               // delayed commands
  double in_v = 0, in_a = 0, in_s = 0;             // last commands

  bool is(const char * t) const { return type == t; }
  bool ideal() const { return type.rfind("IDEAL", 0) == 0; }
  void begin(double dt)
  {
    first.assign(static_cast<std::size_t>(std::round((is("DELAY_STEER_VEL") ? vtd : atd) / dt)), 0.0);
    second.assign(static_cast<std::size_t>(std::round(std_ / dt)), 0.0);
  }
  double speed() const { return is("IDEAL_STEER_VEL") ? in_v : v; }
  double turn() const { return speed() * std::tan(ideal() ? in_s : steer) / L; }
  double acceleration() const { return is("IDEAL_STEER_ACC") ? in_a : is("IDEAL_STEER_VEL") || is("IDEAL_STEER_ACC_GEARED") || is("DELAY_STEER_VEL") ? ax : acc; }
  double look_up(double a, double speed) const
  {
    auto place = [](const std::vector<double> & k, double q, std::size_t & i) { q = std::clamp(q, k.front(), k.back()); i = 0; while (k[i + 1] < q) ++i; return (q - k[i]) / (k[i + 1] - k[i]); };
    std::size_t i, j;
    const double r = place(map_a, a, i), s = place(map_v, speed, j);
    auto at = [&](std::size_t n) { return map[n][j] + (map[n][j + 1] - map[n][j]) * s; };
    return at(i) + (at(i + 1) - at(i)) * r;
  }
  using State = std::array<double, 7>;             // x y yaw v steer acc pedal
  static double sat(double a, double limit) { return std::max(std::min(a, limit), -limit); }
  State slope(const State & s, double a, double b, int gear) const
  {
    State d{};
    double vel = sat(s[3], vlim), angle = s[4];
    auto steering = [&](double now) {
      double diff = now - sat(b, slim) * (is("DELAY_STEER_VEL") || is("DELAY_STEER_MAP_ACC_GEARED") ? 1 : sscale);
      if (!is("DELAY_STEER_MAP_ACC_GEARED")) diff = diff > dead ? diff - dead : diff < -dead ? diff + dead : 0;
      return sat(-diff / stc, srate);
    };
    if (is("IDEAL_STEER_VEL")) { vel = a; angle = b; }
    else if (ideal()) { vel = s[3]; angle = b; d[3] = a; }
    else if (is("DELAY_STEER_VEL")) { angle = sat(s[4], slim); d[3] = sat(-(vel - sat(a, vlim)) / vtc, arate); d[4] = steering(angle); }
    else if (is("DELAY_STEER_ACC_GEARED_WO_FALL_GUARD")) {
      const double p = sat(s[6], arate);
      if (p >= 0) d[3] = gear == Gear::NONE || gear == Gear::PARK || gear == Gear::NEUTRAL ? 0 : gear == Gear::REVERSE || gear == Gear::REVERSE_2 ? -p : p;
      else d[3] = vel > 0 ? p : vel < 0 ? -p : 0;
      d[4] = steering(steer + bias);               // as measured at the beginning of the step
      d[6] = -(p - sat(a, arate) * ascale) / atc;
    } else {
      const double c = sat(s[5], arate), wanted = sat(a, arate) * (is("DELAY_STEER_MAP_ACC_GEARED") ? 1 : ascale);
      d[3] = c;
      d[4] = steering(s[4]);
      d[5] = -(c - (is("DELAY_STEER_MAP_ACC_GEARED") ? look_up(wanted, vel) : wanted)) / atc;
    }
    d[0] = vel * std::cos(s[2]); d[1] = vel * std::sin(s[2]); d[2] = vel * std::tan(angle) / L;
    return d;
  }
  void step(double dt, double speed_command, double acceleration_command, double steer_command, int gear)
  {
    const bool by_speed = is("IDEAL_STEER_VEL") || is("DELAY_STEER_VEL"), raw = is("DELAY_STEER_ACC_GEARED_WO_FALL_GUARD");
    const bool back = gear == Gear::REVERSE || gear == Gear::REVERSE_2, forward = (gear >= Gear::DRIVE && gear <= Gear::DRIVE_18) || gear == Gear::LOW || gear == Gear::LOW_2;
    double a = by_speed ? speed_command : raw ? acceleration_command : (back ? -1 : gear == Gear::NONE ? 0 : 1) * acceleration_command, b = steer_command;
    in_v = speed_command; in_a = a; in_s = b;
    if (!ideal()) {
      first.push_back(a); a = first.front(); first.pop_front();
      second.push_back(b); b = second.front(); second.pop_front();
    }
    const State s{x, y, yaw, v, steer, acc, pedal};
    auto plus = [](State p, const State & d, double h) { for (int i = 0; i < 7; ++i) p[i] += d[i] * h; return p; };
    const State k1 = slope(s, a, b, gear);
    State n;
    if (raw) n = plus(s, k1, dt);
    else {
      const State k2 = slope(plus(s, k1, dt / 2), a, b, gear), k3 = slope(plus(s, k2, dt / 2), a, b, gear), k4 = slope(plus(s, k3, dt), a, b, gear);
      n = s;
      for (int i = 0; i < 7; ++i) n[i] += (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) * dt / 6;
    }
    if (!ideal() && !is("DELAY_STEER_VEL")) n[3] = sat(n[3], vlim);
    if (type.find("GEARED") != std::string::npos && !raw && !(forward ? n[3] >= 0 : back ? n[3] <= 0 : false)) {
      n[0] = x; n[1] = y; n[2] = yaw; n[3] = 0;
      n[5] = (n[3] - v) / dt;
    }
    if (raw) {
      if (v * n[3] <= 0 && -n[6] >= 0) n[3] = 0;
      n[5] = (n[3] - v) / dt;
    }
    if (is("IDEAL_STEER_VEL")) { ax = (in_v - previous_v) / dt; previous_v = in_v; }
    else ax = (n[3] - v) / dt;
    x = n[0]; y = n[1]; yaw = n[2]; v = n[3]; steer = n[4]; acc = n[5]; pedal = n[6];
  }
};

struct Commands { double speed = 0, acceleration = 0, angle = 0; int gear = Gear::NONE; };

struct Reports { float angle = 0; int gear = 0; bool any_angle = false, any_gear = false; };
Reports * reports = nullptr;
bool nobody = false;                              // no Autoware vehicle is there
// what the vehicle may be where; checked when Autoware is told
struct Told { V3 p; Q q; double v, w; };
std::vector<Told> * told = nullptr;               // the states since the last completed answer
std::vector<Told> * heard = nullptr;              // published meanwhile
std::vector<std::pair<double, double>> * heard_speed = nullptr;

void watch()
{
  simros::observe<autoware_vehicle_msgs::msg::SteeringReport>("/vehicle/status/steering_status", [](const auto & m) {
    check(!nobody, "told-of-nobody", "Autoware is told of a vehicle that is not there");
    reports->angle = m.steering_tire_angle; reports->any_angle = true; });
  simros::observe<autoware_vehicle_msgs::msg::GearReport>("/vehicle/status/gear_status", [](const auto & m) { reports->gear = m.report; reports->any_gear = true; });
  simros::observe<nav_msgs::msg::Odometry>("/localization/kinematic_state", [](const auto & m) {
    const auto & p = m.pose.pose;
    heard->push_back({V3(p.position.x, p.position.y, p.position.z), Q(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z), m.twist.twist.linear.x, m.twist.twist.angular.z});
  });
  simros::observe<autoware_vehicle_msgs::msg::VelocityReport>("/vehicle/status/velocity_status", [](const auto & m) { heard_speed->push_back({m.longitudinal_velocity, m.heading_rate}); });
}
// everything published since the last look must be the state before or after the request in between
void settle(const std::optional<Told> & now)
{
  if (now) told->push_back(*now);
  for (auto & h : *heard) {
    bool fine = told->empty(), fine_too = fine;      // pose and twist may be of consecutive updates
    for (auto & t : *told) {
      fine |= (h.p - t.p).norm() < 1e-6 * (1 + t.p.norm()) && near(h.q, t.q);
      fine_too |= std::abs(h.v - t.v) < 1e-6 && std::abs(h.w - t.w) < 1e-6;
    }
    check(fine && fine_too, "told-otherwise", "Autoware is told that the vehicle is at " + text(h.p) + " with " + str(h.v) + " m/s; it is at " + (told->empty() ? "" : text(told->back().p) + " with " + str(told->back().v)) + " m/s");
  }
  for (auto & [v, w] : *heard_speed) {
    bool fine = told->empty();
    for (auto & t : *told) fine |= std::abs(v - t.v) < 1e-4 * (1 + std::abs(t.v)) && std::abs(w - t.w) < 1e-4 * (1 + std::abs(t.w));
    check(fine, "told-otherwise", "Autoware is told a speed of " + str(v) + " m/s; it is " + (told->empty() ? "" : str(told->back().v)) + " m/s");
  }
  heard->clear(); heard_speed->clear();
  if (fault_enabled("thread_stall")) {}             // a stalled publisher may publish what it read before
  else if (now) *told = {*now};
  else if (told->size() > 1) *told = {told->back()};
}

struct Npc { std::string name; int kind; };

schema::EntityStatus random_status(const std::string & name, int kind, double time)
{
  schema::EntityStatus s;
  s.mutable_type()->set_type(kind == 0 ? pb::EntityType::VEHICLE : kind == 1 ? pb::EntityType::PEDESTRIAN : pb::EntityType::MISC_OBJECT);
  s.mutable_subtype()->set_value(static_cast<pb::EntitySubtype::Enum>(kind == 0 ? 1 : kind == 1 ? 7 : 0));
  s.set_time(time);
  s.set_name(name);
  put(s.mutable_pose(), V3(real(0, 200), real(-20, 20), real(-2, 2)), rpy(real(-0.2, 0.2), real(-0.2, 0.2), real(-3, 3)));
  auto & a = *s.mutable_action_status();
  a.set_current_action("action" + std::to_string(w(5)));
  a.mutable_twist()->mutable_linear()->set_x(real(-5, 20));
  a.mutable_twist()->mutable_angular()->set_z(real(-1, 1));
  a.mutable_accel()->mutable_linear()->set_x(real(-5, 5));
  a.set_linear_jerk(real(-5, 5));
  return s;
}

struct Scene
{
  Client & c;
  const Model & prototype;
  double dt, time0;
  std::string ego = "ego";
  u64 & shape;
  bool ego_there = false;
  V3 origin; Q heading;
  Model m;
  Commands now;
  bool manual = false, certain = true;
  std::optional<double> previous_turn, previous_speed;
  std::optional<Told> last;
  double z = 0;
  double step = 0;
  int serial = 0;

  template <typename F> bool wait(F && f)
  {
    for (int i = 0; i < 3000 && !f(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(3));
    return f();
  }
  void spawn_ego()
  {
    schema::SpawnVehicleEntityRequest r;
    auto p = world::car();
    p.name = ego;
    p.axles.front_axle.position_x = prototype.L;
    simulation_interface::toProto(p, *r.mutable_parameters());
    r.mutable_parameters()->mutable_performance()->set_max_speed(prototype.vlim);
    r.mutable_parameters()->mutable_performance()->set_max_acceleration(prototype.arate);
    r.mutable_parameters()->mutable_axles()->mutable_front_axle()->set_max_steering(prototype.slim);
    r.set_is_ego(true);
    // on the (flat) lanes or anywhere else; on a lane the height and slope are those of the lane
    const bool off = wchance(1, 3);
    origin = V3(real(0, 200), real(-20, 20) + (off ? 1000 : 0), off ? real(-3, 3) : 0);
    heading = rpy(0, off ? real(-0.15, 0.15) : 0, wchance(1, 4) ? 0 : real(-3.1, 3.1));
    put(r.mutable_pose(), origin, heading);
    told->clear(); heard->clear(); heard_speed->clear();
    *reports = {};
    nobody = false;
    c.ok(r, "spawning the Autoware vehicle");
    logf("spawn ego at ", text(origin));
    ego_there = true;
    m = prototype;
    m.begin(step);
    manual = false; certain = true;
    previous_turn.reset(); previous_speed.reset();
    z = 0;
    now = {};
    last = Told{origin, heading, 0, 0};
    *told = {*last};
    heard->clear(); heard_speed->clear();
  }
  void command()
  {
    const int what = static_cast<int>(w(3));
    if (what != 1) {
      Control k;
      k.longitudinal.velocity = static_cast<float>(real(-5, 25));
      k.longitudinal.acceleration = static_cast<float>(real(-6, 6));
      k.lateral.steering_tire_angle = static_cast<float>(real(-0.7, 0.6) + 0.0003 * ++serial);   // never the same twice
      now.speed = k.longitudinal.velocity; now.acceleration = k.longitudinal.acceleration; now.angle = k.lateral.steering_tire_angle;
      const float angle = k.lateral.steering_tire_angle;
      simros::inject("/control/command/control_cmd", k);
      check(wait([&] { return reports->any_angle && reports->angle == angle; }), "command-ignored", "the vehicle does not take over the steering angle " + str(now.angle) + " that Autoware commands");
    }
    if (what != 0) {
      static const std::vector<int> gears{Gear::DRIVE, Gear::DRIVE, Gear::DRIVE, Gear::DRIVE_5, Gear::DRIVE_18, Gear::REVERSE, Gear::REVERSE, Gear::REVERSE_2, Gear::PARK, Gear::NEUTRAL, Gear::NONE, Gear::LOW, Gear::LOW_2};
      Gear g;
      g.command = static_cast<std::uint8_t>(gears[w(static_cast<unsigned>(gears.size()))]);
      now.gear = g.command;
      simros::inject("/control/command/gear_cmd", g);
      check(wait([&] { return reports->any_gear && reports->gear == now.gear; }), "command-ignored", "the vehicle does not take over the gear " + std::to_string(now.gear) + " that Autoware commands");
    }
    logf("command ", str(now.speed), " m/s ", str(now.acceleration), " m/s2 ", str(now.angle), " rad gear ", now.gear);
  }
  void take_control()
  {
    const bool autonomous = wchance(3, 4);
    int answer = -1;
    auto r = std::make_shared<Mode::Request>();
    r->mode = autonomous ? Mode::Request::AUTONOMOUS : Mode::Request::MANUAL;
    simros::peer_call<Mode>("/control/control_mode_request", *r, [&](const auto & a) { answer = a.success; });
    if (!wait([&] { return answer >= 0; })) { check(false, "mode-unanswered", "a request for the control mode is not answered"); return; }
    check(answer == autonomous, "mode-answer", autonomous ? "the vehicle refuses to be controlled by Autoware" : "the vehicle accepts a request for manual mode");
    if (autonomous) manual = false;
    logf("control mode ", autonomous ? "autonomous" : "manual");
  }
  // one update of the vehicle, alone or with others
  void update(bool started, bool overwrite, const std::vector<Npc> & npcs, double time)
  {
    schema::UpdateEntityStatusRequest r;
    r.set_npc_logic_started(started);
    r.set_overwrite_ego_status(overwrite);
    std::vector<std::string> names;
    const std::size_t place = npcs.empty() ? 0 : w(static_cast<unsigned>(npcs.size()) + 1);
    double px = 0, py = 0, yaw = 0;
    schema::EntityStatus mine;
    const bool mine_there = ego_there && !wchance(1, 8);
    for (std::size_t i = 0; i <= npcs.size(); ++i) {
      if (i == place && mine_there) {
        mine = random_status(ego, 0, time);
        mine.mutable_type()->set_type(pb::EntityType::EGO);
        px = m.x + real(-5, 5); py = m.y + real(-5, 5); yaw = real(-3, 3);
        put(mine.mutable_pose(), origin + heading * V3(px, py, z), heading * rpy(0, 0, yaw));
        if (wchance(1, 4)) mine.mutable_action_status()->mutable_twist()->mutable_linear()->set_x(0);
        *r.add_status() = mine;
        names.push_back(ego);
      }
      if (i < npcs.size() && !wchance(1, 8)) { *r.add_status() = random_status(npcs[i].name, npcs[i].kind, time); names.push_back(npcs[i].name); }
    }
    const auto a = c.call(r);
    check(a.result().success() && a.status_size() == static_cast<int>(names.size()), "status-answer", "an update of " + std::to_string(names.size()) + " entities is answered with " + std::to_string(a.status_size()) + (a.result().success() ? "" : " and no success"));
    for (int i = 0; i < a.status_size(); ++i) {
      auto & got = a.status(i);
      check(got.name() == names[static_cast<std::size_t>(i)], "status-answer", "the status of " + names[static_cast<std::size_t>(i)] + " is answered with that of " + got.name());
      if (got.name() != ego) {
        auto & sent = r.status(i);
        check(got.pose().SerializeAsString() == sent.pose().SerializeAsString() && got.action_status().SerializeAsString() == sent.action_status().SerializeAsString(), "status-changed", "the simulator answers another status of " + got.name() + " than it was given");
        continue;
      }
      moved(got, mine, started, overwrite || manual, px, py, yaw);
    }
    if (!mine_there) settle({});
  }
  void moved(const schema::UpdatedEntityStatus & got, const schema::EntityStatus & given, bool started, bool overwritten, double px, double py, double yaw)
  {
    const V3 p = position(got.pose());
    const Q q = orientation(got.pose());
    const auto & action = got.action_status();
    if (overwritten) {
      manual = true;
      if (started) {
        m.x = px; m.y = py; m.yaw = yaw;
        const double v = given.action_status().twist().linear().x();
        if (!m.is("IDEAL_STEER_VEL")) m.v = v;
        if (!m.ideal()) m.steer = std::abs(v) < 1e-9 ? 0 : std::atan(given.action_status().twist().angular().z() * m.L / v);
        if (!m.ideal() && !m.is("DELAY_STEER_VEL")) m.acc = given.action_status().accel().linear().x(), m.pedal = v < 0 ? -m.acc : m.acc;
        probe("overwritten");
      } else {
        // a vehicle that is placed before the scenario begins; where it is until then is not claimed
        settle(Told{p, q, action.twist().linear().x(), action.twist().angular().z()});
        previous_turn = m.turn(); previous_speed = m.speed();
        certain = false;
        return;
      }
    } else if (started) m.step(step, now.speed, now.acceleration, now.angle, now.gear);
    else if (certain) check((p - last->p).norm() < 1e-6 * (1 + p.norm()) && near(q, last->q), "moves-early", "the vehicle moves from " + text(last->p) + " to " + text(p) + " before the scenario has begun");
    const V3 wanted = origin + heading * V3(m.x, m.y, z);
    const char * how = overwritten ? "overwritten" : "driven";
    if (overwritten || started || certain) {
      check((p - wanted).norm() < 1e-6 * (1 + wanted.norm() + 10 * std::abs(m.v)), "wrong-place", std::string("the vehicle ") + how + " with " + m.type + " is at " + text(p) + ", not at " + text(wanted));
      check(near(q, heading * rpy(0, 0, m.yaw), 1e-4), "wrong-heading", std::string("the vehicle ") + how + " with " + m.type + " has the wrong orientation");
    }
    const double v = action.twist().linear().x(), wz = action.twist().angular().z();
    check(std::abs(v - m.speed()) < 1e-6 * (1 + std::abs(v)), "wrong-speed", std::string("the vehicle ") + how + " with " + m.type + " has " + str(v) + " m/s, not " + str(m.speed()));
    check(std::abs(wz - m.turn()) < 1e-6 * (1 + std::abs(wz)), "wrong-turn", std::string("the vehicle ") + how + " with " + m.type + " turns with " + str(wz) + ", not " + str(m.turn()));
    if (previous_turn) {
      const auto & l = action.accel().linear();
      check(std::abs(l.x() - m.acceleration()) < 1e-5 * (1 + std::abs(l.x())), "wrong-acceleration", std::string("the vehicle ") + how + " with " + m.type + " accelerates with " + str(l.x()) + ", not " + str(m.acceleration()));
      check(std::abs(l.y() - wz * v) < 1e-5 * (1 + std::abs(l.y())), "wrong-acceleration", std::string("the lateral acceleration is ") + str(l.y()) + ", not " + str(wz * v));
      check(std::abs(action.accel().angular().z() - (m.turn() - *previous_turn) / step) < 1e-4 * (1 + std::abs(action.accel().angular().z())), "wrong-acceleration", "the angular acceleration is " + str(action.accel().angular().z()) + ", not " + str((m.turn() - *previous_turn) / step));
    }
    if (started || overwritten) certain = true;
    previous_turn = m.turn(); previous_speed = m.speed();
    last = Told{p, q, v, wz};
    settle(last);
    shape = shape * 31 + static_cast<u64>(std::llround(p.x() * 100));
    count("updates_of_the_vehicle");
    if (started && !overwritten) count("steps_driven");
  }
};

void motion_()
{
  start_world();
  for (auto k : {"thread_stall", "late_wakeup"}) enable_fault(k, wchance(1, 6));
  enable_fault("client_dies", wchance(1, 2));
  set_limits(20'000'000, 20000 * sec);
  Model m;
  static const std::vector<const char *> types{"IDEAL_STEER_VEL", "IDEAL_STEER_ACC", "IDEAL_STEER_ACC_GEARED", "DELAY_STEER_VEL", "DELAY_STEER_ACC", "DELAY_STEER_ACC_GEARED", "DELAY_STEER_ACC_GEARED_WO_FALL_GUARD", "DELAY_STEER_MAP_ACC_GEARED"};
  m.type = types[w(static_cast<unsigned>(types.size()))];
  auto & parameters = simros::network().parameters;
  auto number = [&](const char * name, double fallback, double lo, double hi) {
    if (wchance(1, 2)) return fallback;
    const double v = wchance(1, 6) ? lo : real(lo, hi);
    parameters[name] = rclcpp::ParameterValue(v);
    return v;
  };
  if (!m.is("IDEAL_STEER_VEL") || wchance(1, 2)) parameters["vehicle_model_type"] = rclcpp::ParameterValue(m.type);
  m.L = real(1.5, 4); m.vlim = real(5, 60); m.arate = real(1, 10); m.slim = real(0.2, 0.7);
  m.L = number("wheel_base", m.L, 1.5, 4);
  m.vlim = number("vel_lim", m.vlim, 5, 60);
  m.slim = number("steer_lim", m.slim, 0.2, 1);
  m.arate = number("vel_rate_lim", m.arate, 1, 10);
  m.srate = number("steer_rate_lim", 5, 0.05, 5);
  m.atc = std::max(0.03, number("acc_time_constant", 0.1, 0.01, 0.5));
  m.atd = number("acc_time_delay", 0.1, 0, 0.5);
  m.stc = std::max(0.03, number("steer_time_constant", 0.27, 0.01, 0.5));
  m.std_ = number("steer_time_delay", 0.24, 0, 0.5);
  m.dead = number("steer_dead_band", 0, 0, 0.05);
  m.bias = m.is("DELAY_STEER_ACC_GEARED_WO_FALL_GUARD") ? number("steer_bias", 0, 0, 0.05) : 0;
  m.ascale = std::max(0.0, number("debug_acc_scaling_factor", 1, -0.1, 2));
  m.sscale = std::max(0.0, number("debug_steer_scaling_factor", 1, -0.1, 2));
  m.vtc = std::max(0.03, number("vel_time_constant", 0.1, 0.01, 0.5));
  m.vtd = number("vel_time_delay", 0.1, 0, 0.5);
  if (m.is("DELAY_STEER_MAP_ACC_GEARED")) {
    for (double v = 0, n = static_cast<double>(2 + w(4)); n > 0; --n, v += real(1, 10)) m.map_v.push_back(v);
    for (double a = -real(3, 8), n = static_cast<double>(3 + w(4)); n > 0; --n, a += real(0.5, 4)) m.map_a.push_back(a);
    if (chdir(scratch().c_str())) throw std::runtime_error("chdir");
    const std::string path = "acceleration_map.csv";
    std::ofstream f(path);
    f << "default";
    f.precision(17);
    for (auto v : m.map_v) f << "," << v;
    f << "\n";
    for (auto a : m.map_a) {
      f << a;
      m.map.emplace_back();
      for (std::size_t i = 0; i < m.map_v.size(); ++i) { m.map.back().push_back(a * 0.8 - 0.05 * static_cast<double>(i) + real(-0.1, 0.1)); f << "," << m.map.back().back(); }
      f << "\n";
    }
    f.close();
    parameters["acceleration_map_path"] = rclcpp::ParameterValue(path);
  }
  reports = new Reports;
  told = new std::vector<Told>; heard = new std::vector<Told>; heard_speed = new std::vector<std::pair<double, double>>;
  watch();
  Process process("5555");
  Client c;
  c.connect();
  u64 shape = hash_str(m.type);
  // nobody has initialised the simulator yet
  for (unsigned i = w(3); i > 0; --i) {
    schema::UpdateFrameRequest r;
    r.set_current_simulation_time(real(0, 10));
    check(!c.call(r).result().success(), "frame-without-scenario", "a frame is computed before any scenario was initialised");
    probe("not_initialised");
  }
  const int scenarios = 1 + static_cast<int>(w(3));
  std::string what;
  // another client that asks for nothing of importance at the same time
  bool over = false;
  int strange = 0;
  std::thread stranger;
  if (wchance(1, 4))
    stranger = std::thread([&] {
      Client other;
      other.connect();
      while (!over) {
        schema::DespawnEntityRequest r;
        r.set_name("stranger" + std::to_string(++strange));
        const auto a = other.call(r);
        check(!a.result().success(), "despawn-answer", "the removal of an entity that is not there succeeds");
        std::this_thread::sleep_for(std::chrono::milliseconds(7));
      }
    });
  int played = 0, driven = 0;
  for (int i = 0; i < scenarios; ++i) {
    Scene s{c, m, std::vector<double>{1.0 / 30, 0.05, 0.1, 0.025}[w(4)], real(0, 10), wchance(1, 3) ? "ego" + std::to_string(i) : "ego", shape};
    s.step = s.dt;
    initialize(c, s.time0, 5'000'000'000, s.step);
    nobody = true;
    std::vector<Npc> npcs;
    const int frames = 3 + static_cast<int>(w(40)), give_up = fault("client_dies", 1, 4) ? static_cast<int>(w(static_cast<unsigned>(frames))) : -1, started = static_cast<int>(w(5));
    int name = 0;
    bool gave_up = false;
    for (int f = 0; f < frames; ++f) {
      if (f == give_up) { gave_up = true; break; }
      if (!s.ego_there && (f == 0 ? wchance(3, 4) : wchance(1, 4))) s.spawn_ego();
      else if (s.ego_there && wchance(1, 40)) {
        despawn(c, s.ego);
        s.ego_there = false;
        nobody = true;
        told->clear();
      }
      if (wchance(1, 5) && npcs.size() < 4) {
        Npc n{"npc" + std::to_string(name++), static_cast<int>(w(3))};
        auto place = [&](auto & r) { r.mutable_parameters()->set_name(n.name); put(r.mutable_pose(), V3(real(0, 100), real(-10, 10), 0), rpy(0, 0, 0)); c.ok(r, "spawning an entity"); };
        if (n.kind == 0) { schema::SpawnVehicleEntityRequest r; place(r); } else if (n.kind == 1) { schema::SpawnPedestrianEntityRequest r; place(r); } else { schema::SpawnMiscObjectEntityRequest r; place(r); }
        npcs.push_back(n);
      }
      if (!npcs.empty() && wchance(1, 10)) {
        const auto k = w(static_cast<unsigned>(npcs.size()));
        despawn(c, npcs[k].name);
        if (wchance(1, 2)) {
          schema::DespawnEntityRequest r;
          r.set_name(npcs[k].name);
          check(!c.call(r).result().success(), "despawn-answer", "an entity that is gone is removed again");
        }
        npcs.erase(npcs.begin() + k);
      }
      if (wchance(1, 12)) {
        s.step = std::vector<double>{1.0 / 30, 0.05, 0.1, 0.025}[w(4)];
        schema::UpdateStepTimeRequest r;
        r.set_simulation_step_time(s.step);
        c.ok(r, "changing the step time");
      }
      if (s.ego_there && wchance(1, 3)) s.command();
      if (s.ego_there && wchance(1, s.manual ? 2 : 12)) s.take_control();
      s.update(f >= started, wchance(1, 12), npcs, f * s.dt);
      if (wchance(1, 2)) {
        schema::UpdateFrameRequest r;
        r.set_current_simulation_time(s.time0 + f * s.dt);
        r.set_current_scenario_time(f < started ? std::nan("") : (f - started) * s.dt);
        c.ok(r, "a frame");
      }
      if (wchance(1, 3)) std::this_thread::sleep_for(std::chrono::milliseconds(w(80)));
      settle({});
      if (s.ego_there && f >= started) ++driven;
    }
    ++played;
    what += (what.empty() ? "" : "; ") + std::to_string(frames) + " frames" + (gave_up ? " (abandoned)" : "");
    if (!gave_up && wchance(2, 3)) {
      if (s.ego_there) despawn(c, s.ego);
      for (auto & n : npcs) despawn(c, n.name);
    }
    told->clear();
    if (gave_up) {
      probe("client_died");
      c.real.reset();
      schema::SimulationRequest r;
      switch (w(3)) {
        case 0: r.mutable_despawn_entity()->set_name(s.ego); break;
        case 1: r.mutable_update_step_time()->set_simulation_step_time(0.5); break;
        default: r.mutable_update_traffic_lights();
      }
      c.die(r);
      std::this_thread::sleep_for(std::chrono::milliseconds(10));
      c.connect();
    }
    heard->clear(); heard_speed->clear();
  }
  over = true;
  if (stranger.joinable()) stranger.join();
  c.real.reset();
  process.stop();
  if (driven) nontrivial(shape);
  sample(m.type + ": " + what);
}
}  // namespace

void motion() { motion_(); }
