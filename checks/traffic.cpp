// C13: frames and clocks.  C14: entities here and in the simulator.  C15: traffic lights.  C16: traffic sources and sinks.  (traffic_simulator::API)
#include "lights.hpp"
#include "world.hpp"
#include <std_msgs/msg/float64.hpp>
#include <autoware_perception_msgs/msg/traffic_light_group_array.hpp>
#include <traffic_simulator_msgs/msg/traffic_light_array_v1.hpp>
#include <traffic_simulator_msgs/msg/entity_status_with_trajectory_array.hpp>
#include <traffic_simulator/utils/pose.hpp>

using namespace sim;
using namespace world;
using namespace lights;
using traffic_simulator::API;
using traffic_simulator::CanonicalizedLaneletPose;

namespace
{
struct Rig
{
  Simulator * simulator = nullptr;
  rclcpp::Node::SharedPtr node;
  std::unique_ptr<traffic_simulator::Configuration> configuration;
  std::unique_ptr<API> api;
  rclcpp::executors::SingleThreadedExecutor executor;
  double rate = 30, factor = 1;
  bool use_sim_time = true;
  double step() const { return factor / rate; }
};
Rig * R;

// everything up to a running API; false: it could not start
bool launch(const std::set<std::uint8_t> & sink = {})
{
  R = new Rig;
  R->simulator = start();
  R->use_sim_time = wchance(2, 3);
  R->rate = std::vector<double>{30, 20, 10, 60}[w(4)];
  R->factor = std::vector<double>{1, 2, 0.5, 0.1}[w(4)];
  {
    NoInstrument guard;
    simros::network().parameters["use_sim_time"] = rclcpp::ParameterValue(R->use_sim_time);
    simzmq::net().max_delay = 300 * us;
  }
  enable_fault("simulator_slow", wchance(1, 3));
  simzmq::net().peer_time = [] { return fault("simulator_slow", 1, 10) ? static_cast<i64>(choose(F, 80)) * ms : static_cast<i64>(choose(sim::S, 3)) * 100 * us; };
  R->node = std::make_shared<rclcpp::Node>("simulation");
  R->executor.add_node(R->node);
  R->configuration = std::make_unique<traffic_simulator::Configuration>(map_directory(), "scenario.yaml", sink);
  R->api = std::make_unique<API>(R->node, *R->configuration, R->factor, R->rate);
  return true;
}
// let `d` pass while the node is served
void idle(i64 d)
{
  const i64 end = now() + d;
  R->executor.spin_some();
  while (now() < end) {
    sim::sleep_ns(std::min<i64>(end - now(), 2 * ms));
    R->executor.spin_some();
  }
}
i64 nanoseconds(const builtin_interfaces::msg::Time & t) { return static_cast<i64>(t.sec) * sec + t.nanosec; }
template <typename T> i64 proto_ns(const T & t) { return static_cast<i64>(t.sec()) * sec + t.nanosec(); }

// ---------------------------------------------------------------------------------------------------------------- C13
struct Clocks { std::vector<i64> clocks; std::vector<std::vector<traffic_simulator_msgs::msg::EntityStatusWithTrajectory>> statuses; std::vector<Update> updates; };

void clocks_scenario()
{
  set_limits(3'000'000, 4000 * sec);
  enable_fault("simulator_refuses", wchance(1, 2));
  enable_fault("frame_late", wchance(1, 2));
  Clocks seen;
  Recorder::updates = &seen.updates;
  const int frames = 5 + static_cast<int>(w(40));
  if (!launch()) return;
  auto & api = *R->api;
  auto & simulator = *R->simulator;
  {
    auto init = simulator.of("initialize");
    check(init.size() == 1, "initialize", std::to_string(init.size()) + " initialize requests were sent");
    auto & q = init[0]->request.initialize();
    check(q.initialize_time() == 0 && close(q.realtime_factor(), R->factor) && close(q.step_time(), R->step()), "initialize", "the simulator is initialised with time " + str(q.initialize_time()) + ", factor " + str(q.realtime_factor()) + ", step " + str(q.step_time()));
    check(q.lanelet2_map_path() == scratch() + "/map/lanelet2_map.osm", "initialize", "the simulator is told of map " + q.lanelet2_map_path());
  }
  simros::observe<rosgraph_msgs::msg::Clock>("/clock", [&](const auto & m) { seen.clocks.push_back(nanoseconds(m.clock)); });
  simros::observe<traffic_simulator_msgs::msg::EntityStatusWithTrajectoryArray>("entity/status", [&](const auto & m) { seen.statuses.push_back({m.data.begin(), m.data.end()}); });
  simros::observe<traffic_simulator_msgs::msg::EntityStatusWithTrajectoryArray>("/entity/status", [&](const auto & m) { seen.statuses.push_back({m.data.begin(), m.data.end()}); });
  double time = 0, started_at = 0;
  bool started = false;
  std::set<std::string> entities;
  i64 last_accepted = -1, last_clock = -1;
  double last_accepted_time = -1;
  int completed = 0, refused = 0, factors = 0;
  u64 shape = static_cast<u64>(R->rate);
  simulator.may_refuse = {"update_frame", "update_traffic_lights", "update_entity_status"};
  auto times_agree = [&](const std::string & when) {
    check(std::isnan(api.getCurrentTime()) == !started, "scenario-time", "the scenario time is " + str(api.getCurrentTime()) + " " + when + (started ? "" : " although the scenario has not started"));
    if (started) check(close(api.getCurrentTime(), time - started_at), "scenario-time", "the scenario time is " + str(api.getCurrentTime()) + " " + when + ", the frames since its start took " + str(time - started_at));
    check(api.isNpcLogicStarted() == started, "npc-logic", "NPC logic is reported as " + std::string(api.isNpcLogicStarted() ? "" : "not ") + "started");
  };
  const int start_at = static_cast<int>(w(12));
  for (int f = 0; f < frames; ++f) {
    if (wchance(1, 4) && entities.size() < 4) {
      const auto name = "npc" + std::to_string(f);
      api.spawn(name, pose(20 + 10. * f, 1.75), car(), "sim/Recorder");
      entities.insert(name);
    }
    if (f == start_at) {
      api.startNpcLogic();
      started = true;
      started_at = time;
      shape = shape * 31 + f;
    } else if (started && wchance(1, 16)) {
      bool thrown = false;
      try { api.startNpcLogic(); } catch (const common::scenario_simulator_exception::Error &) { thrown = true; }
      check(thrown, "started-twice", "the scenario could be started a second time");
      probe("second start");
    }
    times_agree("before a frame");
    if (wchance(1, 6)) {
      std_msgs::msg::Float64 m;
      m.data = std::vector<double>{2, 0.5, 1, 0.0005, 0, -1, std::nan(""), 0.001}[w(8)];
      const bool valid = m.data >= 0.001;
      simulator.forget();
      simros::inject("/real_time_factor", m);
      idle(20 * ms);
      if (valid) R->factor = m.data;
      ++factors;
      shape = shape * 31 + static_cast<u64>(R->factor * 10);
      auto q = simulator.of("update_step_time");
      check(q.size() == (valid ? 1 : 0), "step-time-request", "a real-time factor of " + str(m.data) + " causes " + std::to_string(q.size()) + " requests");
      if (valid) check(close(q[0]->request.update_step_time().simulation_step_time(), R->step()), "step-time-request", "the simulator is told of steps of " + str(q[0]->request.update_step_time().simulation_step_time()) + " s instead of " + str(R->step()));
      times_agree("after a change of the real-time factor");
    }
    simulator.forget();
    seen = {};
    const u64 refusals = simulator.refusals;
    const i64 before = now();
    const bool done = api.updateFrame();
    logf("frame ", f, done ? " done" : " refused", " time ", time);
    const bool was_refused = simulator.refusals != refusals;
    check(done == !was_refused, "frame-result", done ? "a frame the simulator refused is reported as completed" : "a frame is reported as failed although the simulator refused nothing");
    auto q = simulator.of("update_frame");
    auto s = simulator.of("update_entity_status");
    check(s.size() == 1, "status-request", std::to_string(s.size()) + " status requests are sent in a frame");
    check(s[0]->request.update_entity_status().npc_logic_started() == started, "npc-logic", "the simulator is told that NPC logic is " + std::string(started ? "not " : "") + "started");
    if (done) check(q.size() == 1, "frame-request", std::to_string(q.size()) + " frame requests are sent in a frame");
    check(q.size() <= 1, "frame-request", "several frame requests are sent in a frame");
    for (auto * x : q) {
      auto & u = x->request.update_frame();
      check(close(u.current_simulation_time(), time), "frame-time", "the simulator is asked for a frame at " + str(u.current_simulation_time()) + " s, the frames before took " + str(time) + " s");
      check(started ? close(u.current_scenario_time(), time - started_at) : std::isnan(u.current_scenario_time()), "frame-time", "the simulator is told that the scenario time is " + str(u.current_scenario_time()));
      const i64 ros = proto_ns(u.current_ros_time());
      if (R->use_sim_time) check(std::abs(ros - static_cast<i64>(time * 1e9)) <= 1000, "frame-ros-time", "the ROS time of the frame is " + str(ros * 1e-9) + " instead of " + str(time));
      else check(ros >= before + wall_offset() && ros <= now() + wall_offset() && ros >= last_accepted, "frame-ros-time", "the ROS time of the frame is not the current time");
      if (x->accepted) {
        check(u.current_simulation_time() > last_accepted_time, "frame-repeated", "the simulator computes the frame at " + str(u.current_simulation_time()) + " s twice");
        last_accepted_time = u.current_simulation_time();
        last_accepted = ros;
      }
    }
    // the entities are updated and announced once, with the time at the end of the step
    const bool exchanged = s[0]->accepted;
    std::map<std::string, int> n;
    for (auto & u : seen.updates) {
      ++n[u.entity];
      check(close(u.current, started ? time - started_at : std::nan("")) && close(u.step, R->step()), "npc-time", u.entity + " is updated at " + str(u.current) + " s by " + str(u.step) + " s, it should be " + str(time - started_at) + " s and " + str(R->step()) + " s");
    }
    for (auto & e : entities) check(n[e] == (exchanged && started ? 1 : 0), "npc-updates", e + " is updated " + std::to_string(n[e]) + " times in a frame, NPC logic is " + (started ? "" : "not ") + "started");
    check(seen.statuses.size() == (exchanged ? 1 : 0), "status-message", std::to_string(seen.statuses.size()) + " entity status messages are published in a frame");
    for (auto & list : seen.statuses) {
      check(list.size() == entities.size(), "status-message", "the status message lists " + std::to_string(list.size()) + " entities of " + std::to_string(entities.size()));
      for (auto & x : list) {
        const double expected = started ? time - started_at + R->step() : std::nan("");
        check(close(x.time, expected) && close(x.status.time, expected), "status-stamp", "the status of " + x.name + " is stamped " + str(x.time) + " instead of " + str(expected));
      }
    }
    // the clock
    check(seen.clocks.size() == (done ? 1 : 0), "clock-message", std::to_string(seen.clocks.size()) + " clock messages are published in a " + (done ? "completed" : "refused") + " frame");
    if (done) time += R->step();
    for (auto t : seen.clocks) {
      if (R->use_sim_time) check(std::abs(t - static_cast<i64>(time * 1e9)) <= 1000, "clock-message", "the clock says " + str(t * 1e-9) + " s after frames of " + str(time) + " s");
      else check(t >= before + wall_offset() && t <= now() + wall_offset(), "clock-message", "the clock message is not the current time");
      check(t >= last_clock, "clock-backwards", "the clock runs backwards");
      last_clock = t;
    }
    times_agree("after a frame");
    done ? ++completed : ++refused;
    state(shape % 8191 * 64 + completed % 64);
    idle(fault("frame_late", 1, 3) ? static_cast<i64>(choose(F, 300)) * ms : static_cast<i64>(1e9 / R->rate));
  }
  R->api.reset();
  if (refused) probe("a frame was refused");
  if (factors) probe("the real-time factor changed");
  if (completed && started) { nontrivial(shape * 131 + refused * 17 + completed); sample(std::to_string(completed) + " frames completed, " + std::to_string(refused) + " refused, " + std::to_string(factors) + " changes of the real-time factor, scenario time " + str(time - started_at)); }
}
// ---------------------------------------------------------------------------------------------------------------- C14
struct Entity { std::string kind; geometry_msgs::msg::Pose pose; double twist = 0, accel = 0, jerk = 0, max_speed = -1; bool moved = false, kept = true; };

std::set<std::string> names_of(API & api) { auto v = api.getEntityNames(); std::set<std::string> s(v.begin(), v.end()); check(s.size() == v.size(), "entity-list", "an entity is listed twice"); return s; }

void entities_scenario()
{
  set_limits(4'000'000, 4000 * sec);
  enable_fault("simulator_refuses", wchance(1, 2));
  enable_fault("simulator_moves_entities", wchance(1, 2));
  Clocks seen;
  Recorder::updates = &seen.updates;
  if (!launch()) return;
  auto & api = *R->api;
  auto & simulator = *R->simulator;
  std::map<std::string, Entity> model;
  std::set<std::string> dirty;                      // refused by the simulator: what is left of them here is open
  std::vector<std::vector<traffic_simulator_msgs::msg::EntityStatusWithTrajectory>> statuses;
  simros::observe<traffic_simulator_msgs::msg::EntityStatusWithTrajectoryArray>("/entity/status", [&](const auto & m) { statuses.push_back({m.data.begin(), m.data.end()}); });
  simulator.may_refuse = {"spawn_vehicle_entity", "spawn_pedestrian_entity", "spawn_misc_object_entity", "despawn_entity", "update_entity_status"};
  int spawned = 0, refused = 0, resets = 0, despawned = 0;
  u64 shape = 0;
  simulator.respond = [&](const schema::UpdateEntityStatusRequest & q, schema::UpdateEntityStatusResponse & a) {
    for (auto & s : q.status()) {
      auto it = model.find(s.name());
      if (it == model.end() || !fault("simulator_moves_entities", 1, 6)) continue;
      auto & r = *a.add_status();
      r.set_name(s.name());
      *r.mutable_pose() = s.pose();
      *r.mutable_action_status() = s.action_status();
      auto & m = it->second;
      m.twist = static_cast<double>(choose(F, 20));
      m.accel = static_cast<double>(choose(F, 5));
      r.mutable_action_status()->mutable_twist()->mutable_linear()->set_x(m.twist);
      r.mutable_action_status()->mutable_accel()->mutable_linear()->set_x(m.accel);
      if (m.kind != "misc_object") { m.pose.position.x += 0.1; r.mutable_pose()->mutable_position()->set_x(m.pose.position.x); }
      m.moved = true;
    }
  };
  auto agree = [&](const std::string & when) {
    auto names = names_of(api);
    for (auto & d : dirty) names.erase(d);
    for (auto & n : names) check(model.count(n), "entity-list", n + " exists " + when + " although it was not spawned or is despawned");
    for (auto & [n, m] : model) {
      check(names.count(n) && api.isEntityExist(n), "entity-list", n + " does not exist " + when);
      auto & e = api.getEntity(n);
      const auto p = e.getMapPose();
      check(close(p.position.x, m.pose.position.x) && close(p.position.y, m.pose.position.y), "entity-pose", n + " is at " + pose_text(p) + " " + when + " instead of " + pose_text(m.pose));
      check(close(e.getCurrentTwist().linear.x, m.twist) && close(e.getCurrentAccel().linear.x, m.accel) && (m.moved || close(e.getLinearJerk(), m.jerk)), "entity-motion", n + " has speed " + str(e.getCurrentTwist().linear.x) + ", acceleration " + str(e.getCurrentAccel().linear.x) + ", jerk " + str(e.getLinearJerk()) + " " + when + " instead of " + str(m.twist) + ", " + str(m.accel) + ", " + str(m.jerk));
      if (m.max_speed >= 0) check(close(e.getBehaviorParameter().dynamic_constraints.max_speed, m.max_speed), "entity-behaviour", n + " has lost the behaviour parameter it was given " + when);
    }
    for (auto & [n, k] : simulator.entities) check(dirty.count(n) || model.count(n), "entity-left-behind", "the simulator still has " + n + " " + when);
    for (auto & [n, m] : model) check(simulator.entities.count(n) && simulator.entities.at(n).kind == m.kind, "entity-unknown", "the simulator does not have " + m.kind + " " + n + " " + when);
  };
  auto requests = [&]() -> std::vector<const Simulator::Seen *> { std::vector<const Simulator::Seen *> v; for (auto & s : simulator.seen) v.push_back(&s); return v; };
  const int steps = 8 + static_cast<int>(w(40));
  for (int k = 0; k < steps; ++k) {
    simulator.forget();
    const auto op = w(10);
    shape = shape * 31 + op;
    std::string when = "after step " + std::to_string(k);
    // a name: usually new, sometimes taken
    std::string name = "entity" + std::to_string(k);
    if (!model.empty() && (op >= 4 || wchance(1, 6))) { auto it = model.begin(); std::advance(it, w(model.size())); name = it->first; }
    const bool taken = model.count(name);
    if (op <= 3) {                                   // spawn
      const auto kind = std::vector<std::string>{"vehicle", "pedestrian", "misc_object"}[w(3)];
      const bool lane = wchance(1, 2), unknown_plugin = kind != "misc_object" && wchance(1, 10);
      const double x = 5 + static_cast<double>(w(280)), y = lane ? 1.75 : std::vector<double>{1.75, 40, -1}[w(3)];
      const auto model3d = wchance(1, 3) ? "asset" + std::to_string(k) : "";
      const auto behavior = unknown_plugin ? "no/such/plugin" : "sim/Recorder";
      const u64 refusals = simulator.refusals;
      bool thrown = false;
      std::string error;
      logf("spawn ", kind, " ", name, taken ? " (taken)" : "", unknown_plugin ? " (unknown plugin)" : "");
      try {
        auto spawn = [&](const auto & where) {
          if (kind == "vehicle") api.spawn(name, where, car(), behavior, model3d);
          else if (kind == "pedestrian") api.spawn(name, where, pedestrian(), behavior, model3d);
          else api.spawn(name, where, box(), "", model3d);
        };
        if (lane) spawn(traffic_simulator::helper::constructCanonicalizedLaneletPose(1 + static_cast<int>(x / 50), x - 50 * std::floor(x / 50), 0));
        else spawn(pose(x, y));
      } catch (const std::exception & e) { thrown = true; error = e.what(); }
      const bool was_refused = simulator.refusals != refusals;
      auto q = requests();
      if (taken || unknown_plugin) {
        check(thrown, "bad-spawn-accepted", "a spawn of " + name + " succeeds although " + (taken ? "the name is taken" : "its behaviour does not exist"));
        check(q.empty(), "bad-spawn-request", "the simulator is asked to spawn " + name + " although " + (taken ? "the name is taken" : "its behaviour does not exist"));
        probe(taken ? "a taken name" : "an unknown plugin");
      } else {
        check(thrown == was_refused, "spawn-result", thrown ? "a spawn of " + name + " fails: " + error : "a spawn the simulator refused succeeds");
        check(q.size() == 1 && q[0]->kind == "spawn_" + kind + (kind == "misc_object" ? "_entity" : "_entity"), "spawn-request", "a spawn of " + kind + " causes " + std::to_string(q.size()) + " requests" + (q.empty() ? "" : ", the first is " + q[0]->kind));
        auto & r = q[0]->request;
        if (was_refused) { dirty.insert(name); ++refused; }
        else {
          Entity e;
          e.kind = kind;
          e.pose = api.getEntity(name).getMapPose();
          check(close(e.pose.position.x, x) && close(e.pose.position.y, lane ? 1.75 : y), "spawn-pose", name + " spawned at (" + str(x) + ", " + str(y) + ") is at " + pose_text(e.pose));
          model[name] = e;
          ++spawned;
        }
        auto agrees = [&](const auto & s) {
          check(s.parameters().name() == name, "spawn-request", name + " is spawned in the simulator as " + s.parameters().name());
          check(s.asset_key() == model3d, "spawn-request", "the simulator is told of asset '" + s.asset_key() + "' instead of '" + model3d + "'");
          check(close(s.pose().position().x(), x) && close(s.pose().position().y(), lane ? 1.75 : y), "spawn-request", name + " is spawned in the simulator at (" + str(s.pose().position().x()) + ", " + str(s.pose().position().y()) + ") instead of (" + str(x) + ", " + str(y) + ")");
        };
        if (kind == "vehicle") {
          agrees(r.spawn_vehicle_entity());
          check(!r.spawn_vehicle_entity().is_ego(), "spawn-request", "an NPC is spawned in the simulator as the ego vehicle");
          check(close(r.spawn_vehicle_entity().parameters().bounding_box().dimensions().x(), car().bounding_box.dimensions.x), "spawn-request", "the simulator is told of a different size");
        } else if (kind == "pedestrian") agrees(r.spawn_pedestrian_entity());
        else agrees(r.spawn_misc_object_entity());
      }
    } else if (op == 4) {                            // despawn
      const bool exists = taken && wchance(4, 5);
      if (!exists) name = "nobody";
      const u64 refusals = simulator.refusals;
      logf("despawn ", name);
      const bool ok = api.despawn(name);
      const bool was_refused = simulator.refusals != refusals;
      auto q = requests();
      check(ok == (exists && !was_refused), "despawn-result", "despawning " + name + (ok ? " succeeds" : " fails"));
      if (exists) {
        check(q.size() == 1 && q[0]->kind == "despawn_entity" && q[0]->request.despawn_entity().name() == name, "despawn-request", "despawning " + name + " causes " + std::to_string(q.size()) + " requests");
        model.erase(name);
        if (was_refused) dirty.insert(name);
        check(!api.isEntityExist(name), "despawned-exists", name + " exists after it was despawned");
        ++despawned;
      } else check(q.empty(), "despawn-request", "despawning an entity that does not exist causes a request");
    } else if (op == 5 && taken) {                   // motion
      auto & m = model[name];
      auto & e = api.getEntity(name);
      m.twist = static_cast<double>(w(30)); m.accel = static_cast<double>(w(6)); m.jerk = static_cast<double>(w(4)); m.moved = false;
      geometry_msgs::msg::Twist t; t.linear.x = m.twist;
      geometry_msgs::msg::Accel a; a.linear.x = m.accel;
      e.setTwist(t); e.setAcceleration(a); e.setLinearJerk(m.jerk);
      if (m.kind != "misc_object" && wchance(1, 2)) {
        auto b = e.getBehaviorParameter();
        m.max_speed = b.dynamic_constraints.max_speed = 1 + static_cast<double>(w(40));
        e.setBehaviorParameter(b);
      }
      check(requests().empty(), "unexpected-request", "changing the motion of an entity causes a request");
    } else if (op == 6 && taken) {                   // another behaviour
      auto & m = model[name];
      const auto plugin = wchance(1, 2) ? "sim/Recorder" : "do_nothing_plugin/DoNothingPlugin";
      bool thrown = false;
      logf("reset behaviour of ", m.kind, " ", name);
      const auto box = api.getEntity(name).getBoundingBox();
      try { api.resetBehaviorPlugin(name, plugin); } catch (const common::scenario_simulator_exception::Error &) { thrown = true; }
      check(thrown == (m.kind == "misc_object"), "reset-result", "resetting the behaviour of a " + m.kind + (thrown ? " fails" : " succeeds"));
      check(requests().empty(), "unexpected-request", "resetting the behaviour of an entity causes a request");
      check(api.getEntity(name).getBoundingBox() == box, "reset-result", "the bounding box of a " + m.kind + " changes when its behaviour is reset");
      if (!thrown) { ++resets; if (std::string(plugin) != "sim/Recorder") m.kept = false; else m.kept = true; }
    } else if (op == 7) {                            // all at once
      if (wchance(1, 3)) {
        const auto refusals = simulator.refusals;
        // what was refused is despawned as well
        const auto before = names_of(api);
        const bool ok = api.despawnEntities();
        if (simulator.refusals == refusals && dirty.empty()) {
          check(ok, "despawn-result", "despawning all entities fails");
          check(names_of(api).empty(), "despawned-exists", "entities are left after all are despawned");
          std::set<std::string> gone;
          for (auto * s : requests()) { check(s->kind == "despawn_entity", "unexpected-request", "despawning all causes a " + s->kind + " request"); check(gone.insert(s->request.despawn_entity().name()).second, "despawn-request", "an entity is despawned twice"); }
          check(gone == before, "despawn-request", "not exactly the existing entities are despawned in the simulator");
          despawned += static_cast<int>(model.size());
          model.clear();
        } else {
          // an entity whose despawning is refused is gone here as well, and does not keep the others
          const auto left = names_of(api);
          check(left.empty(), "despawned-exists", "entities are left after all are despawned because the simulator refused one");
          std::set<std::string> asked;
          for (auto * s : requests()) if (s->kind == "despawn_entity") asked.insert(s->request.despawn_entity().name());
          check(asked == before, "despawn-request", "not exactly the existing entities are despawned in the simulator when it refuses one");
          for (auto it = model.begin(); it != model.end();) { if (!left.count(it->first)) { if (simulator.entities.count(it->first)) dirty.insert(it->first); it = model.erase(it); } else ++it; }
        }
      }
    } else {                                         // a frame
      if (!api.isNpcLogicStarted() && wchance(1, 3)) api.startNpcLogic();
      statuses.clear();
      seen = {};
      const bool started = api.isNpcLogicStarted();
      std::map<std::string, Entity> before = model;
      const bool done = api.updateFrame();
      (void)done;
      auto q = simulator.of("update_entity_status");
      check(q.size() == 1, "status-request", std::to_string(q.size()) + " status requests in a frame");
      auto & u = q[0]->request.update_entity_status();
      std::set<std::string> listed;
      for (auto & s : u.status()) {
        check(listed.insert(s.name()).second, "status-request", s.name() + " is listed twice in the status request");
        if (dirty.count(s.name())) continue;
        check(before.count(s.name()), "status-request", "the status request lists " + s.name() + ", which does not exist");
        auto & m = before[s.name()];
        check(close(s.pose().position().x(), m.pose.position.x) && close(s.pose().position().y(), m.pose.position.y), "status-request", "the simulator is told that " + s.name() + " is at (" + str(s.pose().position().x()) + ", " + str(s.pose().position().y()) + ") instead of " + pose_text(m.pose));
        check(close(s.action_status().twist().linear().x(), m.twist), "status-request", "the simulator is told that " + s.name() + " moves at " + str(s.action_status().twist().linear().x()) + " instead of " + str(m.twist));
        using T = traffic_simulator_msgs::EntityType;
        check(s.type().type() == (m.kind == "vehicle" ? T::VEHICLE : m.kind == "pedestrian" ? T::PEDESTRIAN : T::MISC_OBJECT), "status-request", "the simulator is told of a wrong type of " + s.name());
      }
      for (auto & [n, m] : before) check(listed.count(n), "status-request", n + " is missing in the status request");
      check(statuses.size() == (q[0]->accepted ? 1 : 0), "status-message", std::to_string(statuses.size()) + " status messages in a frame");
      if (q[0]->accepted) {
        if (started) for (auto & [n, m] : model) { if (m.kind == "misc_object") { m.twist = m.accel = m.jerk = 0; m.moved = false; } else if (!m.kept) m.twist = m.accel = 0; }
        std::set<std::string> published;
        for (auto & s : statuses[0]) {
          check(published.insert(s.name).second && s.status.name == s.name, "status-message", s.name + " is listed twice in the status message");
          if (dirty.count(s.name)) continue;
          check(model.count(s.name), "status-message", "the status message lists " + s.name + ", which does not exist");
          auto & m = model[s.name];
          check(close(s.status.pose.position.x, m.pose.position.x) && close(s.status.pose.position.y, m.pose.position.y), "status-message", "the status message has " + s.name + " at " + pose_text(s.status.pose) + " instead of " + pose_text(m.pose));
        }
        for (auto & [n, m] : model) check(published.count(n), "status-message", n + " is missing in the status message");
        std::map<std::string, int> n;
        for (auto & x : seen.updates) ++n[x.entity];
        for (auto & [e, m] : model) if (m.kind != "misc_object" && m.kept) check(n[e] == (started ? 1 : 0), "npc-updates", e + " is updated " + std::to_string(n[e]) + " times in a frame");
        for (auto & [e, c] : n) check(model.count(e) || dirty.count(e), "npc-updates", e + " is updated although it does not exist");
      }
    }
    agree(when);
    u64 kinds = 0;
    for (auto & [n, m] : model) kinds += m.kind == "vehicle" ? 1 : m.kind == "pedestrian" ? 16 : 256;
    state(kinds * 8 + dirty.size() % 4 * 2 + api.isNpcLogicStarted());
    idle(5 * ms);
  }
  R->api.reset();
  if (refused) probe("a spawn was refused");
  if (resets) probe("a behaviour was replaced");
  if (despawned) probe("an entity was despawned");
  if (spawned) { nontrivial(shape); sample(std::to_string(spawned) + " spawned, " + std::to_string(refused) + " refused, " + std::to_string(despawned) + " despawned, " + std::to_string(resets) + " behaviours replaced in " + std::to_string(steps) + " steps"); }
}
// ---------------------------------------------------------------------------------------------------------------- C15
struct Cadence { i64 period = 0, due = 0, t0 = 0; int count = 0; bool running = false; };

void lights_scenario()
{
  set_limits(4'000'000, 4000 * sec);
  enable_fault("simulator_refuses", wchance(1, 3));
  enable_fault("node_stalled", wchance(1, 3));
  enable_fault("frame_late", wchance(1, 3));
  if (!launch()) return;
  auto & api = *R->api;
  auto & simulator = *R->simulator;
  simulator.may_refuse = {"update_frame", "update_traffic_lights", "update_entity_status"};
  const std::map<int, std::vector<int>> groups = {{500, {501, 502}}, {510, {511}}};
  auto ways = [&](int id) -> std::vector<int> { auto it = groups.find(id); return it == groups.end() ? std::vector<int>{id} : it->second; };
  auto group = [](int way) { return way == 511 ? 510 : 500; };
  Channel conventional, v2i, conventional_detected, v2i_detected;
  std::set<int> enabled;
  std::map<int, std::vector<Prediction>> predictions;
  Cadence rates[2];
  int updates = 0, mirrored = 0, overridden = 0;
  u64 shape = 0;
  auto clock = [&] { return R->node->get_clock()->now().nanoseconds(); };
  auto compare = [&](const std::map<int, Bulbs> & got, const std::map<int, Bulbs> & want, const std::string & where, const std::string & cls) {
    for (auto & [w, b] : want) check(got.count(w) && got.at(w) == b, cls, "traffic light " + std::to_string(w) + " is " + (got.count(w) ? list(got.at(w)) : "missing") + " in " + where + " instead of " + list(b));
    for (auto & [w, b] : got) check(want.count(w), cls, "traffic light " + std::to_string(w) + " is " + list(b) + " in " + where + " instead of dark");
  };
  // an update is due every period once started, and comes as soon as the node is served; never more often
  auto published = [&](int k) {
    auto & c = rates[k];
    check(c.running, "update-rate", "traffic lights are published before the scenario has started");
    ++c.count;
    const i64 t = clock();
    check(c.count <= (t - c.t0) / c.period + 1, "update-rate", std::string(k ? "V2I" : "conventional") + " traffic lights are published " + std::to_string(c.count) + " times in " + str((t - c.t0) * 1e-9) + " s at intervals of " + str(c.period * 1e-9) + " s");
    c.due = t + c.period;
    ++updates;
  };
  simros::observe<traffic_simulator_msgs::msg::TrafficLightArrayV1>("/simulation/traffic_lights", [&](const auto & m) {
    std::map<int, Bulbs> got;
    for (auto & l : m.traffic_lights) {
      Bulbs b;
      for (auto & x : l.traffic_light_bulbs) b.insert(message_bulb(x));
      if (!b.empty()) check(got.emplace(l.lanelet_way_id, b).second, "conventional-message", "a traffic light is published twice in a message");
    }
    compare(got, output(conventional, {}), "/simulation/traffic_lights", "conventional-message");
    published(0);
  });
  std::vector<i64> instants;                        // of predictions; the clock moves while one is being made
  auto instant = [&](i64 t) { for (auto i : instants) if (std::abs(i - t) < ms) return i; return t; };
  std::map<std::string, int> v2i_count;
  for (const std::string topic : {"/perception/traffic_light_recognition/external/traffic_signals", "/v2x/traffic_signals"})
    simros::observe<autoware_perception_msgs::msg::TrafficLightGroupArray>(topic, [&, topic](const auto & m) {
      std::multiset<std::string> got, want;
      auto text = [](int g, const Bulbs & b, std::multiset<std::string> p) { std::string s = std::to_string(g) + list(b); for (auto & x : p) s += " then " + x; return s; };
      for (auto & g : m.traffic_light_groups) {
        Bulbs b;
        for (auto & x : g.elements) b.insert(message_bulb(x));
        std::multiset<std::string> p;
        for (auto & x : g.predictions) {
          Bulbs pb;
          for (auto & y : x.simultaneous_elements) pb.insert(message_bulb(y));
          p.insert(list(pb) + " at " + std::to_string(instant(nanoseconds(x.predicted_stamp)) / 1000));
          check(x.information_source == "SIMULATION" && close(x.reliability, 1), "v2i-message", "a prediction comes from " + x.information_source);
        }
        got.insert(text(static_cast<int>(g.traffic_light_group_id), b, p));
      }
      for (auto & [w, b] : output(v2i, v2i_detected)) {
        std::multiset<std::string> p;
        for (auto & x : predictions[w]) p.insert(list(x.bulbs) + " at " + std::to_string(instant(x.stamp) / 1000));
        want.insert(text(group(w), b, p));
      }
      check(got == want, "v2i-message", "the message on " + topic + " is " + list({got.begin(), got.end()}) + " instead of " + list({want.begin(), want.end()}));
      if (!v2i_count[topic]++) check(rates[1].running, "update-rate", "V2I traffic lights are published before the scenario has started");
      if (topic[1] == 'v') published(1);
    });
  auto serve = [&] {
    const i64 t = clock();
    R->executor.spin_some();
    for (int k : {0, 1}) if (rates[k].running) check(t < rates[k].due + 2000, "update-missing", std::string(k ? "V2I" : "conventional") + " traffic lights should have been published " + str((t - rates[k].due) * 1e-9) + " s ago");
    check(v2i_count["/v2x/traffic_signals"] == v2i_count["/perception/traffic_light_recognition/external/traffic_signals"], "v2i-message", "the two V2I topics do not get the same number of messages");
  };
  auto wait = [&](i64 d) {
    const i64 end = now() + d;
    do {
      serve();
      sim::sleep_ns(fault("node_stalled", 1, 12) ? static_cast<i64>(choose(F, 150)) * ms : std::min<i64>(std::max<i64>(end - now(), 100 * us), 3 * ms));
    } while (now() < end);
    serve();
  };
  auto begin = [&](int k, double rate, i64 t) { rates[k] = {static_cast<i64>(1e9 / rate), t + static_cast<i64>(1e9 / rate), t, 0, true}; };
  auto state_of = [&](std::vector<int> picks, std::set<std::string> & bulbs) { std::string s; for (auto k : picks) { auto & b = bulb_kinds()[k]; s += (s.empty() ? "" : ", ") + std::string(b.text); bulbs.insert(bulb_text(b.color, b.status, b.shape)); } return s; };
  const std::vector<int> ids = {500, 501, 502, 510, 511};
  const int steps = 20 + static_cast<int>(w(60));
  bool started = false;
  const int start_at = static_cast<int>(w(8));
  const bool with_rates = wchance(1, 4);
  for (int k = 0; k < steps; ++k) {
    if (k == start_at) { api.startNpcLogic(); started = true; }
    if (wchance(3, 5)) {
      const int id = ids[w(ids.size())];
      std::vector<int> picks;
      for (int n = 1 + static_cast<int>(w(3)); n--;) picks.push_back(static_cast<int>(w(bulb_kinds().size())));
      std::set<std::string> bulbs;
      const auto text = state_of(picks, bulbs);
      const auto op = w(14);
      shape = shape * 31 + op * 5 + static_cast<u64>(id % 5);
      auto each = [&](auto && f) { for (auto x : ways(id)) f(x); };
      auto mirror = [&](auto && f) { for (auto x : ways(id)) if (enabled.count(x)) { f(v2i[x]); ++mirrored; } };
      auto put = [&](Light & l) { l.bulbs = bulbs; };
      auto add = [&](Light & l) { l.bulbs.insert(bulbs.begin(), bulbs.end()); };
      auto clear = [&](Light & l) { l.bulbs.clear(); };
      logf("operation ", op, " on ", id, " state ", text);
      switch (op) {
        case 0: api.getConventionalTrafficLights()->setTrafficLightsState(id, text); each([&](int x) { put(conventional[x]); }); mirror(put); break;
        case 1: api.getConventionalTrafficLights()->addTrafficLightsState(id, text); each([&](int x) { add(conventional[x]); }); mirror(add); break;
        case 2: api.getConventionalTrafficLights()->clearTrafficLightsState(id); each([&](int x) { clear(conventional[x]); }); mirror(clear); break;
        case 3: api.getV2ITrafficLights()->setTrafficLightsState(id, text); each([&](int x) { put(v2i[x]); }); break;
        case 4: api.getV2ITrafficLights()->addTrafficLightsState(id, text); each([&](int x) { add(v2i[x]); }); break;
        case 5: api.getV2ITrafficLights()->clearTrafficLightsState(id); each([&](int x) { clear(v2i[x]); }); break;
        case 6: {
          const bool on = wchance(2, 3);
          api.setTrafficSignalV2IFeature(id, on);
          each([&](int x) { if (on) enabled.insert(x); else enabled.erase(x); });
          break;
        }
        case 7: case 8: {
          const bool v = op == 8;
          auto & real = *(v ? api.getV2IDetectedTrafficLights() : api.getConventionalDetectedTrafficLights());
          auto & m = v ? v2i_detected : conventional_detected;
          if (wchance(1, 2)) { real.setState(id, text); each([&](int x) { m[x] = {bulbs, 1}; }); }
          else { real.addState(id, text); each([&](int x) { add(m[x]); }); }
          ++overridden;
          break;
        }
        case 9: case 10: {
          auto & real = *(op == 10 ? api.getV2IDetectedTrafficLights() : api.getConventionalDetectedTrafficLights());
          auto & m = op == 10 ? v2i_detected : conventional_detected;
          bool any = false;
          each([&](int x) { any = m.erase(x) || any; });
          check(real.clearState(id) == any, "detected-clear", "clearing the detected state of " + std::to_string(id) + " says there was " + (any ? "none" : "one"));
          break;
        }
        case 11: {
          const double ahead = static_cast<double>(w(4)) * 0.5 + 0.1 * static_cast<double>(w(2));
          // one state at a time
          const auto & b = bulb_kinds()[picks[0]];
          const i64 stamp = clock() + static_cast<i64>(ahead * 1e9);
          bool near = false;                        // neither clearly the same phase nor clearly another one
          for (auto x : ways(id)) for (auto & p : predictions[x]) if (std::abs(std::abs(p.stamp - stamp) - 10 * ms) < ms) near = true;
          for (auto i : instants) if (std::abs(std::abs(i - stamp) - ms) < ms / 2) near = true;
          if (near) break;
          instants.push_back(stamp);
          api.getV2ITrafficLights()->addTrafficLightsStatePrediction(id, b.text, ahead);
          for (auto x : ways(id)) {
            auto & list = predictions[x];
            auto it = std::find_if(list.begin(), list.end(), [&](auto & p) { return std::abs(p.stamp - stamp) <= 10 * ms; });
            if (it == list.end()) { list.push_back({stamp, {}}); it = std::prev(list.end()); }
            it->bulbs.insert(bulb_text(b.color, b.status, b.shape) + " 1");
          }
          probe("predictions");
          break;
        }
        case 12:
          if (wchance(1, 2)) { api.getV2ITrafficLights()->clearTrafficLightsStatePredictions(); predictions.clear(); }
          else { api.getV2ITrafficLights()->clearTrafficLightsStatePredictions(id); each([&](int x) { predictions.erase(x); }); }
          break;
        case 13: {
          const double confidence = 0.25 * static_cast<double>(1 + w(4));
          const bool v = wchance(1, 2) || !enabled.empty();
          if (v) { api.getV2ITrafficLights()->setTrafficLightsConfidence(id, confidence); each([&](int x) { v2i[x].confidence = confidence; }); }
          else { api.getConventionalTrafficLights()->setTrafficLightsConfidence(id, confidence); each([&](int x) { conventional[x].confidence = confidence; }); }
          break;
        }
      }
      // what conditions see
      for (auto x : ids) {
        for (bool v : {false, true}) {
          auto & real = *(v ? static_cast<std::shared_ptr<traffic_simulator::TrafficLightsBase>>(api.getV2ITrafficLights()) : api.getConventionalTrafficLights());
          auto & m = v ? v2i : conventional;
          const auto & probe_bulb = bulb_kinds()[w(bulb_kinds().size())];
          bool all = true, dark = true;
          for (auto y : ways(x)) { all = all && m[y].bulbs.count(bulb_text(probe_bulb.color, probe_bulb.status, probe_bulb.shape)); dark = dark && m[y].bulbs.empty(); }
          check(real.compareTrafficLightsState(x, probe_bulb.text) == all, "condition", "traffic light " + std::to_string(x) + " is " + (all ? "not " : "") + "reported to be '" + probe_bulb.text + "' in the " + (v ? "V2I" : "conventional") + " channel");
          check(real.compareTrafficLightsState(x, wchance(1, 2) ? "none" : "") == dark, "condition", "traffic light " + std::to_string(x) + " is " + (dark ? "not " : "") + "reported to be dark in the " + (v ? "V2I" : "conventional") + " channel");
          if (!groups.count(x)) {
            const bool stop = m[x].bulbs.count("red on circle") || m[x].bulbs.count("yellow on circle");
            check(real.isRequiredStopTrafficLightState(x) == stop, "condition", "traffic light " + std::to_string(x) + (stop ? " does not require" : " requires") + " a stop with " + list(shown(m[x])));
          }
        }
        bool all = true;
        for (auto y : ways(x)) all = all && enabled.count(y);
        check(api.isV2ITrafficLightEnabled(x) == all, "v2i-enabled", "V2I of traffic light " + std::to_string(x) + " is reported as " + (all ? "disabled" : "enabled"));
      }
    }
    if (with_rates && wchance(1, 12)) {
      const bool v = wchance(1, 2);
      const double rate = std::vector<double>{5, 20, 50, 3}[w(4)];
      const i64 t = clock();
      logf("rate of ", v ? "V2I" : "conventional", " ", rate);
      if (v) api.getV2ITrafficLights()->resetUpdate(rate); else api.getConventionalTrafficLights()->resetUpdate(rate);
      begin(v, rate, t);
      shape = shape * 31 + static_cast<u64>(rate);
      probe("the rate was changed");
    }
    simulator.forget();
    const i64 t = clock();
    api.updateFrame();
    if (started && !simulator.of("update_entity_status").empty() && simulator.of("update_entity_status")[0]->accepted) {
      if (!rates[0].running) { begin(0, 30, t); rates[0].due = clock() + rates[0].period; }
      if (!rates[1].running) { begin(1, 10, t); rates[1].due = clock() + rates[1].period; }
    }
    auto q = simulator.of("update_traffic_lights");
    const bool exchanged = simulator.of("update_entity_status")[0]->accepted;
    check(q.size() == (exchanged ? 1 : 0), "light-request", std::to_string(q.size()) + " traffic light requests in a frame");
    for (auto * x : q) {
      std::map<int, Bulbs> got;
      for (auto & s : x->request.update_traffic_lights().states()) {
        Bulbs b;
        for (auto & y : s.traffic_light_status()) b.insert(request_bulb(y));
        if (b.empty()) continue;
        check(got.emplace(static_cast<int>(s.id()), b).second, "light-request", "traffic light " + std::to_string(s.id()) + " is listed twice in the request");
        check(s.relation_ids_size() == 1 && s.relation_ids(0) == group(static_cast<int>(s.id())), "light-request", "traffic light " + std::to_string(s.id()) + " is not listed with its group");
      }
      compare(got, output(conventional, conventional_detected), "the request to the simulator", "light-request");
    }
    state(shape % 65521 * 8 + enabled.size());
    wait(fault("frame_late", 1, 3) ? static_cast<i64>(choose(F, 200)) * ms : static_cast<i64>(1e9 / R->rate));
  }
  R->api.reset();
  if (mirrored) probe("a state was mirrored");
  if (overridden) probe("a detected state was set");
  if (updates) { nontrivial(shape); sample(std::to_string(updates) + " publications, " + std::to_string(mirrored) + " mirrored changes, " + std::to_string(overridden) + " detected states in " + std::to_string(steps) + " frames"); }
}
// ---------------------------------------------------------------------------------------------------------------- C16
struct Spawned { std::string type; geometry_msgs::msg::Pose pose; };
struct Source
{
  double radius, rate, speed, yaw, start;
  geometry_msgs::msg::Pose centre;
  bool outside, fitting, random;
  std::optional<int> seed;
  std::vector<int> kinds;                            // 0 car, 1 small car, 2 pedestrian
  std::vector<double> weights;
  std::string prefix;
  std::vector<Spawned> spawned;
  int twin = -1;
};
// the lanes of the map: three along the x axis, the turn to the south and what follows it, the crosswalk
bool lane_at(double x, double y, double slack)
{
  if (x > -slack && x < 300 + slack && y > -3.5 - slack && y < 7 + slack) return true;
  const double r = std::hypot(x - 150, y + 6);
  if (x > 150 - slack && y > -6 - slack && r > 6 - slack && r < 9.5 + slack + 0.2) return true;
  if (x > 156 - slack && x < 159.5 + slack && y < -6 + slack && y > -106 - slack) return true;
  return x > 130 - slack && x < 134 + slack && y > -5.5 - slack && y < 9 + slack;
}

void traffic_scenario()
{
  set_limits(8'000'000, 4000 * sec);
  enable_fault("simulator_refuses", wchance(1, 2));
  using Type = traffic_simulator_msgs::msg::EntityType;
  const bool sink = wchance(2, 3);
  std::set<std::uint8_t> sinkable;
  if (sink) { for (auto t : {Type::VEHICLE, Type::PEDESTRIAN, Type::MISC_OBJECT}) if (wchance(1, 2)) sinkable.insert(t); }
  if (!launch(sinkable)) return;
  auto & api = *R->api;
  auto & simulator = *R->simulator;
  simulator.may_refuse = {"update_frame", "update_traffic_lights", "update_entity_status"};
  std::vector<Source> sources;
  const std::vector<double> corners_x = {1, 1, -1, -1}, corners_y = {1, -1, 1, -1};
  auto parameters = [](int kind) -> traffic_simulator::traffic::TrafficSource::VehicleOrPedestrianParameter {
    if (kind == 2) return pedestrian();
    return kind ? car(2, 1) : car();
  };
  auto box_of = [&](int kind) { return kind == 2 ? pedestrian().bounding_box : kind ? car(2, 1).bounding_box : car().bounding_box; };
  auto corners = [&](int kind, const geometry_msgs::msg::Pose & p) {
    const auto b = box_of(kind);
    const double yaw = 2 * std::atan2(p.orientation.z, p.orientation.w);
    std::vector<std::pair<double, double>> v;
    for (int k = 0; k < 4; ++k) {
      const double x = b.center.x + corners_x[k] * b.dimensions.x / 2, y = b.center.y + corners_y[k] * b.dimensions.y / 2;
      v.push_back({p.position.x + x * std::cos(yaw) - y * std::sin(yaw), p.position.y + x * std::sin(yaw) + y * std::cos(yaw)});
    }
    return v;
  };
  // the ends of the roads
  const std::vector<std::pair<double, double>> ends = {{300, 1.75}, {300, 5.25}, {0, -1.75}, {150 + 6 + 1.75, -106}, {132, 9}};   // and of the crosswalk
  auto sunk = [&](const geometry_msgs::msg::Pose & p) { for (auto [x, y] : ends) if (std::hypot(p.position.x - x, p.position.y - y) < 1) return true; return false; };
  double time = 0, started_at = 0;
  bool started = false;
  std::map<std::string, std::pair<std::uint8_t, geometry_msgs::msg::Pose>> others;   // not from a source
  int generated = 0, despawned = 0, frames_refused = 0;
  u64 shape = 0;
  auto add = [&](Source s) {
    traffic_simulator::traffic::TrafficSource::Distribution d;
    for (std::size_t k = 0; k < s.kinds.size(); ++k) d.emplace_back(parameters(s.kinds[k]), "sim/Recorder", "model" + std::to_string(s.kinds[k]), s.weights[k]);
    s.start = started ? time - started_at : 0;
    logf("source of radius ", s.radius, " at ", s.centre.position.x, ",", s.centre.position.y, " rate ", s.rate, " speed ", s.speed, s.outside ? " outside" : "", s.fitting ? " fitting" : "", s.random ? " random" : "");
    api.addTrafficSource(s.radius, s.rate, s.speed, s.centre, d, s.outside, s.fitting, s.random, s.seed);
    sources.push_back(s);
    shape = shape * 31 + static_cast<u64>(s.radius * 10 + s.rate) + s.outside + 2 * s.fitting + 4 * s.random;
  };
  const int frames = 15 + static_cast<int>(w(60));
  const int start_at = static_cast<int>(w(6));
  for (int f = 0; f < frames; ++f) {
    if (f == start_at) { api.startNpcLogic(); started = true; started_at = time; }
    if (sources.size() < 4 && wchance(1, f < 3 ? 2 : 12)) {
      Source s;
      s.kinds = std::vector<std::vector<int>>{{0}, {1}, {0, 1}, {1, 2}, {2}, {0, 1, 2}}[w(6)];
      for (std::size_t k = 0; k < s.kinds.size(); ++k) s.weights.push_back(s.kinds.size() > 1 && wchance(1, 4) ? 0 : 1 + static_cast<double>(w(3)));
      if (std::all_of(s.weights.begin(), s.weights.end(), [](double x) { return x == 0; })) s.weights[0] = 1;
      s.radius = std::vector<double>{8, 15, 30}[w(3)];
      s.rate = std::vector<double>{0.5, 1, 3, 8}[w(4)];
      s.speed = static_cast<double>(w(15));
      const int road = static_cast<int>(w(3));
      s.yaw = road == 2 ? M_PI : 0;
      s.centre = pose(60 + static_cast<double>(w(180)), road == 0 ? 1.75 : road == 1 ? 5.25 : -1.75, s.yaw);
      s.outside = wchance(1, 3);
      s.fitting = !s.outside && wchance(1, 2);
      s.random = wchance(1, 3);
      if (wchance(3, 4)) s.seed = static_cast<int>(w(1000));
      add(s);
      if (s.seed && wchance(1, 2)) { Source t = s; t.twin = static_cast<int>(sources.size()) - 1; add(t); probe("two sources of the same seed"); }
    }
    if (wchance(1, 4) && others.size() < 6) {
      const auto name = "other" + std::to_string(f);
      const auto [x, y] = ends[w(ends.size() - 1)];
      const double d = std::vector<double>{0, 0.6, -0.6, 1.5, -1.5, 5}[w(6)], e = std::vector<double>{0, 0.5, 1.2}[w(3)];
      const auto p = pose(x + d, y + e);
      const auto kind = w(3);
      if (kind == 0) api.spawn(name, p, car(), "sim/Recorder"); else if (kind == 1) api.spawn(name, p, pedestrian(), "sim/Recorder"); else api.spawn(name, p, box());
      others[name] = {kind == 0 ? Type::VEHICLE : kind == 1 ? Type::PEDESTRIAN : Type::MISC_OBJECT, p};
    }
    if (wchance(1, 10)) {
      std_msgs::msg::Float64 m;
      m.data = std::vector<double>{2, 0.5, 1, 0.1}[w(4)];
      simros::inject("/real_time_factor", m);
      idle(20 * ms);
      R->factor = m.data;
    }
    simulator.forget();
    const auto before = names_of(api);
    const double t = started ? time - started_at : std::nan("");
    const bool done = api.updateFrame();
    const bool exchanged = simulator.of("update_entity_status")[0]->accepted;
    if (!done) ++frames_refused;
    const auto after = names_of(api);
    std::map<std::string, const Simulator::Seen *> requests;
    for (auto & s : simulator.seen) {
      std::string n;
      if (s.kind == "spawn_vehicle_entity") n = s.request.spawn_vehicle_entity().parameters().name();
      else if (s.kind == "spawn_pedestrian_entity") n = s.request.spawn_pedestrian_entity().parameters().name();
      else if (s.kind == "spawn_misc_object_entity") n = s.request.spawn_misc_object_entity().parameters().name();
      if (!n.empty()) check(requests.emplace(n, &s).second, "spawn-request", n + " is spawned twice in the simulator");
    }
    // sinks
    std::set<std::string> gone, told;
    for (auto & n : before) if (!after.count(n)) gone.insert(n);
    for (auto * s : simulator.of("despawn_entity")) check(told.insert(s->request.despawn_entity().name()).second, "sink-request", s->request.despawn_entity().name() + " is despawned twice in the simulator");
    check(told == gone, "sink-request", std::to_string(gone.size()) + " entities were despawned here, " + std::to_string(told.size()) + " in the simulator");
    for (auto & [n, o] : others) {
      const bool expected = exchanged && sinkable.count(o.first) && sunk(o.second);
      check(gone.count(n) == (expected ? 1u : 0u), "sink", n + " at " + pose_text(o.second) + " is " + (expected ? "not " : "") + "despawned by a sink for " + std::to_string(sinkable.size()) + " types");
    }
    for (auto & n : gone) {
      ++despawned;
      if (others.erase(n)) continue;
      bool ok = false;
      for (auto & s : sources) for (std::size_t k = 0; k < s.spawned.size(); ++k) if (s.prefix + std::to_string(k) == n) ok = sunk(s.spawned[k].pose) && sinkable.count(s.spawned[k].type == "pedestrian" ? Type::PEDESTRIAN : Type::VEHICLE);
      check(ok, "sink", n + " vanishes");
    }
    // sources
    std::map<std::string, std::vector<std::string>> by_source;
    std::size_t fresh = 0;
    for (auto & n : after) if (!before.count(n)) {
      check(n.rfind("TrafficSource_", 0) == 0 && n.find("_Entity_") != n.npos, "source-name", n + " appears in a frame");
      by_source[n.substr(0, n.find("_Entity_") + 8)].push_back(n);
      ++fresh;
    }
    check(requests.size() == fresh, "spawn-request", std::to_string(fresh) + " entities appear here, " + std::to_string(requests.size()) + " in the simulator");
    for (auto & [prefix, list] : by_source) {
      if (std::any_of(sources.begin(), sources.end(), [&](auto & s) { return s.prefix == prefix; })) continue;
      // the identifiers of the sources are increasing
      auto number = [](const std::string & p) { return p.empty() ? -1 : std::stoi(p.substr(14)); };
      std::vector<std::string> unknown;
      for (auto & [p, l] : by_source) if (std::none_of(sources.begin(), sources.end(), [&](auto & s) { return s.prefix == p; })) unknown.push_back(p);
      std::sort(unknown.begin(), unknown.end(), [&](auto & a, auto & b) { return number(a) < number(b); });
      for (auto & s : sources) if (s.prefix.empty() && exchanged && t - s.start > 0 && !unknown.empty()) { s.prefix = unknown.front(); unknown.erase(unknown.begin()); }
      check(unknown.empty(), "source-name", prefix + "* belongs to no source");
    }
    for (std::size_t i = 0; i < sources.size(); ++i) {
      auto & s = sources[i];
      auto & list = s.prefix.empty() ? by_source["none"] : by_source[s.prefix];
      // k / rate after the start comes entity k
      std::size_t low = 0, high = 0;
      if (exchanged && started && !std::isnan(t)) { const double n = (t - s.start) * s.rate; low = n > 1e-7 ? static_cast<std::size_t>(std::ceil(n - 1e-6)) : 0; high = n > -1e-7 ? static_cast<std::size_t>(std::ceil(n + 1e-6)) : 0; } else low = high = s.spawned.size();
      check(s.spawned.size() + list.size() >= low && s.spawned.size() + list.size() <= high, "source-count", "source " + std::to_string(i) + " of rate " + str(s.rate) + " started at " + str(s.start) + " has generated " + std::to_string(s.spawned.size() + list.size()) + " entities at " + str(t) + " instead of " + std::to_string(low));
      for (std::size_t j = 0; j < list.size(); ++j) {
        const auto name = s.prefix + std::to_string(s.spawned.size());
        check(after.count(name), "source-name", "the entity after " + std::to_string(s.spawned.size()) + " others of a source is not " + name);
        auto & e = api.getEntity(name);
        const auto p = e.getMapPose();
        auto & q = *requests[name];
        const bool walks = q.kind == "spawn_pedestrian_entity";
        const int kind = walks ? 2 : close(e.getBoundingBox().dimensions.x, 2) ? 1 : 0;
        auto it = std::find(s.kinds.begin(), s.kinds.end(), kind);
        check(it != s.kinds.end() && s.weights[it - s.kinds.begin()] > 0, "source-type", name + " is of a type that has no weight in its source");
        check((walks ? q.request.spawn_pedestrian_entity().asset_key() : q.request.spawn_vehicle_entity().asset_key()) == "model" + std::to_string(kind), "source-type", name + " has another 3D model than its distribution says");
        check(close(e.getCurrentTwist().linear.x, s.speed), "source-speed", name + " starts at speed " + str(e.getCurrentTwist().linear.x) + " instead of " + str(s.speed));
        const double dx = p.position.x - s.centre.position.x, dy = p.position.y - s.centre.position.y;
        check(std::hypot(dx, dy) <= s.radius + 0.05, "source-area", name + " is " + str(std::hypot(dx, dy)) + " m from the centre of its source of radius " + str(s.radius));
        const double yaw = 2 * std::atan2(p.orientation.z, p.orientation.w);
        if (s.outside || (!s.random && std::abs(std::cos(yaw) - std::cos(s.yaw)) < 1e-3 && std::abs(std::sin(yaw)) < 1e-3))
          for (auto [x, y] : corners(kind, p)) check(std::hypot(x - s.centre.position.x, y - s.centre.position.y) <= s.radius + 0.05, "source-area", "a corner of " + name + " is " + str(std::hypot(x - s.centre.position.x, y - s.centre.position.y)) + " m from the centre of its source of radius " + str(s.radius));
        if (!s.outside) {
          if (!walks && (p.position.x < 125 || p.position.x > 180)) check(std::abs(std::sin(yaw)) < 0.01, "source-pose", name + " is not turned in the direction of its lane: " + pose_text(p) + " " + str(yaw));
          check(e.isInLanelet(), "source-lane", name + " is not in a lane, it is at " + pose_text(p));
          if (s.fitting) for (auto [x, y] : corners(kind, p)) check(lane_at(x, y, 0.02), "source-lane", "a corner of " + name + " at (" + str(x) + ", " + str(y) + ") is in no lane");
        } else if (!s.random) check(std::abs(std::cos(yaw) - std::cos(s.yaw)) < 1e-3, "source-pose", name + " does not have the orientation of its source");
        s.spawned.push_back({walks ? "pedestrian" : kind ? "small" : "car", p});
        ++generated;
        if (s.twin >= 0 && sources[s.twin].spawned.size() >= s.spawned.size()) {
          auto & other = sources[s.twin].spawned[s.spawned.size() - 1];
          check(other.type == s.spawned.back().type && same_pose(other.pose, p), "source-seed", "two sources of the same seed do not generate the same entities");
        }
      }
    }
    if (done) time += R->step();
    state(shape % 8191 * 64 + std::min(generated, 63));
    idle(static_cast<i64>(1e9 / R->rate));
  }
  R->api.reset();
  if (generated) probe("a source generated entities");
  if (despawned) probe("a sink despawned an entity");
  if (generated || despawned) { nontrivial(shape * 131 + generated * 7 + despawned); sample(std::to_string(generated) + " entities generated by " + std::to_string(sources.size()) + " sources, " + std::to_string(despawned) + " despawned by sinks, " + std::to_string(frames_refused) + " frames refused"); }
}
}  // namespace

int main(int argc, char ** argv)
{
  const std::vector<std::string> real = {"traffic_simulator (API, clock, entity manager, entities, jobs, routes, traffic lights, traffic sources and sinks, lanelet_wrapper)", "simulation_interface (conversions, ZeroMQ client, protobuf messages)", "do_nothing_plugin", "behavior_tree_plugin (linked)", "geometry"};
  const std::vector<std::string> stub = {"rclcpp", "ZeroMQ sockets", "the simulator process (accepts, refuses, answers late)", "Lanelet2 (a small map with the same interface)", "BehaviorTree.CPP", "pluginlib"};
  return driver_main(argc, argv, {
    {"C13", clocks_scenario,
     "workload: 5-45 frames at 10-60 Hz and real-time factors 0.1-2 with 0-4 entities spawned on the way, the scenario started at some frame and sometimes again, real-time factors received (valid, too small, not a number), simulated or wall clock; "
     "faults: simulator_refuses (status, traffic lights, frame), simulator_slow, frame_late; non-trivial: the scenario started and a frame completed; distinct by rate, start, factors and numbers of completed and refused frames",
     real, stub},
    {"C14", entities_scenario,
     "workload: 8-48 steps of spawning (vehicles, pedestrians, objects; lane or map poses; taken names, unknown behaviours), despawning, changes of motion and behaviour, frames; faults: simulator_refuses (spawn, despawn, status), simulator_moves_entities; "
     "non-trivial: something was spawned; distinct by the sequence of operations",
     real, stub},
    {"C15", lights_scenario,
     "workload: 20-80 frames with states set, added and cleared by way or group id in the four channels, V2I enabled and disabled, predictions, confidences, changed rates; simulated or wall clock; "
     "faults: simulator_refuses, node_stalled, frame_late, simulator_slow; non-trivial: traffic lights were published; distinct by the sequence of operations",
     real, stub},
    {"C16", traffic_scenario,
     "workload: 15-75 frames with up to four traffic sources (types, weights, rates 0.5-40/s, radii, lane or map poses, fitting footprints, random orientations, seeds), entities placed at and near the ends of roads with sinks for some types, changing real-time factors; "
     "faults: simulator_refuses (status, traffic lights, frame), simulator_slow; non-trivial: something was generated or sunk; distinct by the sources and the numbers generated and sunk",
     real, stub},
  });
}
