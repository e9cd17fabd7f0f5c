// The world around the traffic simulator: the simulator process at the other end of the ZeroMQ socket, the map directory, behaviour plugins.
#pragma once
#include <sim/kernel/kernel.hpp>
#include <sim/lanelet/world.hpp>
#include <boost/math/constants/constants.hpp>
#include <do_nothing_plugin/plugin.hpp>
#include <pluginlib/class_loader.hpp>
#include <rosgraph_msgs/msg/clock.hpp>
#include <scenario_simulator_exception/exception.hpp>
#include <simulation_interface/conversions.hpp>
#include <traffic_simulator/api/api.hpp>
#include <zmq.hpp>
#include <cmath>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <memory>
#include <set>

namespace world
{
using namespace sim;
namespace schema = simulation_api_schema;
using Plugin = entity_behavior::BehaviorPluginBase;

inline std::string str(double v) { std::ostringstream o; o.precision(12); o << v; return o.str(); }
inline std::string repo() { const char * r = std::getenv("VERIF_REPO"); return r ? r : "/repo"; }
inline bool close(double a, double b, double eps = 1e-6) { return std::abs(a - b) <= eps || (std::isnan(a) && std::isnan(b)); }

// What runs at the other end of the socket: it accepts or refuses, keeps what it was told, and answers.
struct Simulator
{
  struct Known { std::string kind; bool ego = false; };
  struct Seen { std::string kind; schema::SimulationRequest request; bool accepted; };
  std::map<std::string, Known> entities;
  std::vector<Seen> seen;                                     // since the last forget()
  std::set<std::string> may_refuse;                           // kinds of requests a fault may make it refuse
  unsigned refuse_num = 1, refuse_den = 12;
  u64 refusals = 0, total = 0;
  std::function<void(const schema::UpdateEntityStatusRequest &, schema::UpdateEntityStatusResponse &)> respond;
  std::function<void(const std::string & kind, const schema::SimulationRequest &, bool accepted)> observe;
  std::vector<const Seen *> of(const std::string & kind) const
  {
    std::vector<const Seen *> out;
    for (auto & s : seen) if (s.kind == kind) out.push_back(&s);
    return out;
  }
  void forget() { seen.clear(); }
  bool accept(const std::string & kind)
  {
    ++total;
    if (may_refuse.count(kind) && fault("simulator_refuses", refuse_num, refuse_den)) { ++refusals; return false; }
    return true;
  }
  bool spawn(const std::string & kind, const std::string & name, bool ego)
  {
    if (entities.count(name)) return false;
    entities[name] = {kind, ego};
    return true;
  }
  std::string serve(const std::string & bytes)
  {
    schema::SimulationRequest q;
    schema::SimulationResponse a;
    check(q.ParseFromString(bytes), "malformed-request", "the simulator received something that is no request");
    std::string kind;
    bool ok = false;
    auto finish = [&](auto * response) { response->mutable_result()->set_success(ok); if (!ok) response->mutable_result()->set_description("refused"); };
#define WORLD_KIND(NAME) if (q.has_##NAME()) { kind = #NAME; ok = accept(kind); finish(a.mutable_##NAME()); }
    if (q.has_spawn_vehicle_entity()) {
      kind = "spawn_vehicle_entity";
      ok = accept(kind) && spawn("vehicle", q.spawn_vehicle_entity().parameters().name(), q.spawn_vehicle_entity().is_ego());
      finish(a.mutable_spawn_vehicle_entity());
    } else if (q.has_spawn_pedestrian_entity()) {
      kind = "spawn_pedestrian_entity";
      ok = accept(kind) && spawn("pedestrian", q.spawn_pedestrian_entity().parameters().name(), false);
      finish(a.mutable_spawn_pedestrian_entity());
    } else if (q.has_spawn_misc_object_entity()) {
      kind = "spawn_misc_object_entity";
      ok = accept(kind) && spawn("misc_object", q.spawn_misc_object_entity().parameters().name(), false);
      finish(a.mutable_spawn_misc_object_entity());
    } else if (q.has_despawn_entity()) {
      kind = "despawn_entity";
      ok = accept(kind) && entities.erase(q.despawn_entity().name());
      finish(a.mutable_despawn_entity());
    } else if (q.has_update_entity_status()) {
      kind = "update_entity_status";
      ok = accept(kind);
      auto & r = *a.mutable_update_entity_status();
      finish(&r);
      if (ok && respond) respond(q.update_entity_status(), r);
    } else
    WORLD_KIND(initialize) else WORLD_KIND(update_frame) else WORLD_KIND(update_traffic_lights) else WORLD_KIND(update_step_time)
    else WORLD_KIND(attach_lidar_sensor) else WORLD_KIND(attach_detection_sensor) else WORLD_KIND(attach_occupancy_grid_sensor)
    else WORLD_KIND(attach_pseudo_traffic_light_detector) else WORLD_KIND(attach_imu_sensor)
    else violation("malformed-request", "the simulator received a request of no known kind");
#undef WORLD_KIND
    logf("request ", kind, ok ? "" : " (refused)");
    seen.push_back({kind, q, ok});
    if (observe) observe(kind, q, ok);
    return a.SerializeAsString();
  }
};

struct Update { std::string entity; double current, step; };
// A behaviour that does nothing but remember when it was asked to.
struct Recorder : entity_behavior::DoNothingBehavior
{
  static inline std::vector<Update> * updates = nullptr;
  std::string entity;
  void configure(const rclcpp::Logger & logger) override { entity = logger.get_name(); DoNothingBehavior::configure(logger); }
  void update(double current, double step) override
  {
    if (updates) updates->push_back({entity, current, step});
    if (auto status = getCanonicalizedEntityStatus()) status->setTime(current);
  }
};

inline std::string map_directory()
{
  const auto d = scratch() + "/map";
  std::filesystem::create_directories(d);
  std::ofstream(d + "/lanelet2_map.osm") << "<osm/>\n";
  std::ofstream(d + "/pointcloud_map.pcd") << "\n";
  return d;
}

inline Simulator * start(const std::string & port = "5555")
{
  NoInstrument guard;
  simros::reset_network();
  simzmq::reset_net();
  auto & p = simros::plugins<Plugin>();
  for (auto [as, is] : {std::pair<const char *, const char *>{"behavior_tree_plugin/VehicleBehaviorTree", "entity_behavior::VehicleBehaviorTree"},
                        {"behavior_tree_plugin/PedestrianBehaviorTree", "entity_behavior::PedestrianBehaviorTree"},
                        {"do_nothing_plugin/DoNothingPlugin", "entity_behavior::DoNothingBehavior"}})
    if (p.count(is)) p[as] = p[is];
  p["sim/Recorder"] = [] { return std::static_pointer_cast<Plugin>(std::make_shared<Recorder>()); };
  simros::network().packages["behavior_tree_plugin"] = repo() + "/simulation/behavior_tree_plugin";
  simros::network().packages["traffic_simulator"] = repo() + "/simulation/traffic_simulator";
  auto * s = new Simulator;
  simzmq::peer_server(port, [s](const std::string & b) { return s->serve(b); });
  // what a time source does
  simros::observe<rosgraph_msgs::msg::Clock>("/clock", [](const auto & m) {
    const auto t = static_cast<std::int64_t>(m.clock.sec) * 1'000'000'000 + m.clock.nanosec;
    sim::after(100 * us, [t] { simros::network().sim_clock = t; });
  });
  return s;
}

inline traffic_simulator_msgs::msg::VehicleParameters car(double length = 4.5, double width = 2.1)
{
  traffic_simulator_msgs::msg::VehicleParameters p;
  p.name = "car";
  p.subtype.value = traffic_simulator_msgs::msg::EntitySubtype::CAR;
  p.performance.max_speed = 69.444;
  p.performance.max_acceleration = 200;
  p.performance.max_deceleration = 10;
  p.performance.max_acceleration_rate = 1e9;
  p.performance.max_deceleration_rate = 1e9;
  p.bounding_box.center.x = length / 3;
  p.bounding_box.center.z = 0.9;
  p.bounding_box.dimensions.x = length;
  p.bounding_box.dimensions.y = width;
  p.bounding_box.dimensions.z = 1.8;
  p.axles.front_axle.max_steering = 0.5;
  p.axles.front_axle.wheel_diameter = 0.6;
  p.axles.front_axle.track_width = 1.8;
  p.axles.front_axle.position_x = 3.1;
  p.axles.front_axle.position_z = 0.3;
  p.axles.rear_axle = p.axles.front_axle;
  p.axles.rear_axle.max_steering = 0;
  p.axles.rear_axle.position_x = 0;
  return p;
}
inline traffic_simulator_msgs::msg::PedestrianParameters pedestrian()
{
  traffic_simulator_msgs::msg::PedestrianParameters p;
  p.name = "pedestrian";
  p.subtype.value = traffic_simulator_msgs::msg::EntitySubtype::PEDESTRIAN;
  p.bounding_box.center.z = 0.5;
  p.bounding_box.dimensions.x = 0.6;
  p.bounding_box.dimensions.y = 0.6;
  p.bounding_box.dimensions.z = 1.8;
  return p;
}
inline traffic_simulator_msgs::msg::MiscObjectParameters box()
{
  traffic_simulator_msgs::msg::MiscObjectParameters p;
  p.name = "box";
  p.subtype.value = traffic_simulator_msgs::msg::EntitySubtype::UNKNOWN;
  p.bounding_box.dimensions.x = p.bounding_box.dimensions.y = p.bounding_box.dimensions.z = 1;
  return p;
}
inline geometry_msgs::msg::Pose pose(double x, double y, double yaw = 0)
{
  geometry_msgs::msg::Pose p;
  p.position.x = x;
  p.position.y = y;
  p.orientation.z = std::sin(yaw / 2);
  p.orientation.w = std::cos(yaw / 2);
  return p;
}
template <typename A, typename B> bool same_pose(const A & a, const B & b, double eps = 1e-6)
{
  const double d = a.orientation.x * b.orientation.x + a.orientation.y * b.orientation.y + a.orientation.z * b.orientation.z + a.orientation.w * b.orientation.w;
  return close(a.position.x, b.position.x, eps) && close(a.position.y, b.position.y, eps) && close(a.position.z, b.position.z, eps) && std::abs(std::abs(d) - 1) < 1e-6;
}
template <typename P> std::string pose_text(const P & p) { return "(" + str(p.position.x) + ", " + str(p.position.y) + ", " + str(p.position.z) + ")"; }
// protobuf poses have accessors in place of members
inline geometry_msgs::msg::Pose from(const geometry_msgs::Pose & p) { geometry_msgs::msg::Pose m; simulation_interface::toMsg(p, m); return m; }
}  // namespace world
