#pragma once
// The whole simple_sensor_simulator node and a client that plays the traffic simulator over the (simulated) socket.
#include "lights.hpp"
#include <simple_sensor_simulator/simple_sensor_simulator.hpp>
#include <simulation_interface/zmq_multi_client.hpp>
#include <Eigen/Geometry>
#include <new>
#include <thread>

using namespace sim;
using namespace world;

namespace
{
using V3 = Eigen::Vector3d;
using V2 = Eigen::Vector2d;
using Q = Eigen::Quaterniond;
namespace pb = traffic_simulator_msgs;

inline Q rpy(double r, double p, double y) { return Eigen::AngleAxisd(y, V3::UnitZ()) * Eigen::AngleAxisd(p, V3::UnitY()) * Eigen::AngleAxisd(r, V3::UnitX()); }
template <typename P> V3 position(const P & p) { return {p.position().x(), p.position().y(), p.position().z()}; }
template <typename P> Q orientation(const P & p) { return Q(p.orientation().w(), p.orientation().x(), p.orientation().y(), p.orientation().z()); }
inline void put(geometry_msgs::Pose * to, const V3 & p, const Q & q)
{
  to->mutable_position()->set_x(p.x()); to->mutable_position()->set_y(p.y()); to->mutable_position()->set_z(p.z());
  to->mutable_orientation()->set_x(q.x()); to->mutable_orientation()->set_y(q.y()); to->mutable_orientation()->set_z(q.z()); to->mutable_orientation()->set_w(q.w());
}
inline double real(double a, double b) { return a + (b - a) * static_cast<double>(w(1 << 20)) / (1 << 20); }
inline std::string text(const V3 & v) { return "(" + str(v.x()) + ", " + str(v.y()) + ", " + str(v.z()) + ")"; }
inline bool near(const Q & a, const Q & b, double eps = 1e-5) { return std::abs(std::abs(a.dot(b)) - 1) < eps * eps * 50 + 1e-9; }

// the simulator process
struct Process
{
  std::thread thread;
  bool ready = false;
  explicit Process(const std::string & port)
  {
    simros::network().parameters["port"] = rclcpp::ParameterValue(std::stoi(port));
    thread = std::thread([this] {
      using Node = simple_sensor_simulator::ScenarioSimulator;
      void * storage = ::operator new(sizeof(Node), std::align_val_t(alignof(std::max_align_t)));
      { NoInstrument g; std::memset(storage, 0x5a, sizeof(Node)); }   // what memory holds before is not the program's choice
      rclcpp::NodeOptions options;
      auto node = std::shared_ptr<Node>(new (storage) Node(options), [storage](Node * n) { n->~Node(); ::operator delete(storage, std::align_val_t(alignof(std::max_align_t))); });
      ready = true;
      rclcpp::spin(node);
    });
    while (!ready) std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
  void stop() { rclcpp::shutdown(); thread.join(); }
};

struct Client
{
  std::unique_ptr<zeromq::MultiClient> real;
  u64 calls = 0;
  void connect() { real = std::make_unique<zeromq::MultiClient>(simulation_interface::TransportProtocol::TCP, "localhost", 5555); }
  template <typename R> auto call(const R & r)
  {
    ++calls;
    return real->call(r);
  }
  template <typename R> void ok(const R & r, const char * what)
  {
    const auto a = call(r);
    check(a.result().success(), "request-refused", std::string(what) + " is refused");
  }
  // a client that dies with a request on its way
  void die(const schema::SimulationRequest & r)
  {
    zmq::context_t context(1);
    zmq::socket_t socket(context, zmq::socket_type::req);
    socket.connect(simulation_interface::getEndPoint(simulation_interface::TransportProtocol::TCP, "localhost", 5555));
    zmq::message_t m = zeromq::toZMQ(r);
    socket.send(m, zmq::send_flags::none);
    if (wchance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(w(400)));
    socket.close();
  }
};

inline void start_world()
{
  simros::reset_network();
  simzmq::reset_net();
  auto & n = simros::network();
  n.parameters["simulate_localization"] = rclcpp::ParameterValue(true);
  n.parameters["architecture_type"] = rclcpp::ParameterValue(std::string("awf/universe/20240605"));
  n.parameters["consider_pose_by_road_slope"] = rclcpp::ParameterValue(false);
  n.parameters["consider_acceleration_by_road_slope"] = rclcpp::ParameterValue(false);
  for (auto t : {"/localization/kinematic_state", "/simulation/debug/localization/kinematic_state", "/vehicle/status/velocity_status", "/localization/pose_estimator/pose_with_covariance", "/simulation/debug/localization/pose_estimator/pose_with_covariance", "/sensing/imu/imu_data"})
    n.parameters[std::string(t) + ".seed"] = rclcpp::ParameterValue(static_cast<int>(1 + w(1000)));
}
inline void initialize(Client & c, double t, i64 ros, double step)
{
  logf("initialize");
  schema::InitializeRequest r;
  r.set_realtime_factor(1);
  r.set_step_time(step);
  r.set_initialize_time(t);
  r.mutable_initialize_ros_time()->set_sec(static_cast<int>(ros / 1'000'000'000));
  r.mutable_initialize_ros_time()->set_nanosec(static_cast<unsigned>(ros % 1'000'000'000));
  r.set_lanelet2_map_path(world::map_directory() + "/lanelet2_map.osm");
  c.ok(r, "initialize");
}
inline void despawn(Client & c, const std::string & name)
{
  logf("remove ", name);
  schema::DespawnEntityRequest r;
  r.set_name(name);
  c.ok(r, "removing an entity");
}
}  // namespace
