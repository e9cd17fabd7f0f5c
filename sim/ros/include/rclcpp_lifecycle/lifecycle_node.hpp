#pragma once
#include <rclcpp/rclcpp.hpp>
#include <lifecycle_msgs/msg/state.hpp>
#include <lifecycle_msgs/msg/transition.hpp>

namespace rclcpp_lifecycle
{
class State
{
  std::uint8_t id_;
  std::string label_;
public:
  State(std::uint8_t i = 0, const std::string & l = "") : id_(i), label_(l) {}
  std::uint8_t id() const { return id_; }
  std::string label() const { return label_; }
};
namespace node_interfaces
{
class LifecycleNodeInterface
{
public:
  enum class CallbackReturn : std::uint8_t { SUCCESS = 97, FAILURE = 98, ERROR = 99 };
  virtual CallbackReturn on_configure(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_cleanup(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_shutdown(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_activate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_deactivate(const State &) { return CallbackReturn::SUCCESS; }
  virtual CallbackReturn on_error(const State &) { return CallbackReturn::FAILURE; }
  virtual ~LifecycleNodeInterface() = default;
};
}
class SimpleManagedEntity
{
public:
  bool activated = false;
  virtual ~SimpleManagedEntity() = default;
  virtual void on_activate() { activated = true; }
  virtual void on_deactivate() { activated = false; }
  bool is_activated() const { return activated; }
};
template <typename T, typename Alloc = std::allocator<void>>
class LifecyclePublisher : public SimpleManagedEntity, public rclcpp::Publisher<T, Alloc>
{
public:
  SIMROS_PTRS(LifecyclePublisher)
  void publish(const T & m) override
  {
    if (!activated) { sim::count(std::string("lifecycle publish while inactive: ") + this->get_topic_name()); return; }
    rclcpp::Publisher<T, Alloc>::publish(m);
  }
  void publish(std::unique_ptr<T> m) override
  {
    if (!activated) { sim::count(std::string("lifecycle publish while inactive: ") + this->get_topic_name()); return; }
    rclcpp::Publisher<T, Alloc>::publish(std::move(m));
  }
};
class LifecycleNode : public node_interfaces::LifecycleNodeInterface, public std::enable_shared_from_this<LifecycleNode>
{
  rclcpp::Node node_;
  std::uint8_t state_ = lifecycle_msgs::msg::State::PRIMARY_STATE_UNCONFIGURED;
  std::vector<std::weak_ptr<SimpleManagedEntity>> managed_;
  using S = lifecycle_msgs::msg::State;
  static const char * label(std::uint8_t s)
  {
    switch (s) {
      case S::PRIMARY_STATE_UNCONFIGURED: return "unconfigured";
      case S::PRIMARY_STATE_INACTIVE: return "inactive";
      case S::PRIMARY_STATE_ACTIVE: return "active";
      case S::PRIMARY_STATE_FINALIZED: return "finalized";
      case S::TRANSITION_STATE_CONFIGURING: return "configuring";
      case S::TRANSITION_STATE_CLEANINGUP: return "cleaningup";
      case S::TRANSITION_STATE_SHUTTINGDOWN: return "shuttingdown";
      case S::TRANSITION_STATE_ACTIVATING: return "activating";
      case S::TRANSITION_STATE_DEACTIVATING: return "deactivating";
      case S::TRANSITION_STATE_ERRORPROCESSING: return "errorprocessing";
    }
    return "unknown";
  }
  CallbackReturn call(CallbackReturn (LifecycleNodeInterface::*f)(const State &), std::uint8_t previous)
  {
    try { return (this->*f)(State(previous, label(previous))); } catch (const std::exception & e) { sim::logf("lifecycle callback threw: ", e.what()); return CallbackReturn::ERROR; }
  }
  const State & transition(std::uint8_t from, std::uint8_t via, std::uint8_t to, std::uint8_t back, CallbackReturn (LifecycleNodeInterface::*f)(const State &))
  {
    static State current;
    if (state_ != from) { sim::logf("lifecycle: transition not possible in state ", label(state_)); last_ok = false; current = State(state_, label(state_)); return current; }
    state_ = via;
    auto r = call(f, from);
    last_ok = r == CallbackReturn::SUCCESS;
    if (r == CallbackReturn::SUCCESS) state_ = to;
    else if (r == CallbackReturn::FAILURE) state_ = back;
    else {
      state_ = S::TRANSITION_STATE_ERRORPROCESSING;
      state_ = call(&LifecycleNodeInterface::on_error, via) == CallbackReturn::SUCCESS ? S::PRIMARY_STATE_UNCONFIGURED : S::PRIMARY_STATE_FINALIZED;
    }
    sim::logf("lifecycle: ", label(from), " -> ", label(state_));
    if (on_transition) on_transition(from, state_);
    current = State(state_, label(state_));
    return current;
  }
public:
  SIMROS_PTRS(LifecycleNode)
  using CallbackReturn = node_interfaces::LifecycleNodeInterface::CallbackReturn;
  bool last_ok = true;
  std::function<void(std::uint8_t, std::uint8_t)> on_transition;    // transition_event topic
  explicit LifecycleNode(const std::string & name, const rclcpp::NodeOptions & o = rclcpp::NodeOptions()) : node_(name, o) {}
  explicit LifecycleNode(const std::string & name, const std::string & ns, const rclcpp::NodeOptions & o = rclcpp::NodeOptions()) : node_(name, ns, o) {}
  virtual ~LifecycleNode() = default;
  State get_current_state() const { return State(state_, label(state_)); }
  const State & configure() { return transition(S::PRIMARY_STATE_UNCONFIGURED, S::TRANSITION_STATE_CONFIGURING, S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_UNCONFIGURED, &LifecycleNodeInterface::on_configure); }
  const State & cleanup() { return transition(S::PRIMARY_STATE_INACTIVE, S::TRANSITION_STATE_CLEANINGUP, S::PRIMARY_STATE_UNCONFIGURED, S::PRIMARY_STATE_INACTIVE, &LifecycleNodeInterface::on_cleanup); }
  const State & activate() { return transition(S::PRIMARY_STATE_INACTIVE, S::TRANSITION_STATE_ACTIVATING, S::PRIMARY_STATE_ACTIVE, S::PRIMARY_STATE_INACTIVE, &LifecycleNodeInterface::on_activate); }
  const State & deactivate() { return transition(S::PRIMARY_STATE_ACTIVE, S::TRANSITION_STATE_DEACTIVATING, S::PRIMARY_STATE_INACTIVE, S::PRIMARY_STATE_ACTIVE, &LifecycleNodeInterface::on_deactivate); }
  const State & shutdown() { return transition(state_, S::TRANSITION_STATE_SHUTTINGDOWN, S::PRIMARY_STATE_FINALIZED, S::PRIMARY_STATE_FINALIZED, &LifecycleNodeInterface::on_shutdown); }

  const char * get_name() const { return node_.get_name(); }
  const char * get_namespace() const { return node_.get_namespace(); }
  rclcpp::Logger get_logger() const { return node_.get_logger(); }
  rclcpp::Clock::SharedPtr get_clock() { return node_.get_clock(); }
  rclcpp::Time now() const { return node_.now(); }
  auto get_node_base_interface() const { return node_.get_node_base_interface(); }
  auto get_node_topics_interface() const { return node_.get_node_topics_interface(); }
  auto get_node_timers_interface() const { return node_.get_node_timers_interface(); }
  auto get_node_parameters_interface() const { return node_.get_node_parameters_interface(); }
  auto get_node_logging_interface() const { return node_.get_node_logging_interface(); }
  auto get_node_clock_interface() const { return node_.get_node_clock_interface(); }
  auto create_callback_group(rclcpp::CallbackGroupType t, bool b = true) { return node_.create_callback_group(t, b); }
  std::shared_ptr<simros::NodeCore> sim_core() const { return node_.sim_core(); }
  template <typename T, typename Q>
  std::shared_ptr<LifecyclePublisher<T>> create_publisher(const std::string & topic, const Q & qos, const rclcpp::PublisherOptions & = {})
  {
    auto p = std::make_shared<LifecyclePublisher<T>>();
    sim::NoInstrument n;
    node_.init_publisher(*p, topic, T::sim_type_name, rclcpp::QoS(qos));
    return p;
  }
  rclcpp::Node & sim_plain_node() { return node_; }
  template <typename T, typename F, typename Q> auto create_subscription(const std::string & topic, const Q & qos, F && f, const rclcpp::SubscriptionOptions & o = {}) { return node_.create_subscription<T>(topic, qos, std::forward<F>(f), o); }
  template <typename V, typename F> auto create_service(const std::string & n, F && f) { return node_.create_service<V>(n, std::forward<F>(f)); }
  template <typename V> auto create_client(const std::string & n, const rmw_qos_profile_t & q = rmw_qos_profile_services_default) { return node_.create_client<V>(n, q); }
  template <typename R, typename P, typename F> auto create_wall_timer(std::chrono::duration<R, P> d, F && f) { return node_.create_wall_timer(d, std::forward<F>(f)); }
  bool has_parameter(const std::string & n) const { return node_.has_parameter(n); }
  template <typename T> T declare_parameter(const std::string & n, const T & v) { return node_.declare_parameter<T>(n, v); }
  template <typename T> T declare_parameter(const std::string & n) { return node_.declare_parameter<T>(n); }
  rclcpp::Parameter get_parameter(const std::string & n) const { return node_.get_parameter(n); }
  template <typename T> bool get_parameter(const std::string & n, T & out) const { return node_.get_parameter<T>(n, out); }
  rcl_interfaces::msg::SetParametersResult set_parameter(const rclcpp::Parameter & p) { return node_.set_parameter(p); }
};
}  // namespace rclcpp_lifecycle
