// simros: a small in-process stand-in for rclcpp (ROS 2 Humble semantics as far as the repository relies on them).
// Message delivery, service latency, discovery and timers are driven by the simulation kernel's event queue.
#pragma once
#include <sim/kernel/kernel.hpp>
#include <builtin_interfaces/msg/duration.hpp>
#include <builtin_interfaces/msg/time.hpp>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <csignal>
#include <deque>
#include <functional>
#include <future>
#include <iomanip>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>

#define RCLCPP_SMART_PTR_DEFINITIONS(...)
#define SIMROS_PTRS(T)                              \
  using SharedPtr = std::shared_ptr<T>;             \
  using ConstSharedPtr = std::shared_ptr<const T>;  \
  using WeakPtr = std::weak_ptr<T>;                 \
  using UniquePtr = std::unique_ptr<T>;

// ------------------------------------------------------------------ rmw / rcl
struct rmw_qos_profile_t { std::size_t depth = 10; bool reliable = true; bool transient_local = false; };
static const rmw_qos_profile_t rmw_qos_profile_default{};
static const rmw_qos_profile_t rmw_qos_profile_services_default{};
static const rmw_qos_profile_t rmw_qos_profile_sensor_data{5, false, false};
enum rcl_clock_type_t { RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME };
struct rcl_time_point_t { std::int64_t nanoseconds; rcl_clock_type_t clock_type; };
inline std::int64_t RCL_S_TO_NS(std::int64_t s) { return s * 1000000000ll; }

namespace simros
{
struct Endpoint;   // something an executor can run
struct NodeCore;
}

namespace rclcpp
{
// ------------------------------------------------------------------ context
bool ok();
void init(int, char const * const *);
std::vector<std::string> init_and_remove_ros_arguments(int, char const * const *);
bool shutdown(const std::string & reason = "");
void on_shutdown(std::function<void()>);
template <typename Rep, typename Period>
bool sleep_for(const std::chrono::duration<Rep, Period> & d)
{
  sim::sleep_ns(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count());
  return ok();
}

namespace exceptions
{
struct InvalidParametersException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterNotDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterAlreadyDeclaredException : std::runtime_error { using std::runtime_error::runtime_error; };
struct InvalidParameterTypeException : std::runtime_error { using std::runtime_error::runtime_error; };
struct ParameterUninitializedException : std::runtime_error { using std::runtime_error::runtime_error; };
struct RCLError : std::runtime_error { using std::runtime_error::runtime_error; };
}

// ------------------------------------------------------------------ time
class Duration
{
  std::int64_t ns = 0;
public:
  Duration() = default;
  Duration(std::int32_t s, std::uint32_t n) : ns(s * 1000000000ll + n) {}
  template <typename R, typename P>
  Duration(const std::chrono::duration<R, P> & d) : ns(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  explicit Duration(std::chrono::nanoseconds d) : ns(d.count()) {}
  Duration(const builtin_interfaces::msg::Duration & d) : ns(d.sec * 1000000000ll + d.nanosec) {}
  static Duration from_seconds(double s) { return Duration(std::chrono::nanoseconds(static_cast<std::int64_t>(s * 1e9))); }
  static Duration from_nanoseconds(std::int64_t n) { return Duration(std::chrono::nanoseconds(n)); }
  std::int64_t nanoseconds() const { return ns; }
  double seconds() const { return ns * 1e-9; }
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration d;
    auto s = ns / 1000000000ll, r = ns % 1000000000ll;
    if (r < 0) { r += 1000000000ll; --s; }
    d.sec = static_cast<std::int32_t>(s);
    d.nanosec = static_cast<std::uint32_t>(r);
    return d;
  }
  template <typename D> D to_chrono() const { return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns)); }
  bool operator<(const Duration & o) const { return ns < o.ns; }
  bool operator<=(const Duration & o) const { return ns <= o.ns; }
  bool operator>(const Duration & o) const { return ns > o.ns; }
  bool operator>=(const Duration & o) const { return ns >= o.ns; }
  bool operator==(const Duration & o) const { return ns == o.ns; }
  bool operator!=(const Duration & o) const { return ns != o.ns; }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns + o.ns); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns - o.ns); }
  Duration operator*(double k) const { return from_nanoseconds(static_cast<std::int64_t>(ns * k)); }
};
class Time
{
  std::int64_t ns = 0;
  rcl_clock_type_t type = RCL_SYSTEM_TIME;
public:
  Time(std::int32_t s, std::uint32_t n, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns(s * 1000000000ll + n), type(t)
  { if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  explicit Time(std::int64_t n = 0, rcl_clock_type_t t = RCL_SYSTEM_TIME) : ns(n), type(t)
  { if (n < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  Time(const builtin_interfaces::msg::Time & m, rcl_clock_type_t t = RCL_ROS_TIME) : ns(m.sec * 1000000000ll + m.nanosec), type(t)
  { if (m.sec < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time"); }
  Time & operator=(const builtin_interfaces::msg::Time & m) { *this = Time(m); return *this; }
  std::int64_t nanoseconds() const { return ns; }
  double seconds() const { return ns * 1e-9; }
  rcl_clock_type_t get_clock_type() const { return type; }
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time m;
    m.sec = static_cast<std::int32_t>(ns / 1000000000ll);
    m.nanosec = static_cast<std::uint32_t>(ns % 1000000000ll);
    return m;
  }
  void same(const Time & o) const { if (type != o.type) throw std::runtime_error("can't compare times with different time sources"); }
  bool operator<(const Time & o) const { same(o); return ns < o.ns; }
  bool operator<=(const Time & o) const { same(o); return ns <= o.ns; }
  bool operator>(const Time & o) const { same(o); return ns > o.ns; }
  bool operator>=(const Time & o) const { same(o); return ns >= o.ns; }
  bool operator==(const Time & o) const { same(o); return ns == o.ns; }
  bool operator!=(const Time & o) const { same(o); return ns != o.ns; }
  Time operator+(const Duration & d) const { return Time(ns + d.nanoseconds(), type); }
  Time operator-(const Duration & d) const { return Time(ns - d.nanoseconds(), type); }
  Duration operator-(const Time & o) const { if (type != o.type) throw std::runtime_error("can't subtract times with different time sources"); return Duration::from_nanoseconds(ns - o.ns); }
  Time & operator+=(const Duration & d) { ns += d.nanoseconds(); return *this; }
  static Time max() { return Time(std::numeric_limits<std::int32_t>::max(), 999999999); }
};
inline Time operator+(const Duration & d, const Time & t) { return t + d; }

class Clock
{
  rcl_clock_type_t type;
public:
  SIMROS_PTRS(Clock)
  std::shared_ptr<bool> use_sim_time = std::make_shared<bool>(false);
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME) : type(t) {}
  Time now() const;
  rcl_clock_type_t get_clock_type() const noexcept { return type; }
  bool ros_time_is_active() const { return *use_sim_time; }
};

// ------------------------------------------------------------------ rates
class RateBase { public: virtual ~RateBase() = default; SIMROS_PTRS(RateBase) };
template <typename C = std::chrono::high_resolution_clock>
class GenericRate : public RateBase
{
public:
  SIMROS_PTRS(GenericRate)
  explicit GenericRate(double rate) : GenericRate(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::duration<double>(1.0 / rate))) {}
  explicit GenericRate(std::chrono::nanoseconds period) : period_(period), last_interval_(C::now()) {}
  virtual bool sleep()
  {
    auto now = C::now();
    auto next_interval = last_interval_ + period_;
    if (now < last_interval_) next_interval = now + period_;
    auto time_to_sleep = next_interval - now;
    last_interval_ += period_;
    if (time_to_sleep <= std::chrono::seconds(0)) {
      if (now > next_interval + period_) last_interval_ = now + period_;
      return false;
    }
    rclcpp::sleep_for(time_to_sleep);
    return true;
  }
  void reset() { last_interval_ = C::now(); }
  std::chrono::nanoseconds period() const { return period_; }
private:
  std::chrono::nanoseconds period_;
  std::chrono::time_point<C, std::chrono::nanoseconds> last_interval_;
};
using Rate = GenericRate<std::chrono::system_clock>;
using WallRate = GenericRate<std::chrono::steady_clock>;

// ------------------------------------------------------------------ logging
class Logger
{
  std::string name;
public:
  enum class Level { Unset = 0, Debug = 10, Info = 20, Warn = 30, Error = 40, Fatal = 50 };
  explicit Logger(const std::string & n = "") : name(n) {}
  const char * get_name() const { return name.c_str(); }
  Logger get_child(const std::string & s) const { return Logger(name + "." + s); }
  void set_level(Level) {}
};
inline Logger get_logger(const std::string & n) { return Logger(n); }
inline Logger get_node_logger(const void *) { return Logger("node"); }
}  // namespace rclcpp
namespace simros
{
void log_line(const char * level, const std::string & logger, const std::string & text);
std::string format(const char * f, ...) __attribute__((format(printf, 1, 2)));
}
#define SIMROS_LOG(L, logger, ...) simros::log_line(L, (logger).get_name(), simros::format(__VA_ARGS__))
#define SIMROS_LOG_STREAM(L, logger, x) do { std::ostringstream simros_o; simros_o << x; simros::log_line(L, (logger).get_name(), simros_o.str()); } while (0)
#define RCLCPP_DEBUG(logger, ...) SIMROS_LOG("DEBUG", logger, __VA_ARGS__)
#define RCLCPP_INFO(logger, ...) SIMROS_LOG("INFO", logger, __VA_ARGS__)
#define RCLCPP_WARN(logger, ...) SIMROS_LOG("WARN", logger, __VA_ARGS__)
#define RCLCPP_ERROR(logger, ...) SIMROS_LOG("ERROR", logger, __VA_ARGS__)
#define RCLCPP_FATAL(logger, ...) SIMROS_LOG("FATAL", logger, __VA_ARGS__)
#define RCLCPP_INFO_ONCE RCLCPP_INFO
#define RCLCPP_WARN_ONCE RCLCPP_WARN
#define RCLCPP_ERROR_ONCE RCLCPP_ERROR
#define RCLCPP_WARN_THROTTLE(logger, clock, d, ...) RCLCPP_WARN(logger, __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM(logger, x) SIMROS_LOG_STREAM("DEBUG", logger, x)
#define RCLCPP_INFO_STREAM(logger, x) SIMROS_LOG_STREAM("INFO", logger, x)
#define RCLCPP_WARN_STREAM(logger, x) SIMROS_LOG_STREAM("WARN", logger, x)
#define RCLCPP_ERROR_STREAM(logger, x) SIMROS_LOG_STREAM("ERROR", logger, x)
#define RCLCPP_FATAL_STREAM(logger, x) SIMROS_LOG_STREAM("FATAL", logger, x)
#define RCUTILS_LOG_ERROR(...) simros::log_line("ERROR", "rcutils", simros::format(__VA_ARGS__))

namespace rclcpp
{
// ------------------------------------------------------------------ qos
struct QoSInitialization { std::size_t depth; };
struct KeepLast : QoSInitialization { explicit KeepLast(std::size_t d) : QoSInitialization{d} {} };
struct KeepAll : QoSInitialization { KeepAll() : QoSInitialization{1000} {} };
class QoS
{
public:
  rmw_qos_profile_t profile;
  QoS(std::size_t depth) { profile.depth = depth; }
  QoS(const QoSInitialization & k) { profile.depth = k.depth; }
  QoS(const QoSInitialization & k, const rmw_qos_profile_t & p) : profile(p) { profile.depth = k.depth; }
  QoS & keep_last(std::size_t d) { profile.depth = d; return *this; }
  QoS & keep_all() { profile.depth = 1000; return *this; }
  QoS & reliable() { profile.reliable = true; return *this; }
  QoS & best_effort() { profile.reliable = false; return *this; }
  QoS & transient_local() { profile.transient_local = true; return *this; }
  QoS & durability_volatile() { profile.transient_local = false; return *this; }
  const rmw_qos_profile_t & get_rmw_qos_profile() const { return profile; }
  std::size_t depth() const { return profile.depth; }
};
struct SensorDataQoS : QoS { SensorDataQoS() : QoS(5) { best_effort(); } };
struct SystemDefaultsQoS : QoS { SystemDefaultsQoS() : QoS(10) {} };
struct ParametersQoS : QoS { ParametersQoS() : QoS(1000) {} };
struct ServicesQoS : QoS { ServicesQoS() : QoS(10) {} };

struct CallbackGroup { SIMROS_PTRS(CallbackGroup) };
enum class CallbackGroupType { MutuallyExclusive, Reentrant };
template <typename Alloc = std::allocator<void>> struct PublisherOptionsWithAllocator { std::shared_ptr<CallbackGroup> callback_group; };
template <typename Alloc = std::allocator<void>> struct SubscriptionOptionsWithAllocator { std::shared_ptr<CallbackGroup> callback_group; };
using PublisherOptions = PublisherOptionsWithAllocator<>;
using SubscriptionOptions = SubscriptionOptionsWithAllocator<>;

// ------------------------------------------------------------------ parameters
enum class ParameterType { PARAMETER_NOT_SET, PARAMETER_BOOL, PARAMETER_INTEGER, PARAMETER_DOUBLE, PARAMETER_STRING, PARAMETER_BYTE_ARRAY, PARAMETER_BOOL_ARRAY, PARAMETER_INTEGER_ARRAY, PARAMETER_DOUBLE_ARRAY, PARAMETER_STRING_ARRAY };
class ParameterValue
{
public:
  using Value = std::variant<std::monostate, bool, std::int64_t, double, std::string, std::vector<bool>, std::vector<std::int64_t>, std::vector<double>, std::vector<std::string>>;
  Value v;
  ParameterValue() = default;
  explicit ParameterValue(bool x) : v(x) {}
  explicit ParameterValue(int x) : v(static_cast<std::int64_t>(x)) {}
  explicit ParameterValue(unsigned x) : v(static_cast<std::int64_t>(x)) {}
  explicit ParameterValue(std::int64_t x) : v(x) {}
  explicit ParameterValue(float x) : v(static_cast<double>(x)) {}
  explicit ParameterValue(double x) : v(x) {}
  explicit ParameterValue(const std::string & x) : v(x) {}
  explicit ParameterValue(const char * x) : v(std::string(x)) {}
  explicit ParameterValue(const std::vector<bool> & x) : v(x) {}
  explicit ParameterValue(const std::vector<std::int64_t> & x) : v(x) {}
  explicit ParameterValue(const std::vector<int> & x) : v(std::vector<std::int64_t>(x.begin(), x.end())) {}
  explicit ParameterValue(const std::vector<double> & x) : v(x) {}
  explicit ParameterValue(const std::vector<std::string> & x) : v(x) {}
  ParameterType get_type() const
  {
    static const ParameterType t[] = {ParameterType::PARAMETER_NOT_SET, ParameterType::PARAMETER_BOOL, ParameterType::PARAMETER_INTEGER, ParameterType::PARAMETER_DOUBLE, ParameterType::PARAMETER_STRING, ParameterType::PARAMETER_BOOL_ARRAY, ParameterType::PARAMETER_INTEGER_ARRAY, ParameterType::PARAMETER_DOUBLE_ARRAY, ParameterType::PARAMETER_STRING_ARRAY};
    return t[v.index()];
  }
  template <typename T>
  T get() const
  {
    auto bad = [] { return exceptions::InvalidParameterTypeException("parameter has another type"); };
    if constexpr (std::is_same_v<T, bool>) { if (auto p = std::get_if<bool>(&v)) return *p; throw bad(); }
    else if constexpr (std::is_integral_v<T>) { if (auto p = std::get_if<std::int64_t>(&v)) return static_cast<T>(*p); throw bad(); }
    else if constexpr (std::is_floating_point_v<T>) { if (auto p = std::get_if<double>(&v)) return static_cast<T>(*p); throw bad(); }
    else { if (auto p = std::get_if<T>(&v)) return *p; throw bad(); }
  }
};
class Parameter
{
  std::string name;
  ParameterValue value;
public:
  Parameter() = default;
  explicit Parameter(const std::string & n) : name(n) {}
  Parameter(const std::string & n, const ParameterValue & v) : name(n), value(v) {}
  template <typename T> Parameter(const std::string & n, T x) : name(n), value(x) {}
  const std::string & get_name() const { return name; }
  ParameterType get_type() const { return value.get_type(); }
  const ParameterValue & get_parameter_value() const { return value; }
  template <typename T> T get_value() const { return value.get<T>(); }
  bool as_bool() const { return value.get<bool>(); }
  std::int64_t as_int() const { return value.get<std::int64_t>(); }
  double as_double() const { return value.get<double>(); }
  const std::string & as_string() const { if (auto p = std::get_if<std::string>(&value.v)) return *p; throw exceptions::InvalidParameterTypeException(name); }
  std::vector<std::string> as_string_array() const { return value.get<std::vector<std::string>>(); }
};
}  // namespace rclcpp

namespace rcl_interfaces
{
namespace msg { struct ParameterDescriptor { std::string name, description; bool read_only = false; bool dynamic_typing = false; }; struct SetParametersResult { bool successful = true; std::string reason; }; struct ListParametersResult { std::vector<std::string> names, prefixes; }; }
namespace srv { struct ListParameters { struct Request { static constexpr std::uint64_t DEPTH_RECURSIVE = 0; }; }; }
}

// ------------------------------------------------------------------ simros core
namespace simros
{
using Any = std::shared_ptr<const void>;
// An entity an executor can run.
struct Endpoint
{
  virtual ~Endpoint();
  virtual int rank() const = 0;            // 0 timers, 1 subscriptions, 2 services, 3 clients
  virtual bool ready() = 0;
  virtual void execute() = 0;
};
struct SubscriptionCore : Endpoint
{
  std::string topic, type, node;
  std::size_t depth = 10;
  bool transient_local = false;
  std::deque<Any> queue;
  std::function<void(Any)> call;
  bool alive = true;
  int rank() const override { return 1; }
  bool ready() override { return !queue.empty(); }
  void execute() override;
};
struct PublisherCore
{
  std::string topic, type, node;
  std::size_t depth = 10;
  bool transient_local = false;
  std::deque<Any> history;                 // transient local
  std::uint64_t id = 0;
};
struct TimerCore : Endpoint
{
  rclcpp::Clock::SharedPtr clock;          // null: steady
  std::int64_t period = 0, next = 0;
  bool cancelled = false;
  std::function<void()> call;
  std::int64_t now() const;
  int rank() const override { return 0; }
  bool ready() override { return !cancelled && now() >= next; }
  void execute() override;
};
struct ServiceCore : Endpoint
{
  std::string name, type, node;
  struct Request { std::shared_ptr<void> request; std::function<void(std::shared_ptr<void>)> reply; };
  std::deque<Request> queue;
  std::function<void(const Request &)> call;
  int rank() const override { return 2; }
  bool ready() override { return !queue.empty(); }
  void execute() override;
};
struct ClientCore : Endpoint
{
  std::string name, type, node;
  std::int64_t next_id = 1;
  std::map<std::int64_t, std::function<void(std::shared_ptr<void>)>> pending;
  std::deque<std::pair<std::int64_t, std::shared_ptr<void>>> queue;
  int rank() const override { return 3; }
  bool ready() override { return !queue.empty(); }
  void execute() override;
};
struct NodeCore
{
  std::string name, ns;
  std::vector<std::weak_ptr<Endpoint>> endpoints;
  std::map<std::string, rclcpp::ParameterValue> parameters, overrides;
  rclcpp::Clock::SharedPtr clock = std::make_shared<rclcpp::Clock>(RCL_ROS_TIME);
  std::shared_ptr<SubscriptionCore> clock_subscription;
  std::string resolve(const std::string & n) const;
};

// a service implemented by the test's simulated peer. `reply` may be called later, or never.
using Reply = std::function<void(std::shared_ptr<void>)>;
struct PeerService { std::string type; std::function<void(std::shared_ptr<void>, Reply)> handle; };

struct Network
{
  bool ok = true;
  std::vector<std::weak_ptr<SubscriptionCore>> subscriptions;
  std::vector<std::weak_ptr<PublisherCore>> publishers;
  std::vector<std::weak_ptr<ServiceCore>> services;
  std::map<std::string, PeerService> peer_services;          // name -> implementation
  std::map<std::string, bool> peer_ready;
  std::map<std::string, std::vector<std::function<void(Any, const std::string & type)>>> observers;
  std::map<std::string, rclcpp::ParameterValue> parameters;  // as given on the command line
  std::map<std::string, std::deque<Any>> latched;            // messages injected by peers on transient-local topics
  std::map<std::pair<std::uint64_t, const void *>, std::int64_t> last_delivery;
  std::vector<std::function<void()>> on_shutdown;
  std::function<void(const char *, const std::string &, const std::string &)> on_log;
  std::map<std::string, std::string> packages;               // ament index
  std::int64_t min_delay = 0, max_delay = 0;                 // per-message latency (ns)
  std::uint64_t next_publisher = 1;
  int publish_failures = 0;                                  // of fault "publish_fails"
  std::string publish_failure;                               // the last one
  std::int64_t publish_failed_at = -1;
  std::int64_t sim_clock = 0;
  std::uint64_t executor_errors = 0;
};
Network & network();
void reset_network();
std::int64_t latency();
void publish(PublisherCore &, Any);
void may_fail(const PublisherCore &);                     // fault "publish_fails": what rclcpp throws when the middleware refuses a message
void deliver(SubscriptionCore &, Any);
void attach(const std::shared_ptr<SubscriptionCore> &);
void send_request(const std::shared_ptr<ClientCore> &, std::int64_t id, std::shared_ptr<void>);
bool service_ready(const std::string & name);
// peers
void inject_any(const std::string & topic, const std::string & type, Any, bool latch);
template <typename T> void inject(const std::string & topic, const T & m, bool latch = false) { sim::NoInstrument n; inject_any(topic, T::sim_type_name, std::make_shared<const T>(m), latch); }
template <typename T> void observe(const std::string & topic, std::function<void(const T &)> f)
{
  sim::NoInstrument n;
  network().observers[topic].push_back([f](Any m, const std::string & type) { if (type == T::sim_type_name) f(*std::static_pointer_cast<const T>(m)); });
}
template <typename S> void peer_service(const std::string & name, std::function<void(const typename S::Request &, std::function<void(typename S::Response)>)> f)
{
  sim::NoInstrument n;
  network().peer_services[name] = {S::sim_type_name, [f](std::shared_ptr<void> r, Reply reply) {
    f(*std::static_pointer_cast<typename S::Request>(r), [reply](typename S::Response x) { reply(std::make_shared<typename S::Response>(std::move(x))); });
  }};
  network().peer_ready[name] = true;
}
// call a service offered by the code under test; the response (or nothing) comes back through `done`
void peer_call_any(const std::string & name, std::shared_ptr<void>, Reply done);
template <typename S> void peer_call(const std::string & name, typename S::Request q, std::function<void(const typename S::Response &)> done)
{
  sim::NoInstrument n;
  peer_call_any(name, std::make_shared<typename S::Request>(std::move(q)), [done](std::shared_ptr<void> r) { done(*std::static_pointer_cast<typename S::Response>(r)); });
}

template <typename F> struct callable;
template <typename R, typename C, typename... A> struct callable<R (C::*)(A...) const> { using args = std::tuple<A...>; };
template <typename R, typename C, typename... A> struct callable<R (C::*)(A...)> { using args = std::tuple<A...>; };
template <typename R, typename... A> struct callable<R (*)(A...)> { using args = std::tuple<A...>; };
template <typename R, typename... A> struct callable<std::function<R(A...)>> { using args = std::tuple<A...>; };

template <typename T, typename F>
std::function<void(Any)> wrap(F f)
{
  return [f](Any a) mutable {
    auto m = std::static_pointer_cast<const T>(a);
    if constexpr (std::is_invocable_v<F, std::shared_ptr<const T>> && !std::is_invocable_v<F, const T &>) f(m);
    else if constexpr (std::is_invocable_v<F, std::shared_ptr<T>> && !std::is_invocable_v<F, const T &>) f(std::make_shared<T>(*m));
    else if constexpr (std::is_invocable_v<F, std::unique_ptr<T>> && !std::is_invocable_v<F, const T &>) f(std::make_unique<T>(*m));
    else f(*m);
  };
}
void add_endpoint(NodeCore &, std::shared_ptr<Endpoint>);
std::shared_ptr<TimerCore> make_timer(NodeCore &, rclcpp::Clock::SharedPtr, std::int64_t period, std::function<void()>);
}  // namespace simros

namespace rclcpp
{
class Node;
namespace node_interfaces
{
class NodeBaseInterface
{
public:
  SIMROS_PTRS(NodeBaseInterface)
  std::shared_ptr<simros::NodeCore> core;
  const char * get_name() const { return core->name.c_str(); }
  const char * get_namespace() const { return core->ns.c_str(); }
  std::string get_fully_qualified_name_s() const { return core->resolve(core->name); }
};
class NodeTopicsInterface { public: SIMROS_PTRS(NodeTopicsInterface) std::shared_ptr<simros::NodeCore> core; };
class NodeTimersInterface { public: SIMROS_PTRS(NodeTimersInterface) std::shared_ptr<simros::NodeCore> core; };
class NodeClockInterface { public: SIMROS_PTRS(NodeClockInterface) std::shared_ptr<simros::NodeCore> core; Clock::SharedPtr get_clock() { return core->clock; } };
class NodeLoggingInterface { public: SIMROS_PTRS(NodeLoggingInterface) std::shared_ptr<simros::NodeCore> core; Logger get_logger() const { return Logger(core->name); } };
class NodeParametersInterface
{
public:
  SIMROS_PTRS(NodeParametersInterface)
  std::shared_ptr<simros::NodeCore> core;
  bool has_parameter(const std::string & n) const;
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & v, const rcl_interfaces::msg::ParameterDescriptor & = {}, bool = false);
  Parameter get_parameter(const std::string & n) const;
  bool get_parameter(const std::string & n, Parameter &) const;
  rcl_interfaces::msg::SetParametersResult set_parameter(const Parameter & p);
  rcl_interfaces::msg::ListParametersResult list_parameters(const std::vector<std::string> & prefixes, std::uint64_t depth) const;
  std::map<std::string, ParameterValue> get_parameter_overrides() const { return core->overrides; }
};
}

class NodeOptions
{
public:
  bool global = true, auto_declare = false;
  std::map<std::string, ParameterValue> overrides;
  NodeOptions & use_global_arguments(bool b) { global = b; return *this; }
  NodeOptions & automatically_declare_parameters_from_overrides(bool b) { auto_declare = b; return *this; }
  NodeOptions & allow_undeclared_parameters(bool) { return *this; }
  NodeOptions & use_intra_process_comms(bool) { return *this; }
  NodeOptions & append_parameter_override(const std::string & n, const ParameterValue & v) { overrides[n] = v; return *this; }
  template <typename T> NodeOptions & append_parameter_override(const std::string & n, const T & v) { overrides[n] = ParameterValue(v); return *this; }
  NodeOptions & parameter_overrides(const std::vector<Parameter> & ps) { for (auto & p : ps) overrides[p.get_name()] = p.get_parameter_value(); return *this; }
  NodeOptions & arguments(const std::vector<std::string> &) { return *this; }
};

class TimerBase
{
public:
  SIMROS_PTRS(TimerBase)
  std::shared_ptr<simros::TimerCore> core;
  virtual ~TimerBase() = default;
  void cancel() { core->cancelled = true; }
  bool is_canceled() { return core->cancelled; }
  void reset() { core->cancelled = false; core->next = core->now() + core->period; }
  bool is_ready() { return core->ready(); }
  std::chrono::nanoseconds time_until_trigger() { return core->cancelled ? std::chrono::nanoseconds::max() : std::chrono::nanoseconds(core->next - core->now()); }
};
template <typename F, std::nullptr_t = nullptr> class WallTimer : public TimerBase {};

class PublisherBase { public: SIMROS_PTRS(PublisherBase) virtual ~PublisherBase() = default; std::shared_ptr<simros::PublisherCore> core; const char * get_topic_name() const { return core->topic.c_str(); } std::size_t get_subscription_count() const; };
template <typename T, typename Alloc = std::allocator<void>>
class Publisher : public PublisherBase
{
public:
  SIMROS_PTRS(Publisher)
  using MessageType = T;
  using ROSMessageType = T;
  virtual void publish(const T & m) { std::shared_ptr<const T> p; { sim::NoInstrument n; simros::may_fail(*core); p = std::make_shared<const T>(m); simros::publish(*core, p); } sim::yield(); }
  virtual void publish(std::unique_ptr<T> m) { { sim::NoInstrument n; simros::may_fail(*core); simros::publish(*core, std::shared_ptr<const T>(std::move(m))); } sim::yield(); }
};
class SubscriptionBase { public: SIMROS_PTRS(SubscriptionBase) virtual ~SubscriptionBase() = default; std::shared_ptr<simros::SubscriptionCore> core; const char * get_topic_name() const { return core->topic.c_str(); } };
template <typename T, typename Alloc = std::allocator<void>>
class Subscription : public SubscriptionBase { public: SIMROS_PTRS(Subscription) };

class ServiceBase { public: SIMROS_PTRS(ServiceBase) virtual ~ServiceBase() = default; std::shared_ptr<simros::ServiceCore> core; };
template <typename S> class Service : public ServiceBase { public: SIMROS_PTRS(Service) };

class ClientBase
{
public:
  SIMROS_PTRS(ClientBase)
  virtual ~ClientBase() = default;
  std::shared_ptr<simros::ClientCore> core;
  bool service_is_ready() const { bool r; { sim::NoInstrument n; r = simros::service_ready(core->name); } sim::yield(); return r; }
  const char * get_service_name() const { return core->name.c_str(); }
  template <typename R, typename P> bool wait_for_service(std::chrono::duration<R, P> d)
  {
    auto name = core->name;
    return sim::wait_until([name] { return !ok() || simros::service_ready(name); }, sim::now() + std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(), "wait_for_service") && simros::service_ready(name);
  }
};
template <typename S>
class Client : public ClientBase
{
public:
  SIMROS_PTRS(Client)
  using SharedResponse = std::shared_ptr<typename S::Response>;
  using SharedRequest = std::shared_ptr<typename S::Request>;
  using Promise = std::promise<SharedResponse>;
  using SharedFuture = std::shared_future<SharedResponse>;
  struct FutureAndRequestId
  {
    std::future<SharedResponse> future;
    std::int64_t request_id;
    FutureAndRequestId(std::future<SharedResponse> f, std::int64_t id) : future(std::move(f)), request_id(id) {}
    FutureAndRequestId(FutureAndRequestId &&) = default;
    FutureAndRequestId & operator=(FutureAndRequestId &&) = default;
    operator std::future<SharedResponse> &() { return future; }
    SharedResponse get() { return future.get(); }
    bool valid() const { return future.valid(); }
    void wait() const { future.wait(); }
    template <typename R, typename P> std::future_status wait_for(const std::chrono::duration<R, P> & d) const { return future.wait_for(d); }
    template <typename C, typename D> std::future_status wait_until(const std::chrono::time_point<C, D> & t) const { return future.wait_until(t); }
    std::shared_future<SharedResponse> share() { return future.share(); }
  };
  FutureAndRequestId async_send_request(SharedRequest request)
  {
    auto promise = std::make_shared<Promise>();
    auto future = promise->get_future();
    sim::hb_release(core.get());
    std::int64_t id;
    {
      sim::NoInstrument n;
      id = core->next_id++;
      core->pending[id] = [promise](std::shared_ptr<void> r) { promise->set_value(std::static_pointer_cast<typename S::Response>(r)); };
      simros::send_request(core, id, std::make_shared<typename S::Request>(*request));
    }
    sim::yield();
    return FutureAndRequestId(std::move(future), id);
  }
  bool remove_pending_request(std::int64_t id) { return core->pending.erase(id) != 0; }
  bool remove_pending_request(const FutureAndRequestId & f) { return core->pending.erase(f.request_id) != 0; }
};

class Executor
{
public:
  SIMROS_PTRS(Executor)
  std::vector<std::weak_ptr<simros::NodeCore>> nodes;
  std::atomic<bool> cancelled{false};
  virtual ~Executor() = default;
  void add_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true) { nodes.push_back(n->core); }
  void add_node(std::shared_ptr<Node> n, bool = true);
  void remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool = true);
  void remove_node(std::shared_ptr<Node> n, bool = true);
  void spin();
  void spin_some(std::chrono::nanoseconds = std::chrono::nanoseconds(0));
  void spin_once(std::chrono::nanoseconds timeout = std::chrono::nanoseconds(-1));
  void cancel() { cancelled = true; }
  bool run_ready(bool one);
};
namespace executors
{
class SingleThreadedExecutor : public Executor { public: SIMROS_PTRS(SingleThreadedExecutor) };
class MultiThreadedExecutor : public Executor { public: SIMROS_PTRS(MultiThreadedExecutor) };
}

class Node : public std::enable_shared_from_this<Node>
{
protected:
  std::shared_ptr<simros::NodeCore> core_;
public:
  SIMROS_PTRS(Node)
  template <typename... Ts> static std::shared_ptr<Node> make_shared(Ts &&... xs) { return std::make_shared<Node>(std::forward<Ts>(xs)...); }
  explicit Node(const std::string & name, const NodeOptions & o = NodeOptions()) : Node(name, "", o) {}
  explicit Node(const std::string & name, const std::string & ns, const NodeOptions & o = NodeOptions());
  virtual ~Node();
  const char * get_name() const { return core_->name.c_str(); }
  const char * get_namespace() const { return core_->ns.c_str(); }
  std::string get_fully_qualified_name_s() const { return core_->ns + "/" + core_->name; }
  Logger get_logger() const { return Logger(core_->name); }
  Clock::SharedPtr get_clock() { return core_->clock; }
  Clock::ConstSharedPtr get_clock() const { return core_->clock; }
  Time now() const { return core_->clock->now(); }
  std::shared_ptr<CallbackGroup> create_callback_group(CallbackGroupType, bool = true) { return std::make_shared<CallbackGroup>(); }

  template <typename I> std::shared_ptr<I> make_interface() const { auto i = std::make_shared<I>(); i->core = core_; return i; }
  node_interfaces::NodeBaseInterface::SharedPtr get_node_base_interface() const { return make_interface<node_interfaces::NodeBaseInterface>(); }
  node_interfaces::NodeTopicsInterface::SharedPtr get_node_topics_interface() const { return make_interface<node_interfaces::NodeTopicsInterface>(); }
  node_interfaces::NodeTimersInterface::SharedPtr get_node_timers_interface() const { return make_interface<node_interfaces::NodeTimersInterface>(); }
  node_interfaces::NodeClockInterface::SharedPtr get_node_clock_interface() const { return make_interface<node_interfaces::NodeClockInterface>(); }
  node_interfaces::NodeLoggingInterface::SharedPtr get_node_logging_interface() const { return make_interface<node_interfaces::NodeLoggingInterface>(); }
  node_interfaces::NodeParametersInterface::SharedPtr get_node_parameters_interface() const { return make_interface<node_interfaces::NodeParametersInterface>(); }

  template <typename T, typename Q>
  std::shared_ptr<Publisher<T>> create_publisher(const std::string & topic, const Q & qos, const PublisherOptions & = {})
  {
    auto p = std::make_shared<Publisher<T>>();
    sim::NoInstrument n;
    init_publisher(*p, topic, T::sim_type_name, QoS(qos));
    return p;
  }
  template <typename T, typename F, typename Q>
  std::shared_ptr<Subscription<T>> create_subscription(const std::string & topic, const Q & qos, F && f, const SubscriptionOptions & = {})
  {
    auto s = std::make_shared<Subscription<T>>();
    auto call = simros::wrap<T>(std::decay_t<F>(std::forward<F>(f)));
    sim::NoInstrument n;
    init_subscription(*s, topic, T::sim_type_name, QoS(qos), std::move(call));
    return s;
  }
  template <typename S, typename F>
  std::shared_ptr<Service<S>> create_service(const std::string & name, F && f, const rmw_qos_profile_t & = rmw_qos_profile_services_default, std::shared_ptr<CallbackGroup> = nullptr)
  {
    auto s = std::make_shared<Service<S>>();
    auto call = [f = std::decay_t<F>(std::forward<F>(f))](const simros::ServiceCore::Request & r) mutable {
      auto response = std::make_shared<typename S::Response>();
      auto request = std::static_pointer_cast<typename S::Request>(r.request);
      f(request, response);
      sim::NoInstrument n;
      r.reply(response);
    };
    sim::NoInstrument n;
    init_service(*s, name, S::sim_type_name, call);
    return s;
  }
  template <typename S>
  std::shared_ptr<Client<S>> create_client(const std::string & name, const rmw_qos_profile_t & = rmw_qos_profile_services_default, std::shared_ptr<CallbackGroup> = nullptr)
  {
    auto c = std::make_shared<Client<S>>();
    sim::NoInstrument n;
    init_client(*c, name, S::sim_type_name);
    return c;
  }
  template <typename R, typename P, typename F>
  std::shared_ptr<TimerBase> create_wall_timer(std::chrono::duration<R, P> period, F && f, std::shared_ptr<CallbackGroup> = nullptr)
  {
    auto t = std::make_shared<TimerBase>();
    std::function<void()> call = std::forward<F>(f);
    sim::NoInstrument n;
    t->core = simros::make_timer(*core_, nullptr, std::chrono::duration_cast<std::chrono::nanoseconds>(period).count(), std::move(call));
    return t;
  }
  // parameters
  bool has_parameter(const std::string & n) const { return get_node_parameters_interface()->has_parameter(n); }
  const ParameterValue & declare_parameter(const std::string & n, const ParameterValue & v, const rcl_interfaces::msg::ParameterDescriptor & d = {}) { return get_node_parameters_interface()->declare_parameter(n, v, d); }
  template <typename T> T declare_parameter(const std::string & n, const T & v) { return get_node_parameters_interface()->declare_parameter(n, ParameterValue(v)).template get<T>(); }
  template <typename T> T declare_parameter(const std::string & n)
  {
    auto & v = get_node_parameters_interface()->declare_parameter(n, ParameterValue());
    if (v.get_type() == ParameterType::PARAMETER_NOT_SET) throw exceptions::ParameterUninitializedException(n);
    return v.template get<T>();
  }
  Parameter get_parameter(const std::string & n) const { return get_node_parameters_interface()->get_parameter(n); }
  bool get_parameter(const std::string & n, Parameter & p) const { return get_node_parameters_interface()->get_parameter(n, p); }
  template <typename T> bool get_parameter(const std::string & n, T & out) const
  {
    Parameter p;
    if (!get_node_parameters_interface()->get_parameter(n, p)) return false;
    out = p.get_value<T>();
    return true;
  }
  template <typename T> bool get_parameter_or(const std::string & n, T & out, const T & alternative) const
  {
    if (get_parameter(n, out)) return true;
    out = alternative;
    return false;
  }
  template <typename T> T get_parameter_or(const std::string & n, const T & alternative) const { T out; get_parameter_or(n, out, alternative); return out; }
  rcl_interfaces::msg::SetParametersResult set_parameter(const Parameter & p) { return get_node_parameters_interface()->set_parameter(p); }
  std::vector<rcl_interfaces::msg::SetParametersResult> set_parameters(const std::vector<Parameter> & ps) { std::vector<rcl_interfaces::msg::SetParametersResult> r; for (auto & p : ps) r.push_back(set_parameter(p)); return r; }
  rcl_interfaces::msg::ListParametersResult list_parameters(const std::vector<std::string> & p, std::uint64_t d) const { return get_node_parameters_interface()->list_parameters(p, d); }

  void init_publisher(PublisherBase &, const std::string &, const char *, const QoS &);
  void init_subscription(SubscriptionBase &, const std::string &, const char *, const QoS &, std::function<void(simros::Any)>);
  void init_service(ServiceBase &, const std::string &, const char *, std::function<void(const simros::ServiceCore::Request &)>);
  void init_client(ClientBase &, const std::string &, const char *);
  std::shared_ptr<simros::NodeCore> sim_core() const { return core_; }
};

namespace detail
{
template <typename N, typename = void> struct is_ptr : std::false_type {};
template <typename N> struct is_ptr<N, std::void_t<decltype(*std::declval<N>())>> : std::true_type {};
template <typename N> auto & deref(N && n) { if constexpr (is_ptr<N>::value) return *n; else return n; }
}
namespace detail
{
template <typename N> auto plain(N & n, int) -> decltype(n.sim_plain_node()) { return n.sim_plain_node(); }
template <typename N> N & plain(N & n, long) { return n; }
}  // namespace detail
template <typename T, typename Alloc = std::allocator<void>, typename P = Publisher<T, Alloc>, typename N>
std::shared_ptr<P> create_publisher(N && node, const std::string & topic, const QoS & qos, const PublisherOptionsWithAllocator<Alloc> & = {})
{
  // an ordinary publisher, even if the node is a lifecycle node
  return detail::plain(detail::deref(node), 0).template create_publisher<T>(topic, qos);
}
template <typename T, typename Alloc = std::allocator<void>, typename N, typename F>
std::shared_ptr<Subscription<T>> create_subscription(N && node, const std::string & topic, const QoS & qos, F && f, const SubscriptionOptionsWithAllocator<Alloc> & = {})
{
  return detail::deref(node).template create_subscription<T>(topic, qos, std::forward<F>(f));
}
template <typename N, typename F>
TimerBase::SharedPtr create_timer(N node, Clock::SharedPtr clock, Duration period, F && f, std::shared_ptr<CallbackGroup> = nullptr)
{
  auto t = std::make_shared<TimerBase>();
  std::function<void()> call = std::forward<F>(f);
  sim::NoInstrument n;
  t->core = simros::make_timer(*detail::deref(node).sim_core(), clock, period.nanoseconds(), std::move(call));
  return t;
}
template <typename R, typename P, typename F>
TimerBase::SharedPtr create_wall_timer(std::chrono::duration<R, P> period, F f, std::shared_ptr<CallbackGroup>, node_interfaces::NodeBaseInterface * base, node_interfaces::NodeTimersInterface *)
{
  auto t = std::make_shared<TimerBase>();
  std::function<void()> call = std::move(f);
  sim::NoInstrument n;
  t->core = simros::make_timer(*base->core, nullptr, std::chrono::duration_cast<std::chrono::nanoseconds>(period).count(), std::move(call));
  return t;
}
template <typename R, typename P, typename F>
TimerBase::SharedPtr create_timer(node_interfaces::NodeBaseInterface::SharedPtr base, std::shared_ptr<node_interfaces::NodeTimersInterface>, Clock::SharedPtr clock, std::chrono::duration<R, P> period, F f, std::shared_ptr<CallbackGroup> = nullptr)
{
  auto t = std::make_shared<TimerBase>();
  std::function<void()> call = std::move(f);
  sim::NoInstrument n;
  t->core = simros::make_timer(*base->core, clock, std::chrono::duration_cast<std::chrono::nanoseconds>(period).count(), std::move(call));
  return t;
}
namespace node_interfaces
{
template <typename N> NodeParametersInterface::SharedPtr get_node_parameters_interface(N && n)
{
  using D = std::decay_t<N>;
  if constexpr (std::is_same_v<D, NodeParametersInterface::SharedPtr>) return n;
  else return rclcpp::detail::deref(n).get_node_parameters_interface();
}
}

enum class FutureReturnCode { SUCCESS, INTERRUPTED, TIMEOUT };
void spin(Node::SharedPtr);
void spin(node_interfaces::NodeBaseInterface::SharedPtr);
void spin_some(Node::SharedPtr);
void spin_some(node_interfaces::NodeBaseInterface::SharedPtr);
}  // namespace rclcpp
