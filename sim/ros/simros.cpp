#include <rclcpp/rclcpp.hpp>
#include <rosgraph_msgs/msg/clock.hpp>
#include <ament_index_cpp/get_package_share_directory.hpp>
#include <stdarg.h>

namespace simros
{
Endpoint::~Endpoint() = default;
static Network * g_net = nullptr;
Network & network() { if (!g_net) g_net = new Network; return *g_net; }
void reset_network() { g_net = new Network; }

std::int64_t latency()
{
  auto & n = network();
  if (n.max_delay <= n.min_delay) return n.min_delay;
  return n.min_delay + static_cast<std::int64_t>(sim::choose(sim::S, n.max_delay - n.min_delay + 1));
}

std::string format(const char * f, ...)
{
  char b[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  return b;
}
void log_line(const char * level, const std::string & logger, const std::string & text)
{
  sim::NoInstrument n;
  sim::logf("ros ", level, " ", logger, ": ", text);
  if (network().on_log) network().on_log(level, logger, text);
}

std::string NodeCore::resolve(const std::string & n) const
{
  if (n.empty() || n[0] == '/') return n;
  if (n[0] == '~') return (ns == "/" ? "" : ns) + "/" + name + n.substr(1);
  return (ns == "/" ? "" : ns) + "/" + n;
}

void SubscriptionCore::execute()
{
  Any m;
  { sim::NoInstrument n; if (queue.empty()) return; m = queue.front(); queue.pop_front(); }
  call(m);
}
std::int64_t TimerCore::now() const { return clock ? clock->now().nanoseconds() : sim::now(); }
void TimerCore::execute()
{
  {
    sim::NoInstrument n;
    auto t = now();
    if (cancelled || t < next) return;
    next += period;
    if (period > 0 && next <= t) next += ((t - next) / period + 1) * period;
  }
  call();
}
void ServiceCore::execute()
{
  Request r;
  { sim::NoInstrument n; if (queue.empty()) return; r = queue.front(); queue.pop_front(); }
  call(r);
}
void ClientCore::execute()
{
  std::function<void(std::shared_ptr<void>)> f;
  std::shared_ptr<void> r;
  {
    sim::NoInstrument n;
    if (queue.empty()) return;
    auto [id, x] = queue.front();
    queue.pop_front();
    auto it = pending.find(id);
    if (it == pending.end()) { sim::logf("response to unknown request ", id, " ignored"); return; }
    f = it->second;
    r = x;
    pending.erase(it);
  }
  sim::hb_acquire(this);   // sending a request happens before its answer
  f(r);
}

void add_endpoint(NodeCore & c, std::shared_ptr<Endpoint> e) { c.endpoints.push_back(e); }
std::shared_ptr<TimerCore> make_timer(NodeCore & c, rclcpp::Clock::SharedPtr clock, std::int64_t period, std::function<void()> f)
{
  auto t = std::make_shared<TimerCore>();
  t->clock = clock;
  t->period = period;
  t->call = std::move(f);
  t->next = t->now() + period;
  add_endpoint(c, t);
  return t;
}

void deliver(SubscriptionCore & s, Any m)
{
  s.queue.push_back(m);
  while (s.queue.size() > s.depth) { s.queue.pop_front(); sim::count("ros: queue overflow, oldest message dropped"); }
}
static void send_to(std::shared_ptr<SubscriptionCore> s, std::uint64_t publisher, Any m)
{
  auto & n = network();
  auto & last = n.last_delivery[{publisher, s.get()}];
  auto t = std::max(last, sim::now() + latency());   // per-writer order is kept
  last = t;
  if (t <= sim::now()) { deliver(*s, m); return; }
  std::weak_ptr<SubscriptionCore> w = s;
  sim::at(t, [w, m] { if (auto s = w.lock()) deliver(*s, m); });
}
void may_fail(const PublisherCore & p)
{
  if (!sim::fault("publish_fails", 1, 200)) return;
  auto & n = network();
  const auto text = "failed to publish message on " + p.topic;
  sim::log(text);
  ++n.publish_failures;
  n.publish_failure = text;
  n.publish_failed_at = sim::now();
  throw rclcpp::exceptions::RCLError(text);
}
void publish(PublisherCore & p, Any m)
{
  auto & n = network();
  if (auto it = n.observers.find(p.topic); it != n.observers.end()) for (auto & f : it->second) f(m, p.type);
  if (p.transient_local) { p.history.push_back(m); while (p.history.size() > p.depth) p.history.pop_front(); }
  for (auto & w : n.subscriptions)
    if (auto s = w.lock()) if (s->topic == p.topic && s->type == p.type) send_to(s, p.id, m);
}
void inject_any(const std::string & topic, const std::string & type, Any m, bool latch)
{
  auto & n = network();
  if (latch) { auto & q = n.latched[topic]; q.clear(); q.push_back(m); }
  for (auto & w : n.subscriptions)
    if (auto s = w.lock()) if (s->topic == topic && s->type == type) send_to(s, 0, m);
}
void attach(const std::shared_ptr<SubscriptionCore> & s)
{
  auto & n = network();
  n.subscriptions.erase(std::remove_if(n.subscriptions.begin(), n.subscriptions.end(), [](auto & w) { return w.expired(); }), n.subscriptions.end());
  n.subscriptions.push_back(s);
  if (!s->transient_local) return;
  if (auto it = n.latched.find(s->topic); it != n.latched.end()) for (auto & m : it->second) send_to(s, 0, m);
  for (auto & w : n.publishers)
    if (auto p = w.lock()) if (p->topic == s->topic && p->transient_local) for (auto & m : p->history) send_to(s, p->id, m);
}

static std::shared_ptr<ServiceCore> find_service(const std::string & name)
{
  for (auto & w : network().services) if (auto s = w.lock()) if (s->name == name) return s;
  return nullptr;
}
bool service_ready(const std::string & name)
{
  auto & n = network();
  if (auto it = n.peer_ready.find(name); it != n.peer_ready.end() && it->second) return true;
  return find_service(name) != nullptr;
}
void send_request(const std::shared_ptr<ClientCore> & c, std::int64_t id, std::shared_ptr<void> request)
{
  std::weak_ptr<ClientCore> w = c;
  auto name = c->name;
  sim::logf("ros request ", name, " #", id);
  Reply reply = [w, id, name](std::shared_ptr<void> r) {
    sim::at(sim::now() + latency(), [w, id, r, name] {
      if (auto c = w.lock()) { sim::logf("ros response ", name, " #", id); c->queue.push_back({id, r}); }
    });
  };
  if (sim::fault("request_lost", 1, 8)) return;
  sim::at(sim::now() + latency(), [name, request, reply] {
    auto & n = network();
    if (auto it = n.peer_services.find(name); it != n.peer_services.end() && n.peer_ready[name]) it->second.handle(request, reply);
    else if (auto s = find_service(name)) s->queue.push_back({request, reply});
    else sim::logf("ros request to absent service ", name, " is lost");
  });
}
void peer_call_any(const std::string & name, std::shared_ptr<void> request, Reply done)
{
  auto s = find_service(name);
  if (!s) return;
  s->queue.push_back({request, done});
}
}  // namespace simros

namespace rclcpp
{
using namespace simros;
bool ok() { return network().ok; }
void init(int, char const * const *) { network().ok = true; }
std::vector<std::string> init_and_remove_ros_arguments(int n, char const * const * a) { network().ok = true; return std::vector<std::string>(a, a + n); }
bool shutdown(const std::string &)
{
  if (!network().ok) return false;
  network().ok = false;
  for (auto & f : network().on_shutdown) f();
  return true;
}
void on_shutdown(std::function<void()> f) { network().on_shutdown.push_back(f); }

Time Clock::now() const
{
  if (type == RCL_STEADY_TIME) return Time(sim::now(), type);
  if (type == RCL_ROS_TIME && *use_sim_time) return Time(network().sim_clock, type);
  return Time(sim::now() + sim::wall_offset(), type);
}

Node::Node(const std::string & name, const std::string & ns, const NodeOptions & o) : core_(std::make_shared<NodeCore>())
{
  sim::NoInstrument n;
  core_->name = name;
  core_->ns = ns.empty() ? "/" : ns[0] == '/' ? ns : "/" + ns;
  core_->overrides = o.overrides;
  if (o.global) for (auto & [k, v] : network().parameters) core_->overrides.emplace(k, v);
  if (o.auto_declare) core_->parameters = core_->overrides;
  auto u = core_->overrides.find("use_sim_time");
  core_->parameters.emplace("use_sim_time", u == core_->overrides.end() ? ParameterValue(false) : u->second);
  *core_->clock->use_sim_time = core_->parameters["use_sim_time"].get<bool>();
}
Node::~Node() = default;
std::size_t PublisherBase::get_subscription_count() const
{
  sim::NoInstrument n;
  std::size_t c = 0;
  for (auto & w : network().subscriptions) if (auto s = w.lock()) if (s->topic == core->topic) ++c;
  return c;
}

void Node::init_publisher(PublisherBase & p, const std::string & topic, const char * type, const QoS & q)
{
  p.core = std::make_shared<PublisherCore>();
  p.core->topic = core_->resolve(topic);
  p.core->type = type;
  p.core->node = core_->name;
  p.core->depth = std::max<std::size_t>(1, q.profile.depth);
  p.core->transient_local = q.profile.transient_local;
  p.core->id = network().next_publisher++;
  network().publishers.push_back(p.core);
}
void Node::init_subscription(SubscriptionBase & s, const std::string & topic, const char * type, const QoS & q, std::function<void(Any)> f)
{
  s.core = std::make_shared<SubscriptionCore>();
  s.core->topic = core_->resolve(topic);
  s.core->type = type;
  s.core->node = core_->name;
  s.core->depth = std::max<std::size_t>(1, q.profile.depth);
  s.core->transient_local = q.profile.transient_local;
  s.core->call = std::move(f);
  add_endpoint(*core_, s.core);
  attach(s.core);
}
void Node::init_service(ServiceBase & s, const std::string & name, const char * type, std::function<void(const ServiceCore::Request &)> f)
{
  s.core = std::make_shared<ServiceCore>();
  s.core->name = core_->resolve(name);
  s.core->type = type;
  s.core->node = core_->name;
  s.core->call = std::move(f);
  add_endpoint(*core_, s.core);
  network().services.push_back(s.core);
}
void Node::init_client(ClientBase & c, const std::string & name, const char * type)
{
  c.core = std::make_shared<ClientCore>();
  c.core->name = core_->resolve(name);
  c.core->type = type;
  c.core->node = core_->name;
  add_endpoint(*core_, c.core);
}

namespace node_interfaces
{
bool NodeParametersInterface::has_parameter(const std::string & n) const { sim::NoInstrument i; return core->parameters.count(n) != 0; }
const ParameterValue & NodeParametersInterface::declare_parameter(const std::string & n, const ParameterValue & v, const rcl_interfaces::msg::ParameterDescriptor &, bool)
{
  sim::NoInstrument i;
  if (core->parameters.count(n)) throw exceptions::ParameterAlreadyDeclaredException("parameter '" + n + "' has already been declared");
  auto it = core->overrides.find(n);
  if (it != core->overrides.end() && v.get_type() != ParameterType::PARAMETER_NOT_SET && it->second.get_type() != v.get_type()) throw exceptions::InvalidParameterTypeException("parameter '" + n + "' has invalid type");
  return core->parameters[n] = it == core->overrides.end() ? v : it->second;
}
Parameter NodeParametersInterface::get_parameter(const std::string & n) const
{
  sim::NoInstrument i;
  auto it = core->parameters.find(n);
  if (it == core->parameters.end()) throw exceptions::ParameterNotDeclaredException(n);
  return Parameter(n, it->second);
}
bool NodeParametersInterface::get_parameter(const std::string & n, Parameter & p) const
{
  sim::NoInstrument i;
  auto it = core->parameters.find(n);
  if (it == core->parameters.end()) return false;
  p = Parameter(n, it->second);
  return true;
}
rcl_interfaces::msg::SetParametersResult NodeParametersInterface::set_parameter(const Parameter & p)
{
  sim::NoInstrument i;
  if (!core->parameters.count(p.get_name())) throw exceptions::ParameterNotDeclaredException(p.get_name());
  core->parameters[p.get_name()] = p.get_parameter_value();
  if (p.get_name() == "use_sim_time") *core->clock->use_sim_time = p.get_value<bool>();
  return {};
}
rcl_interfaces::msg::ListParametersResult NodeParametersInterface::list_parameters(const std::vector<std::string> & prefixes, std::uint64_t) const
{
  sim::NoInstrument i;
  rcl_interfaces::msg::ListParametersResult r;
  for (auto & [k, v] : core->parameters)
    if (prefixes.empty()) r.names.push_back(k);
    else for (auto & p : prefixes) if (k == p || k.compare(0, p.size() + 1, p + ".") == 0) { r.names.push_back(k); break; }
  return r;
}
}  // namespace node_interfaces

void Executor::add_node(std::shared_ptr<Node> n, bool) { nodes.push_back(n->sim_core()); }
void Executor::remove_node(node_interfaces::NodeBaseInterface::SharedPtr n, bool) { nodes.erase(std::remove_if(nodes.begin(), nodes.end(), [&](auto & w) { return w.lock() == n->core; }), nodes.end()); }
void Executor::remove_node(std::shared_ptr<Node> n, bool) { remove_node(n->get_node_base_interface()); }
bool Executor::run_ready(bool one)
{
  std::vector<std::weak_ptr<Endpoint>> ready;      // an endpoint destroyed by an earlier callback is not executed
  {
    sim::NoInstrument n;
    for (int rank = 0; rank < 4; ++rank)
      for (auto & w : nodes)
        if (auto c = w.lock()) {
          auto & v = c->endpoints;
          v.erase(std::remove_if(v.begin(), v.end(), [](auto & e) { return e.expired(); }), v.end());
          for (std::size_t i = 0; i < v.size(); ++i)
            if (auto e = v[i].lock()) if (e->rank() == rank && e->ready()) ready.push_back(e);
        }
  }
  bool any = false;
  for (auto & w : ready) {
    if (cancelled) break;
    std::shared_ptr<Endpoint> e;
    { sim::NoInstrument n; e = w.lock(); }
    if (!e) continue;
    any = true;
    // a message has been taken, its callback runs later
    if (e->rank() == 1 && sim::fault_enabled("callback_late") && sim::fault("callback_late", 1, 20)) sim::sleep_ns(static_cast<sim::i64>(1 + sim::choose(sim::F, 200)) * sim::ms);
    e->execute();
    if (one) break;
  }
  return any;
}
void Executor::spin_some(std::chrono::nanoseconds)
{
  cancelled = false;
  if (!run_ready(false)) sim::poll_pause(); else sim::yield();
}
void Executor::spin()
{
  cancelled = false;
  while (ok() && !cancelled) if (!run_ready(false)) sim::poll_pause(); else sim::yield();
}
void Executor::spin_once(std::chrono::nanoseconds timeout)
{
  cancelled = false;
  auto deadline = timeout.count() < 0 ? -1 : sim::now() + timeout.count();
  while (ok() && !cancelled) {
    if (run_ready(true)) return;
    if (deadline >= 0 && sim::now() >= deadline) return;
    sim::poll_pause();
  }
}
void spin(node_interfaces::NodeBaseInterface::SharedPtr n) { executors::SingleThreadedExecutor e; e.add_node(n); e.spin(); }
void spin(Node::SharedPtr n) { spin(n->get_node_base_interface()); }
void spin_some(node_interfaces::NodeBaseInterface::SharedPtr n) { executors::SingleThreadedExecutor e; e.add_node(n); e.spin_some(); }
void spin_some(Node::SharedPtr n) { spin_some(n->get_node_base_interface()); }
}  // namespace rclcpp

namespace ament_index_cpp
{
std::string get_package_share_directory(const std::string & p)
{
  sim::NoInstrument n;
  auto it = simros::network().packages.find(p);
  if (it == simros::network().packages.end()) throw PackageNotFoundError("package '" + p + "' not found");
  return it->second;
}
std::string get_package_prefix(const std::string & p) { return get_package_share_directory(p); }
}
