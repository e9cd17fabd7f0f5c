// ZeroMQ request/reply sockets over the simulated network: connections never lose or reorder messages (as TCP), but messages take
// time, and a peer that is absent or gone leaves the requester waiting.
#pragma once
#include <sim/kernel/kernel.hpp>
#include <cerrno>
#include <cstring>
#include <chrono>
#include <deque>
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#ifndef ZMQ_POLLIN
#define ZMQ_POLLIN 1
#endif
namespace simzmq
{
using Bytes = std::string;
struct Port
{
  std::deque<std::pair<int, Bytes>> requests;      // waiting at the bound socket
  std::map<int, std::deque<Bytes>> replies;        // waiting at connected sockets
  std::function<Bytes(const Bytes &)> peer;        // a simulated server in place of a bound socket
  bool bound = false;
};
struct Net
{
  std::map<std::string, Port> ports;
  int next = 1;
  sim::i64 min_delay = 20 * sim::us, max_delay = 200 * sim::us;
  std::function<sim::i64()> peer_time;             // how long a simulated server takes
  sim::u64 sent = 0, received = 0;
};
inline Net *& net_() { static Net * n = new Net; return n; }
inline Net & net() { return *net_(); }
inline void reset_net() { net_() = new Net; }
inline std::string port_of(const std::string & endpoint) { return endpoint.substr(endpoint.rfind(':') + 1); }
inline sim::i64 latency() { auto & n = net(); return n.min_delay + static_cast<sim::i64>(sim::choose(sim::S, n.max_delay - n.min_delay + 1)); }
inline void peer_server(const std::string & port, std::function<Bytes(const Bytes &)> f) { net().ports[port].peer = std::move(f); }
}  // namespace simzmq
namespace zmq
{
struct error_t : std::exception { int e; explicit error_t(int n) : e(n) {} const char * what() const noexcept override { return std::strerror(e); } int num() const { return e; } };
enum class socket_type { req, rep };
enum class send_flags { none = 0, dontwait = 1 };
enum class recv_flags { none = 0, dontwait = 1 };
struct message_t
{
  std::string b;
  message_t() = default;
  explicit message_t(std::size_t n) : b(n, 0) {}
  void * data() { return b.data(); }
  const void * data() const { return b.data(); }
  std::size_t size() const { return b.size(); }
};
struct context_t { explicit context_t(int = 1) {} };
struct socket_t
{
  socket_type type;
  std::string port;
  int conn = 0, answering = 0;
  bool waiting = false, open = true;
  socket_t(context_t &, const socket_type & t) : type(t) {}
  socket_t(const socket_t &) = delete;
  ~socket_t() { close(); }
  void connect(const std::string & e) { sim::NoInstrument n; port = simzmq::port_of(e); conn = simzmq::net().next++; }
  void bind(const std::string & e)
  {
    sim::NoInstrument n;
    port = simzmq::port_of(e);
    auto & p = simzmq::net().ports[port];
    if (p.bound) throw error_t(EADDRINUSE);
    p.bound = true;
  }
  void close()
  {
    if (!open) return;
    open = false;
    sim::NoInstrument n;
    if (type == socket_type::rep && !port.empty()) simzmq::net().ports[port].bound = false;
  }
  void * handle() { return this; }
  std::optional<std::size_t> send(message_t & m, send_flags)
  {
    sim::NoInstrument n;
    if (!open) throw error_t(ENOTSOCK);
    auto & net = simzmq::net();
    ++net.sent;
    const std::string bytes = m.b;
    const std::string at = port;
    m.b.clear();
    sim::hb_release(&net.ports[port]);
    if (type == socket_type::req) {
      if (waiting) throw error_t(156384763);       // EFSM
      waiting = true;
      const int c = conn;
      sim::after(simzmq::latency(), [at, c, bytes] {
        auto & p = simzmq::net().ports[at];
        if (!p.peer) { p.requests.emplace_back(c, bytes); return; }
        const auto reply = p.peer(bytes);
        auto & net = simzmq::net();
        sim::after((net.peer_time ? net.peer_time() : 0) + simzmq::latency(), [at, c, reply] { simzmq::net().ports[at].replies[c].push_back(reply); });
      });
    } else {
      if (!answering) throw error_t(156384763);
      const int c = answering;
      answering = 0;
      sim::after(simzmq::latency(), [at, c, bytes] { simzmq::net().ports[at].replies[c].push_back(bytes); });
    }
    return bytes.size();
  }
  bool ready() const
  {
    auto & p = simzmq::net().ports[port];
    if (type == socket_type::req) { auto it = p.replies.find(conn); return it != p.replies.end() && !it->second.empty(); }
    return !p.requests.empty();
  }
  std::optional<std::size_t> recv(message_t & m, recv_flags)
  {
    sim::NoInstrument n;
    if (!open) throw error_t(ENOTSOCK);
    if (type == socket_type::req && !waiting) throw error_t(156384763);
    sim::wait_until([this] { return ready(); }, -1, "zmq recv");
    auto & p = simzmq::net().ports[port];
    sim::hb_acquire(&p);
    ++simzmq::net().received;
    if (type == socket_type::req) {
      auto & q = p.replies[conn];
      m.b = q.front();
      q.pop_front();
      waiting = false;
    } else {
      answering = p.requests.front().first;
      m.b = p.requests.front().second;
      p.requests.pop_front();
    }
    return m.b.size();
  }
};
struct pollitem_t { void * socket; int fd; short events; short revents; };
inline int poll(pollitem_t * items, std::size_t n, std::chrono::milliseconds timeout)
{
  sim::NoInstrument ni;
  auto any = [&] { for (std::size_t i = 0; i < n; ++i) if (static_cast<socket_t *>(items[i].socket)->ready()) return true; return false; };
  sim::wait_until(any, timeout.count() < 0 ? -1 : sim::now() + timeout.count() * sim::ms, "zmq poll");
  int k = 0;
  for (std::size_t i = 0; i < n; ++i) { items[i].revents = static_cast<socket_t *>(items[i].socket)->ready() ? ZMQ_POLLIN : 0; k += items[i].revents != 0; }
  return k;
}
}  // namespace zmq
