// C02: the queue that orders what is sent to Autoware (concealer::TaskQueue).
#include <sim/kernel/kernel.hpp>
#include <concealer/task_queue.hpp>
#include <rclcpp/rclcpp.hpp>
#include <chrono>
#include <memory>
#include <optional>
#include <thread>

using namespace sim;

namespace
{
struct Failure : std::runtime_error { int task; Failure(int t, const std::string & w) : std::runtime_error(w), task(t) {} };
struct Task { int producer = 0; i64 accepted = -1, started = -1, ended = -1; bool throws = false; i64 duration = 0; int spawns = -1; };
struct Model
{
  std::vector<Task> tasks;
  std::vector<std::vector<int>> order;       // per producer: accepted tasks, in call order
  std::vector<int> started;                  // in execution order
  int running = 0, alive_captures = 0;
  int thrower = -1;
  i64 thrown_at = -1;
  bool destroyed = false, destroying = false;
  i64 shutdown_at = -1;
};
Model * M;

// what a task captures: lets us see that nothing outlives the queue
struct Capture
{
  Capture() { NoInstrument q; ++M->alive_captures; }
  Capture(const Capture &) { NoInstrument q; ++M->alive_captures; }
  ~Capture() { NoInstrument q; --M->alive_captures; }
};

void body(int id)
{
  i64 duration;
  bool throws;
  {
    NoInstrument q;
    auto & t = M->tasks[id];
    check(!M->destroyed, "run-after-destruction", "task " + std::to_string(id) + " runs after the queue was destroyed");
    check(t.started < 0, "run-twice", "task " + std::to_string(id) + " runs twice");
    check(M->running == 0, "overlap", "two tasks run at the same time");
    check(M->thrower < 0, "run-after-failure", "task " + std::to_string(id) + " runs although task " + std::to_string(M->thrower) + " failed before it");
    for (int before : M->order[t.producer]) {
      if (before == id) break;
      check(M->tasks[before].ended >= 0, "order", "task " + std::to_string(id) + " runs before task " + std::to_string(before) + ", which was requested earlier");
    }
    t.started = now();
    M->started.push_back(id);
    M->running = 1;
    duration = t.duration;
    throws = t.throws;
    logf("task ", id, " starts");
  }
  if (duration) std::this_thread::sleep_for(std::chrono::nanoseconds(duration));
  else sim::yield();
  {
    NoInstrument q;
    auto & t = M->tasks[id];
    t.ended = now();
    M->running = 0;
    logf("task ", id, throws ? " fails" : " ends");
    if (throws) { M->thrower = id; M->thrown_at = now(); }
  }
  if (throws) throw Failure(id, "task " + std::to_string(id) + " failed");
}

// An error that came out of the queue must be the one the task threw, unchanged.
void surfaced(const std::exception_ptr & e, const char * where)
{
  NoInstrument q;
  try { std::rethrow_exception(e); }
  catch (const Failure & f) {
    check(M->thrower == f.task && std::string(f.what()) == "task " + std::to_string(f.task) + " failed", "wrong-error", std::string(where) + " reports '" + f.what() + "' but the failed task is " + std::to_string(M->thrower));
  }
  catch (...) { violation("wrong-error", std::string(where) + " throws something else than the error of the failed task"); }
}

void scenario()
{
  M = new Model;
  const bool faults = wchance(2, 3);
  for (auto k : {"thread_stall", "late_wakeup", "spurious_wakeup"}) enable_fault(k, faults && wchance(1, 2));
  const bool stalls = fault_enabled("thread_stall") || fault_enabled("late_wakeup");
  set_limits(400'000, 4000 * sec);
  set_race_detection(true);
  const int producers = wchance(1, 3) ? 2 : 1;
  M->order.resize(producers);
  const bool failing = wchance(1, 2), shutting = wchance(1, 8);
  std::string description = std::to_string(producers) + " callers";
  u64 shape = producers;
  bool surfaced_once = false;
  i64 last_activity = 0;
  {
    std::optional<concealer::TaskQueue> queue;
    queue.emplace();
    auto produce = [&](int p, const std::vector<u64> & script) {
      bool failed = false;
      for (auto op : script) {
        const bool known = failed;
        i64 before;
        bool must;
        { NoInstrument q; before = now(); must = M->thrower >= 0 && before > M->thrown_at + (stalls ? 20 * sec : 1 * ms); }
        try {
          if (op % 8 < 4) {
            int id;
            {
              NoInstrument q;
              id = static_cast<int>(M->tasks.size());
              M->tasks.emplace_back();
              auto & t = M->tasks.back();
              t.producer = p;
              t.duration = op % 4 == 0 ? 0 : static_cast<i64>(op / 8 % 4000) * ms;
              t.throws = failing && op / 8 % 5 == 0;
              M->order[p].push_back(id);
            }
            auto rejected = [&] { NoInstrument q; M->order[p].pop_back(); };
            try {
              auto c = std::make_shared<Capture>();
              queue->delay([id, c] { (void)c; body(id); });
            } catch (...) { check(M->tasks[id].started < 0, "rejected-but-run", "a request that failed with an error is carried out"); rejected(); throw; }
            NoInstrument q;
            M->tasks[id].accepted = now();
          } else if (op % 8 == 4) {
            queue->rethrow();
          } else if (op % 8 == 5) {
            const bool e = queue->empty();
            NoInstrument q;
            if (e) for (int id : M->order[p]) check(M->tasks[id].ended >= 0 && !M->tasks[id].throws, "empty-early", "the queue says it is empty although task " + std::to_string(id) + " is not complete");
            continue;
          } else {
            std::this_thread::sleep_for(std::chrono::milliseconds(op / 8 % 3000));
            continue;
          }
          check(!known, "error-forgotten", "an error was reported once and the next request was accepted again");
          check(!must, "error-swallowed", "a task failed at " + std::to_string(M->thrown_at / ms) + " ms, a request at " + std::to_string(before / ms) + " ms was accepted without an error");
        } catch (...) { surfaced(std::current_exception(), op % 8 < 4 ? "delay()" : "rethrow()"); failed = true; NoInstrument q; surfaced_once = true; }
      }
    };
    std::vector<std::vector<u64>> scripts(producers);
    for (auto & s : scripts) for (u64 n = 1 + w(10); n; --n) { s.push_back(w(1 << 16)); shape = shape * 9 + s.back() % 8; }
    description += ", " + std::to_string(scripts[0].size() + (producers > 1 ? scripts[1].size() : 0)) + " calls";
    if (shutting) after(range(W, 0, 5000) * ms, [] { M->shutdown_at = now(); simros::network().ok = false; sim::log("ROS shuts down"); }, "shutdown");
    std::thread second;
    if (producers > 1) second = std::thread([&] { produce(1, scripts[1]); });
    produce(0, scripts[0]);
    if (second.joinable()) second.join();
    last_activity = now();
    const bool wait = wchance(1, 2);
    if (wait && !shutting) {
      // everything accepted is carried out, or a failure is reported, within the time the tasks take plus the poll interval
      i64 work = 0;
      for (auto & t : M->tasks) work += t.duration + 200 * ms;
      const i64 deadline = now() + work + 2 * sec + (stalls ? 600 * sec : 0);
      auto settled = [&] { NoInstrument q; if (M->thrower >= 0) return true; for (auto & o : M->order) for (int id : o) if (M->tasks[id].ended < 0) return false; return true; };
      while (!settled() && now() < deadline) std::this_thread::sleep_for(std::chrono::milliseconds(50));
      check(settled(), "no-progress", "an accepted request is not carried out");
      std::this_thread::sleep_for(std::chrono::milliseconds(stalls ? 30000 : 300));
      if (M->thrower < 0) check(queue->empty(), "never-empty", "all requests are complete but the queue is not empty");
      else {
        check(!queue->empty() || M->order.empty(), "failed-but-empty", "a request failed, yet the queue says that nothing is pending");
        try { queue->rethrow(); violation("error-swallowed", "a task failed and rethrow() does not report it"); }
        catch (const std::exception &) { surfaced(std::current_exception(), "rethrow()"); surfaced_once = true; }
        catch (...) { surfaced(std::current_exception(), "rethrow()"); }
      }
    }
    i64 left = 0;
    { NoInstrument q; for (auto & t : M->tasks) if (t.started >= 0 && t.ended < 0) left = std::max<i64>(0, t.started + t.duration - now()); M->destroying = true; for (auto & t : M->tasks) if (t.started < 0) left = std::max(left, t.duration); }
    const i64 begin = now();
    queue.reset();
    M->destroyed = true;
    check(M->running == 0, "destroyed-while-running", "the queue is destroyed while a task is running");
    check(now() - begin <= left + 1 * sec + (stalls ? 600 * sec : 0), "slow-destruction", "the destruction of the queue takes " + std::to_string((now() - begin) / ms) + " ms although the running task needs at most " + std::to_string(left / ms) + " ms");
    check(M->alive_captures == 0, "leak", std::to_string(M->alive_captures) + " requests outlive the queue");
  }
  std::this_thread::sleep_for(std::chrono::seconds(5));
  u64 done = 0;
  for (auto & t : M->tasks) done += t.ended >= 0;
  if (M->thrower >= 0) probe("a task failed");
  if (surfaced_once) probe("a failure was reported to a caller");
  if (M->shutdown_at >= 0) probe("ROS shut down before the end");
  if (done < M->tasks.size()) probe("destroyed with pending requests");
  for (int id : M->started) shape = shape * 31 + id;
  state(shape % 1000003);
  if (done) { nontrivial(shape); sample(description + ", " + std::to_string(done) + " tasks ran" + (M->thrower >= 0 ? ", one failed" : "")); }
  (void)last_activity;
}
}  // namespace

int main(int argc, char ** argv)
{
  return driver_main(argc, argv, {{"C02", scenario,
    "workload: one or two callers submit 1-10 tasks each (some long, some failing) mixed with rethrow() and empty(), then the queue is drained or destroyed at once; ROS may shut down; faults: threads stall, wake up late or spuriously; "
    "all interleavings at lock, atomic, sleep and shared-memory accesses are up to the scheduler and a happens-before race detector is on; non-trivial: at least one task ran; distinct by calls and execution order",
    {"concealer/task_queue.hpp, task_queue.cpp"}, {"thread scheduler, clock, sleep (simulated)", "rclcpp::ok"}}});
}
