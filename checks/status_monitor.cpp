// C05: the watchdog record written by common::StatusMonitor.
#include <sim/kernel/kernel.hpp>
#include <atomic>
#include <nlohmann/json.hpp>
#include <status_monitor/status_monitor.hpp>
#include <cmath>
#include <thread>

using namespace sim;

namespace
{
struct Touch { i64 begin, end; };
struct Worker
{
  std::string name;                 // of the first touch
  i64 first_begin = 0;
  std::vector<Touch> touches;
  bool exiting = false;             // its monitor object is being destroyed
};
struct Model
{
  std::map<std::string, Worker> workers;             // by printed thread id
  struct Threshold { i64 begin, end, value; };
  std::vector<Threshold> thresholds{{0, 0, 10}};     // the value in force from somewhere in [begin, end] on
  std::string partial;
  i64 last_line = -1;
  u64 lines = 0, bad_lines = 0;
  bool open_failed = false, write_failed = false, file_open = false, disk_faults = false, shut_down = false;
  i64 opened = -1;
  // the announced long operation that is just ending
  i64 leaving = -1, leaving_from = 0, leaving_to = 0;
  std::string leaving_id;
};
Model * M = new Model;

// The watchdog starts with the program, so it may run before the scenario does: whoever comes first sets the run up.
void setup()
{
  static bool done = false;
  if (done) return;
  done = true;
  NoInstrument q;
  M->opened = now();
  const bool faults = wchance(2, 3);
  for (auto k : {"thread_stall", "late_wakeup", "short_write"}) enable_fault(k, faults && wchance(1, 2));
  enable_fault("open_fails", faults && wchance(1, 8));
  enable_fault("disk_full", faults && wchance(1, 8));
  set_limits(3'000'000, 1200 * sec);
  set_race_detection(true);
}

std::string thread_name(std::thread::id id) { std::ostringstream o; o << id; return o.str(); }

// every value the threshold can have had at some time in [a, b]
std::vector<i64> thresholds_within(i64 a, i64 b)
{
  std::vector<i64> r;
  for (std::size_t i = 0; i < M->thresholds.size(); ++i) {
    i64 from = M->thresholds[i].begin, to = i + 1 < M->thresholds.size() ? M->thresholds[i + 1].end : INT64_MAX;
    if (to == -1) to = INT64_MAX;
    if (from <= b && to >= a) r.push_back(M->thresholds[i].value);
  }
  return r;
}

void check_line(const std::string & line)
{
  const i64 t1 = now(), t0 = M->last_line < 0 ? M->opened : M->last_line;   // the record describes some instants in [t0, t1]
  nlohmann::json j;
  try { j = nlohmann::json::parse(line); }
  catch (const std::exception & e) { violation("torn-record", "a line of the status file is not one JSON object: " + line.substr(0, 200)); }
  check(j.contains("good") && j.contains("threads") && j.contains("threshold") && j.contains("name"), "record-incomplete", line);
  bool all = true;
  for (auto & t : j["threads"]) all = all && t["good"].get<bool>();
  i64 unix_time = j["unix_time"].get<i64>();
  check(unix_time >= (t0 + wall_offset()) / sec && unix_time <= (t1 + wall_offset()) / sec, "record-time", "unix_time " + std::to_string(unix_time) + " is not the time of the record");
  auto possible = thresholds_within(t0, t1);
  check(std::count(possible.begin(), possible.end(), j["threshold"].get<i64>()) != 0, "record-threshold", "the record states threshold " + j["threshold"].dump() + " s, which was not in force");
  i64 lowest = *std::min_element(possible.begin(), possible.end()), highest = *std::max_element(possible.begin(), possible.end());
  std::map<std::string, nlohmann::json> rows;
  for (auto & t : j["threads"]) {
    auto id = t["thread_id"].get<std::string>();
    check(rows.emplace(id, t).second, "record-duplicate", "thread " + id + " is listed twice");
    check(M->workers.count(id) != 0, "record-phantom", "the record lists a thread that never touched the monitor");
  }
  bool must_be_bad = false, must_be_good = true;
  for (auto & [id, w] : M->workers) {
    bool surely_registered = !w.touches.empty() && w.touches.front().end >= 0 && w.touches.front().end < t0;
    if (!rows.count(id)) {
      check(!surely_registered, "record-missing-thread", "thread " + w.name + " registered " + std::to_string((t0 - w.touches.front().end) / ms) + " ms before the record but is not in it");
      continue;
    }
    auto & row = rows[id];
    check(row["name"].get<std::string>() == w.name, "record-name", "thread registered as " + w.name + " is listed as " + row["name"].dump());
    if (w.exiting) { must_be_good = must_be_good && row["good"].get<bool>(); continue; }
    // the last access seen by the record is some access that began before t1 and is not older than the last one that ended before t0
    i64 oldest = -1, newest = -1;
    for (auto & t : w.touches) {
      if (t.end >= 0 && t.end <= t0) oldest = t.begin;
      if (t.begin <= t1) newest = t.end < 0 ? t1 : t.end;
    }
    if (oldest < 0) oldest = w.first_begin;
    i64 since_max = t1 - oldest, since_min = std::max<i64>(0, t0 - newest);
    i64 since = row["since_last_access_ms"].get<i64>();
    check(since >= since_min / ms - 1 && since <= since_max / ms + 1, "record-since", "since_last_access_ms " + std::to_string(since) + " of " + w.name + " is outside [" + std::to_string(since_min / ms) + ", " + std::to_string(since_max / ms) + "]");
    bool good = row["good"].get<bool>();
    if (since_max < lowest * sec) check(good, "false-alarm", w.name + " touched the monitor at most " + std::to_string(since_max / ms) + " ms ago, threshold " + std::to_string(lowest) + " s, but is reported unresponsive");
    else must_be_good = false;
    if (since_min >= highest * sec) { check(!good, "missed-stall", w.name + " has not touched the monitor for at least " + std::to_string(since_min / ms) + " ms, threshold " + std::to_string(highest) + " s, but is reported good"); must_be_bad = true; }
    // extremes of the intervals between accesses
    i64 min_i = INT64_MAX, max_i = INT64_MIN;
    std::size_t n = 0;
    for (std::size_t i = 1; i < w.touches.size(); ++i)
      if (w.touches[i].end >= 0 && w.touches[i].end < t0) {
        ++n;
        min_i = std::min(min_i, w.touches[i].end - w.touches[i - 1].begin);
        max_i = std::max(max_i, w.touches[i].begin - w.touches[i - 1].end);
      }
    if (n) {
      check(row["maximum_access_interval_ms"].get<i64>() >= max_i / ms - 1, "record-maximum", "maximum_access_interval_ms of " + w.name + " is below an interval that occurred");
      check(row["minimum_access_interval_ms"].get<i64>() <= min_i / ms + 1, "record-minimum", "minimum_access_interval_ms of " + w.name + " is above an interval that occurred");
    }
  }
  // the end of an announced long operation counts as an access, so the previous threshold never meets the access before it
  if (M->leaving >= 0 && M->leaving_from != M->leaving_to && j["threshold"].get<i64>() == M->leaving_to && rows.count(M->leaving_id))
    check(rows[M->leaving_id]["since_last_access_ms"].get<i64>() <= (t1 - M->leaving) / ms + 1, "override-window", "the previous threshold is in force again but the last access is still the one from before the announced operation");
  bool good = j["good"].get<bool>();
  if (must_be_bad) check(!good, "overall-good", "a thread is unresponsive but the record says good");
  if (must_be_good) check(good, "overall-bad", "all threads are responsive but the record says not good");
  bool borderline = false;      // the threshold may pass between the two evaluations
  for (auto & t : j["threads"]) borderline = borderline || std::abs(t["since_last_access_ms"].get<i64>() - 1000 * j["threshold"].get<i64>()) <= 5;
  if (not fault_enabled("thread_stall") && not borderline) check(good == all, "overall-mismatch", "overall good differs from the conjunction of the threads");
  if (!good) ++M->bad_lines;
  ++M->lines;
  M->last_line = t1;
  state(hash_str(std::to_string(rows.size()) + (good ? "g" : "b") + std::to_string(possible.size())));
}

struct Disk final : FileModel
{
  bool owns(const char * p) override { std::string s = p; return s.size() > 12 && s.find("_status.json") == s.size() - 12; }
  std::string redirect(const char *) override { return scratch() + "/status.json"; }
  int on_open(const char * p, bool) override
  {
    setup();
    check(std::string(p).find("/tmp/") == 0, "record-path", std::string("the record is written to ") + p);
    if (fault("open_fails", 1, 2)) { M->open_failed = true; return EACCES; }
    M->file_open = true;
    M->opened = now();
    return 0;
  }
  int on_write(const std::string &, std::size_t * n) override
  {
    check(M->file_open, "write-after-close", "a record is written after the monitor shut down");
    if (*n > 1 && fault("short_write", 1, 4)) { *n = 1 + choose(F, *n - 1); return 0; }
    if (fault("disk_full", 1, 24)) { M->write_failed = true; return ENOSPC; }
    return 0;
  }
  void on_written(const std::string &, const char * d, std::size_t n) override
  {
    if (M->write_failed) return;
    M->partial.append(d, n);
    for (std::size_t p; (p = M->partial.find('\n')) != std::string::npos;) {
      auto line = M->partial.substr(0, p);
      M->partial.erase(0, p + 1);
      check_line(line);
    }
  }
  int on_close(const std::string &) override { M->file_open = false; return 0; }
};
const bool installed = (file_model = new Disk, true);

void touch(const std::string & name)
{
  Worker * w;
  {
    NoInstrument n;
    w = &M->workers[thread_name(std::this_thread::get_id())];
    if (w->touches.empty()) { w->name = name; w->first_begin = now(); }
    w->touches.push_back({now(), -1});
  }
  common::status_monitor.touch(name);
  NoInstrument n;
  w->touches.back().end = now();
}

void set_threshold(i64 s)
{
  { NoInstrument n; M->thresholds.push_back({now(), -1, s}); }
  common::status_monitor.updateThreshold(std::chrono::seconds(s));
  NoInstrument n;
  M->thresholds.back().end = now();
}

i64 last_record_gap_limit() { return fault_enabled("thread_stall") || fault_enabled("late_wakeup") ? 60 * sec : 2500 * ms; }

void scenario()
{
  setup();
  const int n = 1 + static_cast<int>(w(4));
  std::vector<std::thread> threads;
  std::string description = std::to_string(n) + " threads:";
  u64 shape = n;
  for (int k = 0; k < n; ++k) {
    const u64 style = w(4);      // 0: responsive, 1: slow, 2: stops early, 3: bursts
    const u64 rounds = 1 + w(6);
    std::vector<i64> pauses;
    for (u64 i = 0; i < rounds; ++i) pauses.push_back(style == 0 ? range(W, 1, 900) : style == 1 ? range(W, 3000, 14000) : style == 2 ? range(W, 1, 200) : (i % 3 ? 1 : range(W, 500, 9000)));
    i64 tail = style == 2 ? range(W, 5000, 25000) : 0;
    description += " style" + std::to_string(style) + "x" + std::to_string(rounds);
    shape = shape * 31 + style * 7 + rounds;
    threads.emplace_back([k, pauses, tail] {
      for (auto p : pauses) {
        touch("worker" + std::to_string(k));
        std::this_thread::sleep_for(std::chrono::milliseconds(p));
      }
      if (tail) std::this_thread::sleep_for(std::chrono::milliseconds(tail));
    });
  }
  const u64 actions = w(6);
  for (u64 i = 0; i < actions; ++i) {
    switch (w(4)) {
      case 0: touch("main"); break;
      case 1: set_threshold(1 + w(20)); break;
      case 2: std::this_thread::sleep_for(std::chrono::milliseconds(range(W, 1, 12000))); break;
      case 3: {
        const i64 t = 1 + w(30), before = M->thresholds.back().value;
        const i64 d = range(W, 0, 15000);
        { NoInstrument q; M->thresholds.push_back({now(), -1, t}); }
        auto id = thread_name(std::this_thread::get_id());
        { NoInstrument q; auto & m = M->workers[id]; if (m.touches.empty()) { m.name = ""; m.first_begin = now(); } m.touches.push_back({now(), -1}); }
        bool throws = wchance(1, 4), ran = false;
        const bool aligned = wchance(2, 3);
        const i64 offset = range(W, -20, 20) * range(W, 1, 200);
        try {
          auto r = common::status_monitor.overrideThreshold(std::chrono::seconds(t), [&] {
            { NoInstrument q; M->thresholds.back().end = now(); M->workers[id].touches.back().end = now(); }
            ran = true;
            std::this_thread::sleep_for(std::chrono::milliseconds(d));
            if (aligned && M->last_line >= 0) {        // return just when the watchdog is due to wake up
              const i64 due = M->last_line + 1 * sec + offset;
              if (due > now()) std::this_thread::sleep_for(std::chrono::nanoseconds(due - now()));
            }
            { NoInstrument q; M->leaving = now(); M->leaving_from = t; M->leaving_to = before; M->leaving_id = id; }
            { NoInstrument q; M->thresholds.push_back({now(), -1, before}); M->workers[id].touches.push_back({now(), -1}); }
            if (throws) throw 42;
            return 7;
          });
          check(r == 7 && ran, "override-result", "overrideThreshold did not return the result of its thunk");
        } catch (int e) { check(e == 42 && throws, "override-exception", "wrong exception"); }
        { NoInstrument q; M->thresholds.back().end = now(); M->workers[id].touches.back().end = now(); }
        M->leaving = -1;
        description += " override" + std::to_string(t);
      }
    }
  }
  for (auto & t : threads) t.join();
  // let the watchdog look at the final state for a while
  std::this_thread::sleep_for(std::chrono::milliseconds(range(W, 0, 8000)));
  if (wchance(1, 2)) {        // leave just when the watchdog is due to wake up
    i64 due = (M->last_line < 0 ? now() : M->last_line) + 1 * sec + range(W, -20, 20) * range(W, 1, 200);
    if (due > now()) std::this_thread::sleep_for(std::chrono::nanoseconds(due - now()));
  }
  if (!M->open_failed && !M->write_failed) {
    i64 silent = now() - (M->last_line < 0 ? M->opened : M->last_line);
    check(silent <= last_record_gap_limit(), "record-stops", "no record has been written for " + std::to_string(silent / ms) + " ms");
  }
  // program exit: the static objects go away, in this thread
  {
    NoInstrument q;
    auto i = M->workers.find(thread_name(std::this_thread::get_id()));
    if (i != M->workers.end()) i->second.exiting = true;
  }
  const i64 t = now();
  run_static_destructors();
  const i64 took = now() - t;
  check(took <= last_record_gap_limit() + 1 * sec, "slow-shutdown", "shutting the monitor down took " + std::to_string(took / ms) + " ms");
  check(!M->file_open, "file-left-open", "the status file is still open after shutdown");
  check(M->partial.empty() || M->write_failed, "torn-record", "the status file ends in the middle of a record: " + M->partial.substr(0, 100));
  check(live_threads() == 1, "thread-leak", "the watchdog thread is still running after shutdown");
  if (M->bad_lines) probe("a stalled thread was reported");
  if (M->open_failed) probe("status file could not be opened");
  if (M->write_failed) probe("status file could not be written");
  count("records", M->lines);
  if (M->lines > 1) {
    nontrivial(hash_str(description, shape * 1000003 + M->lines * 17 + M->bad_lines));
    sample(description + "; " + std::to_string(M->lines) + " records, " + std::to_string(M->bad_lines) + " not good");
  }
}
}  // namespace

int main(int argc, char ** argv)
{
  return driver_main(argc, argv, {{"C05", scenario,
    "workload: 1-4 threads touching the monitor responsively, slowly, in bursts or not at all, threshold updates and overrides (also left by an exception), then program exit; "
    "schedule: every lock operation, sleep and instrumented memory access may pre-empt; non-trivial: at least two records were written; distinct by workload shape and numbers of records",
    {"common/status_monitor (whole package)", "libstdc++ ofstream", "nlohmann::json"},
    {"rclcpp logging", "clock, sleep, threads, mutexes (simulated)", "disk (real file in a scratch directory with injected errors)"}}});
}
