// Deterministic simulation kernel: one process, real threads parked and released one at a time,
// a virtual clock, a discrete-event queue, choice tapes (workload / schedule / faults) drawn from one
// seed, recorded and replayable, a vector-clock happens-before tracker and an event log with a hash.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <sstream>

namespace sim
{
using i64 = std::int64_t;
using u64 = std::uint64_t;

constexpr i64 us = 1000, ms = 1000 * us, sec = 1000 * ms;

enum Stream { W = 0, S = 1, F = 2, STREAMS = 3 };

// ---- choices. choose(n) is in [0, n); 0 is always the simplest value.
u64 choose(Stream, u64 n);
inline bool chance(Stream s, unsigned num, unsigned den)  // true with probability num/den; false is simplest
{
  return num != 0 && choose(s, den) >= den - num;
}
inline i64 range(Stream s, i64 lo, i64 hi) { return lo + static_cast<i64>(choose(s, static_cast<u64>(hi - lo + 1))); }

// workload shorthands
inline u64 w(u64 n) { return choose(W, n); }
inline bool wchance(unsigned num, unsigned den) { return chance(W, num, den); }

// A fault site: true when the fault kind is enabled in this run (swarm) and the coin comes up.
bool fault(const char * kind, unsigned num, unsigned den);
void enable_fault(const char * kind, bool on);      // workload decides which kinds are enabled
bool fault_enabled(const char * kind);
void count(const std::string & what, u64 n = 1);     // statistics (also used for fault kinds actually fired)
void probe(const std::string & what);                // "this rare condition was hit"

// ---- log (never perturbs the run)
void log(const std::string &);
template <typename... Ts>
void logf(const Ts &... xs)
{
  std::ostringstream o;
  o.precision(17);
  (o << ... << xs);
  log(o.str());
}
// A state fingerprint: distinct values over all runs are counted as the "distinct states" measure.
void state(u64 fingerprint);
u64 hash_bytes(const void *, std::size_t, u64 seed = 1469598103934665603ull);
inline u64 hash_str(const std::string & s, u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

// ---- violations: ends the run at once. `cls` identifies the violation class for minimisation.
[[noreturn]] void violation(const std::string & cls, const std::string & message);
inline void check(bool ok, const std::string & cls, const std::string & message)
{
  if (not ok) violation(cls, message);
}
// A recorded defect (KNOWN_FINDINGS.txt) that need not end the run: noted if its class is listed, a violation otherwise.
void check_known(bool ok, const std::string & cls, const std::string & message);
// Marks the end of the run: success; leaves the process without running destructors.
[[noreturn]] void finish();
// Runs the static destructors of the program (what exit() does before the process ends), in the calling thread.
void run_static_destructors();
[[noreturn]] void harness_error(const std::string & message);

// ---- time
i64 now();                      // virtual monotonic nanoseconds since start of run
i64 wall_offset();              // wall clock = now() + wall_offset()
void set_wall_offset(i64);
void at(i64 time, std::function<void()> f, const char * what = "");   // event; f runs in kernel context, may not block
inline void after(i64 delay, std::function<void()> f, const char * what = "") { at(now() + delay, std::move(f), what); }

// ---- threads
int self();                      // id of the running simulated thread
void yield();                    // explicit scheduling point
void sleep_ns(i64 d);
void poll_pause();               // thread found nothing to do in a busy poll: let a little time pass
// Block until `ready()` is true or the deadline (absolute, <0: none) passes. Returns ready().
bool wait_until(const std::function<bool()> & ready, i64 deadline, const char * what);
void wake_all();                 // make predicate waiters re-evaluate (called automatically after events)
std::size_t live_threads();
std::string thread_dump();

// Called when no thread can ever run again. Default: violation("deadlock", dump).
extern std::function<void()> & on_deadlock;
// Called when the run takes more than `max_steps` yield points or more virtual time than max_time.
void set_limits(u64 max_steps, i64 max_time);
extern std::function<void(const char * which)> & on_limit;

// ---- happens-before (for the race detector); no-ops when it is off
void hb_release(const void * obj);
void hb_acquire(const void * obj);
void set_race_detection(bool on, std::function<void(const std::string & cls, const std::string & message)> report = {});
// memory in [p, p+n) is new: forget old accesses
void hb_forget(const void * p, std::size_t n);
struct NoInstrument { NoInstrument(); ~NoInstrument(); };   // scope in which memory accesses are ignored

// ---- hooks for process-control calls; the real ones are never reached while a run is active.
// A forked child is a real child process that runs one thread with the simulation frozen, until it execs, exits or
// `end` is called with what went wrong. The parent waits for it without letting simulated time pass.
void enter_forked_child(void (*end)(const char * cls, const char * message));
bool in_forked_child();
struct ProcessModel
{
  virtual ~ProcessModel() = default;
  virtual int fork();
  virtual int execvp(const char * file, char * const argv[]);
  virtual int kill(int pid, int sig);
  virtual int killpg(int pgrp, int sig);
  virtual int waitpid(int pid, int * status, int options);
  virtual int sigtimedwait(const void * set, const void * timeout);   // returns signal or -1/errno
  virtual int mask_signals(int how, const void * set, void * old);
  virtual void * popen(const char * command, const char * mode);
  virtual int pclose(void *);
  virtual int system(const char * command);
  [[noreturn]] virtual void exit(int code);
  [[noreturn]] virtual void exit_now(int code);      // _exit: without the exit handlers
};
extern ProcessModel * process_model;

// ---- file-system fault hooks. Return 0 for "no fault" or an errno; short writes via *count.
struct FileModel
{
  virtual ~FileModel() = default;
  virtual bool owns(const char * path) { (void)path; return false; }
  virtual std::string redirect(const char * path) { return path; }   // where an owned path really lives
  virtual int on_open(const char * path, bool writing) { (void)path; (void)writing; return 0; }
  virtual int on_write(const std::string & path, std::size_t * count) { (void)path; (void)count; return 0; }
  virtual void on_written(const std::string & path, const char * data, std::size_t n) { (void)path; (void)data; (void)n; }
  virtual int on_close(const std::string & path) { (void)path; return 0; }
  virtual int on_rename(const char * a, const char * b) { (void)a; (void)b; return 0; }
  virtual int on_mkdir(const char * p) { (void)p; return 0; }
};
extern FileModel * file_model;
bool active();                       // a run is in progress in this process
const std::string & scratch();       // per-run scratch directory (created on demand, removed by the driver)

// ---- the program under simulation
struct Scenario
{
  const char * property;
  std::function<void()> run;         // one simulated execution
  std::string rule;                  // how cases are made and what makes one non-trivial
  std::vector<std::string> real, stub;
};
void nontrivial(u64 fingerprint);    // this run was a non-trivial case with this fingerprint
void sample(const std::string &);    // human readable description of the case
int driver_main(int argc, char ** argv, const std::vector<Scenario> & scenarios);
}  // namespace sim
