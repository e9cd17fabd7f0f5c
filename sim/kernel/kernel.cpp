#include "internal.hpp"
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <string.h>
#include <stdio.h>
#include <dlfcn.h>
#include <sys/time.h>
#include <execinfo.h>
#include <cxxabi.h>
#include <exception>
#include <typeinfo>
#include <algorithm>
#include <queue>
#include "run.hpp"

namespace sim
{
using namespace detail;

namespace detail
{
bool g_active = false;
__thread Thread * t_self = nullptr;
__thread int t_ignore = 0;
bool g_race = false;
int g_live = 0;

long raw_syscall(long n, long a, long b, long c, long d, long e, long f)
{
  register long r10 asm("r10") = d;
  register long r8 asm("r8") = e;
  register long r9 asm("r9") = f;
  long ret;
  asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

static void park(int * w)
{
  while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0) raw_syscall(SYS_futex, (long)w, FUTEX_WAIT_PRIVATE, 0, 0);
  __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void unpark(int * w)
{
  __atomic_store_n(w, 1, __ATOMIC_RELEASE);
  raw_syscall(SYS_futex, (long)w, FUTEX_WAKE_PRIVATE, 1);
}
}  // namespace detail

// ------------------------------------------------------------------ state
struct Event
{
  i64 time;
  u64 seq;
  std::function<void()> f;
  std::string what;
};
struct EventLater { bool operator()(const Event * a, const Event * b) const { return a->time != b->time ? a->time > b->time : a->seq > b->seq; } };

Run * g_run = nullptr;

struct Kernel
{
  i64 now = 0, wall = 0;
  u64 seq = 0, steps = 0, max_steps = 400'000'000;
  i64 max_time = 1000'000 * sec;
  u64 next_switch = 0;
  i64 next_due = 0;             // earliest time something must be looked at
  std::priority_queue<Event *, std::vector<Event *>, EventLater> events;
  std::vector<Thread *> threads;
  unsigned gap_mode = 0;
  bool limit_reported = false;
  u64 switches = 0;
  bool in_event = false;
  std::map<const void *, VC> sync;
};
static Kernel * K = nullptr;

std::function<void()> & on_deadlock = *new std::function<void()>;
std::function<void(const char *)> & on_limit = *new std::function<void(const char *)>;
ProcessModel default_process_model;
ProcessModel * process_model = &default_process_model;
FileModel default_file_model;
FileModel * file_model = &default_file_model;

bool active() { return g_active; }

u64 hash_bytes(const void * p, std::size_t n, u64 h)
{
  auto c = static_cast<const unsigned char *>(p);
  for (std::size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
  return h;
}

// ------------------------------------------------------------------ choices
static u64 splitmix(u64 & x)
{
  u64 z = (x += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

u64 choose(Stream s, u64 n)
{
  Ignore ignore;
  if (n <= 1) return 0;
  auto & t = g_run->tape[s];
  u64 v;
  if (g_run->replaying) {
    v = g_run->pos[s] < t.size() ? t[g_run->pos[s]] % n : 0;
  } else {
    v = splitmix(g_run->rng[s]) % n;
    t.push_back(v);
  }
  ++g_run->pos[s];
  return v;
}

void enable_fault(const char * kind, bool on) { Ignore i; if (on) g_run->faults.insert(kind); else g_run->faults.erase(kind); if (on) g_run->stats[std::string("enabled:") + kind]++; }
bool fault_enabled(const char * kind) { Ignore i; return g_run->faults.count(kind) != 0; }
bool fault(const char * kind, unsigned num, unsigned den)
{
  Ignore i;
  if (!g_run->faults.count(kind)) return false;
  if (!chance(F, num, den)) return false;
  g_run->stats[std::string("fault:") + kind]++;
  logf("fault ", kind);
  return true;
}
void count(const std::string & what, u64 n) { Ignore i; g_run->stats[what] += n; }
void probe(const std::string & what) { Ignore i; g_run->stats["probe:" + what]++; }
void state(u64 f) { Ignore i; g_run->states.insert(f); }
void nontrivial(u64 f) { Ignore i; g_run->is_nontrivial = true; g_run->fingerprint = f; }
void sample(const std::string & s) { Ignore i; g_run->sample = s; }

void log(const std::string & s)
{
  Ignore i;
  if (!g_run) return;
  char head[64];
  snprintf(head, sizeof head, "[%.9f t%d] ", K ? K->now / 1e9 : 0.0, t_self ? t_self->id : -1);
  g_run->hash = hash_str(s, hash_str(head, g_run->hash));
  if (g_run->keep_log) {
    g_run->log += head; g_run->log += s; g_run->log += '\n';
    if (g_run->log.size() > (8u << 20)) { g_run->log.erase(0, 4u << 20); }
  }
  if (g_run->echo) { std::string l = head + s + "\n"; raw_syscall(SYS_write, 2, (long)l.data(), l.size()); }
}

// ------------------------------------------------------------------ end of run
static bool g_solo = false;
static void (*g_solo_end)(const char *, const char *) = nullptr;
void enter_forked_child(void (*end)(const char *, const char *)) { g_solo = true; g_solo_end = end; }
bool in_forked_child() { return g_solo; }
static void end_run(const std::string & cls, const std::string & message, bool harness = false)
{
  ++t_ignore;
  if (g_solo) { g_solo_end(cls.c_str(), message.c_str()); raw_syscall(SYS_exit_group, 0); }
  if (cls.size()) logf("VIOLATION ", cls, ": ", message);
  g_run->verdict_class = cls;
  g_run->verdict_message = message;
  g_run->harness_error = harness;
  g_run->sim_time = K ? K->now : 0;
  g_run->steps = K ? K->steps : 0;
  g_run->switches = K ? K->switches : 0;
  g_active = false;
  report_and_exit(*g_run);
}
void violation(const std::string & cls, const std::string & message) { end_run(cls, message); __builtin_unreachable(); }
extern "C" void __cxa_finalize(void *);
void run_static_destructors() { __cxa_finalize(nullptr); }
void finish() { end_run("", ""); __builtin_unreachable(); }
void harness_error(const std::string & m) { end_run("harness", m, true); __builtin_unreachable(); }

// ------------------------------------------------------------------ scheduler
i64 now() { return K ? K->now : 0; }
i64 wall_offset() { return K ? K->wall : 0; }
void set_wall_offset(i64 x) { K->wall = x; }
int self() { return t_self ? t_self->id : -1; }
std::size_t live_threads() { return g_live; }
void set_limits(u64 s, i64 t) { K->max_steps = s; K->max_time = t; }

std::string thread_dump()
{
  Ignore i;
  std::ostringstream o;
  for (auto t : K->threads)
    if (!t->finished) o << "t" << t->id << (t->blocked ? " blocked in " : " runnable ") << (t->blocked ? t->what : "") << "; ";
  return o.str();
}

static bool runnable(Thread * t)
{
  if (t->finished || t->stalled_until > K->now) return false;
  if (!t->blocked) return true;
  if (t->ready && t->ready()) return true;
  return t->deadline >= 0 && t->deadline <= K->now;
}

static void compute_due()
{
  i64 due = INT64_MAX;
  if (!K->events.empty()) due = std::min(due, K->events.top()->time);
  for (auto t : K->threads) {
    if (t->finished) continue;
    if (t->blocked && t->deadline >= 0) due = std::min(due, std::max(t->deadline, t->stalled_until));
    if (t->stalled_until > K->now) due = std::min(due, t->stalled_until);
  }
  K->next_due = due;
}

static void limit(const char * which)
{
  if (K->limit_reported) return;
  K->limit_reported = true;
  if (on_limit) on_limit(which);
  else violation(std::string("no-progress:") + which, std::string("limit reached: ") + which + "; " + thread_dump());
}

static void run_events()
{
  while (!K->events.empty() && K->events.top()->time <= K->now) {
    auto e = K->events.top();
    K->events.pop();
    if (e->what.size()) logf("event ", e->what);
    bool was = K->in_event;
    K->in_event = true;
    e->f();
    K->in_event = was;
    delete e;
  }
}

void at(i64 time, std::function<void()> f, const char * what)
{
  Ignore i;
  auto e = new Event{std::max(time, K->now), K->seq++, std::move(f), what};
  K->events.push(e);
  K->next_due = std::min(K->next_due, e->time);
}

static void new_gap()
{
  static const u64 scale[] = {4096, 512, 64, 8, 2};
  u64 m = scale[K->gap_mode % 5];
  u64 v = choose(S, m);           // 0: run as long as allowed
  K->next_switch = K->steps + (v == 0 ? m : v);
}

// Give the processor to another thread (or keep it). The caller has already set its own state.
static void reschedule()
{
  Ignore ignore;
  auto me = t_self;
  for (;;) {
    run_events();
    if (K->now > K->max_time) limit("time");
    if (K->steps > K->max_steps) limit("steps");
    std::vector<Thread *> r;
    auto n = K->threads.size();
    std::size_t base = me ? me->id + 1 : 0;
    for (std::size_t k = 0; k < n; ++k) {
      auto t = K->threads[(base + k) % n];
      if (runnable(t)) r.push_back(t);
    }
    if (r.empty()) {
      compute_due();
      if (K->next_due == INT64_MAX) {
        logf("deadlock: ", thread_dump());
        if (on_deadlock) on_deadlock();
        violation("deadlock", "no thread can ever run again: " + thread_dump());
      }
      K->now = std::max(K->now, K->next_due);
      continue;
    }
    auto t = r[choose(S, r.size())];
    if (r.size() > 1 && fault("thread_stall", 1, 64)) {
      static const i64 d[] = {1 * ms, 10 * ms, 100 * ms, 1 * sec, 5 * sec};
      t->stalled_until = K->now + d[choose(F, 5)];
      continue;
    }
    t->timed_out = t->blocked && !(t->ready && t->ready());
    t->blocked = false;
    t->ready = nullptr;
    compute_due();
    new_gap();
    if (t != me) {
      ++K->switches;
      g_run->hash = hash_bytes(&t->id, sizeof t->id, g_run->hash ^ K->now);
      if (me && !me->finished) {
        unpark(&t->go);
        park(&me->go);
      } else {
        unpark(&t->go);
      }
    }
    return;
  }
}

static inline void step(i64 cost)
{
  if (g_solo) return;
  ++K->steps;
  K->now += cost;
  if (K->steps >= K->next_switch || K->now >= K->next_due) {
    Ignore i;
    if (K->steps >= K->next_switch && g_live > 1) { reschedule(); return; }
    run_events();
    compute_due();
    if (g_live <= 1) {
      K->next_switch = K->steps + 4096;
      if (K->steps > K->max_steps) limit("steps");
    }
  }
}

namespace detail
{
void mem_yield() { step(2); }
void sync_yield(const char *)
{
  if (K->in_event) return;
  step(300);
}
}  // namespace detail

void yield()
{
  if (!in_run() || K->in_event) return;
  K->next_switch = 0;
  step(1 * us);
}

bool wait_until(const std::function<bool()> & ready, i64 deadline, const char * what)
{
  Ignore ignore;
  if (!in_run()) return ready();
  if (K->in_event) harness_error(std::string("blocking call inside an event: ") + what);
  if (g_solo) {
    if (ready()) return true;
    if (deadline < 0) end_run("child-blocked", what);
    K->now = std::max(K->now, deadline);
    return ready();
  }
  K->now += 200;
  ++K->steps;
  auto me = t_self;
  me->blocked = true;
  me->ready = ready;
  me->deadline = deadline;
  me->what = what;
  reschedule();
  me->deadline = -1;
  return !me->timed_out;
}

void sleep_ns(i64 d)
{
  if (!in_run()) return;
  if (d <= 0) { yield(); return; }
  i64 late = 0;
  if (fault("late_wakeup", 1, 16)) late = static_cast<i64>(choose(F, 50)) * ms;
  wait_until([] { return false; }, K->now + d + late, "sleep");
}

void poll_pause()
{
  if (!in_run()) return;
  static const i64 d[] = {200 * us, 50 * us, 1 * ms, 3 * ms};
  wait_until([] { return false; }, K->now + d[choose(S, 4)], "poll");
}

void wake_all() {}

// ------------------------------------------------------------------ happens-before
void hb_release(const void * o)
{
  Ignore i;
  if (!g_race || !in_run()) return;
  vc_join(K->sync[o], t_self->vc);
  ++t_self->vc[t_self->id];
}
void hb_acquire(const void * o)
{
  Ignore i;
  if (!g_race || !in_run()) return;
  auto it = K->sync.find(o);
  if (it != K->sync.end()) vc_join(t_self->vc, it->second);
}
void hb_forget(const void * p, std::size_t n) { if (g_race) { Ignore i; race_forget(p, n); } }
NoInstrument::NoInstrument() { ++t_ignore; }
NoInstrument::~NoInstrument() { --t_ignore; }

namespace detail
{
void sync_forget(const void * p, std::size_t n)
{
  if (!K) return;
  auto lo = K->sync.lower_bound(p), hi = K->sync.lower_bound(static_cast<const char *>(p) + n);
  K->sync.erase(lo, hi);
}

// ------------------------------------------------------------------ threads
static pthread_key_t g_exit_key;
static void thread_exit_hook(void * p)
{
  auto me = static_cast<Thread *>(p);
  if (!g_active) return;
  Ignore i;
  me->finished = true;
  --g_live;
  hb_release(me);
  logf("thread exits");
  reschedule();   // hands over; the real thread then parks for ever, so that its teardown never runs beside another thread
  for (;;) raw_syscall(SYS_pause);
}

static void * trampoline(void * p)
{
  auto me = static_cast<Thread *>(p);
  t_ignore = 1;
  park(&me->go);
  t_self = me;
  pthread_setspecific(g_exit_key, me);
  t_ignore = 0;
  me->ret = me->fn(me->arg);
  return nullptr;
}

int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *) = nullptr;

int create_thread(pthread_t * handle, void * (*fn)(void *), void * arg)
{
  Ignore i;
  if (fault("thread_create_fails", 1, 20)) return EAGAIN;
  auto t = new Thread;
  t->id = static_cast<int>(K->threads.size());
  t->fn = fn;
  t->arg = arg;
  t->vc = t_self->vc;
  t->vc.resize(std::max<std::size_t>(t->vc.size(), t->id + 1));
  t->vc[t->id] = 1;
  ++t_self->vc[t_self->id];
  if (!real_pthread_create) real_pthread_create = (decltype(real_pthread_create))dlsym(RTLD_NEXT, "pthread_create");
  pthread_attr_t a;
  pthread_attr_init(&a);
  pthread_attr_setstacksize(&a, 8u << 20);
  if (int e = real_pthread_create(&t->real, &a, trampoline, t)) harness_error("pthread_create " + std::to_string(e));
  pthread_attr_destroy(&a);
  *handle = t->real;
  K->threads.push_back(t);
  ++g_live;
  logf("thread ", t->id, " created");
  if (g_live == 2) new_gap();
  --t_ignore;
  sync_yield("create");
  ++t_ignore;
  return 0;
}

struct Early { pthread_t handle; void * (*fn)(void *); void * arg; bool detached; };
static std::vector<Early> & early() { static auto * e = new std::vector<Early>; return *e; }
// A thread created by a static initialiser: it starts when a simulated run begins.
int create_early_thread(pthread_t * handle, void * (*fn)(void *), void * arg)
{
  *handle = (pthread_t)(0x1000 + 0x100 * early().size());
  early().push_back({*handle, fn, arg, false});
  return 0;
}
bool is_early_thread(pthread_t h)
{
  for (auto & e : early()) if (pthread_equal(e.handle, h)) return true;
  return false;
}

static Thread * find(pthread_t h)
{
  for (auto it = K->threads.rbegin(); it != K->threads.rend(); ++it)
    if (pthread_equal((*it)->real, h) || ((*it)->alias && pthread_equal((*it)->alias, h))) return *it;
  return nullptr;
}

int join_thread(pthread_t h, void ** ret)
{
  Ignore i;
  auto t = find(h);
  if (!t) return ESRCH;
  if (t == t_self) return EDEADLK;
  wait_until([t] { return t->finished; }, -1, "pthread_join");
  vc_join(t_self->vc, t->vc);
  if (ret) *ret = t->ret;
  return 0;
}
int detach_thread(pthread_t h)
{
  Ignore i;
  if (auto t = find(h)) t->detached = true;
  return 0;
}

static std::string backtrace_text()
{
  void * p[40];
  int n = backtrace(p, 40);
  std::string s;
  for (int i = 3; i < n; ++i) {
    Dl_info d;
    if (dladdr(p[i], &d) && d.dli_sname) {
      int st;
      char * dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
      std::string name = dm ? dm : d.dli_sname;
      if (name.size() > 120) name.resize(120);
      s += name + " <- ";
      free(dm);
    }
  }
  return s;
}

static void on_signal(int sig)
{
  if (!g_active) _exit(99);
  ++t_ignore;
  violation(std::string("crash:") + (sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : "SIGBUS"), std::string("fatal signal ") + std::to_string(sig) + " at " + backtrace_text());
}
static void on_hang(int)
{
  if (!g_active) return;
  ++t_ignore;
  violation("hang", "the run used 20 s of processor time without finishing, at " + backtrace_text());
}
static void on_terminate()
{
  std::string what = "?";
  if (auto e = std::current_exception()) {
    int st;
    auto ti = abi::__cxa_current_exception_type();
    char * dm = ti ? abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st) : nullptr;
    what = dm ? dm : "unknown";
    try { std::rethrow_exception(e); } catch (const std::exception & x) { what += std::string(": ") + x.what(); } catch (...) {}
  }
  violation("terminate", "std::terminate called: " + what);
}

void begin_run()
{
  K = new Kernel;
  pthread_key_create(&g_exit_key, thread_exit_hook);
  auto t = new Thread;
  t->id = 0;
  t->real = pthread_self();
  t->vc.resize(1);
  t->vc[0] = 1;
  K->threads.push_back(t);
  t_self = t;
  g_live = 1;
  K->now = 1000 * sec;     // monotonic clock does not start at zero
  K->wall = 1'700'000'000ll * sec;
  K->gap_mode = choose(S, 5);
  std::set_terminate(on_terminate);
  static char alt[1 << 16];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa{};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  struct itimerval limit{};
  limit.it_value.tv_sec = 20;       // processor time: a run that computes for this long without a simulation step hangs
  setitimer(ITIMER_PROF, &limit, nullptr);
  sa.sa_handler = on_hang;
  sigaction(SIGPROF, &sa, nullptr);
  new_gap();
  compute_due();
  g_active = true;
  for (auto & e : early()) {
    pthread_t h;
    create_thread(&h, e.fn, e.arg);
    K->threads.back()->alias = e.handle;
    K->threads.back()->detached = e.detached;
  }
}
}  // namespace detail
}  // namespace sim
