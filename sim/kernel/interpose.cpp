// libc / libstdc++ entry points through which nondeterminism enters. Active only while a run is in progress
// and only for simulated threads; otherwise the real function is called.
#include "internal.hpp"
#include "run.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using namespace sim;
using namespace sim::detail;

#define REAL(ret, name, ...)                                                        \
  static ret (*real_##name)(__VA_ARGS__) = nullptr;                                 \
  if (!real_##name) real_##name = (decltype(real_##name))dlsym(RTLD_NEXT, #name)

extern "C" {
void * __libc_malloc(size_t);
void __libc_free(void *);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
}

// ------------------------------------------------------------------ sync object side tables
// Keyed by address; the real objects are only used for their identity while a run is active.
struct MutexState { int owner = -1; int depth = 0; };
struct CondState { std::vector<std::pair<Thread *, bool>> waiters; };   // (thread, signalled)
struct RwState { int writer = -1; int readers = 0; };
struct OnceState { int state = 0; };
template <typename T>
static T & table(const void * p)
{
  static auto * m = new std::unordered_map<const void *, T>;
  return (*m)[p];
}

static int mutex_type(pthread_mutex_t * m) { return m->__data.__kind & 3; }   // 1: recursive, 2: errorcheck

static int sim_lock(pthread_mutex_t * m, i64 deadline, bool try_only)
{
  sync_yield("lock");
  Ignore i;
  auto * s = &table<MutexState>(m);
  int me = sim::self();
  if (s->owner == me) {
    if (mutex_type(m) == PTHREAD_MUTEX_RECURSIVE) { ++s->depth; return 0; }
    if (try_only) return EBUSY;
    if (mutex_type(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    // a normal mutex re-locked by its owner blocks for ever (reported as deadlock or by the limits)
  }
  if (s->owner != -1) {
    if (try_only) return EBUSY;
    for (;;) {
      bool ok = wait_until([m] { return table<MutexState>(m).owner == -1; }, deadline, "mutex");
      s = &table<MutexState>(m);
      if (s->owner == -1) break;
      if (!ok) return ETIMEDOUT;
    }
  }
  s->owner = me;
  s->depth = 1;
  hb_acquire(m);
  return 0;
}
static int sim_unlock(pthread_mutex_t * m, bool yielding = true)
{
  {
    Ignore i;
    auto & s = table<MutexState>(m);
    if (s.owner != sim::self()) return EPERM;
    if (--s.depth > 0) return 0;
    s.owner = -1;
    hb_release(m);
  }
  if (yielding) sync_yield("unlock");
  return 0;
}

static i64 abs_to_now(clockid_t c, const timespec * t)
{
  i64 v = (i64)t->tv_sec * sec + t->tv_nsec;
  return c == CLOCK_REALTIME ? v - wall_offset() : v;
}

static int sim_cond_wait(pthread_cond_t * c, pthread_mutex_t * m, i64 deadline)
{
  Ignore i;
  table<CondState>(c).waiters.push_back({t_self, false});
  auto me = t_self;
  int depth = table<MutexState>(m).depth;
  table<MutexState>(m).depth = 1;
  sim_unlock(m, false);
  i64 d = deadline;
  bool spurious = fault("spurious_wakeup", 1, 32);
  if (spurious) { i64 s = sim::now() + static_cast<i64>(choose(F, 2000)) * us; d = d < 0 ? s : std::min(d, s); }
  else if (deadline >= 0 && fault("late_wakeup", 1, 16)) d += static_cast<i64>(choose(F, 50)) * ms;
  auto signalled = [c, me] {
    for (auto & w : table<CondState>(c).waiters) if (w.first == me) return w.second;
    return false;
  };
  wait_until(signalled, d, "condition variable");
  bool ok = signalled();
  auto & w = table<CondState>(c).waiters;
  for (std::size_t k = 0; k < w.size(); ++k) if (w[k].first == me) { w.erase(w.begin() + k); break; }
  bool timed_out = !ok && deadline >= 0 && sim::now() >= deadline;
  if (ok) hb_acquire(c);
  while (table<MutexState>(m).owner != -1) wait_until([m] { return table<MutexState>(m).owner == -1; }, -1, "mutex (after condition variable)");
  table<MutexState>(m).owner = sim::self();
  table<MutexState>(m).depth = depth;
  hb_acquire(m);
  return timed_out ? ETIMEDOUT : 0;
}
static void sim_signal(pthread_cond_t * c, bool all)
{
  {
    Ignore i;
    auto & w = table<CondState>(c).waiters;
    std::vector<std::size_t> idle;
    for (std::size_t k = 0; k < w.size(); ++k) if (!w[k].second) idle.push_back(k);
    hb_release(c);
    if (idle.size()) {
      if (all) for (auto k : idle) w[k].second = true;
      else w[idle[choose(S, idle.size())]].second = true;
    }
  }
  sync_yield("signal");
}

extern "C" {
// ------------------------------------------------------------------ threads
int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*f)(void *), void * arg)
{
  if (in_run()) return create_thread(t, f, arg);
  if (!g_active) return create_early_thread(t, f, arg);
  REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
  return real_pthread_create(t, a, f, arg);
}
int pthread_join(pthread_t t, void ** r)
{
  if (in_run()) return join_thread(t, r);
  if (is_early_thread(t)) return 0;
  REAL(int, pthread_join, pthread_t, void **);
  return real_pthread_join(t, r);
}
int pthread_detach(pthread_t t)
{
  if (in_run()) return detach_thread(t);
  if (is_early_thread(t)) return 0;
  REAL(int, pthread_detach, pthread_t);
  return real_pthread_detach(t);
}
// ------------------------------------------------------------------ mutexes
int pthread_mutex_lock(pthread_mutex_t * m)
{
  if (simulated()) return sim_lock(m, -1, false);
  if (in_run()) return 0;   // kernel code never blocks
  REAL(int, pthread_mutex_lock, pthread_mutex_t *);
  return real_pthread_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  if (simulated()) return sim_lock(m, -1, true);
  if (in_run()) return 0;
  REAL(int, pthread_mutex_trylock, pthread_mutex_t *);
  return real_pthread_mutex_trylock(m);
}
int pthread_mutex_timedlock(pthread_mutex_t * m, const timespec * t)
{
  if (simulated()) return sim_lock(m, std::max<i64>(0, abs_to_now(CLOCK_REALTIME, t)), false);
  if (in_run()) return 0;
  REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const timespec *);
  return real_pthread_mutex_timedlock(m, t);
}
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const timespec * t)
{
  if (simulated()) return sim_lock(m, std::max<i64>(0, abs_to_now(c, t)), false);
  if (in_run()) return 0;
  REAL(int, pthread_mutex_clocklock, pthread_mutex_t *, clockid_t, const timespec *);
  return real_pthread_mutex_clocklock(m, c, t);
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  if (simulated()) return sim_unlock(m);
  if (in_run()) return 0;
  REAL(int, pthread_mutex_unlock, pthread_mutex_t *);
  return real_pthread_mutex_unlock(m);
}
int pthread_mutex_destroy(pthread_mutex_t * m)
{
  if (simulated()) {
    Ignore i;
    auto & s = table<MutexState>(m);
    if (s.owner != -1) logf("mutex destroyed while locked");
    s = {};
    return 0;
  }
  if (in_run()) return 0;
  REAL(int, pthread_mutex_destroy, pthread_mutex_t *);
  return real_pthread_mutex_destroy(m);
}
// ------------------------------------------------------------------ condition variables
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
  if (simulated()) return sim_cond_wait(c, m, -1);
  REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *);
  return real_pthread_cond_wait(c, m);
}
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t)
{
  if (simulated()) return sim_cond_wait(c, m, std::max<i64>(0, abs_to_now(CLOCK_REALTIME, t)));
  REAL(int, pthread_cond_timedwait, pthread_cond_t *, pthread_mutex_t *, const timespec *);
  return real_pthread_cond_timedwait(c, m, t);
}
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const timespec * t)
{
  if (simulated()) return sim_cond_wait(c, m, std::max<i64>(0, abs_to_now(k, t)));
  REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *);
  return real_pthread_cond_clockwait(c, m, k, t);
}
int pthread_cond_signal(pthread_cond_t * c)
{
  if (simulated()) { sim_signal(c, false); return 0; }
  if (in_run()) return 0;
  REAL(int, pthread_cond_signal, pthread_cond_t *);
  return real_pthread_cond_signal(c);
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
  if (simulated()) { sim_signal(c, true); return 0; }
  if (in_run()) return 0;
  REAL(int, pthread_cond_broadcast, pthread_cond_t *);
  return real_pthread_cond_broadcast(c);
}
int pthread_cond_destroy(pthread_cond_t * c)
{
  if (in_run()) { Ignore i; table<CondState>(c) = {}; return 0; }
  REAL(int, pthread_cond_destroy, pthread_cond_t *);
  return real_pthread_cond_destroy(c);
}
// ------------------------------------------------------------------ reader-writer locks
int pthread_rwlock_rdlock(pthread_rwlock_t * l)
{
  if (simulated()) {
    sync_yield("rdlock");
    Ignore i;
    while (table<RwState>(l).writer != -1) wait_until([l] { return table<RwState>(l).writer == -1; }, -1, "rwlock");
    ++table<RwState>(l).readers;
    hb_acquire(l);
    return 0;
  }
  if (in_run()) return 0;
  REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *);
  return real_pthread_rwlock_rdlock(l);
}
int pthread_rwlock_wrlock(pthread_rwlock_t * l)
{
  if (simulated()) {
    sync_yield("wrlock");
    Ignore i;
    auto free = [l] { auto & s = table<RwState>(l); return s.writer == -1 && s.readers == 0; };
    while (!free()) wait_until(free, -1, "rwlock");
    table<RwState>(l).writer = sim::self();
    hb_acquire(l);
    return 0;
  }
  if (in_run()) return 0;
  REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *);
  return real_pthread_rwlock_wrlock(l);
}
int pthread_rwlock_unlock(pthread_rwlock_t * l)
{
  if (simulated()) {
    {
      Ignore i;
      auto & s = table<RwState>(l);
      if (s.writer == sim::self()) s.writer = -1;
      else if (s.readers > 0) --s.readers;
      hb_release(l);
    }
    sync_yield("rwunlock");
    return 0;
  }
  if (in_run()) return 0;
  REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *);
  return real_pthread_rwlock_unlock(l);
}
// ------------------------------------------------------------------ once / static guards
static int once_states(pthread_once_t * o) { return __atomic_load_n((int *)o, __ATOMIC_ACQUIRE); }
int pthread_once(pthread_once_t * o, void (*f)(void))
{
  // own protocol: 0 not run, 1 running, 2 done (glibc's done value is 2 as well)
  for (;;) {
    if (once_states(o) == 2) { if (simulated()) hb_acquire(o); return 0; }
    if (simulated()) {
      sync_yield("once");
      if (once_states(o) == 2) continue;
      if (once_states(o) == 1) {
        wait_until([o] { return once_states(o) != 1; }, -1, "once");
        continue;
      }
    }
    *(int *)o = 1;
    try { f(); } catch (...) { *(int *)o = 0; throw; }
    *(int *)o = 2;
    if (simulated()) hb_release(o);
    return 0;
  }
}
int __cxa_guard_acquire(long long * g)
{
  auto c = reinterpret_cast<char *>(g);   // byte 0: initialised; byte 1: in progress
  for (;;) {
    if (c[0]) { if (simulated()) hb_acquire(g); return 0; }
    if (c[1] && simulated()) {
      wait_until([c] { return !c[1] || c[0]; }, -1, "static initialisation");
      continue;
    }
    c[1] = 1;
    return 1;
  }
}
void __cxa_guard_release(long long * g)
{
  auto c = reinterpret_cast<char *>(g);
  if (simulated()) hb_release(g);
  c[0] = 1;
  c[1] = 0;
}
void __cxa_guard_abort(long long * g) { reinterpret_cast<char *>(g)[1] = 0; }

// ------------------------------------------------------------------ futex (std::future, std::counting_semaphore …)
long syscall(long n, ...)
{
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && in_run()) {
    auto w = (int *)a;
    int op = b & FUTEX_CMD_MASK, val = (int)c;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      i64 deadline = -1;
      if (d) {
        auto t = (const timespec *)d;
        deadline = op == FUTEX_WAIT ? sim::now() + (i64)t->tv_sec * sec + t->tv_nsec
                                    : abs_to_now((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
        if (deadline < 0) deadline = 0;
      }
      if (__atomic_load_n(w, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
      Ignore i;
      bool ok = wait_until([w, val] { return __atomic_load_n(w, __ATOMIC_SEQ_CST) != val; }, deadline, "futex");
      hb_acquire(w);
      if (!ok) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { hb_release(w); sync_yield("futex wake"); return 1; }
  }
  long r = raw_syscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
// ------------------------------------------------------------------ time
static int sim_clock(clockid_t c, timespec * t)
{
  if (!t_ignore) sync_yield("clock");
  i64 v = sim::now();
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI) v += wall_offset();
  t->tv_sec = v / sec;
  t->tv_nsec = v % sec;
  return 0;
}
int clock_gettime(clockid_t c, timespec * t)
{
  if (in_run()) return sim_clock(c, t);
  long r = raw_syscall(SYS_clock_gettime, c, (long)t);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int gettimeofday(timeval * tv, void *)
{
  timespec t;
  if (in_run()) sim_clock(CLOCK_REALTIME, &t);
  else raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&t);
  tv->tv_sec = t.tv_sec;
  tv->tv_usec = t.tv_nsec / 1000;
  return 0;
}
time_t time(time_t * out)
{
  timespec t;
  if (in_run()) sim_clock(CLOCK_REALTIME, &t);
  else raw_syscall(SYS_clock_gettime, CLOCK_REALTIME, (long)&t);
  if (out) *out = t.tv_sec;
  return t.tv_sec;
}
int nanosleep(const timespec * t, timespec * rem)
{
  if (in_run()) {
    i64 d = (i64)t->tv_sec * sec + t->tv_nsec;
    sleep_ns(d);
    if (rem) *rem = {};
    return 0;
  }
  long r = raw_syscall(SYS_nanosleep, (long)t, (long)rem);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int clock_nanosleep(clockid_t c, int flags, const timespec * t, timespec * rem)
{
  if (in_run()) {
    if (flags & TIMER_ABSTIME) {
      i64 d = abs_to_now(c, t) - sim::now();
      sleep_ns(d);
    } else {
      sleep_ns((i64)t->tv_sec * sec + t->tv_nsec);
    }
    return 0;
  }
  return (int)-raw_syscall(SYS_clock_nanosleep, c, flags, (long)t, (long)rem);
}
int usleep(useconds_t u)
{
  if (in_run()) { sleep_ns((i64)u * us); return 0; }
  timespec t{(time_t)(u / 1000000), (long)(u % 1000000) * 1000};
  return nanosleep(&t, nullptr);
}
unsigned sleep(unsigned s)
{
  if (in_run()) { sleep_ns((i64)s * sec); return 0; }
  timespec t{(time_t)s, 0};
  nanosleep(&t, nullptr);
  return 0;
}
pid_t getpid(void) { return 4242; }     // a process number in a name must not make two runs differ
int sched_yield(void)
{
  if (in_run()) { poll_pause(); return 0; }
  return (int)raw_syscall(SYS_sched_yield);
}
// ------------------------------------------------------------------ randomness
unsigned sim_random_device_getval(void *) asm("_ZNSt13random_device9_M_getvalEv");
unsigned sim_random_device_getval(void *)
{
  if (in_run()) return (unsigned)choose(W, 1ull << 32);
  unsigned v = 0;
  raw_syscall(SYS_getrandom, (long)&v, sizeof v, 0);
  return v;
}
// ------------------------------------------------------------------ process control
pid_t fork(void)
{
  if (in_run()) return process_model->fork();
  return real_fork();
}
int execvp(const char * f, char * const * a)
{
  if (in_run()) return process_model->execvp(f, a);
  REAL(int, execvp, const char *, char * const *);
  return real_execvp(f, a);
}
int kill(pid_t p, int s)
{
  if (in_run()) return process_model->kill(p, s);
  long r = raw_syscall(SYS_kill, p, s);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int killpg(pid_t p, int s)
{
  if (in_run()) return process_model->killpg(p, s);
  return kill(-p, s);
}
pid_t waitpid(pid_t p, int * st, int o)
{
  if (in_run()) return process_model->waitpid(p, st, o);
  long r = raw_syscall(SYS_wait4, p, (long)st, o, 0);
  if (r < 0) { errno = (int)-r; return -1; }
  return (pid_t)r;
}
pid_t wait(int * st) { return waitpid(-1, st, 0); }
int sigtimedwait(const sigset_t * s, siginfo_t * i, const timespec * t)
{
  if (in_run()) {
    int r = process_model->sigtimedwait(s, t);
    if (r > 0 && i) { memset(i, 0, sizeof *i); i->si_signo = r; }
    return r;
  }
  REAL(int, sigtimedwait, const sigset_t *, siginfo_t *, const timespec *);
  return real_sigtimedwait(s, i, t);
}
int pthread_sigmask(int how, const sigset_t * s, sigset_t * old)
{
  if (in_run()) return process_model->mask_signals(how, s, old);
  long r = raw_syscall(SYS_rt_sigprocmask, how, (long)s, (long)old, 8);
  return r < 0 ? (int)-r : 0;
}
int sigprocmask(int how, const sigset_t * s, sigset_t * old)
{
  int e = pthread_sigmask(how, s, old);
  if (e) { errno = e; return -1; }
  return 0;
}
FILE * popen(const char * c, const char * m)
{
  if (in_run()) return (FILE *)process_model->popen(c, m);
  REAL(FILE *, popen, const char *, const char *);
  return real_popen(c, m);
}
int pclose(FILE * f)
{
  if (in_run()) return process_model->pclose(f);
  REAL(int, pclose, FILE *);
  return real_pclose(f);
}
int system(const char * c)
{
  if (in_run()) return process_model->system(c);
  REAL(int, system, const char *);
  return real_system(c);
}
void exit(int code)
{
  if (in_run()) process_model->exit(code);
  static void (*real_exit)(int) __attribute__((noreturn)) = nullptr;
  real_exit = (decltype(real_exit))dlsym(RTLD_NEXT, "exit");
  real_exit(code);
}
void _exit(int code)
{
  if (in_run()) process_model->exit_now(code);
  for (;;) raw_syscall(SYS_exit_group, code);
}
void _Exit(int code) { _exit(code); }

int setpgid(pid_t p, pid_t g)
{
  if (in_run()) return 0;
  return (int)raw_syscall(SYS_setpgid, p, g);
}

// ------------------------------------------------------------------ files owned by the simulated disk
struct FileTab { std::map<int, std::string> fds; };
static FileTab & files() { static auto * t = new FileTab; return *t; }
static bool owned(const char * path) { Ignore i; return in_run() && path && file_model->owns(path); }
static std::string redirected(const char * path) { Ignore i; return file_model->redirect(path); }

int sim_real_open(const char * p, int flags, mode_t m)
{
  long r = raw_syscall(SYS_openat, AT_FDCWD, (long)p, flags, m);
  if (r < 0) { errno = (int)-r; return -1; }
  return (int)r;
}
int open(const char * p, int flags, ...)
{
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  if (owned(p)) {
    Ignore i;
    if (int e = file_model->on_open(p, (flags & O_ACCMODE) != O_RDONLY)) { errno = e; return -1; }
    int fd = sim_real_open(redirected(p).c_str(), flags, m);
    if (fd >= 0) files().fds[fd] = p;
    return fd;
  }
  return sim_real_open(p, flags, m);
}
int open64(const char * p, int flags, ...)
{
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }
  return open(p, flags, m);
}
static ssize_t sim_write(int fd, const char * b, size_t n)
{
  Ignore i;
  auto it = in_run() ? files().fds.find(fd) : files().fds.end();
  if (it != files().fds.end()) {
    if (int e = file_model->on_write(it->second, &n)) { errno = e; return -1; }
  }
  long r = raw_syscall(SYS_write, fd, (long)b, n);
  if (r < 0) { errno = (int)-r; return -1; }
  if (in_run() && files().fds.count(fd)) file_model->on_written(files().fds[fd], b, r);
  return r;
}
ssize_t write(int fd, const void * b, size_t n)
{
  if (in_run()) return sim_write(fd, (const char *)b, n);
  long r = raw_syscall(SYS_write, fd, (long)b, n);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
ssize_t writev(int fd, const iovec * v, int n)
{
  if (in_run()) {
    Ignore i;
    std::string all;
    for (int k = 0; k < n; ++k) all.append((const char *)v[k].iov_base, v[k].iov_len);
    return sim_write(fd, all.data(), all.size());
  }
  long r = raw_syscall(SYS_writev, fd, (long)v, n);
  if (r < 0) { errno = (int)-r; return -1; }
  return r;
}
int close(int fd)
{
  int e = 0;
  if (in_run()) {
    Ignore i;
    auto it = files().fds.find(fd);
    if (it != files().fds.end()) { e = file_model->on_close(it->second); files().fds.erase(it); }
  }
  long r = raw_syscall(SYS_close, fd);
  if (e) { errno = e; return -1; }
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
static ssize_t ck_read(void * c, char * b, size_t n) { return raw_syscall(SYS_read, (long)c, (long)b, n); }
static ssize_t ck_write(void * c, const char * b, size_t n)     // stdio repeats a short write, as it does for a plain file
{
  size_t done = 0;
  while (done < n) {
    auto r = sim_write((int)(long)c, b + done, n - done);
    if (r <= 0) break;
    done += r;
  }
  return done;
}
static int ck_seek(void * c, off64_t * o, int w) { long r = raw_syscall(SYS_lseek, (long)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void * c) { return close((int)(long)c); }
static FILE * sim_fopen(const char * p, const char * m)
{
  int flags = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
  if (strchr(m, '+')) flags = (flags & ~O_ACCMODE) | O_RDWR;
  int fd = open(p, flags, 0644);
  if (fd < 0) return nullptr;
  cookie_io_functions_t f{ck_read, ck_write, ck_seek, ck_close};
  return fopencookie((void *)(long)fd, m, f);
}
FILE * fopen(const char * p, const char * m)
{
  REAL(FILE *, fopen, const char *, const char *);
  if (owned(p)) {
    Ignore i;
    Dl_info d;
    if (dladdr(__builtin_return_address(0), &d) && d.dli_fname && strstr(d.dli_fname, "libstdc++")) {   // a file buffer: it only uses the descriptor
      if (int e = file_model->on_open(p, m[0] != 'r' || strchr(m, '+'))) { errno = e; return nullptr; }
      auto f = real_fopen(redirected(p).c_str(), m);
      if (f) files().fds[fileno(f)] = p;
      return f;
    }
    return sim_fopen(p, m);
  }
  return real_fopen(p, m);
}
FILE * fopen64(const char * p, const char * m)
{
  REAL(FILE *, fopen64, const char *, const char *);
  if (owned(p)) {
    Ignore i;
    if (int e = file_model->on_open(p, m[0] != 'r' || strchr(m, '+'))) { errno = e; return nullptr; }
    auto f = real_fopen64(redirected(p).c_str(), m);
    if (f) files().fds[fileno(f)] = p;
    return f;
  }
  return real_fopen64(p, m);
}
int fclose(FILE * f)
{
  REAL(int, fclose, FILE *);
  int e = 0;
  if (in_run()) {
    Ignore i;
    int fd = fileno(f);
    auto it = fd >= 0 ? files().fds.find(fd) : files().fds.end();
    if (it != files().fds.end()) { e = file_model->on_close(it->second); files().fds.erase(it); }
  }
  int r = real_fclose(f);
  if (e) { errno = e; return EOF; }
  return r;
}
int rename(const char * a, const char * b)
{
  if (owned(b)) { Ignore i; if (int e = file_model->on_rename(a, b)) { errno = e; return -1; } }
  std::string ra = owned(a) ? redirected(a) : a, rb = owned(b) ? redirected(b) : b;
  long r = raw_syscall(SYS_rename, (long)ra.c_str(), (long)rb.c_str());
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
int mkdir(const char * p, mode_t m)
{
  if (owned(p)) { Ignore i; if (int e = file_model->on_mkdir(p)) { errno = e; return -1; } }
  std::string rp = owned(p) ? redirected(p) : p;
  long r = raw_syscall(SYS_mkdir, (long)rp.c_str(), m);
  if (r < 0) { errno = (int)-r; return -1; }
  return 0;
}
// ------------------------------------------------------------------ allocation: fresh memory has no access history
void * malloc(size_t n)
{
  void * p = __libc_malloc(n);
  if (g_race && p && in_run()) { Ignore i; race_forget(p, n); }
  return p;
}
void * calloc(size_t a, size_t b)
{
  void * p = __libc_calloc(a, b);
  if (g_race && p && in_run()) { Ignore i; race_forget(p, a * b); }
  return p;
}
void * realloc(void * o, size_t n)
{
  void * p = __libc_realloc(o, n);
  if (g_race && p && in_run()) { Ignore i; race_forget(p, n); }
  return p;
}
void free(void * p) { __libc_free(p); }
void * memalign(size_t a, size_t n)
{
  void * p = __libc_memalign(a, n);
  if (g_race && p && in_run()) { Ignore i; race_forget(p, n); }
  return p;
}
void * aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void ** o, size_t a, size_t n) { *o = memalign(a, n); return *o ? 0 : ENOMEM; }
}  // extern "C"

namespace sim
{
namespace detail
{
int real_fork() { REAL(int, fork, ); return real_fork(); }
i64 real_now()
{
  timespec t;
  raw_syscall(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t);
  return (i64)t.tv_sec * sec + t.tv_nsec;
}
}  // namespace detail

// default process model: the code under test is not expected to reach these
int ProcessModel::fork() { harness_error("unexpected fork()"); }
int ProcessModel::execvp(const char * f, char * const *) { harness_error(std::string("unexpected execvp ") + f); }
int ProcessModel::kill(int p, int s) { harness_error("unexpected kill(" + std::to_string(p) + ", " + std::to_string(s) + ")"); }
int ProcessModel::killpg(int p, int s) { harness_error("unexpected killpg(" + std::to_string(p) + ", " + std::to_string(s) + ")"); }
int ProcessModel::waitpid(int p, int *, int) { harness_error("unexpected waitpid " + std::to_string(p)); }
int ProcessModel::sigtimedwait(const void *, const void *) { harness_error("unexpected sigtimedwait"); }
int ProcessModel::mask_signals(int, const void *, void * old) { if (old) memset(old, 0, 8); return 0; }
void * ProcessModel::popen(const char * c, const char *) { harness_error(std::string("unexpected popen ") + c); }
int ProcessModel::pclose(void *) { harness_error("unexpected pclose"); }
int ProcessModel::system(const char * c) { harness_error(std::string("unexpected system ") + c); }
void ProcessModel::exit_now(int code) { violation("exit", "the program called _exit(" + std::to_string(code) + ")"); }
void ProcessModel::exit(int code) { violation("exit", "the program called exit(" + std::to_string(code) + ")"); }
}  // namespace sim
