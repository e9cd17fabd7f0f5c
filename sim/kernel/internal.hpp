#pragma once
#include "kernel.hpp"
#include <pthread.h>
#include <memory>
#include <unordered_map>
#include <set>
#include <unordered_set>

namespace sim::detail
{
using VC = std::vector<std::uint32_t>;
inline void vc_join(VC & a, const VC & b)
{
  if (a.size() < b.size()) a.resize(b.size());
  for (std::size_t i = 0; i < b.size(); ++i)
    if (a[i] < b[i]) a[i] = b[i];
}

struct Thread
{
  int id = 0;
  bool finished = false, detached = false, blocked = false, timed_out = false;
  std::function<bool()> ready;
  i64 deadline = -1, stalled_until = 0;
  const char * what = "";
  int go = 0;
  pthread_t real{}, alias{};
  void * (*fn)(void *) = nullptr;
  void * arg = nullptr;
  void * ret = nullptr;
  VC vc;
};

extern bool g_active;               // a run is in progress
extern __thread Thread * t_self;    // null: not a simulated thread
extern __thread int t_ignore;       // >0: inside kernel / stub code, memory accesses are not events
extern bool g_race;
extern int g_live;

struct Ignore
{
  Ignore() { ++t_ignore; }
  ~Ignore() { --t_ignore; }
};

inline bool simulated() { return g_active && t_self && !t_ignore; }
inline bool in_run() { return g_active && t_self; }

void mem_yield();
void sync_yield(const char * what);
int create_thread(pthread_t *, void * (*)(void *), void *);
int create_early_thread(pthread_t *, void * (*)(void *), void *);
bool is_early_thread(pthread_t);
int join_thread(pthread_t, void **);
int detach_thread(pthread_t);
void begin_run();
void race_access(const void * p, std::size_t n, bool write, void * pc);
void race_forget(const void * p, std::size_t n);
void race_reset();

// raw, never interposed
long raw_syscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
int real_fork();
i64 real_now();   // real monotonic clock, for driver budgets only
}  // namespace sim::detail
