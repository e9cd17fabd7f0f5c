// Stand-in for the ThreadSanitizer runtime: code under test is compiled with -fsanitize=thread so that every memory
// access and atomic becomes a call into the simulator. Each is a possible pre-emption point, and (when race detection
// is on) is checked against a vector-clock happens-before relation over the simulated execution.
#include "internal.hpp"
#include "run.hpp"
#include <dlfcn.h>
#include <cxxabi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

namespace sim
{
using namespace detail;
namespace detail
{
struct Access { int tid = -1; std::uint32_t clock = 0; void * pc = nullptr; unsigned char mask = 0; };
struct Cell { Access write; std::vector<Access> reads; };
static std::unordered_map<std::uintptr_t, Cell> * g_cells;
static std::function<void(const std::string &, const std::string &)> & g_report = *new std::function<void(const std::string &, const std::string &)>;

void race_reset() { delete g_cells; g_cells = new std::unordered_map<std::uintptr_t, Cell>; }
void race_forget(const void * p, std::size_t n)
{
  if (!g_cells || g_cells->empty()) return;
  auto a = reinterpret_cast<std::uintptr_t>(p) >> 3, b = (reinterpret_cast<std::uintptr_t>(p) + n + 7) >> 3;
  if (b - a > g_cells->size()) {
    for (auto it = g_cells->begin(); it != g_cells->end();) if (it->first >= a && it->first < b) it = g_cells->erase(it); else ++it;
  } else {
    for (; a < b; ++a) g_cells->erase(a);
  }
}
static std::string where(void * pc)
{
  Dl_info d;
  if (pc && dladdr(pc, &d) && d.dli_sname) {
    int st;
    char * dm = abi::__cxa_demangle(d.dli_sname, nullptr, nullptr, &st);
    std::string s = dm ? dm : d.dli_sname;
    free(dm);
    if (s.size() > 160) s.resize(160);
    return s;
  }
  return "?";
}
static bool ordered(const Access & a) { return (std::size_t)a.tid < t_self->vc.size() && a.clock <= t_self->vc[a.tid]; }
static void race(const char * kind, const Access & old, void * pc, const void * p)
{
  (void)p;
  std::string m = std::string(kind) + " between t" + std::to_string(old.tid) + " in " + where(old.pc) + " and t" + std::to_string(t_self->id) + " in " + where(pc);
  if (g_report) g_report("data-race", m);
  else violation("data-race", m);
}
static void access_one(std::uintptr_t cell, unsigned char mask, bool write, void * pc, const void * p)
{
  auto & c = (*g_cells)[cell];
  auto me = t_self->id;
  auto clk = t_self->vc[me];
  if (c.write.tid >= 0 && c.write.tid != me && (c.write.mask & mask) && !ordered(c.write)) race(write ? "two unordered writes" : "unordered write then read", c.write, pc, p);
  if (write) {
    for (auto & r : c.reads)
      if (r.tid != me && (r.mask & mask) && !ordered(r)) race("unordered read then write", r, pc, p);
    if (c.write.mask & ~mask && c.write.tid == me && c.write.clock == clk) mask |= c.write.mask;
    c.write = {me, clk, pc, mask};
    c.reads.clear();
  } else {
    for (auto & r : c.reads)
      if (r.tid == me) { if (r.clock != clk) r.mask = 0; r.clock = clk; r.pc = pc; r.mask |= mask; return; }
    c.reads.push_back({me, clk, pc, mask});
  }
}
void race_access(const void * p, std::size_t n, bool write, void * pc)
{
  if (!g_cells) return;
  Ignore i;
  auto a = reinterpret_cast<std::uintptr_t>(p);
  auto end = a + n;
  while (a < end) {
    auto cell = a >> 3;
    auto stop = std::min(end, (cell + 1) << 3);
    unsigned char mask = 0;
    for (auto b = a; b < stop; ++b) mask |= 1u << (b & 7);
    access_one(cell, mask, write, pc, p);
    a = stop;
  }
}
}  // namespace detail
void set_race_detection(bool on, std::function<void(const std::string &, const std::string &)> report)
{
  Ignore i;
  g_race = on;
  g_report = std::move(report);
  if (on) race_reset();
}
}  // namespace sim

using namespace sim;
using namespace sim::detail;

static inline __attribute__((always_inline)) void acc(void * p, std::size_t n, bool w, void * pc)
{
  if (!simulated()) return;
  mem_yield();
  if (g_race) race_access(p, n, w, pc);
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N)                                                             \
  void __tsan_read##N(void * p) { acc(p, N, false, PC); }                 \
  void __tsan_write##N(void * p) { acc(p, N, true, PC); }                 \
  void __tsan_volatile_read##N(void * p) { acc(p, N, false, PC); }        \
  void __tsan_volatile_write##N(void * p) { acc(p, N, true, PC); }        \
  void __tsan_unaligned_read##N(void * p) { acc(p, N, false, PC); }       \
  void __tsan_unaligned_write##N(void * p) { acc(p, N, true, PC); }       \
  void __tsan_unaligned_volatile_read##N(void * p) { acc(p, N, false, PC); } \
  void __tsan_unaligned_volatile_write##N(void * p) { acc(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { acc(p, n, false, PC); }
void __tsan_write_range(void * p, unsigned long n) { acc(p, n, true, PC); }
// What *p holds before construction is not defined, so it must not decide whether time passes here.
void __tsan_vptr_update(void ** p, void * v) { if (!simulated()) return; mem_yield(); if (g_race && *p != v) race_access(p, 8, true, PC); }
void __tsan_vptr_read(void ** p) { acc(p, 8, false, PC); }

// atomics: executed under the baton, so plain operations are atomic; every atomic is a scheduling point.
static inline void at_in() { if (simulated()) sync_yield("atomic"); }
static inline bool acq(int mo) { return mo != 0 && mo != 3; }
static inline bool rel(int mo) { return mo >= 3; }
static inline void at_acq(volatile void * p, int mo) { if (g_race && simulated() && acq(mo)) hb_acquire((void *)p); }
static inline void at_rel(volatile void * p, int mo) { if (g_race && simulated() && rel(mo)) hb_release((void *)p); }
#define AT(B, T)                                                                                                                      \
  T __tsan_atomic##B##_load(const volatile T * p, int mo) { at_in(); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); at_acq((volatile void *)p, mo); return v; } \
  void __tsan_atomic##B##_store(volatile T * p, T v, int mo) { at_in(); at_rel(p, mo); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); }   \
  T __tsan_atomic##B##_exchange(volatile T * p, T v, int mo) { at_in(); at_acq(p, mo); at_rel(p, mo); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_add(volatile T * p, T v, int mo) { at_in(); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_sub(volatile T * p, T v, int mo) { at_in(); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_and(volatile T * p, T v, int mo) { at_in(); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_or(volatile T * p, T v, int mo) { at_in(); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_xor(volatile T * p, T v, int mo) { at_in(); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##B##_fetch_nand(volatile T * p, T v, int mo) { at_in(); at_acq(p, mo); at_rel(p, mo); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T * p, T * e, T v, int mo, int) { at_in(); at_acq(p, mo); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) at_rel(p, mo); return ok; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T * p, T * e, T v, int mo, int) { at_in(); at_acq(p, mo); bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (ok) at_rel(p, mo); return ok; } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T * p, T e, T v, int mo, int) { at_in(); at_acq(p, mo); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); at_rel(p, mo); return e; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
