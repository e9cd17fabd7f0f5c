#pragma once
#include "internal.hpp"
namespace sim
{
struct Run
{
  bool replaying = false, keep_log = false, echo = false;
  u64 seed = 0;
  u64 rng[STREAMS] = {};
  std::vector<u64> tape[STREAMS];
  std::size_t pos[STREAMS] = {};
  std::set<std::string> faults;
  std::map<std::string, u64> stats;
  std::set<u64> states;
  bool is_nontrivial = false;
  u64 fingerprint = 0;
  std::string sample, log;
  u64 hash = 1469598103934665603ull;
  std::string verdict_class, verdict_message;
  bool harness_error = false;
  i64 sim_time = 0;
  u64 steps = 0, switches = 0;
  int out_fd = -1;
  std::string scratch;
};
extern Run * g_run;
[[noreturn]] void report_and_exit(Run &);
}  // namespace sim
