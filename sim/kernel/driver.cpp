// Search, minimisation and replay. One run = one forked child process; a run is a pure function of (binary, seed) or of
// (binary, replay file). Workers are themselves forked before any run, so every child starts from the same image.
#include "internal.hpp"
#include "run.hpp"
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>

namespace sim
{
using namespace detail;

// ------------------------------------------------------------------ wire format of a result
struct Out
{
  std::string s;
  void u(u64 v) { s.append((const char *)&v, 8); }
  void str(const std::string & x) { u(x.size()); s += x; }
};
struct In
{
  const std::string & s;
  std::size_t p = 0;
  bool bad = false;
  u64 u() { u64 v = 0; if (p + 8 > s.size()) { bad = true; return 0; } memcpy(&v, s.data() + p, 8); p += 8; return v; }
  std::string str() { auto n = u(); if (bad || p + n > s.size()) { bad = true; return {}; } auto r = s.substr(p, n); p += n; return r; }
};
struct Result
{
  bool ok = false;          // a complete result came back
  u64 index = 0, seed = 0, hash = 0, fingerprint = 0, steps = 0, switches = 0;
  i64 sim_time = 0;
  bool nontrivial = false, harness = false;
  std::string cls, message, sample, log;
  std::map<std::string, u64> stats;
  std::vector<u64> states;
  std::vector<u64> tape[STREAMS];
};

void report_and_exit(Run & r)
{
  Out o;
  o.u(r.hash); o.u(r.is_nontrivial); o.u(r.fingerprint); o.u(r.steps); o.u(r.switches); o.u(r.sim_time); o.u(r.harness_error);
  o.str(r.verdict_class); o.str(r.verdict_message); o.str(r.sample); o.str(r.log);
  o.u(r.stats.size());
  for (auto & [k, v] : r.stats) { o.str(k); o.u(v); }
  o.u(r.states.size());
  for (auto v : r.states) o.u(v);
  bool tapes = !r.verdict_class.empty();
  o.u(tapes);
  if (tapes)
    for (auto & t : r.tape) { o.u(t.size()); for (auto v : t) o.u(v); }
  u64 n = o.s.size();
  std::string all((const char *)&n, 8);
  all += o.s;
  for (std::size_t p = 0; p < all.size();) {
    long k = raw_syscall(SYS_write, r.out_fd, (long)(all.data() + p), all.size() - p);
    if (k == -EINTR) continue;
    if (k <= 0) break;
    p += k;
  }
  raw_syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

static Result decode(const std::string & s)
{
  Result r;
  In i{s};
  r.hash = i.u(); r.nontrivial = i.u(); r.fingerprint = i.u(); r.steps = i.u(); r.switches = i.u(); r.sim_time = i.u(); r.harness = i.u();
  r.cls = i.str(); r.message = i.str(); r.sample = i.str(); r.log = i.str();
  for (auto n = i.u(); n > 0 && !i.bad; --n) { auto k = i.str(); r.stats[k] = i.u(); }
  for (auto n = i.u(); n > 0 && !i.bad; --n) r.states.push_back(i.u());
  if (i.u())
    for (auto & t : r.tape) for (auto n = i.u(); n > 0 && !i.bad; --n) t.push_back(i.u());
  r.ok = !i.bad;
  return r;
}

// ------------------------------------------------------------------ one run in this (child) process
struct Spec
{
  const Scenario * scenario;
  u64 seed = 0;
  bool replay = false;
  const std::vector<u64> * tape = nullptr;
  bool keep_log = false, echo = false;
};
static std::string & g_scratch_base = *new std::string;

const std::string & scratch()
{
  Ignore i;
  if (g_run->scratch.empty()) {
    g_run->scratch = g_scratch_base + "/" + std::to_string(100000000 + raw_syscall(SYS_getpid));
    mkdir(g_run->scratch.c_str(), 0755);
  }
  return g_run->scratch;
}

[[noreturn]] static void child(const Spec & spec, int fd)
{
  static Run & run = *new Run;
  g_run = &run;
  run.out_fd = fd;
  run.seed = spec.seed;
  run.keep_log = spec.keep_log;
  run.echo = spec.echo;
  run.replaying = spec.replay;
  for (int s = 0; s < STREAMS; ++s) {
    run.rng[s] = spec.seed * 0x9E3779B97F4A7C15ull + s * 0xD1B54A32D192ED03ull + 0x632BE59BD9B4E019ull;
    if (spec.tape) run.tape[s] = spec.tape[s];
  }
  static const int null = open("/dev/null", O_RDWR);
  if (!spec.echo && null >= 0) { dup2(null, 1); if (!getenv("SIM_STDERR")) dup2(null, 2); dup2(null, 0); }
  // a fixed address map and a fixed scratch name would need namespaces; the name length is constant within a driver
  mallopt(M_PERTURB, 0xbe);                           // what fresh and freed memory holds is nobody's choice: a pattern
  begin_run();
  try {
    spec.scenario->run();
  } catch (const std::exception & e) {
    violation("unexpected-exception", std::string("an exception that the interface does not announce: ") + e.what());
  } catch (...) {
    violation("unexpected-exception", "an exception that the interface does not announce");
  }
  finish();
}

static void remove_tree(const std::string & path)
{
  if (path.size() < 10 || path.find(g_scratch_base) != 0) return;
  if (access(path.c_str(), F_OK) != 0) return;
  pid_t p = real_fork();
  if (p == 0) {
    execl("/bin/rm", "rm", "-rf", "--", path.c_str(), (char *)nullptr);
    _exit(1);
  }
  int st;
  while (raw_syscall(SYS_wait4, p, (long)&st, 0, 0) == -EINTR) {}
}

static u64 run_seed(u64 base, u64 index)
{
  u64 x = base * 0x2545F4914F6CDD1Dull + index;
  x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; x *= 0x94D049BB133111EBull; x ^= x >> 29;
  return x >> 1;
}

static const i64 RUN_WALL_LIMIT = 60 * sec;

// fork a child, collect its framed bytes; `buffer` grows outside the malloc heap so that workers' heaps never change.
struct RawBuffer
{
  char * p;
  std::size_t cap, n = 0;
  RawBuffer() { cap = 256u << 20; p = (char *)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
};
static bool run_child(const Spec & spec, RawBuffer & b, int * status)
{
  int fds[2];
  if (pipe(fds)) return false;
  pid_t pid = real_fork();
  if (pid == 0) {
    raw_syscall(SYS_close, fds[0]);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    setpgid(0, 0);
    child(spec, fds[1]);
  }
  close(fds[1]);
  b.n = 0;
  i64 deadline = real_now() + RUN_WALL_LIMIT;
  bool killed = false;
  for (;;) {
    pollfd pf{fds[0], POLLIN, 0};
    i64 left = (deadline - real_now()) / ms;
    int r = poll(&pf, 1, left < 0 ? 0 : (int)left);
    if (r == 0) { raw_syscall(SYS_kill, pid, SIGKILL); killed = true; break; }
    if (r < 0) continue;
    long k = raw_syscall(SYS_read, fds[0], (long)(b.p + b.n), b.cap - b.n);
    if (k <= 0) break;
    b.n += k;
  }
  close(fds[0]);
  int st = 0;
  while (raw_syscall(SYS_wait4, pid, (long)&st, 0, 0) == -EINTR) {}
  if (status) *status = killed ? -1 : st;
  {
    char name[512];
    snprintf(name, sizeof name, "%s/%ld", g_scratch_base.c_str(), 100000000L + pid);
    struct stat sb;
    if (stat(name, &sb) == 0) remove_tree(name);
  }
  u64 n = 0;
  if (b.n < 8) return false;
  memcpy(&n, b.p, 8);
  return !killed && b.n == n + 8;
}

static Result run_once(const Spec & spec)
{
  static RawBuffer b;
  int st = 0;
  if (!run_child(spec, b, &st)) {
    Result r;
    r.seed = spec.seed;
    r.ok = false;
    r.message = "child ended without a result, wait status " + std::to_string(st);
    return r;
  }
  auto r = decode(std::string(b.p + 8, b.n - 8));
  r.seed = spec.seed;
  return r;
}

// ------------------------------------------------------------------ json out
static std::string js(const std::string & s)
{
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); o += t; }
    else o += c;
  }
  return o + "\"";
}
static std::string tape_js(const std::vector<u64> & t)
{
  std::string o = "[";
  for (std::size_t i = 0; i < t.size(); ++i) { if (i) o += ','; o += std::to_string(t[i]); }
  return o + "]";
}
static bool read_tape(const std::string & text, const std::string & key, std::vector<u64> & t)
{
  auto p = text.find("\"" + key + "\":");
  if (p == std::string::npos) return false;
  p = text.find('[', p);
  auto e = text.find(']', p);
  if (p == std::string::npos || e == std::string::npos) return false;
  const char * s = text.c_str() + p + 1;
  while (s < text.c_str() + e) {
    char * q;
    u64 v = strtoull(s, &q, 10);
    if (q == s) { ++s; continue; }
    t.push_back(v);
    s = q;
  }
  return true;
}
static std::string read_field(const std::string & text, const std::string & key)
{
  auto p = text.find("\"" + key + "\":");
  if (p == std::string::npos) return {};
  p = text.find('"', p + key.size() + 3);
  std::string o;
  for (++p; p < text.size() && text[p] != '"'; ++p) { if (text[p] == '\\') ++p; o += text[p]; }
  return o;
}

// ------------------------------------------------------------------ minimisation
struct Minimiser
{
  const Scenario * sc;
  std::string cls;
  i64 deadline;
  u64 attempts = 0;
  std::vector<u64> best[STREAMS];
  Result best_result;
  static void trim(std::vector<u64> & t) { while (!t.empty() && t.back() == 0) t.pop_back(); }
  bool out_of_time() const { return real_now() > deadline || attempts > 3000; }
  bool attempt(const std::vector<u64> (&t)[STREAMS])
  {
    if (out_of_time()) return false;
    ++attempts;
    Spec s{sc, 0, true, t, false, false};
    auto r = run_once(s);
    if (r.ok && r.cls == cls) {
      for (int k = 0; k < STREAMS; ++k) { best[k] = t[k]; trim(best[k]); }
      best_result = r;
      return true;
    }
    return false;
  }
  void pass(int k)
  {
    // drop everything after position n (binary search for the shortest failing prefix)
    {
      std::size_t lo = 0, hi = best[k].size();
      while (lo < hi && !out_of_time()) {
        auto mid = (lo + hi) / 2;
        std::vector<u64> t[STREAMS] = {best[0], best[1], best[2]};
        t[k].resize(std::min(mid, t[k].size()));
        if (attempt(t)) hi = std::min(mid, best[k].size()); else lo = mid + 1;
      }
    }
    // zero, then delete, windows
    for (std::size_t win = std::max<std::size_t>(1, best[k].size() / 2); win >= 1 && !out_of_time(); win /= 2) {
      for (std::size_t i = 0; i < best[k].size() && !out_of_time(); i += win) {
        auto end = std::min(best[k].size(), i + win);
        if (std::all_of(best[k].begin() + i, best[k].begin() + end, [](u64 v) { return v == 0; })) continue;
        std::vector<u64> t[STREAMS] = {best[0], best[1], best[2]};
        std::fill(t[k].begin() + i, t[k].begin() + end, 0);
        attempt(t);
      }
      if (win <= 64)
        for (std::size_t i = 0; i < best[k].size() && !out_of_time();) {
          std::vector<u64> t[STREAMS] = {best[0], best[1], best[2]};
          t[k].erase(t[k].begin() + i, t[k].begin() + std::min(best[k].size(), i + win));
          if (!attempt(t)) i += win;
        }
      if (win == 1) break;
    }
    // lower single values
    for (std::size_t i = 0; i < best[k].size() && !out_of_time(); ++i)
      while (i < best[k].size() && best[k][i] > 1 && !out_of_time()) {
        std::vector<u64> t[STREAMS] = {best[0], best[1], best[2]};
        t[k][i] /= 2;
        if (!attempt(t)) break;
      }
  }
};

// ------------------------------------------------------------------ search
struct Aggregate
{
  u64 runs = 0, nontrivial = 0, steps = 0, switches = 0, repeats = 0, violations = 0, unknown = 0;
  i64 sim_time = 0;
  std::map<std::string, u64> stats;
  std::unordered_set<u64> fingerprints, states, hashes;
  std::vector<std::string> samples;
};

static std::string & g_self = *new std::string;
static std::vector<std::string> & known_classes = *new std::vector<std::string>;
// A recorded defect that need not end the run: noted and passed over if it is listed, a violation otherwise.
void check_known(bool ok, const std::string & cls, const std::string & message)
{
  if (ok) return;
  if (std::find(known_classes.begin(), known_classes.end(), cls) == known_classes.end()) violation(cls, message);
  count("known:" + cls);
}

static int write_json(const std::string & path, const std::string & body)
{
  std::string tmp = path + ".tmp";
  std::ofstream f(tmp);
  f << body;
  f.close();
  if (!f) return 1;
  ::rename(tmp.c_str(), path.c_str());
  return 0;
}

static const Scenario * find_scenario(const std::vector<Scenario> & v, const std::string & p)
{
  for (auto & s : v) if (p == s.property) return &s;
  std::cerr << "no scenario " << p << "\n";
  _exit(2);
}

int driver_main(int argc, char ** argv, const std::vector<Scenario> & scenarios)
{
  // same addresses in every process: otherwise hash order of pointers would differ between runs
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_PERSONALITY")) {
    setenv("SIM_PERSONALITY", "1", 1);
    setenv("MALLOC_ARENA_MAX", "1", 1);
    if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  std::string property, out = "/dev/stdout", replay_dir = ".", replay, scratch_base = "/tmp";
  u64 seed = 1, max_runs = ~0ull, one = ~0ull, index0 = 0;
  double time_budget = 10;
  int jobs = 8;
  bool echo = false, list = false;
  auto & known = known_classes;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
    if (a == "--property") property = val();
    else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
    else if (a == "--time") time_budget = atof(val().c_str());
    else if (a == "--jobs") jobs = atoi(val().c_str());
    else if (a == "--max-runs") max_runs = strtoull(val().c_str(), 0, 10);
    else if (a == "--first") index0 = strtoull(val().c_str(), 0, 10);
    else if (a == "--out") out = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--replay") replay = val();
    else if (a == "--one") one = strtoull(val().c_str(), 0, 10);
    else if (a == "--scratch") scratch_base = val();
    else if (a == "--known") known.push_back(val());    // violation class recorded as a known finding
    else if (a == "--echo") echo = true;
    else if (a == "--list") list = true;
    else { std::cerr << "unknown option " << a << "\n"; return 2; }
  }
  if (list) { for (auto & s : scenarios) std::cout << s.property << "\n"; return 0; }
  // fixed-width scratch name: path lengths never differ between processes
  char sb[64];
  snprintf(sb, sizeof sb, "/sim-scratch-%08d", (int)raw_syscall(SYS_getpid));
  g_scratch_base = scratch_base + sb;
  mkdir(g_scratch_base.c_str(), 0755);
  struct Cleanup { ~Cleanup() { remove_tree(g_scratch_base); } } cleanup;
  signal(SIGPIPE, SIG_IGN);

  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string text((std::istreambuf_iterator<char>(f)), {});
    if (property.empty()) property = read_field(text, "property");
    auto sc = find_scenario(scenarios, property);
    std::istringstream listed(read_field(text, "known"));
    for (std::string k; std::getline(listed, k, ',');) known.push_back(k);
    std::vector<u64> t[STREAMS];
    read_tape(text, "workload", t[W]); read_tape(text, "schedule", t[S]); read_tape(text, "faults", t[F]);
    Spec s{sc, 0, true, t, true, echo};
    auto r = run_once(s);
    auto want = read_field(text, "class");
    if (!r.ok) { std::cout << "replay: no result: " << r.message << "\n"; return 2; }
    std::cout << r.log;
    std::cout << "replay: class=" << (r.cls.empty() ? "(none)" : r.cls) << " hash=" << r.hash << "\n" << r.message << "\n";
    auto want_hash = read_field(text, "hash");
    if (r.cls.empty()) return 0;
    return r.cls == want && (want_hash.empty() || want_hash == std::to_string(r.hash)) ? 1 : 3;
  }
  auto sc = find_scenario(scenarios, property);
  if (one != ~0ull) {
    Spec s{sc, run_seed(seed, one), false, nullptr, true, echo};
    auto r = run_once(s);
    if (!r.ok) { std::cout << "no result: " << r.message << "\n"; return 2; }
    std::cout << r.log << "class=" << r.cls << "\n" << r.message << "\nhash=" << r.hash << " steps=" << r.steps << " switches=" << r.switches << " sim_s=" << r.sim_time / 1e9 << "\n" << r.sample << "\n";
    for (auto & [k, v] : r.stats) std::cout << "  " << k << " = " << v << "\n";
    return r.cls.empty() ? 0 : 1;
  }

  // ---- parallel search
  i64 t0 = real_now(), deadline = t0 + (i64)(time_budget * sec);
  auto stop = (volatile int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  auto next = (volatile u64 *)(stop + 16);
  *next = index0;
  std::vector<int> pipes;
  std::vector<pid_t> workers;
  for (int k = 0; k < jobs; ++k) {
    int fds[2];
    if (pipe(fds)) return 2;
    pid_t pid = real_fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(fds[0]);
      for (int f : pipes) close(f);
      RawBuffer b;
      while (!*stop && real_now() < deadline) {
        u64 i = __atomic_fetch_add(next, 1, __ATOMIC_SEQ_CST);
        if (i >= max_runs + index0) break;
        int times = i % 16 == 0 ? 2 : 1;      // every 16th run is executed twice: same seed, same hash
        for (int rep = 0; rep < times; ++rep) {
          Spec s{sc, run_seed(seed, i), false, nullptr, times == 2 && getenv("SIM_COMPARE"), false};
          int st = 0;
          bool ok = run_child(s, b, &st);
          u64 head[4] = {i, (u64)rep, ok, ok ? b.n - 8 : (u64)(unsigned)st};
          auto put = [&](const char * p, std::size_t n) {
            while (n) { long w = raw_syscall(SYS_write, fds[1], (long)p, n); if (w == -EINTR) continue; if (w <= 0) _exit(0); p += w; n -= w; }
          };
          put((const char *)head, sizeof head);
          if (ok) put(b.p + 8, b.n - 8);
        }
      }
      _exit(0);
    }
    close(fds[1]);
    pipes.push_back(fds[0]);
    workers.push_back(pid);
  }
  Aggregate ag;
  std::vector<std::string> buf(jobs);
  std::vector<bool> open_(jobs, true);
  std::map<u64, u64> first_hash;
  std::map<u64, std::string> first_log;
  std::map<std::string, Result> found;    // per class: lowest index
  std::string fatal;
  int left = jobs;
  static std::vector<char> chunk(1 << 20);
  while (left > 0) {
    std::vector<pollfd> pf;
    std::vector<int> who;
    for (int k = 0; k < jobs; ++k) if (open_[k]) { pf.push_back({pipes[k], POLLIN, 0}); who.push_back(k); }
    if (poll(pf.data(), pf.size(), 1000) < 0) continue;
    for (std::size_t j = 0; j < pf.size(); ++j) {
      if (!pf[j].revents) continue;
      int k = who[j];
      long n = raw_syscall(SYS_read, pipes[k], (long)chunk.data(), chunk.size());
      if (n == -EINTR) continue;
      if (n <= 0) { open_[k] = false; --left; continue; }
      buf[k].append(chunk.data(), n);
      for (;;) {
        u64 head[4];
        if (buf[k].size() < sizeof head) break;
        memcpy(head, buf[k].data(), sizeof head);
        std::size_t body = head[2] ? head[3] : 0;
        if (buf[k].size() < sizeof head + body) break;
        Result r;
        if (head[2]) r = decode(buf[k].substr(sizeof head, body));
        buf[k].erase(0, sizeof head + body);
        r.index = head[0];
        r.seed = run_seed(seed, r.index);
        if (!r.ok) { fatal = "run " + std::to_string(r.index) + " ended without a result (status " + std::to_string((int)head[3]) + ")"; *stop = 1; continue; }
        auto [it, fresh] = first_hash.emplace(r.index, r.hash);
        if (!fresh && it->second != r.hash && !r.cls.empty()) { first_hash.erase(it); fresh = true; }      // it violates now: report that
        if (!fresh) {
          ++ag.repeats;
          if (it->second != r.hash) { fatal = "nondeterminism: run " + std::to_string(r.index) + " gave two different histories"; *stop = 1; if (getenv("SIM_COMPARE")) { write_json("/tmp/sim-first.log", first_log[r.index]); write_json("/tmp/sim-second.log", r.log); } }
          first_log.erase(r.index);
          first_hash.erase(it);
          continue;
        }
        if (r.index % 16 != 0) first_hash.erase(r.index); else if (getenv("SIM_COMPARE")) first_log[r.index] = r.log;
        if (r.harness) { fatal = "harness error in run " + std::to_string(r.index) + ": " + r.message; *stop = 1; continue; }
        ++ag.runs;
        ag.steps += r.steps; ag.switches += r.switches; ag.sim_time += r.sim_time - 1000 * sec;
        for (auto & [s, v] : r.stats) ag.stats[s] += v;
        for (auto v : r.states) if (ag.states.size() < 4'000'000) ag.states.insert(v);
        ag.hashes.insert(r.hash);
        if (r.nontrivial) { ++ag.nontrivial; ag.fingerprints.insert(r.fingerprint); if (ag.samples.size() < 4 && !r.sample.empty()) ag.samples.push_back("run " + std::to_string(r.index) + ": " + r.sample); }
        if (!r.cls.empty()) {
          bool is_known = std::find(known.begin(), known.end(), r.cls) != known.end();
          auto f = found.find(r.cls);
          if (f == found.end() || r.index < f->second.index) found[r.cls] = r;
          if (is_known) ++ag.stats["known:" + r.cls];
          else {
            ++ag.violations;
            if (!*stop) deadline = std::min(deadline, real_now());
            *stop = 1;
          }
        }
      }
    }
  }
  for (auto p : workers) { int st; while (raw_syscall(SYS_wait4, p, (long)&st, 0, 0) == -EINTR) {} }
  double wall = (real_now() - t0) / 1e9;

  // ---- a violation must survive: same seed twice, then minimise, then the minimised tape twice
  std::string vj = "[";
  bool first = true;
  int rc = 0;
  std::vector<std::string> known_seen;
  for (auto & k : known) if (ag.stats.count("known:" + k) && !found.count(k)) known_seen.push_back(k);
  for (auto & [cls, r0] : found) {
    bool is_known = std::find(known.begin(), known.end(), cls) != known.end();
    if (is_known) { known_seen.push_back(cls); continue; }
    if (rc == 1) continue;       // one report is enough
    Spec s{sc, r0.seed, false, nullptr, false, false};
    auto a = run_once(s), b = run_once(s);
    // Code under test that reads memory it does not own (a dangling pointer) still violates, but its history need not repeat bit by bit.
    bool exact = a.ok && b.ok && a.hash == b.hash && a.cls == cls && b.cls == cls;
    for (int retry = 0; !exact && retry < 6 && (a.cls.empty() || b.cls.empty()); ++retry) { if (a.cls.empty()) a = run_once(s); else b = run_once(s); }
    if (a.cls.empty() || b.cls.empty()) {
      fatal = "violation " + cls + " of run " + std::to_string(r0.index) + " did not repeat (" + r0.message + ")";
      continue;
    }
    Minimiser m{sc, cls, real_now() + 40 * sec};
    for (int k = 0; k < STREAMS; ++k) m.best[k] = a.tape[k];
    m.best_result = a;
    std::size_t before = a.tape[0].size() + a.tape[1].size() + a.tape[2].size();
    for (int round = 0; exact && round < 3 && !m.out_of_time(); ++round) {
      auto size = m.best[0].size() + m.best[1].size() + m.best[2].size();
      for (int k : {S, F, W}) m.pass(k);
      if (m.best[0].size() + m.best[1].size() + m.best[2].size() == size) break;
    }
    Spec ms{sc, 0, true, m.best, true, false};
    auto x = run_once(ms), y = run_once(ms);
    if (!x.ok || !y.ok || x.cls != cls || y.cls != cls || x.hash != y.hash) {
      exact = false;
      for (int k = 0; k < STREAMS; ++k) m.best[k] = a.tape[k];
      x = a;
    }
    auto path = replay_dir + "/" + property + "-seed" + std::to_string(seed) + "-run" + std::to_string(r0.index) + ".json";
    std::string j = "{\n \"property\": " + js(property) + ",\n \"verif_seed\": " + std::to_string(seed) + ",\n \"run\": " + std::to_string(r0.index) +
                    ",\n \"known\": " + js([&] { std::string l; for (auto & k : known) l += (l.empty() ? "" : ",") + k; return l; }()) + ",\n \"class\": " + js(x.cls) + ",\n \"repeats_exactly\": " + (exact ? "true" : "false") + ",\n \"message\": " + js(x.message) + ",\n \"original_message\": " + js(a.message) + ",\n \"hash\": " + js(std::to_string(x.hash)) + ",\n \"minimised_from\": " + std::to_string(before) +
                    ",\n \"attempts\": " + std::to_string(m.attempts) + ",\n \"workload\": " + tape_js(m.best[W]) + ",\n \"schedule\": " + tape_js(m.best[S]) +
                    ",\n \"faults\": " + tape_js(m.best[F]) + ",\n \"case\": " + js(x.sample) + ",\n \"trace\": [";
    std::istringstream lines(x.log);
    std::string line;
    bool fl = true;
    while (std::getline(lines, line)) { j += std::string(fl ? "\n  " : ",\n  ") + js(line); fl = false; }
    j += "\n ]\n}\n";
    if (write_json(path, j)) { fatal = "cannot write " + path; continue; }
    if (!first) vj += ",";
    first = false;
    vj += "{\"class\":" + js(cls) + ",\"message\":" + js(x.message) + ",\"replay\":" + js(path) + ",\"run\":" + std::to_string(r0.index) + "}";
    rc = 1;
  }
  vj += "]";
  std::string o = "{\"runs\":" + std::to_string(ag.runs) + ",\"wall\":" + std::to_string(wall) + ",\"nontrivial_runs\":" + std::to_string(ag.nontrivial) +
                  ",\"distinct_nontrivial\":" + std::to_string(ag.fingerprints.size()) + ",\"distinct_histories\":" + std::to_string(ag.hashes.size()) +
                  ",\"distinct_states\":" + std::to_string(ag.states.size()) + ",\"steps\":" + std::to_string(ag.steps) + ",\"switches\":" + std::to_string(ag.switches) +
                  ",\"sim_seconds\":" + std::to_string(ag.sim_time / 1e9) + ",\"repeated_runs_identical\":" + std::to_string(ag.repeats) +
                  ",\"violating_runs\":" + std::to_string(ag.violations) + ",\"jobs\":" + std::to_string(jobs) + ",\"violations\":" + vj + ",\"known_seen\":[";
  for (std::size_t i = 0; i < known_seen.size(); ++i) o += (i ? "," : "") + js(known_seen[i]);
  o += "],\"fatal\":" + js(fatal) + ",\"rule\":" + js(sc->rule) + ",\"real\":[";
  for (std::size_t i = 0; i < sc->real.size(); ++i) o += (i ? "," : "") + js(sc->real[i]);
  o += "],\"stub\":[";
  for (std::size_t i = 0; i < sc->stub.size(); ++i) o += (i ? "," : "") + js(sc->stub[i]);
  o += "],\"samples\":[";
  for (std::size_t i = 0; i < ag.samples.size(); ++i) o += (i ? "," : "") + js(ag.samples[i]);
  o += "],\"stats\":{";
  bool fs = true;
  for (auto & [k, v] : ag.stats) { o += std::string(fs ? "" : ",") + js(k) + ":" + std::to_string(v); fs = false; }
  o += "}}\n";
  if (out == "/dev/stdout") std::cout << o; else write_json(out, o);
  if (rc == 1) return 1;        // a violation that repeats exactly outranks anything else
  if (!fatal.empty()) { std::cerr << "ERROR " << fatal << "\n"; return 2; }
  return 0;
}
}  // namespace sim
