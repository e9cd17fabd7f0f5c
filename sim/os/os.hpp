// A simulated process table: fork, exec, kill, waitpid, signals, popen. No real process is signalled or reaped.
#pragma once
#include <sim/kernel/kernel.hpp>
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>

namespace simos
{
using sim::i64;

struct Process
{
  int pid = 0, pgrp = 0;
  enum State { RUNNING, STOPPED, ZOMBIE, REAPED } state = RUNNING;
  int status = 0;                       // wait status once dead
  bool stop_reported = false, execed = false;
  std::vector<std::string> argv;        // of the exec
  std::string exec_file;
  std::vector<int> signals;             // received
  bool ours = true;                     // started by the code under test (false: a sibling the host program owns)
  i64 died_at = -1, reaped_at = -1;
};

struct Os : sim::ProcessModel
{
  std::map<int, Process> table;
  int next_pid = 4000, self = 3999;
  bool sigchld_blocked = false, sigchld_pending = false, other_threads = false;
  unsigned fork_fails_den = 4;            // one fork in so many fails
  std::uint64_t forks = 0, execs_failed = 0, kills = 0, waits = 0, popens = 0, pcloses = 0;

  // behaviour, set by the harness
  std::function<void(Process &)> on_exec;                         // the program starts
  std::function<void(Process &, int sig)> on_signal;              // a live process of ours gets a catchable signal; default: terminates
  std::function<void(const std::string & what)> on_foreign;       // a signal or wait for something that is not a live child
  std::function<int(const std::string & command, std::string & output)> on_popen;   // returns errno, or 0
  std::function<void(int code)> on_exit;
  std::function<bool(const std::vector<std::string> & argv)> exec_fails;

  Os()
  {
    on_foreign = [](const std::string & w) { sim::violation("foreign-process", w); };
    sim::process_model = this;
  }

  Process & spawn(bool ours)       // a child that exists without fork() being observed
  {
    Process p;
    p.pid = p.pgrp = next_pid++;
    p.ours = ours;
    p.execed = true;
    return table[p.pid] = p;
  }
  bool alive(int pid) const { auto i = table.find(pid); return i != table.end() && i->second.state <= Process::STOPPED; }
  void sigchld()
  {
    // Discarded when it is not blocked; when another thread leaves it unblocked the kernel may hand it to that thread.
    if (!sigchld_blocked) return;
    if (other_threads && sim::fault("sigchld_taken_by_other_thread", 1, 4)) return;
    sigchld_pending = true;
  }
  void die(int pid, int status)
  {
    auto & p = table.at(pid);
    if (p.state >= Process::ZOMBIE) return;
    p.state = Process::ZOMBIE;
    p.status = status;
    p.died_at = sim::now();
    sim::logf("process ", pid, " dies with status ", status);
    sigchld();
  }
  void exit_later(int pid, i64 delay, int code) { sim::after(delay, [this, pid, code] { die(pid, (code & 255) << 8); }, "process exits"); }
  void stop(int pid)
  {
    auto & p = table.at(pid);
    if (p.state != Process::RUNNING) return;
    p.state = Process::STOPPED;
    p.stop_reported = false;
    sim::logf("process ", pid, " stops");
    sigchld();
  }
  void cont(int pid) { auto & p = table.at(pid); if (p.state == Process::STOPPED) { p.state = Process::RUNNING; sim::logf("process ", pid, " continues"); } }

  // ---- fork
  static int & child_fd() { static int fd = -1; return fd; }
  static void child_say(const std::string & s)
  {
    const char * b = s.data();
    std::size_t n = s.size();
    while (n) { long r = ::syscall(SYS_write, child_fd(), b, n); if (r <= 0) break; b += r; n -= r; }
  }
  static void child_end(const char * cls, const char * message) { child_say(std::string("V") + cls + std::string(1, '\0') + message); }

  int fork() override
  {
    sim::NoInstrument q;
    ++forks;
    if (sim::fault("fork_fails", 1, fork_fails_den)) { errno = EAGAIN; return -1; }
    int fds[2];
    if (pipe(fds)) sim::harness_error("pipe");
    int real = static_cast<int>(::syscall(SYS_fork));
    if (real == 0) {
      ::syscall(SYS_close, fds[0]);
      child_fd() = fds[1];
      sim::enter_forked_child(child_end);
      return 0;
    }
    ::syscall(SYS_close, fds[1]);
    std::string said;
    char b[4096];
    for (long n; (n = ::syscall(SYS_read, fds[0], b, sizeof b)) != 0;) if (n > 0) said.append(b, n);
    ::syscall(SYS_close, fds[0]);
    int st = 0;
    ::syscall(SYS_wait4, real, &st, 0, 0);
    auto & p = spawn(true);
    p.execed = false;
    const int pid = p.pid;
    sim::logf("fork: child ", pid);
    if (said.empty()) sim::violation("child-runs-on", "after a fork the child neither executed a program nor exited, but returned into the caller's code");
    if (said[0] == 'E') {
      std::vector<std::string> parts(1);
      for (std::size_t i = 1; i < said.size(); ++i) { if (said[i] == '\0') parts.emplace_back(); else parts.back() += said[i]; }
      parts.pop_back();
      p.exec_file = parts.empty() ? "" : parts[0];
      p.argv.assign(parts.begin() + (parts.empty() ? 0 : 1), parts.end());
      p.execed = true;
      std::string line;
      for (auto & a : p.argv) line += " [" + a + "]";
      if (const auto at = line.find(sim::scratch()); at != std::string::npos) line.replace(at, sim::scratch().size(), "SCRATCH");   // differs from run to run
      sim::logf("exec", line);
      if (on_exec) on_exec(p);
    } else if (said[0] == 'X') {
      ++execs_failed;
      die(pid, (atoi(said.c_str() + 1) & 255) << 8);
    } else if (said[0] == 'S') {
      die(pid, atoi(said.c_str() + 1));
    } else {
      auto z = said.find('\0');
      sim::violation("child:" + said.substr(1, z - 1), "in a forked child: " + said.substr(z + 1));
    }
    return pid;
  }
  int execvp(const char * file, char * const argv[]) override
  {
    sim::NoInstrument q;
    std::vector<std::string> v;
    for (int i = 0; argv[i]; ++i) {
      v.emplace_back(argv[i]);
      if (i > 10000) sim::violation("argv-not-terminated", "the argument vector has no terminating null pointer");
    }
    if (exec_fails && exec_fails(v)) { errno = ENOENT; return -1; }
    if (!sim::in_forked_child()) sim::violation("exec-in-parent", std::string("the program replaces itself with ") + file);
    std::string s = "E" + std::string(file) + '\0';
    for (auto & a : v) s += a + '\0';
    child_say(s);
    ::syscall(SYS_exit_group, 0);
    __builtin_unreachable();
  }
  void exit [[noreturn]] (int code) override
  {
    if (sim::in_forked_child()) sim::violation("exit-handlers-in-child", "a forked child that could not execute its program called exit(): the exit handlers of the simulator run and its buffered output is written a second time");
    if (on_exit) on_exit(code);
    sim::violation("exit", "the program called exit(" + std::to_string(code) + ")");
  }

  void exit_now [[noreturn]] (int code) override
  {
    if (sim::in_forked_child()) { child_say("X" + std::to_string(code)); ::syscall(SYS_exit_group, 0); }
    if (on_exit) on_exit(code);
    sim::violation("exit", "the program called _exit(" + std::to_string(code) + ")");
  }

  // ---- signals
  void deliver(Process & p, int sig)
  {
    if (p.state >= Process::ZOMBIE) return;
    p.signals.push_back(sig);
    const int pid = p.pid;
    if (sig == SIGKILL) { sim::after(static_cast<i64>(sim::choose(sim::S, 3)) * 3 * sim::ms, [this, pid] { die(pid, SIGKILL); }, "killed"); return; }
    if (sig == SIGSTOP) { stop(pid); return; }
    if (sig == SIGCONT) { cont(pid); return; }
    if (on_signal) on_signal(p, sig);
    else die(pid, sig);
  }
  int kill(int pid, int sig) override
  {
    int e = 0;
    {
      sim::NoInstrument q;
      ++kills;
      sim::logf("kill(", pid, ", ", sig, ")");
      if (pid <= 0) {
        if (pid < -1) return killpg(-pid, sig);
        on_foreign("kill(" + std::to_string(pid) + ", " + std::to_string(sig) + ") signals processes that are not its own");
        return 0;
      }
      auto i = table.find(pid);
      if (i == table.end()) { if (sig) on_foreign("kill(" + std::to_string(pid) + ", " + std::to_string(sig) + "): never a child of this program"); e = ESRCH; }
      else if (i->second.state == Process::REAPED) { if (sig) on_foreign("kill(" + std::to_string(pid) + ", " + std::to_string(sig) + "): the child was already reaped, its number may belong to another process"); e = ESRCH; }
      else if (!i->second.ours && sig) on_foreign("kill(" + std::to_string(pid) + ", " + std::to_string(sig) + "): a child this component did not start");
      else if (sig) deliver(i->second, sig);
    }
    sim::yield();
    if (e) { errno = e; return -1; }
    return 0;
  }
  int killpg(int pg, int sig) override
  {
    bool any = false;
    {
      sim::NoInstrument q;
      ++kills;
      sim::logf("killpg(", pg, ", ", sig, ")");
      if (pg <= 1) { on_foreign("killpg(" + std::to_string(pg) + ", " + std::to_string(sig) + ") signals processes that are not its own"); return 0; }
      for (auto & [pid, p] : table) {
        if (p.pgrp != pg || p.state == Process::REAPED) continue;
        any = true;
        if (!p.ours) on_foreign("killpg reaches a child this component did not start");
        deliver(p, sig);
      }
      if (!any) {
        auto i = table.find(pg);
        if (i == table.end() || i->second.state == Process::REAPED) on_foreign("killpg(" + std::to_string(pg) + "): no such process group of its own");
      }
    }
    sim::yield();
    if (!any) { errno = ESRCH; return -1; }
    return 0;
  }
  int mask_signals(int how, const void * set, void * old) override
  {
    if (old) { sigset_t s; sigemptyset(&s); if (sigchld_blocked) sigaddset(&s, SIGCHLD); memcpy(old, &s, 8); }
    if (set) {
      bool has = sigismember(static_cast<const sigset_t *>(set), SIGCHLD) == 1;
      if (how == SIG_BLOCK) sigchld_blocked = sigchld_blocked || has;
      else if (how == SIG_UNBLOCK) { if (has) { sigchld_blocked = false; sigchld_pending = false; } }
      else { sigchld_blocked = has; if (!has) sigchld_pending = false; }
    }
    return 0;
  }
  int sigtimedwait(const void * set, const void * timeout) override
  {
    int e = 0;
    {
      sim::NoInstrument q;
      if (sigismember(static_cast<const sigset_t *>(set), SIGCHLD) != 1) { e = EAGAIN; }
      auto t = static_cast<const timespec *>(timeout);
      i64 deadline = t ? sim::now() + t->tv_sec * sim::sec + t->tv_nsec : -1;
      if (t && (t->tv_nsec < 0 || t->tv_nsec >= 1000000000)) { errno = EINVAL; return -1; }
      bool interrupted = false;
      if (sim::fault("eintr", 1, 4)) {
        i64 at = sim::now() + static_cast<i64>(sim::choose(sim::F, 50)) * 100 * sim::ms;
        if (deadline < 0 || at < deadline) { deadline = at; interrupted = true; }
      }
      if (!sim::wait_until([this] { return sigchld_pending; }, deadline, "sigtimedwait")) e = interrupted ? EINTR : EAGAIN;
      else sigchld_pending = false;
    }
    if (e) { errno = e; return -1; }
    return SIGCHLD;
  }

  // ---- wait
  int waitpid(int pid, int * status, int options) override
  {
    int r = -1, e = 0;
    {
      sim::NoInstrument q;
      ++waits;
      auto ready = [this, pid, options]() -> Process * {
        for (auto & [id, p] : table) {
          if (p.state == Process::REAPED) continue;
          if (pid > 0 && id != pid) continue;
          if (pid < -1 && p.pgrp != -pid) continue;
          if (p.state == Process::ZOMBIE) return &p;
          if (p.state == Process::STOPPED && (options & WUNTRACED) && !p.stop_reported) return &p;
        }
        return nullptr;
      };
      bool exists = false;
      for (auto & [id, p] : table)
        if (p.state != Process::REAPED && (pid == -1 || pid == 0 || id == pid || (pid < -1 && p.pgrp == -pid))) exists = true;
      if (pid == -1 || pid == 0) on_foreign("waitpid(" + std::to_string(pid) + ") may reap a child that another component owns");
      if (!exists) e = ECHILD;
      else {
        bool interrupted = false;
        if (!(options & WNOHANG)) {
          i64 deadline = -1;
          if (!ready() && sim::fault("eintr", 1, 3)) { deadline = sim::now() + static_cast<i64>(sim::choose(sim::F, 50)) * 20 * sim::ms; interrupted = true; }
          interrupted = !sim::wait_until([&] { return ready() != nullptr; }, deadline, "waitpid") && interrupted;
        }
        auto p = ready();
        if (p) {
          r = p->pid;
          if (!p->ours) on_foreign("waitpid reaps a child this component did not start");
          if (p->state == Process::ZOMBIE) { p->state = Process::REAPED; p->reaped_at = sim::now(); if (status) *status = p->status; sim::logf("reaped ", r, " status ", p->status); }
          else { p->stop_reported = true; if (status) *status = (SIGSTOP << 8) | 0x7f; sim::logf("reported stopped ", r); }
        } else if (interrupted) e = EINTR;
        else r = 0;
      }
    }
    sim::yield();
    if (e) { errno = e; return -1; }
    return r;
  }

  // ---- popen: the output comes through a real pipe-like stream so that stdio semantics are real
  struct Stream { std::string text; std::size_t pos = 0; bool closed = false; };
  std::map<void *, Stream *> streams;
  static ssize_t stream_read(void * c, char * b, size_t n)
  {
    auto s = static_cast<Stream *>(c);
    n = std::min(n, s->text.size() - s->pos);
    if (n > 1 && sim::fault("short_read", 1, 2)) n = 1 + sim::choose(sim::F, n - 1);
    memcpy(b, s->text.data() + s->pos, n);
    s->pos += n;
    return n;
  }
  void * popen(const char * command, const char * mode) override
  {
    sim::NoInstrument q;
    ++popens;
    sim::logf("popen ", command);
    if (strcmp(mode, "r")) sim::harness_error("popen mode");
    if (sim::fault("popen_fails", 1, 4)) { errno = EMFILE; return nullptr; }
    auto s = new Stream;
    if (on_popen) { if (int e = on_popen(command, s->text)) { errno = e; return nullptr; } }
    else s->text = "/opt/ros/humble/bin/ros2\n";
    cookie_io_functions_t f{stream_read, nullptr, nullptr, nullptr};
    FILE * fp = fopencookie(s, "r", f);
    streams[fp] = s;
    return fp;
  }
  int pclose(void * f) override
  {
    sim::NoInstrument q;
    ++pcloses;
    auto i = streams.find(f);
    if (i == streams.end()) sim::violation("pclose-twice", "pclose of a stream that is not open");
    streams.erase(i);
    ::fclose(static_cast<FILE *>(f));
    return 0;
  }

  int unreaped() const { int n = 0; for (auto & [id, p] : table) if (p.ours && p.state != Process::REAPED) ++n; return n; }
};
}  // namespace simos
