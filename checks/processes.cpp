// C06: child processes: rosbag recorder, custom commands, command substitution, ros2 launch.
#include <sim/os/os.hpp>
#include <concealer/launch.hpp>
#include <openscenario_interpreter/posix/fork_exec.hpp>
#include <openscenario_interpreter/record.hpp>

using namespace sim;
using simos::Os;
using simos::Process;

namespace
{
Os * os;
const std::string ROS2 = "/opt/ros/humble/bin/ros2";

struct Plan { i64 runtime = -1; int code = 0; i64 on_int = 0; bool stops = false; };
Plan next_plan;

std::string word()
{
  static const char * pieces[] = {"a", "record", "--storage", "x y", "", "/tmp/bag_0", "日本語", "-s", "mcap", "param:=\"1\"", "long-argument-with-many-characters-that-does-not-fit-into-a-small-buffer"};
  if (wchance(1, 40)) return std::string(w(9000), static_cast<char>('a' + w(26)));
  return pieces[w(11)];
}
u64 how_many(u64 usually) { return wchance(1, 12) ? w(400) : w(usually); }
std::string solid() { for (;;) { auto s = word(); if (!s.empty() && s.find(' ') == std::string::npos) return s; } }

void expect_argv(const Process & p, const std::vector<std::string> & want)
{
  if (p.argv == want && p.exec_file == want.at(0)) return;
  std::string g, x;
  for (auto & a : p.argv) g += "[" + a + "]";
  for (auto & a : want) x += "[" + a + "]";
  violation("argv", "the child was started with " + p.exec_file + " " + g + ", expected " + x);
}

void scenario()
{
  os = new Os;
  set_limits(30'000'000, 5000 * sec);
  const bool faults = wchance(3, 4);
  for (auto k : {"fork_fails", "popen_fails", "eintr", "short_read", "late_wakeup"}) enable_fault(k, faults && wchance(1, 2));
  enable_fault("exec_fails", faults && wchance(1, 3));
  enable_fault("child_stops", faults && wchance(1, 3));

  std::string output;
  os->on_popen = [&](const std::string & c, std::string & text) { text = c == "which ros2" ? ROS2 + "\n" : output; return 0; };
  os->exec_fails = [](const std::vector<std::string> &) { return fault("exec_fails", 1, 3); };
  os->on_exec = [](Process & p) {
    const int pid = p.pid;
    if (next_plan.runtime >= 0) os->exit_later(pid, next_plan.runtime, next_plan.code);
    if (next_plan.stops && next_plan.runtime > 3) {
      after(next_plan.runtime / 3, [pid] { os->stop(pid); }, "child stops");
      after(next_plan.runtime / 2, [pid] { os->cont(pid); }, "child continues");
      count("fault:child_stops");
    }
  };
  os->on_signal = [](Process & p, int sig) {
    if (sig != SIGINT) { os->die(p.pid, sig); return; }
    os->exit_later(p.pid, next_plan.on_int, next_plan.code);
  };

  // children of other components of the program; nobody here may touch them
  std::vector<int> siblings;
  for (u64 i = w(3); i > 0; --i) {
    int pid = os->spawn(false).pid;
    siblings.push_back(pid);
    if (wchance(1, 2)) os->exit_later(pid, range(W, 0, 60) * sec, 3);
  }

  bool recording = false, threw = false;
  int recorder = 0;
  std::string description;
  u64 shape = 7;
  const u64 n = 1 + w(8);
  for (u64 i = 0; i < n; ++i) {
    const u64 what = w(6);
    shape = shape * 11 + what;
    next_plan = Plan{};
    next_plan.code = static_cast<int>(w(4));
    const auto forks = os->forks, kills = os->kills;
    const auto size = os->table.size();
    switch (what) {
      case 0: {       // start recording (never while one is running)
        if (recording) break;
        std::vector<std::string> args;
        for (u64 k = how_many(6); k > 0; --k) args.push_back(word());
        if (wchance(1, 3)) next_plan.runtime = range(W, 0, 20) * sec;     // the recorder dies by itself
        next_plan.on_int = range(W, 0, 15000) * ms;
        description += " start";
        threw = false;
        int pid = 0;
        try { pid = openscenario_interpreter::record::start(args); }
        catch (const std::system_error & e) {
          threw = true;
          description += "(fails)";
          check(e.code().value() == EAGAIN || e.code().value() == EMFILE, "error-code", std::string("record::start reports ") + e.what());
          check(os->table.size() == size, "start-throws-with-child", "record::start throws although a child was created");
        }
        if (!threw) {
          check(os->forks == forks + 1 && os->table.count(pid) == 1, "start-pid", "record::start does not return the number of its child");
          recording = true;
          recorder = pid;
          if (os->table.at(pid).execed) {
            std::vector<std::string> want{"python3", ROS2, "bag", "record"};
            want.insert(want.end(), args.begin(), args.end());
            expect_argv(os->table.at(pid), want);
          }
          if (wchance(1, 2)) std::this_thread::sleep_for(std::chrono::milliseconds(range(W, 0, 25000)));
        }
        break;
      }
      case 1: {       // the interpreter stops the recorder whenever a scenario ends, also after a failed start
        description += " stop";
        const i64 t = now();
        if (recording) next_plan.on_int = range(W, 0, 15000) * ms;
        openscenario_interpreter::record::stop();
        if (recording) {
          auto & p = os->table.at(recorder);
          check(p.state == Process::REAPED, "recorder-survives", "record::stop returned but the recorder is still there, so its bag is incomplete or a zombie stays behind");
          auto ints = std::count(p.signals.begin(), p.signals.end(), SIGINT);
          check(ints == (p.signals.size() ? 1 : 0) && p.signals.size() <= 1, "recorder-signals", "the recorder received signals other than one SIGINT");
          if (p.died_at >= t + 3 * sec + 200 * ms) check(ints == 1 || p.status != 0, "recorder-not-interrupted", "the recorder was not asked to finish");
          if (ints) check(now() - t >= 3 * sec, "recorder-too-early", "SIGINT was sent before the recorder had the time to start");
        } else {
          check(os->kills == kills, "signal-without-recorder", "record::stop signals a process although no recorder is running");
        }
        recording = false;
        break;
      }
      case 2: {       // custom command
        std::string command = solid(), arguments;
        std::vector<std::string> want{command};
        const bool as_list = wchance(1, 3);
        for (u64 k = how_many(5); k > 0; --k) { auto a = as_list ? word() : solid(); want.push_back(a); arguments += (arguments.empty() ? "" : " ") + a; }
        next_plan.runtime = range(W, 0, 30000) * ms;
        next_plan.stops = fault_enabled("child_stops") && wchance(1, 2);
        description += " command";
        threw = false;
        int pid = 0;
        try { pid = as_list ? openscenario_interpreter::fork_exec(want) : openscenario_interpreter::fork_exec(command, arguments); }
        catch (const std::system_error & e) {
          threw = true;
          check(os->table.size() == size && e.code().value() == EAGAIN, "error-code", std::string("fork_exec reports ") + e.what());
        }
        if (!threw) {
          check(os->table.count(pid) == 1, "command-pid", "fork_exec does not return the number of its child");
          auto & p = os->table.at(pid);
          if (p.execed) expect_argv(p, want);
          check(p.state == Process::REAPED, "command-still-running", "fork_exec returned before the command ended, or left a zombie");
        }
        break;
      }
      case 3: {       // command substitution
        output.clear();
        static const std::size_t sizes[] = {0, 1, 126, 127, 128, 129, 255, 256, 1000, 5000};
        auto size_ = sizes[w(10)] + w(3);
        // lines: long, ordinary, mostly empty, or of exactly the length a buffer might have
        static const int lengths[] = {61, 126, 127, 128, 3, 1, 254, 1000000};
        const int line = lengths[w(8)];
        const bool exactly = wchance(1, 2), blanks = wchance(1, 2);
        for (std::size_t k = 0, column = 0; k < size_; ++k) {
          const bool end = static_cast<int>(column) == line || (!exactly && column && k % 7 == 0 && w(4) == 0) || (blanks && !column && k % 3 == 0);
          output += end ? '\n' : static_cast<char>('a' + k % 26);
          column = end ? 0 : column + 1;
        }
        description += " dollar" + std::to_string(size_);
        const auto closes = os->pcloses, opens = os->popens;
        try {
          auto got = concealer::dollar("some command");
          check(got == output, "dollar-output", "command substitution returned " + std::to_string(got.size()) + " of " + std::to_string(output.size()) + " bytes, or different ones");
          check(os->pcloses == closes + 1, "dollar-leak", "the pipe of the command was not closed exactly once");
        } catch (const std::system_error & e) {
          check(e.code().value() == EMFILE && fault_enabled("popen_fails"), "error-code", std::string("dollar reports ") + e.what());
          check(os->pcloses == closes, "dollar-close", "a pipe that was never opened was closed");
        }
        check(os->popens == opens + 1, "dollar-runs", "the command did not run exactly once");
        break;
      }
      case 4: {       // ros2 launch
        std::vector<std::string> parameters, want{"python3", ROS2, "launch", "autoware_launch", "planning.launch.xml"};
        for (u64 k = how_many(5); k > 0; --k) parameters.push_back(word());
        want.insert(want.end(), parameters.begin(), parameters.end());
        description += " launch";
        threw = false;
        int pid = 0;
        next_plan.runtime = wchance(1, 3) ? range(W, 0, 10) * sec : -1;
        try { pid = concealer::ros2_launch("autoware_launch", "planning.launch.xml", parameters); }
        catch (const std::system_error & e) {
          threw = true;
          check(os->table.size() == size && (e.code().value() == EAGAIN || e.code().value() == EMFILE), "error-code", std::string("ros2_launch reports ") + e.what());
        }
        if (!threw) {
          check(os->table.count(pid) == 1, "launch-pid", "ros2_launch does not return the number of its child");
          auto & p = os->table.at(pid);
          if (p.execed) expect_argv(p, want);
          check(p.state != Process::REAPED, "launch-reaped", "ros2_launch waits for what it launched");
          p.ours = false;        // from now on it belongs to the caller
        }
        break;
      }
      case 5:
        std::this_thread::sleep_for(std::chrono::milliseconds(range(W, 0, 5000)));
        break;
    }
    for (auto s : siblings) check(os->table.at(s).signals.empty() && os->table.at(s).state != Process::REAPED, "foreign-process", "a process of another component was signalled or reaped");
  }
  check(os->streams.empty(), "dollar-leak", "a pipe is left open");
  if (os->execs_failed) probe("program could not be executed");
  if (threw) probe("last start failed");
  state(shape % 100003);
  if (os->forks + os->popens > 0) { nontrivial(hash_str(description, shape + os->kills * 31 + os->waits)); sample(description + "; " + std::to_string(os->forks) + " forks, " + std::to_string(os->kills) + " signals, " + std::to_string(os->waits) + " waits"); }
}
}  // namespace

int main(int argc, char ** argv)
{
  return driver_main(argc, argv, {{"C06", scenario,
    "workload: 1-8 operations out of recorder start/stop (stop also after a failed start), custom command, command substitution, launch; siblings owned by others exist and die; "
    "faults: fork, popen and exec fail, waits are interrupted, children stop and continue or die early, reads are short; non-trivial: at least one child was requested; distinct by operations and numbers of system calls",
    {"openscenario_interpreter/src/record.cpp, record.hpp", "openscenario_interpreter/src/posix/fork_exec.cpp, string/split.hpp", "concealer/src/execute.cpp, launch.hpp", "the forked child up to exec or exit (a real child process)"},
    {"process table, signals, wait, popen (simulated)", "the executed programs", "clock and sleep (simulated)"}}});
}
