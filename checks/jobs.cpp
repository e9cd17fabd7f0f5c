// C19: the jobs of an entity (traffic_simulator::job::JobList): what is requested of an entity is carried out frame by frame.
#include <sim/kernel/kernel.hpp>
#include <traffic_simulator/job/job_list.hpp>
#include <cmath>
#include <memory>

using namespace sim;
using namespace traffic_simulator;

namespace
{
struct J
{
  int type; bool exclusive; job::Event event;
  int lasts = -1;                 // completes at this call (-1: never)
  double duration = 0;            // of the frames since it became active
  bool active = true;
  int calls = 0, cleanups = 0;
  int calls_in_frame = 0;
  i64 appended = 0;
};
struct Model
{
  std::vector<J> jobs;
  int updating = -1;              // phase being updated, -1: none
  std::vector<int> may_clean;     // jobs that may be cleaned up by the call in progress
  int captures = 0;
};
Model * M;

bool on_update(int id, double duration)
{
  auto & j = M->jobs[id];
  const auto name = "job " + std::to_string(id);
  check(M->updating >= 0, "update-outside-frame", name + " is updated although no frame is in progress");
  check(M->updating == static_cast<int>(j.event), "wrong-phase", name + " is updated in the wrong phase of the frame");
  check(j.active, "runs-after-end", name + " is updated although it is complete or was replaced");
  check(++j.calls_in_frame == 1, "updated-twice", name + " is updated twice in one frame");
  check(std::abs(duration - j.duration) <= 1e-9 * (1 + std::abs(j.duration)), "wrong-duration", name + " is told " + std::to_string(duration) + " s, it has been active for " + std::to_string(j.duration) + " s");
  ++j.calls;
  logf(name, " updated at ", duration);
  if (j.lasts >= 0 && j.calls > j.lasts) { M->may_clean.push_back(id); return true; }
  return false;
}

void on_cleanup(int id)
{
  auto & j = M->jobs[id];
  const auto name = "job " + std::to_string(id);
  check(std::find(M->may_clean.begin(), M->may_clean.end(), id) != M->may_clean.end(), "cleanup-without-reason", name + " is cleaned up although it is neither complete nor replaced");
  check(++j.cleanups == 1, "cleanup-twice", name + " is cleaned up twice");
  j.active = false;
  logf(name, " cleaned up");
}

struct Capture
{
  Capture() { ++M->captures; }
  Capture(const Capture &) { ++M->captures; }
  ~Capture() { --M->captures; }
};

void scenario()
{
  M = new Model;
  set_limits(2'000'000, 3600 * sec);
  enable_fault("frame_jitter", wchance(1, 3));       // frames of changing length (a stalled simulator, a changed real-time factor)
  const double base = std::vector<double>{1. / 30, 1. / 20, 0.1, 0.01, 1}[w(5)];
  const int frames = 1 + static_cast<int>(w(40));
  const int chattiness = 1 + static_cast<int>(w(6));
  u64 shape = 0;
  int replaced = 0, completed = 0;
  {
    job::JobList list;
    auto append = [&] {
      const int id = static_cast<int>(M->jobs.size());
      J j;
      j.exclusive = wchance(7, 8);
      j.type = j.exclusive ? static_cast<int>(w(4)) + 1 : (wchance(1, 2) ? 0 : 5);     // a non-exclusive job shares its type with nobody
      if (!j.exclusive) for (auto & o : M->jobs) if (o.type == j.type) { j.exclusive = true; j.type = 1; }
      j.event = wchance(1, 3) ? job::Event::PRE_UPDATE : job::Event::POST_UPDATE;
      j.lasts = wchance(1, 4) ? -1 : static_cast<int>(w(12));
      std::vector<int> due;
      for (int k = 0; k < id; ++k) if (M->jobs[k].active && M->jobs[k].type == j.type && j.exclusive) due.push_back(k);
      M->jobs.push_back(j);
      M->may_clean = due;
      shape = shape * 31 + j.type * 2 + static_cast<int>(j.event);
      logf("append job ", id, " type ", j.type, " phase ", static_cast<int>(j.event), " lasts ", j.lasts);
      auto c = std::make_shared<Capture>();
      list.append([id, c](double d) { return on_update(id, d); }, [id, c] { on_cleanup(id); }, static_cast<job::Type>(j.type), j.exclusive, j.event);
      for (int k : due) check(M->jobs[k].cleanups == 1, "replaced-without-cleanup", "job " + std::to_string(k) + " was replaced by job " + std::to_string(id) + " and is not cleaned up");
      replaced += static_cast<int>(due.size());
      M->may_clean.clear();
    };
    auto phase = [&](job::Event e, double step) {
      M->updating = static_cast<int>(e);
      M->may_clean.clear();
      for (auto & j : M->jobs) j.calls_in_frame = 0;
      std::vector<int> due;
      for (std::size_t k = 0; k < M->jobs.size(); ++k) if (M->jobs[k].active && M->jobs[k].event == e) due.push_back(static_cast<int>(k));
      list.update(step, e);
      for (int k : due) {
        auto & j = M->jobs[k];
        check(j.calls_in_frame == 1, "not-updated", "job " + std::to_string(k) + " is active and is not updated in this frame");
        if (j.lasts >= 0 && j.calls > j.lasts) { check(j.cleanups == 1, "no-cleanup", "job " + std::to_string(k) + " is complete and is not cleaned up"); ++completed; }
        j.duration += step;
      }
      M->updating = -1;
      M->may_clean.clear();
    };
    for (int f = 0; f < frames; ++f) {
      if (w(8) < static_cast<u64>(chattiness)) for (u64 n = 1 + w(3); n; --n) append();
      double step = base;
      if (fault("frame_jitter", 2, 3)) { step = choose(F, 4) == 0 ? 0 : base * static_cast<double>(choose(F, 50)) / 10; }
      phase(job::Event::PRE_UPDATE, step);
      if (wchance(1, 6)) append();                      // requested by the update of the entity itself
      phase(job::Event::POST_UPDATE, step);
      sim::sleep_ns(static_cast<i64>(step * 1e9));
      u64 active = 0;
      for (auto & j : M->jobs) active += j.active;
      state(shape % 4093 * 64 + active);
    }
    for (auto & j : M->jobs) check(!j.active || j.cleanups == 0, "cleanup-without-reason", "an active job was cleaned up");
  }
  check(M->captures == 0, "leak", std::to_string(M->captures) + " jobs outlive their list");
  for (auto & j : M->jobs) check(j.cleanups == (j.active ? 0 : 1), "cleanup-without-reason", "a job is cleaned up when the entity goes away");
  if (replaced) probe("a job was replaced by a newer one");
  if (completed) probe("a job completed");
  if (completed + replaced) { nontrivial(shape * 131 + frames); sample(std::to_string(frames) + " frames, " + std::to_string(M->jobs.size()) + " jobs, " + std::to_string(completed) + " completed, " + std::to_string(replaced) + " replaced"); }
}
}  // namespace

int main(int argc, char ** argv)
{
  return driver_main(argc, argv, {{"C19", scenario,
    "workload: 1-40 frames with two phases, up to three new jobs before each and sometimes one between the phases, of all types, lasting 0-12 frames or for ever; fault: frames of changing and zero length; "
    "non-trivial: a job completed or was replaced; distinct by job types, phases and number of frames",
    {"traffic_simulator/job/job.cpp, job_list.cpp"}, {"the entity (its callbacks are recording stand-ins)"}}});
}
