#include "osc.hpp"

using namespace sim;

void storyboard_scenario();
void events_scenario();
void conditions_scenario();
void signals_scenario();
void lifecycle_scenario();
void ego_scenario();
void conditions_on_entities_scenario();
void actions_on_entities_scenario();
void topics_scenario();
void preprocessor_scenario();

int main(int argc, char ** argv)
{
  const std::vector<std::string> real{"openscenario_interpreter/src/**/*.cpp (all but the process's main function)", "traffic_simulator/src/**/*.cpp", "concealer/src/*.cpp", "simple_junit, status_monitor, geometry, simulation_interface"};
  const std::vector<std::string> stub{"ROS transport, clock, timers, executors and lifecycle state machine (simulated)", "ZeroMQ transport and the simulator behind it", "lanelet2, BehaviorTree.CPP, pluginlib"};
  const std::string workload = "workload: a storyboard of 1-2 stories, acts, groups and maneuvers with 1-5 events each, actions that take time, set, add to or multiply parameters, inject faults or end the scenario, triggers of 1-3 groups of 1-3 conditions on time, parameters and storyboard element states with any edge and delay; ";
  const std::string faults = "faults: late frames, a slow simulator, refused frames; non-trivial: more than three different states of the storyboard; distinct by its transitions in order";
  return driver_main(argc, argv, {
    {"C08", storyboard_scenario, workload + faults, real, stub},
    {"C09", events_scenario, workload + faults, real, stub},
    {"C10", conditions_scenario, workload + faults, real, stub},
    {"C12", lifecycle_scenario, "workload: 1-4 scenarios one after the other in one process: valid ones ending by exitSuccess, exitFailure, an error, an unresolved reference, or not at all until deactivated or shut down from outside; unreadable ones; ones that fail or end while being activated; with and without a recorder; faults: late frames, a slow simulator, refused frames, spawns, despawns and initialisation, a recorder that cannot be started or takes long to end, interrupted system calls; distinct by the sequence of scenarios", real, stub},
    {"C21", preprocessor_scenario, "workload: 1-3 clients that load, derive, check and override parameters at the same time, 2-15 requests each, on 1-3 scenarios with up to three parameters of unusual values and names; faults: a validator that is slow, cannot be started or rejects, a full disk, short reads; non-trivial: a scenario is accepted and there are more than three requests; distinct by requests, answers and their order", {"openscenario_preprocessor.cpp", "openscenario_interpreter (parser)", "concealer/execute.cpp"}, {"ROS transport and executor (simulated)", "the validator, a process"}},
    {"C23", ego_scenario, "workload: a scenario with an Autoware vehicle (sensor and planning properties, goal or route, later routing actions) and up to two others; faults: refused and unanswered services, states that never come, emergency, unknown state, death of the process, ignored SIGINT, late frames, slow simulator, interrupted calls, the runner giving up", real, stub},
    {"C24", topics_scenario, "workload: one or two scenarios one after the other with 2-7 conditions on values from 1-3 topics of seven types, and on a relative heading; values are announced at drawn moments, empty and of unknown type ones among them; faults: slow network, stalled receiving thread, unreadable values, late frames, a slow simulator; non-trivial: more than two changes of a condition; distinct by these changes", real, stub},
    {"C25", conditions_on_entities_scenario, "workload: 2-4 vehicles, pedestrians and objects on a road or in the open that drive, jump, stand, appear, vanish and reappear, 6-15 conditions of all eleven kinds on them, on all or any of several entities or selections; faults: late frames, a slow simulator; non-trivial: more than two changes of a condition; distinct by these changes", real, stub},
    {"C26", actions_on_entities_scenario, "workload: 1-4 vehicles, pedestrians and objects and selections of them, 3-11 actions of twelve kinds on them (teleport, add, delete, speed steps and ramps, absolute and relative, limits by controllers, lane changes, trajectories, destinations, routes), each in an event of its own; faults: late frames, behaviours that take long; non-trivial: more than two actions; distinct by which action begins in which frame", real, stub},
    {"C11", signals_scenario, workload + faults, real, stub},
  });
}
