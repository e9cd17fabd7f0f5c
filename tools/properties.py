#!/usr/bin/env python3
"""The text of the properties; writes properties.jsonl."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "observe_at": observe, "hook_needed": hook}})
S, F, I, H, C, X = "schedules", "fault_sequences", "inputs", "histories", "configurations", "crash_points"

CON = "external/concealer/"
INT = "openscenario/openscenario_interpreter/"

p("C01", "Requests to Autoware are made once, in order, and every failure surfaces",
  "The requests a scenario makes to Autoware (initial pose, route, engage, clear, velocity limit, cooperation, control) reach Autoware in the order they were made, one at a time, each retried at a bounded rate and at most 30 times until Autoware confirms it and never again afterwards, and engaging or routing happens only in a state of Autoware in which it makes sense. "
  "A request that cannot succeed (refused or unanswered 30 times, service absent for 180 s, time limit of the initialization reached, wrong state) stops the queue and is reported to the simulator as an AutowareError, on that and every later frame, and never without such a reason. "
  "Autoware is reported as engaged or engageable only when no request is pending and Autoware is in that state.",
  [S, F, H], "all request sequences, all interleavings of the frame loop with the dispatcher, all patterns of lost, late, refused or duplicated answers, absent services and stuck states of Autoware",
  "No test drives the concealer at all: it needs ROS 2 and an Autoware, and the retries, time limits and state waits depend on answers that are lost or late at particular moments.",
  [CON + "include/concealer/service.hpp", CON + "src/field_operator_application.cpp", CON + "include/concealer/field_operator_application.hpp", CON + "src/task_queue.cpp"],
  [("Service::operator() retry and availability loop", CON + "include/concealer/service.hpp"), ("waitForAutowareStateToBe and time_limit", CON + "include/concealer/field_operator_application.hpp"), ("TaskQueue::delay/rethrow", CON + "src/task_queue.cpp"), ("getLegacyAutowareState", CON + "include/concealer/legacy_autoware_state.hpp")],
  ["service requests as Autoware receives them", "engaged()/engageable()", "exceptions out of spinSome/engaged/engageable"])

p("C02", "Deferred tasks run once, in order, off the caller; the first error stops them",
  "Every task handed to the task queue runs exactly once, in the order of submission, one at a time and on a thread other than the caller's, unless an earlier task failed or the queue is destroyed. "
  "The first task that throws stops the queue: its exception is the one rethrown to every later caller, no later task runs and the queue does not become empty. "
  "Emptiness is reported only after the last task has finished, waiting for emptiness ends when it is reached or an error occurred, and destruction joins the dispatcher without running anything afterwards.",
  [S, F, H], "all interleavings of submitters, the dispatcher and the destructor; all durations and failures of tasks; shutdown of the middleware at any point",
  "There is no test of the queue; a unit test would see one interleaving, while the property is about the windows between dispatch, completion, failure and destruction.",
  [CON + "src/task_queue.cpp", CON + "include/concealer/task_queue.hpp"],
  [("dispatcher loop", CON + "src/task_queue.cpp"), ("TaskQueue::delay, exhausted, rethrow, empty", CON + "src/task_queue.cpp")],
  ["start and end of the tasks", "results and exceptions of the queue's operations"])

p("C03", "The Autoware process is supervised and never left running or half-killed",
  "When the Autoware process the simulator launched exits or is killed while a scenario runs, the next frame reports it once as an AutowareError that tells the exit code or signal; a living or merely stopped process is never reported as ended. "
  "On teardown a living Autoware gets SIGINT, and only if it has not ended when the configured grace period is over it is killed; it is reaped in any case, within the grace period plus a small constant, and no other process is ever signalled or reaped.",
  [S, F, X], "all times of death, kinds of death, reactions to SIGINT, other children ending, signals interrupting waits and which thread takes SIGCHLD",
  "Process death and signal delivery at arbitrary moments are not exercised by any test; the windows are a few instructions wide.",
  [CON + "src/field_operator_application.cpp", CON + "include/concealer/launch.hpp"],
  [("spinSome: waitpid(WNOHANG)", CON + "src/field_operator_application.cpp"), ("~FieldOperatorApplication: SIGINT, sigtimedwait, SIGKILL, waitpid", CON + "src/field_operator_application.cpp")],
  ["signals and waits as the operating system receives them", "exceptions out of spinSome"])

p("C04", "Autoware is told how the vehicle is, whole and on time, and so are its commands",
  "While a vehicle exists, its localization (pose, odometry, acceleration), its transform and its status (velocity, steering, gear, turn indicator, control mode) are published at 20 ms, 5 ms and 33 ms periods on the topics that belong to the localization mode, stamped with the current time, and every message carries one value that was really set (never a mixture of two) and that was the current one when it was published. "
  "What Autoware commands (control, gear, path) is read whole, in order and without delay; a command to change the control mode is accepted for AUTONOMOUS only, and the reported mode is what was accepted or set. "
  "Noise on a topic depends on its seed and messages only, has the configured parameters and is absent below the speed threshold. A failure of the publishing thread surfaces, as the error it is, in the next frame, and destruction ends the thread promptly and publishes nothing afterwards.",
  [S, F, H], "all interleavings of the frame loop with the publishing thread, all orders and delays of commands, all noise parameters and seeds, publish failures and stalled threads",
  "No test runs AutowareUniverse (it needs ROS 2); torn or stale values and lost errors appear in single interleavings only.",
  [CON + "src/autoware_universe.cpp", CON + "include/concealer/autoware_universe.hpp", CON + "include/concealer/publisher.hpp", CON + "src/publisher.cpp", CON + "include/concealer/subscriber.hpp", CON + "include/concealer/continuous_transform_broadcaster.hpp"],
  [("localization and vehicle state timers", CON + "src/autoware_universe.cpp"), ("spinner and rethrow", CON + "src/autoware_universe.cpp"), ("Subscriber::operator()", CON + "include/concealer/subscriber.hpp"), ("NormalDistribution", CON + "src/publisher.cpp")],
  ["messages and service answers as Autoware receives them", "getVehicleCommand/getRouteLanelets/getControlModeReport", "rethrow()"])

p("C05", "A stalled thread is noticed and healthy ones are never declared dead",
  "While it runs, the status monitor writes records at its period; every record is complete, lists exactly the threads that registered and have not ended, under the name they registered with, and declares a thread (and hence the whole) not good exactly when it has not touched the monitor for longer than the threshold in force. "
  "Touching, ending and temporarily overriding the threshold from any thread in any order never corrupts the record, loses an override or a thunk's result, or blocks for long. "
  "Shutting down ends the watchdog promptly, writes nothing afterwards and leaves no torn record or open file behind.",
  [S, F, H], "all interleavings of any number of threads touching, ending and overriding with the watchdog, thread stalls, late wake-ups, clock jumps, disk errors and shutdown at any point",
  "The header is only compiled by the build; no test runs it, and its guarantees concern interleavings of several threads with a watchdog.",
  ["common/status_monitor/src/status_monitor.cpp", "common/status_monitor/include/status_monitor/status_monitor.hpp"],
  [("touch / Status::check", "common/status_monitor/include/status_monitor/status_monitor.hpp"), ("write and the watchdog thread", "common/status_monitor/src/status_monitor.cpp"), ("ScopedExchanger", "common/status_monitor/include/status_monitor/status_monitor.hpp")],
  ["status file", "results of the monitor's queries"])

p("C06", "Child processes are started faithfully, awaited fully and reaped exactly once",
  "A custom command of a scenario runs with exactly the given program and arguments, and the call returns the number of that very child only after it has ended and was reaped, whatever stops, signals or other children interrupt the wait; a child that cannot be created is an error for the caller, and one whose program cannot be executed ends without running anything else of the simulator. "
  "The rosbag recorder is started with exactly the configured options, stopped with SIGINT and reaped once per recording, and start, stop and failure to start in any order signal or reap nothing else; output captured from a command is complete and its pipe is closed.",
  [S, F, X], "all argument vectors, exit statuses, deaths by signal, interrupted waits, short reads, failing fork/exec/popen, sibling processes, and all orders of record start and stop",
  "The tests never fork; failures of fork, exec, waitpid and read cannot be provoked by ordinary unit tests.",
  [INT + "src/posix/fork_exec.cpp", INT + "src/record.cpp", INT + "include/openscenario_interpreter/record.hpp", CON + "src/execute.cpp", CON + "include/concealer/launch.hpp"],
  [("fork_exec", INT + "src/posix/fork_exec.cpp"), ("record::start, record::stop", INT + "src/record.cpp"), ("execute, dollar", CON + "src/execute.cpp"), ("ros2_launch", CON + "include/concealer/launch.hpp")],
  ["fork, exec, kill, wait, popen as the operating system receives them", "return values and exceptions"])

p("C07", "The test report always says exactly what was recorded",
  "A JUnit report written at any time without a disk error is well-formed, reads back to exactly the suites and cases recorded so far with their results, texts and times, and states counts and total times that are the sums of what it contains. "
  "When the disk fails or the machine stops during the write, a report that can still be read in full neither loses nor invents a result, and what is in memory is unaffected, so that a later write is complete.",
  [I, F, H], "all sequences of recording and writing, all texts valid in XML, times of any size, and all disk errors, short and torn writes",
  "The tests do not touch the reporter; verdicts reach users only through this file, for arbitrary names, messages, times and I/O failures.",
  ["common/simple_junit/src/test_suites.cpp", "common/simple_junit/include/simple_junit/test_suites.hpp", "common/simple_junit/include/simple_junit/test_suite.hpp", "common/simple_junit/include/simple_junit/test_case.hpp"],
  [("operator<< of the XML nodes", "common/simple_junit/include/simple_junit/"), ("JUnit5::write_to", "common/simple_junit/include/simple_junit/junit5.hpp")],
  ["the report file"])

p("C19", "A request to an entity is worked on every frame until done, and ended once",
  "Every job an entity was given (change of speed, acceleration, distance and standstill accounting, ...) is updated exactly once per frame, in its own phase, with the simulated time that has passed since it became active, until it reports completion or a newer exclusive job of its type replaces it; at that moment, and only then, its cleanup runs, exactly once, and the job never runs again. "
  "Jobs of other types, phases and lists are unaffected, whatever the lengths of the frames.",
  [H, I], "all sequences of requests, completions and replacements over any number of frames of any length",
  "The tests append one or two jobs and update once; the property is about histories of many jobs over many frames.",
  ["simulation/traffic_simulator/src/job/job_list.cpp", "simulation/traffic_simulator/src/job/job.cpp", "simulation/traffic_simulator/include/traffic_simulator/job/job.hpp"],
  [("Job::onUpdate, Job::inactivate", "simulation/traffic_simulator/src/job/job.cpp"), ("JobList::append, JobList::update", "simulation/traffic_simulator/src/job/job_list.cpp")],
  ["calls of the update and cleanup functions of the jobs"])

TS = "simulation/traffic_simulator/"
p("C13", "Simulated time advances frame by frame, and everyone sees the same time",
  "Every completed frame advances simulated time by exactly one step of real-time factor / frame rate, a frame the simulator refuses advances nothing, and the simulator, the entities, the published clock and the published entity states are all given that same time. "
  "Scenario time is undefined until the scenario starts and is the sum of the steps since; a scenario starts once; a valid change of the real-time factor reaches the simulator and takes effect from the next frame, an invalid one changes nothing; clocks never run backwards.",
  [I, H, F], "all frame rates, real-time factors and changes of them, refusals and delays of the simulator, and moments of starting the scenario, with simulated and with wall clock",
  "The tests check one clock object in isolation; agreement between the parties over histories with failures is never exercised.",
  [TS + "src/api/api.cpp", TS + "src/simulation_clock/simulation_clock.cpp", TS + "src/entity/entity_manager.cpp"],
  [("API::updateFrame, API::setSimulationStepTime, API::startNpcLogic", TS + "src/api/api.cpp"), ("SimulationClock", TS + "src/simulation_clock/simulation_clock.cpp")],
  ["requests to the simulator", "/clock and /entity/status messages", "API::getCurrentTime"])

p("C14", "Entities exist alike in the scenario, the simulator and the messages",
  "An entity exists from its accepted spawn until its despawn and at no other time; while it exists the simulator has it with the same name, kind, size, asset and pose, every frame's status request and status message list it exactly once with its state, and it keeps its pose, motion and behaviour parameters unless it is told to change, also when its behaviour is replaced. "
  "Taken names and unknown behaviours are refused without a request to the simulator, a refusal by the simulator is reported, and what the simulator says about an entity is taken over.",
  [H, I, F], "all sequences of spawns, despawns, changes and frames, kinds and poses of entities, and refusals and corrections by the simulator",
  "The tests spawn one entity without a simulator at the other end; nothing compares the two sides over a history.",
  [TS + "src/api/api.cpp", TS + "include/traffic_simulator/api/api.hpp", TS + "src/entity/entity_manager.cpp", TS + "src/entity/entity_base.cpp"],
  [("API::spawn, API::despawn, API::updateEntitiesStatusInSim", TS + "src/api/api.cpp"), ("EntityManager::spawnEntity, resetBehaviorPlugin, update", TS + "src/entity/entity_manager.cpp")],
  ["requests to the simulator", "/entity/status messages", "state of the entities through the API"])

p("C15", "Traffic lights show what was set, in the channel and at the rate promised",
  "Each of the four channels (conventional and V2I, ground truth and detected) shows for every light exactly what was last set, added and cleared for it, by way or by group id; detected states replace the ground truth in what Autoware's perception is given and nowhere else; a light with V2I enabled follows its conventional state; predictions are published until cleared. "
  "The simulator gets the lights in every frame, the topics are published at their configured rates from the start of the scenario and never more often, and conditions on lights agree with what is shown.",
  [I, H, F], "all sequences of changes in the four channels by either kind of id, with rate changes, stalls and refused frames",
  "The tests set single states; overriding, mirroring, grouping and cadence are properties of histories and of time.",
  [TS + "src/traffic_lights/traffic_lights.cpp", TS + "src/traffic_lights/traffic_lights_base.cpp", TS + "include/traffic_simulator/traffic_lights/traffic_lights.hpp", TS + "src/traffic_lights/traffic_light_publisher.cpp", TS + "src/traffic_lights/configurable_rate_updater.cpp"],
  [("TrafficLights, DetectedTrafficLights, V2ITrafficLights", TS + "include/traffic_simulator/traffic_lights/traffic_lights.hpp"), ("TrafficLightPublisher::generateMessage", TS + "src/traffic_lights/traffic_light_publisher.cpp")],
  ["/simulation/traffic_lights, /v2x/traffic_signals, /perception/traffic_light_recognition/external/traffic_signals", "UpdateTrafficLights requests", "compareTrafficLightsState, isRequiredStopTrafficLightState"])

p("C16", "Traffic sources and sinks make and remove exactly the traffic they should",
  "A traffic source generates its k-th entity in the first frame after start + k/rate, numbered and named uniquely, of a type with a positive weight, at the given speed, inside its area and, unless configured otherwise, in a lane and fitting in lanes; sources of the same seed generate the same traffic. "
  "Automatic sinks remove, in the frame they arrive, exactly the entities of the configured types that are within a metre of the end of a road, here and in the simulator, once; refused frames and changed real-time factors neither repeat nor lose anything.",
  [I, H, F], "all rates, radii, seeds, type mixes, placements, frame lengths, and refused frames",
  "The tests do not run traffic sources; the guarantee is about counts and places over many frames.",
  [TS + "src/traffic/traffic_source.cpp", TS + "include/traffic_simulator/traffic/traffic_source.hpp", TS + "src/traffic/traffic_sink.cpp", TS + "src/traffic/traffic_controller.cpp"],
  [("TrafficSource::execute, isPoseValid", TS + "src/traffic/traffic_source.cpp"), ("TrafficSink::execute", TS + "src/traffic/traffic_sink.cpp")],
  ["entity names, poses and speeds through the API", "spawn and despawn requests to the simulator"])

p("C08", "A storyboard runs through the states of the standard, frame by frame",
  "In every frame each storyboard element (story, act, maneuver group, maneuver, event, action) is in the state the OpenSCENARIO standard prescribes given its triggers, its parent and its children: standby until its start trigger holds, running until its children are complete or its goal is accomplished, then complete (or standby again while executions are left); "
  "a stop trigger stops the element and everything below it, including what had not started, which is then complete and never runs. "
  "Each frame is evaluated once, in document order; the scenario ends in the frame in which, and only if, an action or condition ends it, with the verdict of that action and a message that points at the trigger.",
  [I, H, F], "all storyboards, triggers and durations of actions; frames that the simulator refuses, answers late or that come late",
  "The tests parse types; none runs a storyboard. The state of an element depends on the whole history of the tree.",
  [INT + "include/openscenario_interpreter/syntax/storyboard_element.hpp", INT + "src/syntax/storyboard.cpp", INT + "src/syntax/act.cpp", INT + "src/syntax/maneuver_group.cpp", INT + "src/syntax/maneuver.cpp", INT + "src/syntax/event.cpp", INT + "src/openscenario_interpreter.cpp"],
  [("StoryboardElement::evaluate, stop, transitionTo", INT + "include/openscenario_interpreter/syntax/storyboard_element.hpp"), ("SpecialAction<EXIT_FAILURE>", INT + "include/openscenario_interpreter/syntax/custom_command_action.hpp")],
  ["/context messages", "/simulation/events messages", "result.junit.xml"])

p("C09", "Events override, skip and repeat as declared, and execute their actions once",
  "An event starts in the first frame its trigger holds, at most as often as its maximum execution count, and each start executes each of its actions exactly once, in order. "
  "Starting an overriding event stops exactly the running events of the same maneuver, in that frame; an event with priority skip does not start, and uses up no execution, while another event of its maneuver runs; parallel events do not affect each other.",
  [I, H, F], "all combinations of priorities, execution counts, trigger times and durations of competing events",
  "No test runs an event; which events run together depends on the times of all triggers.",
  [INT + "src/syntax/event.cpp", INT + "src/syntax/maneuver.cpp", INT + "include/openscenario_interpreter/syntax/storyboard_element.hpp"],
  [("Event::start, Maneuver::overrideEvents, running_events_count", INT + "src/syntax/event.cpp")],
  ["/context messages", "/simulation/events messages"])

p("C10", "Conditions see the right values, edges and delays; triggers combine them",
  "A condition is true exactly when its rule holds for the value it refers to as it was `delay` ago, and, if it has an edge, when that value changed in the direction of the edge from one evaluation to the next; a sticky condition stays true. "
  "A condition on the state of a storyboard element holds while the element is in that state and for a transition that happened since the last evaluation. "
  "All conditions of a group and all groups of a trigger are evaluated in every frame their element is evaluated in; a group holds if all of its conditions do and a trigger if one of its groups does, and the reported values are these.",
  [I, H, F], "all rules, edges, delays, values and combinations of conditions, over every history of times, parameters and states; late and refused frames",
  "Edges and delays are statements about histories of evaluations; no test evaluates a condition twice.",
  [INT + "src/syntax/condition.cpp", INT + "include/openscenario_interpreter/syntax/condition.hpp", INT + "src/syntax/condition_group.cpp", INT + "src/syntax/trigger.cpp", INT + "src/syntax/storyboard_element_state_condition.cpp"],
  [("Condition::evaluate, ConditionEdge", INT + "src/syntax/condition.cpp"), ("Trigger::evaluate, ConditionGroup::evaluate", INT + "src/syntax/trigger.cpp")],
  ["/context messages"])

p("C11", "Traffic signal controllers show their phases in time and in step",
  "Each traffic signal controller begins its first phase in the first frame, or, if it follows another one, in the first frame later than `delay` after that one began its cycle; each phase lasts until the first frame in which its duration is over, then the next one begins, cyclically, unless an action sets a phase. "
  "While a phase lasts the lights show exactly its states (in the simulator, on the topics and to conditions), those of the previous phase are gone, and the V2I predictions of its lights are the states of the next six phases with the times they begin. "
  "Conditions on controllers hold exactly in their phase. A controller whose cycle time differs from its reference's, or whose reference is missing, is refused.",
  [I, H, F], "all controllers, phases, delays, references, phase changes and single lights set by actions; late and refused frames",
  "No test runs a controller; phases, references and predictions are statements about time over many frames.",
  [INT + "src/syntax/traffic_signal_controller.cpp", INT + "src/syntax/phase.cpp", INT + "src/syntax/traffic_signals.cpp", INT + "src/syntax/traffic_signal_state.cpp", TS + "src/traffic_lights/traffic_lights.cpp"],
  [("TrafficSignalController::evaluate, changePhaseTo, notifyBegin, updatePredictions", INT + "src/syntax/traffic_signal_controller.cpp"), ("TrafficSignalControllerCondition, TrafficSignalCondition", INT + "src/syntax/traffic_signal_controller_condition.cpp")],
  ["UpdateTrafficLights requests", "/simulation/traffic_lights and /v2x/traffic_signals messages", "conditions in /context messages"])

p("C12", "The interpreter gives one verdict per scenario and leaves nothing behind",
  "Every scenario given to the interpreter node gets exactly one verdict in result.junit.xml, under its own suite and name, whatever ends it: success or failure by the scenario, an error in it (unreadable, invalid, unresolvable), a simulator that refuses, a recorder that cannot be started, or the runner giving up (a Timeout failure). "
  "The node is back in the state from which the next scenario can be configured, the verdicts of earlier scenarios stay, an ended scenario cannot be activated again. "
  "Once a scenario has ended, by itself or by deactivation or shutdown, all its entities are gone from the simulator, the recorder has got its SIGINT and was waited for, and nothing more is published or requested. The recorder is started once, with the given options.",
  [H, I, F], "all sequences of scenarios in one process; unreadable, failing, ending during activation, running, deactivated or shut down at any time; with refusals by the simulator and failures to start or stop the recorder",
  "No test runs the node; what is left behind depends on the moment and the way a scenario ends and shows only in what follows it.",
  [INT + "src/openscenario_interpreter.cpp", INT + "src/record.cpp", INT + "include/openscenario_interpreter/simulator_core.hpp", TS + "src/api/api.cpp", "common/simple_junit/include/simple_junit/junit5.hpp"],
  [("Interpreter::on_configure, on_activate, on_deactivate, on_shutdown, reset, withExceptionHandler", INT + "src/openscenario_interpreter.cpp"), ("SimulatorCore::activate, deactivate", INT + "include/openscenario_interpreter/simulator_core.hpp"), ("API::despawnEntities", TS + "src/api/api.cpp")],
  ["result.junit.xml", "lifecycle state of the node", "requests to the simulator", "/context", "processes and signals"])

p("C23", "A scenario with Autoware starts only when it drives; trouble ends it",
  "In a scenario with an ego vehicle, Autoware receives exactly what the scenario asks for, in order: stop, speed limit, module permissions, route cleared, initial pose, goal or route, engagement; a later routing action clears, routes and engages again. "
  "The next request follows only after the previous one was accepted. Scenario time, storyboard and other vehicles stand still until Autoware drives and then run without being stopped again. "
  "The sensors attached are configured as the ego's properties say. Values of ego.* conditions are those Autoware last announced. "
  "An emergency, the death of Autoware's process, an unknown state, a refused request or preparation beyond initialize_duration ends the scenario in bounded time with an error naming the kind of trouble, no pass; without trouble the scenario's own verdict counts. Autoware's process is gone afterwards and nothing more is requested.",
  [S, F, I, X], "all goals and routes, orders of entities, sensor properties, delays of Autoware's answers and transitions, refusals, lost answers, deaths, late frames and slow simulators",
  "The preparation of Autoware spans threads, nodes, processes and minutes of time; no test runs the node with an ego vehicle.",
  [TS + "src/entity/ego_entity.cpp", TS + "src/api/api.cpp", CON + "src/field_operator_application.cpp", CON + "include/concealer/service.hpp", INT + "include/openscenario_interpreter/simulator_core.hpp", INT + "src/openscenario_interpreter.cpp", INT + "src/syntax/user_defined_value_condition.cpp"],
  [("EgoEntity::EgoEntity, engage, isEngageable, requestAssignRoute, requestAcquirePosition, requestReplanRoute", TS + "src/entity/ego_entity.cpp"), ("SimulatorCore::ActionApplication::applyAssignControllerAction, NonStandardOperation", INT + "include/openscenario_interpreter/simulator_core.hpp"), ("Interpreter::isNecessaryToEngage, waiting_for_engagement_to_be_completed", INT + "src/openscenario_interpreter.cpp")],
  ["requests to Autoware's services", "requests to the simulator", "/context", "result.junit.xml", "processes and signals"])

SSS = "simulation/simple_sensor_simulator/"
p("C17", "Sensors show exactly what is there, in time, with the configured errors",
  "In every frame exactly the sensors of the current scenario publish that are due: IMU and traffic lights in every frame, LiDAR, detection sensor and occupancy grid when their period is over, late by their delay, in order and under the right stamp and frame. "
  "A LiDAR has one point per ray that hits an entity within 300 m, at the nearest one, and none otherwise. The ground truth has exactly the other entities in range and sight (seen by a LiDAR in this frame unless all are detected, not below the road of the vehicle), once, with pose, size, twist, class and a lasting identity; "
  "detected objects are these with the configured noise (lost, moved, turned) of the model version. A cell of the occupancy grid is occupied where an entity is, invisible behind it, free elsewhere. An IMU shows its entity's motion. The traffic lights are those last set. "
  "The same seeds give the same errors; nothing of an abandoned scenario, a removed entity or vehicle shows up later.",
  [H, I, F], "all worlds, sensors, periods, delays, noise configurations and orders of requests; clients that die and scenarios that begin anew in the same process",
  "The tests look at one frame of one fixed world per sensor; periods, delays, seeds, removal and the next scenario are statements about histories.",
  [SSS + "src/sensor_simulation/sensor_simulation.cpp", SSS + "src/sensor_simulation/lidar/raycaster.cpp", SSS + "src/sensor_simulation/detection_sensor/detection_sensor.cpp", SSS + "src/sensor_simulation/occupancy_grid/occupancy_grid_builder.cpp", SSS + "src/sensor_simulation/imu/imu_sensor.cpp", SSS + "src/simple_sensor_simulator.cpp"],
  [("SensorSimulation::updateSensorFrame", SSS + "src/sensor_simulation/sensor_simulation.cpp"), ("DetectionSensor::update, isOnOrAboveEgoPlane", SSS + "src/sensor_simulation/detection_sensor/detection_sensor.cpp"), ("GridTraversal, OccupancyGridBuilder", SSS + "include/simple_sensor_simulator/sensor_simulation/occupancy_grid/grid_traversal.hpp"), ("LidarSensor::update, Raycaster::raycast", SSS + "src/sensor_simulation/lidar/raycaster.cpp"), ("ScenarioSimulator::initialize, despawnEntity", SSS + "src/simple_sensor_simulator.cpp")],
  ["sensor messages published for Autoware", "answers of the simulator process"])

p("C18", "The simulator answers truthfully and moves the ego vehicle as commanded",
  "Each request is answered once, to who asked, with its own type: other entities' status comes back unchanged, removing an entity succeeds exactly if it is there, a frame before any initialization is refused; clients may die and new ones initialize again. "
  "The Autoware vehicle stands still before the scenario begins; then each update moves it by one step (of the current step time) of the configured vehicle model, from Autoware's last command and gear, with limits, delays and time constants as configured. "
  "An overwritten vehicle takes over place, heading, speed, steering and acceleration and stays under manual control, so that every update overwrites it, until Autoware takes over again; a request for manual mode is refused. "
  "Speed, turn rate and accelerations answered fit the motion. What Autoware is told of the vehicle's pose and speed is what was answered; when there is no vehicle it is told nothing.",
  [H, S, F], "all models, parameters, commands, gears, orders of driven, overwritten, early and partial updates; concurrent and dying clients",
  "No test runs the simulator process or a vehicle model over more than one step; delays, control modes and re-initialization are statements about histories.",
  [SSS + "src/simple_sensor_simulator.cpp", SSS + "src/vehicle_simulation/ego_entity_simulation.cpp", SSS + "src/vehicle_simulation/vehicle_model/sim_model_delay_steer_acc_geared.cpp", SSS + "src/vehicle_simulation/vehicle_model/sim_model_interface.cpp", CON + "src/autoware_universe.cpp", "simulation/simulation_interface/src/zmq_multi_server.cpp"],
  [("ScenarioSimulator::updateEntityStatus, despawnEntity, updateStepTime", SSS + "src/simple_sensor_simulator.cpp"), ("EgoEntitySimulation::update, overwrite", SSS + "src/vehicle_simulation/ego_entity_simulation.cpp"), ("SimModelInterface::updateRungeKutta and the eight models", SSS + "src/vehicle_simulation/vehicle_model/sim_model_interface.cpp"), ("MultiServer::poll", "simulation/simulation_interface/src/zmq_multi_server.cpp")],
  ["answers of the simulator process", "/localization/kinematic_state, /vehicle/status/*"])

p("C25", "Conditions on entities hold exactly when the simulated world says so",
  "In every frame, each condition on entities (speed, relative speed, acceleration, standing still, time headway, time to collision, collision, reached position, distance, relative distance, relative clearance) is true exactly if the world as published in the last status message satisfies it: "
  "by the documented definitions of distance (between reference points or bounding boxes; along, across or in a straight line; in the entity's or the lane's coordinates, with or without lane changes), compared by the given rule, for any or all of the triggering entities and for every member of a selection. "
  "Entities that are not there satisfy no comparison and never end the scenario; an entity that was deleted can be added and watched again.",
  [I, H], "all motions, appearances and disappearances of entities; all conditions, rules, groups and selections on them; late frames",
  "Unit tests construct a condition or compute one distance; the agreement of condition and world at every moment of a moving scenario is not tested.",
  [INT + "src/syntax/" + n + "_condition.cpp" for n in ("speed", "relative_speed", "stand_still", "time_headway", "collision", "reach_position", "distance", "relative_distance", "relative_clearance")] + [INT + "src/syntax/entity_selection.cpp", INT + "src/syntax/delete_entity_action.cpp", TS + "src/utils/distance.cpp"],
  [("evaluate of the conditions", INT + "src/syntax/distance_condition.cpp"), ("TriggeringEntitiesRule::apply", INT + "include/openscenario_interpreter/syntax/triggering_entities_rule.hpp"), ("SimulatorCore::ConditionEvaluation, CoordinateSystemConversion, DistanceConditionAction", INT + "include/openscenario_interpreter/simulator_core.hpp")],
  ["currentValue of conditions in /context messages", "/entity/status messages"])

p("C26", "Actions on entities take effect once, on exactly their actors, and end when done",
  "In the frame an action on entities starts, and in no other, its effect appears: an entity is added, deleted or teleported to the given place (no trace of the earlier one remains), its speed set or ramped at the given rate, its limits replaced, or its behaviour told to change lane, follow a trajectory or drive to a destination or along a route, with the values of the scenario. "
  "This holds for every actor and every member of a selection and for nobody else; the simulator is asked for exactly the additions and deletions. "
  "The action ends at once if it has no duration, and otherwise when the last of its actors is done, neither earlier nor much later.",
  [I, H], "all sequences of actions, actors, selections and positions; behaviours that take any time; late frames and a slow simulator",
  "Unit tests parse the elements; effect, target and end of actions in a running scenario are not tested.",
  [INT + "src/syntax/" + n + "_action.cpp" for n in ("teleport", "add_entity", "delete_entity", "speed", "controller", "lane_change", "follow_trajectory", "acquire_position", "assign_route")] + [TS + "src/entity/entity_base.cpp"],
  [("start, run and accomplished of the actions", INT + "src/syntax/lane_change_action.cpp"), ("SimulatorCore::ActionApplication", INT + "include/openscenario_interpreter/simulator_core.hpp"), ("EntityBase::setStatus, requestSpeedChange", TS + "src/entity/entity_base.cpp")],
  ["currentState of actions in /context messages", "/entity/status messages", "requests to the simulator", "orders to the behaviour plugin"])

P_ = "openscenario/openscenario_preprocessor/"
p("C21", "The preprocessor hands out every accepted scenario once, in order, as declared",
  "However many clients load, derive, check and override at the same time, the answers are those of one queue: each accepted load is derived exactly once, in the order of acceptance, with its own path and frame rate; check tells whether any remains, and derive says so when none does. "
  "The scenario handed out is the one given, with the global parameters that have been overridden so far set to the latest value and nothing else changed, also within its parts; the original is kept in raw/. "
  "A scenario that is not compliant or unreadable, or that cannot be validated or saved, is refused with a reason and empties the queue, and never handed out. Paths and values may contain any character.",
  [S, F, I], "all orders of requests of concurrent clients, all paths and values, a slow, failing or missing validator and full disks at every load",
  "The package has no test of the queue; concurrent clients, odd paths and failed saves do not occur in any test.",
  [P_ + "src/openscenario_preprocessor.cpp", P_ + "include/openscenario_preprocessor/openscenario_preprocessor.hpp"],
  [("Preprocessor::preprocessScenario", P_ + "src/openscenario_preprocessor.cpp"), ("Preprocessor::validateXOSC", P_ + "src/openscenario_preprocessor.cpp"), ("ScenarioSet", P_ + "include/openscenario_preprocessor/openscenario_preprocessor.hpp")],
  ["answers of ~/load, ~/derive, ~/check and ~/set_parameter", "the derived scenario file and raw/"])

p("C24", "Conditions on values from ROS topics see the latest value, and end with it",
  "A UserDefinedValueCondition on a topic is true in a frame exactly if the value last received satisfies its rule, read as the type the message names (truth values, numbers, times and words each in their own order); before the first value, and for an empty value or an unknown type, it is false. "
  "A value once seen is not followed by an older one, every condition looks at its own topic only, and a slow or stalled receiver delays the value but loses nothing newer. "
  "A value that is none of its type ends the scenario with an error. RelativeHeadingCondition is the angle between entity and lane. "
  "After the scenario nothing listens any more: values that arrive while it is taken down do no harm, and the next scenario starts without a value.",
  [S, I, H], "all sequences of values, types, topics, conditions and scenarios in one process; slow networks, stalled receivers and messages in the middle of the teardown",
  "The receiver is a thread of its own shared by all conditions; its races with evaluation and teardown are not reached by any test.",
  [INT + "src/syntax/user_defined_value_condition.cpp", INT + "src/syntax/parameter_condition.cpp", INT + "include/openscenario_interpreter/regex/function_call_expression.hpp"],
  [("MagicSubscription", INT + "src/syntax/user_defined_value_condition.cpp"), ("ParameterCondition::compare", INT + "src/syntax/parameter_condition.cpp"), ("SimulatorCore::NonStandardOperation::evaluateRelativeHeading", INT + "include/openscenario_interpreter/simulator_core.hpp")],
  ["currentValue of conditions in /context messages", "result.junit.xml", "crashes"])

R = "test_runner/scenario_test_runner/scenario_test_runner/"
p("C20", "The test runner runs every scenario once, in time, and reports truthfully",
  "Each scenario that comes out of the given file (all combinations of a YAML scenario's modifiers, the longest macro name first, in their order) is given to the preprocessor with the frame rate, configured with the given frame rate, real-time factor, output directory and its own path, and activated, once and in order. "
  "One that runs longer than the global timeout is stopped then, not before; one that cannot be configured or activated does not keep the following ones from running; at the end the interpreter is shut down. Every override reaches the preprocessor before the first scenario, in the form OpenSCENARIO reads. "
  "The status is 0 only if nothing was refused, invalid or abandoned, and the result checker approves only if every case passed and has a record; results of an earlier run are never taken for those of this one, and nothing outside the runner's own output directory is deleted. "
  "Lost or late answers, late services and nodes that die delay the runner at most by the timeout per request; when the launch system interrupts it, it ends.",
  [S, F, I, H, C], "all scenarios files, numbers and durations of scenarios, verdicts, timeouts, leftovers of earlier runs, lost, late and stuck answers, late services, nodes dying at any time",
  "The runner has no tests; its failures show when nodes are slow, answers are lost or several scenarios follow each other.",
  [R + "scenario_test_runner.py", R + "lifecycle_controller.py", R + "result_checker.py", R + "scenario.py", "openscenario/openscenario_utility/openscenario_utility/conversion.py"],
  [("ScenarioTestRunner.run_preprocessed_scenarios, spin", R + "scenario_test_runner.py"), ("LifecycleController", R + "lifecycle_controller.py"), ("ResultChecker.check", R + "result_checker.py"), ("MacroExpander", "openscenario/openscenario_utility/openscenario_utility/conversion.py")],
  ["requests to the interpreter and the preprocessor", "files written and deleted", "exit status", "verdict of the result checker"])

P.sort(key=lambda x: x["id"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
