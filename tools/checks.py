"""Property id -> how its check runs."""
DST = "deterministic simulation with fault injection: seeded schedule and fault search, "
CHECKS = {
    "C01": {"target": "autoware", "quick": 40, "thorough": 1200,
            "technique": DST + "request/answer history checked against a model of Autoware and of the request queue",
            "note": "the concealer's own code runs on simulated ROS transport, threads, clock and processes; bounds: up to ~12 operations per scenario, 30 retries, simulated hours"},
    "C02": {"target": "task_queue", "quick": 25, "thorough": 900,
            "technique": DST + "history of task starts and ends checked against a FIFO model, with happens-before race detection",
            "note": "real TaskQueue and threads; every synchronisation and instrumented memory access is a scheduling point"},
    "C03": {"target": "autoware", "quick": 25, "thorough": 900,
            "technique": DST + "simulated process table with deaths, signals and interrupted waits; calls checked against a model of the child",
            "note": "real FieldOperatorApplication over a simulated kernel (fork, waitpid, kill, sigtimedwait)"},
    "C04": {"target": "vehicle", "quick": 25, "thorough": 900,
            "technique": DST + "published messages checked against the history of values set and commanded, with race detection",
            "note": "real AutowareUniverse over simulated ROS transport, timers, clock and threads; up to 30 frames"},
    "C05": {"target": "status_monitor", "quick": 25, "thorough": 900,
            "technique": DST + "status file history checked against a model of the touched threads",
            "note": "real StatusMonitor, watchdog thread and file writes; simulated clock and scheduler"},
    "C06": {"target": "processes", "quick": 20, "thorough": 900,
            "technique": DST + "simulated process table and signal delivery; results checked against the child that ran",
            "note": "real fork_exec, execute and record code over a simulated kernel"},
    "C07": {"target": "junit", "quick": 20, "thorough": 900,
            "technique": DST + "random recording histories, repeated writes and disk faults; the written file parsed and compared with a reference model",
            "note": "real simple_junit and pugixml; simulated disk errors and machine stops"},
    "C19": {"target": "jobs", "quick": 15, "thorough": 600,
            "technique": DST + "frame-by-frame simulation of the job list against a reference model",
            "note": "real job code; the callbacks of the entity are recording stand-ins; up to 40 frames"},
    "C13": {"target": "traffic", "quick": 20, "thorough": 900,
            "technique": DST + "requests, clock messages and updates of every frame checked against a model of time",
            "note": "real traffic_simulator API and ZeroMQ client; the simulator process, Lanelet2 and BehaviorTree.CPP are stand-ins; 5-45 frames"},
    "C14": {"target": "traffic", "quick": 30, "thorough": 900,
            "technique": DST + "entities here, in the status messages and in the simulator compared with a reference model after every operation",
            "note": "as C13; up to 48 operations"},
    "C15": {"target": "traffic", "quick": 30, "thorough": 900,
            "technique": DST + "every traffic light message and request compared with a reference model of the four channels; publication cadence checked against the clock",
            "note": "as C13; up to 80 frames; a small map with two traffic light groups"},
    "C16": {"target": "traffic", "quick": 40, "thorough": 900,
            "technique": DST + "entities appearing and vanishing in every frame compared with a model of rates, areas and sinks",
            "note": "as C13; up to four sources and 75 frames on one map"},
    "C08": {"target": "interpreter", "quick": 30, "thorough": 900,
            "technique": DST + "every frame of random storyboards compared with an executable model of the standard's state machine",
            "note": "real interpreter node, scenario parser and traffic simulator; simulated ROS, clock and simulator process; up to 75 frames and ~100 storyboard elements"},
    "C09": {"target": "interpreter", "quick": 25, "thorough": 900,
            "technique": DST + "event priorities, execution counts and executed actions of every frame compared with a reference model",
            "note": "as C08, with many competing events"},
    "C10": {"target": "interpreter", "quick": 25, "thorough": 900,
            "technique": DST + "value of every condition, group and trigger in every frame compared with a reference model",
            "note": "as C08; conditions on time, parameters and storyboard states with all edges, rules and delays"},
    "C11": {"target": "interpreter", "quick": 25, "thorough": 900,
            "technique": DST + "lights in every request and message, and conditions on them, compared with a reference model of the controllers in every frame",
            "note": "as C08; up to three controllers of four phases, 100 frames, a small map with two traffic light groups"},
    "C12": {"target": "interpreter", "quick": 25, "thorough": 900,
            "technique": DST + "one verdict per scenario, and nothing left running or being sent, over histories of scenarios run one after the other with process and simulator faults",
            "note": "real interpreter node, recorder control and traffic simulator; simulated ROS, processes and simulator; up to four scenarios in one process"},
    "C17": {"target": "sensors", "quick": 40, "thorough": 900,
            "technique": DST + "every sensor message of every frame compared with an independent geometric model of the world and the sensors, over histories of scenarios served by one simulator process",
            "note": "real simple_sensor_simulator node, ZeroMQ server and client; ray tracing by a stand-in of Embree that tries every triangle, point clouds by a stand-in of PCL; up to 7 entities, 9 sensors, 60 frames, 3 scenarios"},
    "C18": {"target": "sensors", "quick": 30, "thorough": 900,
            "technique": DST + "every answer of the simulator process and every message about the vehicle compared with reference models of the eight vehicle models and of the control mode",
            "note": "real simple_sensor_simulator node, ZeroMQ server and client, concealer vehicle interface; simulated ROS, clock and Autoware; up to 42 frames, 3 scenarios; flat map"},
    "C21": {"target": "interpreter", "quick": 20, "thorough": 900,
            "technique": DST + "linearizability search of the recorded history of concurrent clients against a queue with a file system, with a slow, failing or missing validator and full disks",
            "note": "as C08 for the libraries; the real Preprocessor node and real files in a scratch directory; the validator is a model; up to 3 clients, 3 files, 15 requests"},
    "C24": {"target": "interpreter", "quick": 25, "thorough": 900,
            "technique": DST + "value of every condition on a topic compared with the values it may have received, with delayed, interrupted and stalled receivers and teardown in the middle of the traffic",
            "note": "as C08; up to 3 topics, 8 conditions, 60 values per second, 2 scenarios"},
    "C25": {"target": "interpreter", "quick": 30, "thorough": 900,
            "technique": DST + "value of every condition on entities in every frame compared with a geometric model of the published world",
            "note": "as C08; a behaviour plugin of the harness moves the entities; eleven kinds of conditions, up to 4 entities, 75 frames; straight lanes or open ground"},
    "C26": {"target": "interpreter", "quick": 30, "thorough": 900,
            "technique": DST + "effect, actors and end of every action on entities compared with a model, frame by frame",
            "note": "as C08; a behaviour plugin of the harness obeys the speed and records the other orders; twelve kinds of actions, up to 4 entities and a selection; straight lanes or open ground"},
    "C20": {"command": "checks/runner.py", "quick": 30, "thorough": 900,
            "technique": DST + "history of requests, files, status and verdict of the test runner checked against models of the nodes it drives, with lost, late and stuck answers, late services, dying nodes and leftovers",
            "note": "real Python programs on a simulated rclpy, clock and network; interpreter, preprocessor and launch system are models; up to 16 scenarios; XML schema validation is a stand-in"},
    "C23": {"target": "interpreter", "quick": 40, "thorough": 900,
            "technique": DST + "requests to Autoware, time, sensor configuration, ego values and verdict compared with a model of a scenario with an ego vehicle, with faults in Autoware, its process and the simulator",
            "note": "real interpreter node, traffic simulator and concealer; simulated ROS, processes, Autoware and simulator; one ego vehicle, up to two others"},
}
for c in CHECKS.values():
    c.setdefault("level", "exploration")
