"""What each simulation binary is made of. Sources under REPO are always compiled from the working tree."""
import glob, os
import build as B

R, V = B.REPO, B.VERIF
TSAN = ["-fsanitize=thread", "-Wno-tsan"]
CXX = ["-std=c++17", "-O1", "-g1", "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-D_GNU_SOURCE", "-w", "-fno-omit-frame-pointer"]


def inc(*pkgs):
    return ["-I%s/%s/include" % (R, p) for p in pkgs]


def ros():
    return ["-I" + B.messages(), "-I%s/sim/ros/include" % V, "-I" + V]


def T_status_monitor():
    f = CXX + inc("common/status_monitor") + ros()
    return [
        (R + "/common/status_monitor/src/status_monitor.cpp", f + TSAN),
        (V + "/checks/status_monitor.cpp", f + TSAN),
        (V + "/sim/ros/simros.cpp", f),
    ], []


def T_processes():
    f = CXX + inc("openscenario/openscenario_interpreter", "external/concealer", "common/scenario_simulator_exception") + ros()
    return [
        (R + "/openscenario/openscenario_interpreter/src/record.cpp", f + TSAN),
        (R + "/openscenario/openscenario_interpreter/src/posix/fork_exec.cpp", f + TSAN),
        (R + "/external/concealer/src/execute.cpp", f + TSAN),
        (V + "/checks/processes.cpp", f),
        (V + "/sim/ros/simros.cpp", f),
    ], []


def T_junit():
    f = CXX + inc("common/simple_junit", "common/scenario_simulator_exception") + ["-I" + V]
    return [
        (R + "/common/simple_junit/src/test_suites.cpp", f),
        (R + "/common/scenario_simulator_exception/src/scenario_simulator_exception.cpp", f),
        (V + "/checks/junit.cpp", f),
    ], ["-lpugixml"]


def T_task_queue():
    f = CXX + inc("external/concealer", "common/scenario_simulator_exception") + ros()
    return [
        (R + "/external/concealer/src/task_queue.cpp", f + TSAN),
        (V + "/checks/task_queue.cpp", f + TSAN),
        (V + "/sim/ros/simros.cpp", f),
    ], []


def concealer():
    f = CXX + inc("external/concealer", "common/scenario_simulator_exception", "common/get_parameter", "common/math/geometry",
                  "common/math/arithmetic", "simulation/traffic_simulator_msgs") + ["-I/usr/include/eigen3"] + ros()
    src = [(p, f + TSAN) for p in sorted(glob.glob(R + "/external/concealer/src/*.cpp"))]
    src.append((R + "/common/scenario_simulator_exception/src/scenario_simulator_exception.cpp", f))
    src.append((V + "/sim/ros/simros.cpp", f))
    return f, src


def T_autoware():
    f, src = concealer()
    return src + [(V + "/checks/autoware.cpp", f)], ["-latomic"]


def T_vehicle():
    f, src = concealer()
    return src + [(V + "/checks/vehicle.cpp", f)], ["-latomic"]


def T_jobs():
    f = CXX + inc("simulation/traffic_simulator") + ros()
    return [(s, f) for s in sorted(glob.glob(R + "/simulation/traffic_simulator/src/job/*.cpp"))] + [
        (V + "/checks/jobs.cpp", f), (V + "/sim/ros/simros.cpp", f)], []


TRAFFIC_PKGS = ("simulation/traffic_simulator", "simulation/simulation_interface", "simulation/traffic_simulator_msgs", "simulation/do_nothing_plugin",
                "simulation/behavior_tree_plugin",
                "external/concealer", "common/scenario_simulator_exception", "common/get_parameter", "common/math/geometry", "common/math/arithmetic",
                "common/status_monitor", "common/color_names", "common/agnocast_wrapper")


def traffic():
    """The real traffic_simulator with everything below it; only the map (lanelet2), the middleware and the sockets are simulated."""
    pi, ps = B.protos()
    f = CXX + inc(*TRAFFIC_PKGS) + ["-I%s/sim/lanelet/include" % V, "-I%s/sim/zmq/include" % V, "-I%s/sim/bt/include" % V, "-I/usr/include/eigen3", "-include", "iostream", "-include", "iomanip", "-include", "rclcpp/rclcpp.hpp"] + pi + ros()
    src = []
    skip = ("/lanelet_loader.cpp", "/traffic_rules.cpp", "/visualization_node.cpp", "/visualization_component.cpp")
    for pat in ("simulation/traffic_simulator/src/**/*.cpp", "simulation/simulation_interface/src/*.cpp", "simulation/do_nothing_plugin/src/*.cpp",
                "simulation/behavior_tree_plugin/src/**/*.cpp",
                "external/concealer/src/*.cpp", "common/scenario_simulator_exception/src/*.cpp", "common/math/geometry/src/**/*.cpp",
                "common/status_monitor/src/*.cpp", "common/color_names/src/*.cpp"):
        src += [(p, f) for p in sorted(glob.glob(R + "/" + pat, recursive=True)) if not p.endswith(skip)]
    src += [(p, f) for p in ps]
    src.append((V + "/sim/ros/simros.cpp", f))
    src.append((V + "/sim/lanelet/loader.cpp", f))
    return f, src


def T_traffic():
    f, src = traffic()
    return src + [(V + "/checks/traffic.cpp", f)], ["-lprotobuf", "-lyaml-cpp", "-lpugixml", "-latomic"]


SSS = R + "/simulation/simple_sensor_simulator"


def T_sensors():
    """The real simple_sensor_simulator, asked by the real client; ray casting and point clouds are simple stand-ins."""
    f, src = traffic()
    f = inc("simulation/simple_sensor_simulator") + ["-I%s/sim/sensors/include" % V] + f
    src += [(p, f) for p in sorted(glob.glob(SSS + "/src/**/*.cpp", recursive=True)) if not p.endswith("_node.cpp")]
    return src + [(V + "/checks/sensors.cpp", f), (V + "/checks/motion.cpp", f)], ["-lprotobuf", "-lyaml-cpp", "-lpugixml", "-lglog", "-latomic"]


OSI = R + "/openscenario/openscenario_interpreter"


def interpreter():
    """All of openscenario_interpreter on top of the real traffic_simulator."""
    f, src = traffic()
    f = [x for x in f if x != "-I" + V] + inc("openscenario/openscenario_interpreter", "common/simple_junit") + ["-I" + V]
    heavy = "".join("#include <%s>\n" % h for h in (
        "cstdint", "iomanip", "string", "boost/json.hpp", "boost/lexical_cast.hpp", "boost/math/constants/constants.hpp", "pugixml.hpp", "traffic_simulator/api/api.hpp",
        "openscenario_interpreter/expression.hpp", "openscenario_interpreter/pointer.hpp", "openscenario_interpreter/object.hpp",
        "openscenario_interpreter/reader/attribute.hpp", "openscenario_interpreter/reader/element.hpp", "openscenario_interpreter/simulator_core.hpp", "openscenario_interpreter/scope.hpp"))
    use, deps = B.pch(heavy, f, "interpreter")
    g = use + f
    mine = [p for p in sorted(glob.glob(OSI + "/src/**/*.cpp", recursive=True)) if not p.endswith("openscenario_interpreter_node.cpp")]
    src += [(p, g, deps) for p in mine]
    src.append((R + "/common/simple_junit/src/test_suites.cpp", f))
    return g, deps, src


def T_interpreter():
    g, deps, src = interpreter()
    return src + [(V + "/checks/" + x + ".cpp", g, deps) for x in ("interpreter", "storyboard", "signals", "lifecycle", "ego", "entities", "topics")] + [(p, inc("openscenario/openscenario_preprocessor") + g, deps) for p in (R + "/openscenario/openscenario_preprocessor/src/openscenario_preprocessor.cpp", V + "/checks/preprocessor.cpp")], ["-lprotobuf", "-lyaml-cpp", "-lpugixml", "-lboost_json", "-lglog", "-latomic"]


def build(name):
    jobs, libs = globals()["T_" + name]()
    objs = B.compile_all(B.kernel_jobs() + jobs)
    return B.link(objs, os.path.join(B.BUILD, "bin", name), libs + ["-ldl", "-lpthread"])
