"""C20: the test runner (scenario_test_runner.py, lifecycle_controller.py, result_checker.py, scenario.py) and the conversion of YAML scenarios
(openscenario_utility/conversion.py) run against simulated nodes: interpreter, preprocessor and launch system."""
import contextlib, io, itertools, json, os, re, shutil, sys, types
import xml.etree.ElementTree as ET
from pathlib import Path

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "sim", "python"))
sys.dont_write_bytecode = True
import simulator as S

REPO = os.environ.get("VERIF_REPO", "/repo")
W = None                       # the world of the current run
ROOT = None                    # everything the runner may touch
REAL_RMTREE = shutil.rmtree


# --- stand-ins -----------------------------------------------------------------------------------------------------
class ExternalShutdownException(Exception):
    pass


class Message:
    """A message or service type: attributes as they are assigned."""
    def __init__(self, **kw):
        self.__dict__.update(kw)


def service(type_name, **request):
    t = type(type_name, (), {})

    class Request(Message):
        def __init__(self, **kw):
            Message.__init__(self, **request)
            for k, v in list(self.__dict__.items()):
                if v is Message:
                    setattr(self, k, Message())
            self.__dict__.update(kw)
    t.Request, t.Response = Request, Message
    return t


class Future:
    def __init__(self):
        self.value, self.is_done, self.patient = None, False, False

    def done(self):
        return self.is_done

    def result(self):
        return self.value

    def exception(self):
        return None

    def set(self, value):
        self.value, self.is_done = value, True


class Client:
    def __init__(self, kind, name):
        self.kind = kind
        self.srv_name = name if name.startswith("/") else "/simulation/" + name

    def service_is_ready(self):
        return W.net.ready(self.srv_name)

    def wait_for_service(self, timeout_sec=None):
        W.alive("wait for a service")
        W.wait(None if timeout_sec is None else W.now + timeout_sec, self.service_is_ready)
        return self.service_is_ready()

    def call_async(self, request):
        W.alive("call a service")
        f = Future()
        W.net.call(self.srv_name, request, f)
        return f

    def call(self, request):
        f = self.call_async(request)
        W.wait(None, f.done)
        return f.result()


class Logger:
    def write(self, text):
        W.log("runner: " + str(text).replace(str(ROOT), ""))
    info = warn = warning = error = fatal = debug = lambda self, text, **kw: self.write(text)


class Node:
    def __init__(self, node_name, namespace="", **kw):
        self.context, self.logger, self.destroyed = object(), Logger(), False

    def get_logger(self):
        return self.logger

    def create_client(self, kind, name, **kw):
        return Client(kind, name)

    def destroy_node(self):
        self.destroyed = True


class SingleThreadedExecutor:
    def __init__(self, context=None):
        pass

    def add_node(self, node):
        pass


def spin_until_future_complete(node, future, executor=None, timeout_sec=None):
    W.alive("spin")
    begin = W.now
    W.wait(None if timeout_sec is None or timeout_sec < 0 else W.now + timeout_sec, future.done)
    W.check(future.patient or W.now - begin <= max(W.timeout, 1) + 1e-6, "waits-too-long", "the runner waits for an answer for %.2f s; the limit is %g s" % (W.now - begin, W.timeout))


def module(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    sys.modules[name] = m
    if "." in name:
        setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
    return m


class SchemaError(Exception):
    pass


class Schema:
    def __init__(self, text):
        pass

    def validate(self, text):
        ET.fromstring(text)
        if "INVALID" in text:
            raise SchemaError("not valid")

    def encode(self, data, **kw):
        def element(tag, x):
            e = ET.Element(tag)
            for k, v in (x or {}).items():
                if k.startswith("@"):
                    e.set(k[1:], v)
                else:
                    for each in v if isinstance(v, list) else [v]:
                        e.append(element(k, each))
            return e
        return element(*next(iter(data.items())))


class Resource:
    def __init__(self, e):
        self.e = e

    def tostring(self):
        return ET.tostring(self.e, encoding="unicode")


class Transition:
    TRANSITION_CONFIGURE, TRANSITION_CLEANUP, TRANSITION_ACTIVATE, TRANSITION_DEACTIVATE = 1, 2, 3, 4
    TRANSITION_UNCONFIGURED_SHUTDOWN, TRANSITION_INACTIVE_SHUTDOWN, TRANSITION_ACTIVE_SHUTDOWN = 5, 6, 7


NAMES = {1: "configure", 2: "cleanup", 3: "activate", 4: "deactivate", 5: "shutdown", 6: "shutdown", 7: "shutdown"}


def guarded(real):
    def f(path, *a, **kw):
        if kw.get("dir_fd") is not None:            # inside a tree that is being removed
            return real(path, *a, **kw)
        p = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(str(path)))), os.path.basename(str(path)))
        if ROOT is not None and W is not None and W.running:
            W.check(p.startswith(str(ROOT) + "/out/"), "deletes-foreign", "the runner deletes " + p.replace(str(ROOT), ""))
            W.deleted.append(p.replace(str(ROOT), ""))
            if os.path.isdir(p) and not os.path.islink(p) and real is REAL_RMTREE:
                W.deleted += [os.path.join(d, f).replace(str(ROOT), "") for d, _, fs in os.walk(p) for f in fs]
        return real(path, *a, **kw)
    return f


def load():
    import time as real
    class Parameters:
        PARAMETER_STRING, PARAMETER_DOUBLE, PARAMETER_BOOL, PARAMETER_INTEGER = 4, 3, 1, 2
    def time_():
        return W.now
    def sleep(d):
        W.log("runner sleeps %g" % d)
        W.wait(W.now + d)
    module("time", time=time_, monotonic=time_, perf_counter=time_, sleep=sleep, strftime=lambda *a: "", **{k: getattr(real, k) for k in ("gmtime", "localtime", "mktime", "struct_time")})
    rclpy = module("rclpy", init=lambda **kw: None, ok=lambda **kw: W.ok, shutdown=lambda **kw: None, try_shutdown=lambda **kw: None, spin_until_future_complete=spin_until_future_complete)
    module("rclpy.executors", SingleThreadedExecutor=SingleThreadedExecutor, ExternalShutdownException=ExternalShutdownException)
    module("rclpy.node", Node=Node)
    module("lifecycle_msgs")
    module("lifecycle_msgs.msg", Transition=Transition)
    module("lifecycle_msgs.srv", ChangeState=service("ChangeState", transition=Message), GetState=service("GetState"))
    module("rcl_interfaces")
    module("rcl_interfaces.msg", Parameter=Message, ParameterValue=Message, ParameterType=Parameters)
    module("rcl_interfaces.srv", SetParameters=service("SetParameters", parameters=None))
    module("openscenario_preprocessor_msgs")
    module("openscenario_preprocessor_msgs.srv", CheckDerivativeRemained=service("CheckDerivativeRemained"), Derive=service("Derive"), Load=service("Load", path="", frame_rate=0.0), SetParameter=service("SetParameter", name="", value=""))
    module("ament_index_python")
    module("ament_index_python.packages", get_package_share_directory=lambda p: str(ROOT) + "/share/" + p)
    module("xmlschema", XMLSchema=Schema, XMLResource=Resource, XMLSchemaValidationError=SchemaError)
    module("pkg_resources", resource_string=lambda a, b: b"<schema/>")
    os.remove, os.unlink, os.rmdir, shutil.rmtree = guarded(os.remove), guarded(os.unlink), guarded(os.rmdir), guarded(shutil.rmtree)
    sys.path.insert(0, REPO + "/openscenario/openscenario_utility")
    sys.path.insert(0, REPO + "/test_runner/scenario_test_runner/scenario_test_runner")
    saved, sys.stderr = sys.stderr, io.StringIO()
    import scenario_test_runner, result_checker
    sys.stderr = saved
    sys.modules["time"] = real
    return scenario_test_runner, result_checker


MODULES = None


def reads(text, parts):
    """Numbers are compared as numbers."""
    words = [t for t in re.split(r"( and |, )", text or "")]
    if len(words) != len(parts):
        return False
    for a, b in zip(words, parts):
        if isinstance(b, float):
            try:
                if abs(float(a) - b) > 1e-6:
                    return False
            except ValueError:
                return False
        elif a != b:
            return False
    return True


# --- the other nodes -----------------------------------------------------------------------------------------------
class Network:
    def __init__(self, w):
        self.w, self.servers, self.up, self.busy, self.dead = w, {}, {}, {}, set()

    def serve(self, owner, name, handler, up):
        self.servers[name] = (owner, handler)
        self.up[name] = up

    def ready(self, name):
        return name in self.servers and self.w.now >= self.up[name] and self.servers[name][0] not in self.dead

    def call(self, name, request, future):
        w = self.w
        W.check(name in self.servers, "unknown-service", "the runner calls " + name)
        owner, handler = self.servers[name]
        w.count("requests")
        if w.now < self.up[name]:
            w.log("a request to %s is lost: it is not there yet" % name)
            return
        # the runner waits for the preprocessor's answer to this one for as long as the node lives
        patient = future.patient = name.endswith("/load")
        if not patient and w.fault("request_lost", 1, 40):
            w.disturbed = True
            return
        arrival = w.now + 0.0005 + w.choose(w.latency) / 1000

        def arrive():
            if owner in self.dead:
                return
            begin = max(w.now, self.busy.get(owner, 0))
            self.busy[owner] = begin + 0.0001
            w.at(begin, lambda: work())

        def work():
            if owner in self.dead:
                return
            cost, reply = handler(request)
            if w.fault("slow_answer", 1, 10):
                cost += 0.1 + w.choose(30) / 10
                # the preprocessor is expected to answer within a second
                w.disturbed = w.disturbed or owner == "preprocessor"
            if w.fault("stuck", 1, 60):
                cost += w.timeout * (1 + w.choose(2))
                w.disturbed = True
            self.busy[owner] = w.now + cost

            def answer():
                if owner in self.dead:
                    return
                value = reply()
                if not patient and w.fault("answer_lost", 1, 20):
                    w.disturbed = True
                    return
                w.after(0.0005 + w.choose(w.latency) / 1000, lambda: future.set(value))
            w.after(cost, answer)
        w.at(arrival, arrive)


class Plan:
    pass


class Interpreter:
    def __init__(self, w):
        self.w, self.state, self.parameters, self.plan, self.epoch = w, "unconfigured", {}, None, 0
        self.suites, self.calls, self.ran = {}, [], []

    def get_state(self, request):
        return 0.0001, lambda: Message(current_state=Message(label=self.state))

    def set_parameters(self, request):
        for p in request.parameters:
            self.parameters[p.name] = p.value.string_value if hasattr(p.value, "string_value") else p.value.double_value
        self.calls.append((self.w.now, "set", dict(self.parameters)))
        return 0.0005, lambda: Message(results=[])

    def verdict(self, plan, kind):
        plan.verdict, plan.ended = kind, self.w.now
        self.w.log("interpreter: %s has the verdict %s" % (plan.name, kind))
        path = Path(plan.path)
        self.suite_name = str(path.parent.parent)
        self.suites.setdefault(path.parent.name, {}).setdefault(path.stem, []).append(kind)
        root = ET.Element("testsuites", name=self.suite_name)
        for s, cases in self.suites.items():
            e = ET.SubElement(root, "testsuite", name=s)
            for c, kinds in cases.items():
                f = ET.SubElement(e, "testcase", name=c)
                for k in kinds:
                    if k != "pass":
                        ET.SubElement(f, "failure" if k == "failure" else "error", type="x", message="y")
        out = Path(self.parameters["output_directory"])
        self.w.check(out.is_dir(), "no-output-directory", "the output directory the interpreter is given does not exist")
        (out / "result.junit.xml").write_bytes(ET.tostring(root))

    def change_state(self, request):
        w, name = self.w, NAMES.get(request.transition.id, "?")
        self.calls.append((w.now, name, self.state))
        w.log("interpreter: %s in state %s" % (name, self.state))
        ok = False
        cost = 0.01
        if name == "configure" and self.state == "unconfigured":
            cost = 1.0
            path = self.parameters.get("osc_path")
            plan = w.plans.get(path)
            w.check(plan is not None and os.path.exists(path), "wrong-scenario", "the interpreter is configured with %s" % str(path).replace(str(ROOT), ""))
            plan.configured.append((w.now, dict(self.parameters)))
            if plan.fails == "configure":
                self.verdict(plan, "error")
            else:
                ok, self.state, self.plan = True, "inactive", plan
        elif name == "activate" and self.state == "inactive":
            plan, self.plan = self.plan, None
            if plan is None:
                pass
            elif plan.fails == "activate":
                plan.activated.append(w.now)
                self.verdict(plan, "error")
            else:
                cost = 0.1
                ok, self.state = True, "active"
                plan.activated.append(w.now)
                self.running = plan
                self.epoch += 1
                bag = Path(plan.path).with_suffix("")
                bag.mkdir(exist_ok=True)
                for f in plan.bag:
                    (bag / f).write_text("x")
                if plan.duration is not None:
                    w.after(cost + plan.duration, lambda e=self.epoch: self.end(e))
        elif name == "deactivate" and self.state == "active":
            ok, self.state = True, "inactive"
            self.running.deactivated = w.now
            self.verdict(self.running, "failure")
        elif name == "cleanup" and self.state == "inactive":
            ok, self.state, self.plan = True, "unconfigured", None
        elif name == "shutdown" and self.state == {5: "unconfigured", 6: "inactive", 7: "active"}[request.transition.id]:
            ok, self.state = True, "finalized"
        return cost, lambda: Message(success=ok)

    def end(self, epoch):
        if epoch == self.epoch and self.state == "active" and "interpreter" not in self.w.net.dead:
            self.state = "inactive"
            self.verdict(self.running, self.running.result)


class Preprocessor:
    def __init__(self, w):
        self.w, self.queue, self.parameters, self.calls, self.loaded = w, [], [], [], []

    def set_parameter(self, request):
        self.parameters.append((request.name, request.value))
        self.w.check(not self.loaded, "parameters-late", "a parameter is overridden after a scenario was loaded")
        return 0.0005, lambda: Message()

    def load(self, request):
        w = self.w
        w.log("preprocessor: load " + request.path.replace(str(ROOT), ""))
        self.loaded.append((request.path, request.frame_rate))
        plan = w.plans.get(request.path)
        w.check(plan is not None, "wrong-scenario", "the preprocessor is given %s" % request.path.replace(str(ROOT), ""))
        if plan.refused:
            self.queue.clear()
            return 0.5, lambda: Message(has_succeeded=False, message="refused")

        def done():
            raw = Path(request.path).parent / "raw"
            raw.mkdir(exist_ok=True)
            (raw / Path(request.path).name).write_text("x")
            self.queue.append((request.path, request.frame_rate))
            return Message(has_succeeded=True, message="success")
        return 0.5 + w.choose(3), done

    def check(self, request):
        return 0.0005, lambda: Message(derivative_remained=bool(self.queue))

    def derive(self, request):
        if not self.queue:
            return 0.0005, lambda: Message(path="no output", frame_rate=0.0)
        path, rate = self.queue.pop(0)
        return 0.0005, lambda: Message(path=path, frame_rate=rate)


# --- one run -------------------------------------------------------------------------------------------------------
def runner(w, scratch):
    global W, ROOT, MODULES
    if MODULES is None:
        MODULES = load()
    program, checker = MODULES
    W = w
    ROOT = Path(os.path.realpath(scratch)) / "run"
    w.running, w.deleted, w.disturbed, w.ok, w.net, w.plans = False, [], False, True, Network(w), {}
    REAL_RMTREE(ROOT, ignore_errors=True)
    (ROOT / "in").mkdir(parents=True)
    (ROOT / "share" / "package").mkdir(parents=True)
    w.interrupted = False

    def alive(what):
        if w.interrupted:
            w.check(w.now - w.interrupted < 5, "busy-after-interrupt", "%.1f s after it was interrupted the runner begins to %s" % (w.now - w.interrupted, what))
            raise ExternalShutdownException()
    w.alive = alive
    for kind, n in (("slow_answer", 3), ("late_service", 3), ("request_lost", 6), ("answer_lost", 4), ("stuck", 8), ("node_dies", 8)):
        w.enable(kind, w.chance(1, n))
    w.latency = [1, 20, 100][w.choose(3)]
    w.timeout = [180.0, 20.0, 7.5, 60.0][w.choose(4)]
    rate = [30.0, 20.0, 12.5][w.choose(3)]
    factor = [1.0, 2.0, 0.5][w.choose(3)]

    # what is given to the runner
    yaml = w.chance(2, 3)
    stem = ["case", "my-scenario", "a.b"][w.choose(3)]
    out = ROOT / "out"
    runner_out = out / "scenario_test_runner"
    expected, invalid = [], False
    if yaml:
        modifiers, lists = [], []
        for i in range(w.choose(3)):
            name = ["__A", "__A_B", "__C"][i]
            if w.chance(1, 2):
                values = [["1", "x", "2.5", "true"][k] for k in range(1 + w.choose(4))]
                modifiers.append({"name": name, "list": values})
            else:
                start, step, n = w.choose(5), 1 + w.choose(3), w.choose(3)
                if w.chance(1, 4):
                    step = -step
                if w.chance(1, 3):                   # in tenths
                    end = (start * 10 + step * n) / 10
                    values = [(start * 10 + step * k) / 10 for k in range(n + 1)]
                    modifiers.append({"name": name, "start": float(start), "step": step / 10, "stop": end})
                else:
                    values = [str(start + step * k) for k in range(n + 1)]
                    # the last value need not be hit
                    modifiers.append({"name": name, "start": start, "step": step, "stop": start + step * n + (w.choose(abs(step)) if step > 0 else -w.choose(abs(step)))})
            lists.append((name, values))
        invalid = w.chance(1, 12)
        # what is a part of a longer name that is not a macro is not of interest
        long = "__A_B" if "__A_B" in dict(lists) else "x"
        body = {"FileHeader": {"description": long + " and __A, __C" + (" INVALID" if invalid else ""), "flag": True}, "Empty": []}
        document = {"OpenSCENARIO": body}
        if lists:
            document["ScenarioModifiers"] = {"ScenarioModifier": modifiers}
        import yaml as Y
        path = ROOT / "in" / (stem + [".yaml", ".yml"][w.choose(2)])
        path.write_text(Y.safe_dump(document))
        for index, values in enumerate(itertools.product(*[v for _, v in lists])):
            text = [long, " and ", "__A", ", ", "__C"]
            for (name, _), value in zip(lists, values):
                text = [value if t == name else t for t in text]
            expected.append((runner_out / path.stem / (path.stem + ("_%d" % index if lists else "") + ".xosc"), text))
    else:
        path = ROOT / "in" / (stem + ".xosc")
        path.write_text("<OpenSCENARIO/>")
        expected.append((path, None))
    given = str(path)
    if w.chance(1, 4):
        shutil.copytree(ROOT / "in", ROOT / "share" / "package" / "in")
        if not yaml:
            expected[0] = (ROOT / "share" / "package" / "in" / path.name, None)
        given = "$(find-pkg-share package)/in/" + path.name
    missing = yaml and w.chance(1, 20)
    if missing:
        os.rename(ROOT / "in", ROOT / "gone")
        REAL_RMTREE(ROOT / "share")
        expected, invalid = [], True
    plans = []
    for p, text in expected:
        x = Plan()
        x.path, x.name, x.text = str(p), p.name, text
        x.configured, x.activated, x.deactivated, x.verdict, x.ended = [], [], None, None, None
        x.fails = [None, None, None, None, None, None, "configure", "activate"][w.choose(8)]
        x.refused = w.chance(1, 25)
        x.duration = [2.0, 0.2, 0.999, 3.7, w.timeout - 1.5, w.timeout + 0.4, w.timeout + 30, None][w.choose(8)]
        x.result = ["pass", "pass", "pass", "failure", "error"][w.choose(5)]
        x.bag = ("metadata.yaml", "x_0.db3") if not w.chance(1, 12) else [(), ("metadata.yaml",), ("x_0.db3",)][w.choose(3)]
        w.plans[x.path] = x
        plans.append(x)
    overrides = {}
    for k in ["speed", "name", "flag"][:w.choose(4)]:
        overrides[k] = {"speed": [3, 2.5, -1][w.choose(3)], "name": ["x y", "", "7"][w.choose(3)], "flag": w.chance(1, 2)}[k]
    # what an earlier run left behind
    old = []
    if w.chance(1, 2):
        (runner_out / path.stem / "raw").mkdir(parents=True)
        (runner_out / "other").mkdir()
        for f in (runner_out / path.stem / (path.stem + ".xosc"), runner_out / path.stem / "raw" / "x.xosc", runner_out / "other" / "x.xosc"):
            f.write_text("old")
        if w.chance(2, 3):
            (runner_out / "result.junit.xml").write_text('<testsuites name="%s"/>' % out)
        (out / "keep.txt").write_text("mine")
        (out / "other").mkdir()
        (out / "other" / "keep.txt").write_text("mine")
        old += [out / "keep.txt", out / "other" / "keep.txt"]

    interpreter, preprocessor = Interpreter(w), Preprocessor(w)
    late = lambda: w.now + (w.choose(30) if w.fault("late_service", 1, 2) else 0)
    for n in ("get_state", "change_state", "set_parameters"):
        w.net.serve("interpreter", "/simulation/openscenario_interpreter/" + n, getattr(interpreter, n), late() if n != "set_parameters" else w.now)
    for n in ("set_parameter", "check", "derive", "load"):
        w.net.serve("preprocessor", "/simulation/openscenario_preprocessor/" + n, getattr(preprocessor, n), late())

    w.over = False

    def die():
        if w.over:
            return
        who = ["interpreter", "preprocessor", "simulator"][w.choose(3)]
        w.net.dead.add(who)
        w.count("fault:node_dies")
        w.log("fault node_dies: " + who)
        w.disturbed = True
        w.after(w.choose(100) / 1000, interrupt)

    def interrupt():
        if w.over:
            return
        w.interrupted = w.now
        w.ok = False
        w.interrupt = KeyboardInterrupt()
        w.log("launch: the runner is interrupted")
    if "node_dies" in w.enabled:
        w.after(0.1 + w.choose(2000) / 50, die)

    argv = ["scenario_test_runner.py", "--output-directory", str(out), "--global-frame-rate", str(rate), "--global-timeout", str(w.timeout), "--scenario", given]
    if factor != 1.0 or w.chance(1, 2):
        argv += ["--global-real-time-factor", str(factor)]
    given_overrides = overrides or not w.chance(1, 12)
    if given_overrides:
        argv += ["--override-parameters", json.dumps(overrides) if overrides else ""]
    argv += ["--ros-args", "-r", "__node:=scenario_test_runner"]
    # --- run
    code, crash = 0, None
    saved = sys.argv
    sys.argv = argv
    w.running = True
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            program.main()
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    except (S.Violation, S.Hang):
        raise
    except KeyboardInterrupt:
        code, crash = 130, "KeyboardInterrupt"
    except Exception as e:
        code, crash = 1, "%s: %s" % (type(e).__name__, str(e).replace(str(ROOT), ""))
    finally:
        sys.argv = saved
        w.running = False
    w.log("the runner ends with status %s%s" % (code, " (%s)" % crash if crash else ""))
    finished = w.now
    if not given_overrides and not preprocessor.loaded and crash and crash.startswith("TypeError"):
        w.check_known(False, "no-overrides-given", "without --override-parameters the runner ends with " + crash)
        return
    # what the launch system lets go on for a moment does no harm
    w.interrupt, w.over = None, True
    w.wait(w.now + 1)

    # --- the history
    check = w.check
    slack = w.latency * 0.002 + (3.2 if "slow_answer" in w.enabled else 0) + 0.13
    refused = any(x.refused for x in plans)
    quiet = not w.disturbed and not w.interrupted
    if w.interrupted:
        check(finished - w.interrupted < 5, "busy-after-interrupt", "the runner ends %.1f s after it was interrupted" % (finished - w.interrupted))
    # derived scenarios and parameters
    if quiet and not (invalid or refused):
        check(crash is None and code == 0, "false-alarm", "nothing is wrong, but the runner ends with status %s%s" % (code, " (%s)" % crash if crash else ""))
        w.check_known(preprocessor.parameters != [(k, str(v)) for k, v in overrides.items()] or not any(isinstance(v, bool) for v in overrides.values()), "boolean-overrides",
                      "a boolean parameter is overridden with %s" % preprocessor.parameters)
        check([(k, v.lower() if isinstance(overrides.get(k), bool) else v) for k, v in preprocessor.parameters] == [(k, ("true" if v else "false") if isinstance(v, bool) else str(v)) for k, v in overrides.items()], "overrides",
              "of the parameters %s the preprocessor gets %s" % (overrides, preprocessor.parameters))
        check(preprocessor.loaded == [(x.path, rate) for x in plans], "loads", "of %s the preprocessor is given %s" % ([x.name for x in plans], [(os.path.basename(p), r) for p, r in preprocessor.loaded]))
    if yaml and not invalid and preprocessor.loaded:
        for x in plans:
            if not os.path.exists(x.path):
                check(False, "not-expanded", "the scenario %s is missing" % x.name)
            else:
                text = ET.parse(x.path).getroot().find("FileHeader").get("description")
                flag = ET.parse(x.path).getroot().find("FileHeader").get("flag")
                check(reads(text, x.text) and flag == "true", "expansion", "%s says \"%s\" %s instead of \"%s\" true" % (x.name, text, flag, "".join(map(str, x.text))))
    if quiet and not (invalid or refused):
        check(not (runner_out / "other" / "x.xosc").exists(), "leftovers", "a scenario of an earlier run is left in the output directory")
    for f in old:
        check(f.exists(), "deletes-foreign", "the runner deletes " + f.name)
    # each scenario: its parameters, once, in order
    order = []
    for x in plans:
        for t, p in x.configured:
            order.append((t, x.name))
            want = {"osc_path": x.path, "output_directory": str(runner_out), "local_real_time_factor": factor, "local_frame_rate": rate}
            check({k: p.get(k) for k in want} == want, "parameters", "%s runs with %s" % (x.name, {k: str(v).replace(str(ROOT), "") for k, v in p.items()}))
        check(len(x.configured) <= 1 or w.disturbed, "twice", "%s is configured %d times" % (x.name, len(x.configured)))
        check(len(x.activated) <= 1, "twice", "%s is activated %d times" % (x.name, len(x.activated)))
        check(x.fails != "configure" or not x.activated, "activated-unconfigured", "%s cannot be configured but is activated" % x.name)
        if x.activated and not x.fails:
            begin = x.activated[0]
            # stopped when it takes too long, and only then
            if x.deactivated is not None:
                check(x.deactivated - begin >= w.timeout, "timeout-early", "%s is stopped after %.2f s; the limit is %g s" % (x.name, x.deactivated - begin, w.timeout))
            if quiet:
                ended = x.ended if x.ended is not None else w.now
                check(x.ended is not None and ended - begin < w.timeout + 1.1 + 6 * slack, "timeout-late", "%s is running for %.2f s; the limit is %g s" % (x.name, ended - begin, w.timeout))
    order = [n for _, n in sorted(order)]
    check([n for i, n in enumerate(order) if n not in order[:i]] == [x.name for x in plans if x.name in order], "order", "the scenarios run in the order %s" % order)
    transitions = [(t, n, s) for t, n, s in interpreter.calls if n != "set"]
    if quiet and not (invalid or refused):
        for x in plans:
            check(len(x.configured) == 1 and x.verdict is not None, "not-run", "%s is not run" % x.name)
        times = [(x.configured[0][0], x) for x in plans]
        for (t, x), (u, _) in zip(times, times[1:]):
            end = max(x.ended, x.configured[0][0] + 1)
            check(u - end < 5 + 2 * 4 * 3 + 14 * slack, "idle", "after the end of %s the next scenario begins %.1f s later" % (x.name, u - end))
        check(interpreter.state == "finalized", "not-shut-down", "at the end the interpreter is %s" % interpreter.state)
        bad = [(n, s) for _, n, s in transitions if (n, s) not in (("configure", "unconfigured"), ("activate", "inactive"), ("deactivate", "active"), ("cleanup", "inactive")) and n != "shutdown"]
        # a scenario that ends while it is being stopped
        check(not [b for b in bad if b != ("deactivate", "inactive")], "wrong-transition", "the runner asks for %s" % bad)
    if invalid and not w.interrupted:
        check(code != 0, "invalid-unreported", "a scenario that %s leaves the runner with status 0" % ("cannot be read" if missing else "is not valid"))
    elif refused and not w.interrupted:
        w.check_known(code != 0, "refused-unreported", "a scenario the preprocessor refuses leaves the runner with status 0")
    # --- the verdict of the whole
    junit = runner_out / "result.junit.xml"
    if not interpreter.suites:
        w.check_known(w.interrupted or not junit.exists(), "old-verdict", "no scenario has a verdict, but that of an earlier run is still there")
        verdict = 1
    else:
        check(junit.exists(), "verdict-lost", "the verdict is gone")
        verdict = 0
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                checker.ResultChecker().check(str(junit))
        except SystemExit as e:
            verdict = e.code or 0
        except Exception as e:
            verdict = 1
        good = all(k == "pass" for c in interpreter.suites.values() for ks in c.values() for k in ks) and all(len(x.bag) == 2 for x in plans if x.verdict)
        check((verdict == 0) == good, "checker", "the result checker says %d about %s%s" % (verdict, interpreter.suites, "" if good else " and records %s" % [x.bag for x in plans]))
    if code == 0 and not w.interrupted:
        w.check_known(all(x.verdict for x in plans), "refused-unreported" if refused else "abandoned-unreported", "status 0, but %s" % ", ".join("%s has no verdict" % x.name for x in plans if not x.verdict))
    if verdict == 0 and code == 0 and not w.interrupted:
        short = [x.name for x in plans if x.verdict not in ("pass", None)]
        check(not short, "false-green", "everything is reported to be fine, but %s" % ", ".join("%s has %s" % (x.name, x.verdict) for x in plans if x.verdict not in ("pass", None)))
    # --- the checker, on results of any shape
    if w.chance(1, 2):
        where = ROOT / "results"
        root, good, said = ET.Element("testsuites", name=str(where)), True, []
        for i in range(w.choose(4)):
            suite = ET.SubElement(root, "testsuite", name="s%d" % i)
            for j in range(w.choose(4)):
                case = ET.SubElement(suite, "testcase", name=["c%d", "c.%d"][w.choose(2)] % j)
                bag = where / suite.get("name") / case.get("name")
                bag.mkdir(parents=True)
                files = ["metadata.yaml", "x_0.db3"] if not w.chance(1, 16) else [["metadata.yaml"], ["x_0.db3", "y.yaml"], []][w.choose(3)]
                for f in files + [["other.txt"], []][w.choose(2)]:
                    (bag / f).write_text("x")
                kinds = ["failure", "error", "failure", "error"][:w.choose(5)] if w.chance(1, 8) else []
                for k in kinds:
                    ET.SubElement(case, k, type="x", message="y")
                good = good and not kinds and set(files) == {"metadata.yaml", "x_0.db3"}
                said.append((suite.get("name"), case.get("name"), kinds, files))
        (ROOT / "result.xml").write_bytes(ET.tostring(root))
        verdict = 0
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                checker.ResultChecker().check(str(ROOT / "result.xml"))
        except SystemExit as e:
            verdict = e.code or 0
        except Exception as e:
            verdict = 1
        w.log("the result checker says %s about %s" % (verdict, said))
        check(not said or (verdict == 0) == good, "checker", "the result checker says %s about %s" % (verdict, said))
        w.probe("checker approves" if good else "checker rejects")
    # --- coverage
    for x in plans:
        w.probe("verdict %s" % x.verdict)
    w.probe("status 0" if code == 0 else "status %d" % code)
    w.count("scenarios", len(plans))
    if w.interrupted:
        w.probe("interrupted")
    if quiet:
        w.probe("undisturbed")
    if len(plans) > 1 or w.disturbed:
        w.nontrivial = S.fingerprint([t for t in w.trace if not t.startswith("runner")])
    w.sample = "%d scenarios, %.0f s, status %s, %d requests%s" % (len(plans), finished - 1000, code, w.stats.get("requests", 0), ", disturbed" if w.disturbed else "")


if __name__ == "__main__":
    sys.exit(S.main({"C20": (runner, "a run is non-trivial if it has several scenarios or was disturbed; distinct by the history of requests and transitions",
                             ["scenario_test_runner.py", "lifecycle_controller.py", "result_checker.py", "scenario.py", "openscenario_utility/conversion.py"],
                             ["rclpy, services and clock (simulated)", "interpreter, preprocessor and launch system (models)", "xmlschema, ament_index_python, pkg_resources"])}))
