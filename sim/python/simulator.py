"""A deterministic simulator for Python programs: one seed (or one list of choices) is one run.

Every choice of a run is drawn from `World.choose`; the list of choices drawn is the replay file. Time is virtual.
"""
import hashlib, heapq, json, os, random, signal, sys, time as real_time


class Violation(BaseException):
    def __init__(self, cls, message):
        BaseException.__init__(self, cls + ": " + message)
        self.cls, self.message = cls, message


class Hang(BaseException):
    pass


class World:
    def __init__(self, seed=None, choices=None):
        self.random = random.Random(seed) if choices is None else None
        self.choices = choices
        self.drawn = []
        self.now = 1000.0
        self.limit = 1000.0 + 6 * 3600
        self.queue, self.sequence, self.steps = [], 0, 0
        self.trace = []
        self.stats = {}
        self.enabled = set()
        self.interrupt = None          # raised once, in the middle of waiting

    # choices: 0 is the quiet one
    def choose(self, n):
        if n <= 1:
            return 0
        i = len(self.drawn)
        x = self.random.randrange(n) if self.random else (self.choices[i] % n if i < len(self.choices) else 0)
        self.drawn.append(x)
        return x

    def chance(self, num, den):
        return self.choose(den) >= den - num

    def enable(self, kind, on):
        if on:
            self.enabled.add(kind)
            self.count("enabled:" + kind)

    def fault(self, kind, num, den):
        if kind in self.enabled and self.chance(num, den):
            self.count("fault:" + kind)
            self.log("fault " + kind)
            return True
        return False

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def probe(self, text):
        self.count("probe:" + text)

    def log(self, text):
        self.trace.append("[%.6f] %s" % (self.now, text))

    def check(self, ok, cls, message):
        if not ok:
            self.log("VIOLATION %s: %s" % (cls, message))
            raise Violation(cls, message)

    # a recorded defect (KNOWN_FINDINGS.txt) need not end the run: noted if its class is listed, a violation otherwise
    def check_known(self, ok, cls, message):
        if not ok:
            self.check(cls in KNOWN, cls, message)
            self.count("known:" + cls)

    def at(self, t, f):
        self.sequence += 1
        heapq.heappush(self.queue, (t, self.sequence, f))

    def after(self, d, f):
        self.at(self.now + d, f)

    def wait(self, until, done=lambda: False):
        """Time goes on until the deadline (None: for ever) or until done()."""
        while not done():
            self.steps += 1
            if self.interrupt is not None:
                x, self.interrupt = self.interrupt, None
                raise x
            if self.queue and (until is None or self.queue[0][0] <= until):
                t, _, f = heapq.heappop(self.queue)
                self.now = max(self.now, t)
                f()
            elif until is not None:
                self.now = max(self.now, until)
                break
            else:
                raise Hang("nothing will ever happen")
            if self.now > self.limit or self.steps > 400000:
                raise Hang("the time limit is over")
        if self.now > self.limit or self.steps > 400000:
            raise Hang("the time limit is over")


KNOWN = set()


def fingerprint(trace):
    return int.from_bytes(hashlib.blake2b("\n".join(trace).encode(), digest_size=8).digest(), "big")


def one(scenario, seed, choices, scratch):
    """Runs once: (world, violation or None)."""
    w = World(seed, choices)

    def stuck(*_):
        raise Hang("the program computes for ever")
    signal.signal(signal.SIGPROF, stuck)
    signal.setitimer(signal.ITIMER_PROF, 2)        # seconds of processor time; a run needs a few hundredths
    try:
        scenario(w, scratch)
        signal.setitimer(signal.ITIMER_PROF, 0)
        return w, None
    except Violation as v:
        return w, v
    except Hang as h:
        w.log("VIOLATION hang")
        return w, Violation("hang", str(h))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def seed_of(verif_seed, prop, index):
    return int.from_bytes(hashlib.blake2b(("%d/%s/%d" % (verif_seed, prop, index)).encode(), digest_size=8).digest(), "big")


def minimise(scenario, choices, cls, scratch, seconds):
    """Shortens the tail and replaces choices by the quiet one while the violation stays of the same class."""
    end = real_time.time() + seconds
    best, tries = list(choices), 0

    def still(candidate):
        nonlocal tries
        tries += 1
        w, v = one(scenario, None, candidate, scratch)
        return v is not None and v.cls == cls

    size = max(1, len(best) // 2)
    while size >= 1 and real_time.time() < end:
        i = 0
        while i < len(best) and real_time.time() < end:
            candidate = best[:i] + best[i + size:]
            quiet = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
            if still(candidate):
                best = candidate
            elif quiet != best and still(quiet):
                best = quiet
                i += size
            else:
                i += size
        size //= 2
    return best, tries


def worker(scenario, o, job, deadline, path):
    scratch = os.path.join(o.scratch, "w%d" % job)
    os.makedirs(scratch, exist_ok=True)
    r = {"runs": 0, "nontrivial": [], "histories": [], "states": [], "steps": 0, "sim": 0.0, "repeated": 0, "violating": 0, "violations": [],
         "samples": [], "stats": {}, "fatal": ""}
    index = o.first + job
    try:
        while real_time.time() < deadline and not r["violations"] and (not o.max_runs or r["runs"] * o.jobs < o.max_runs):
            w, v = one(scenario, seed_of(o.seed, o.property, index), None, scratch)
            r["runs"] += 1
            r["steps"] += w.steps
            r["sim"] += w.now - 1000.0
            r["histories"].append(fingerprint(w.trace))
            for k, n in w.stats.items():
                r["stats"][k] = r["stats"].get(k, 0) + n
            if getattr(w, "nontrivial", None) is not None:
                r["nontrivial"].append(w.nontrivial)
            if getattr(w, "sample", None) and len(r["samples"]) < 2:
                r["samples"].append(w.sample)
            if index % 16 == job % 16 or v:
                w2, v2 = one(scenario, None, w.drawn, scratch)
                if w2.trace != w.trace:
                    r["fatal"] = "fatal nondeterminism in run %d" % index
                    for a, b in zip(w.trace, w2.trace):
                        if a != b:
                            r["fatal"] += ": " + a + " / " + b
                            break
                    break
                r["repeated"] += 1
            if v:
                r["violating"] += 1
                best, tries = minimise(scenario, w.drawn, v.cls, scratch, 20)
                wm, vm = one(scenario, None, best, scratch)
                file = os.path.join(o.replay_dir, "%s-seed%d-run%d.json" % (o.property, o.seed, index))
                json.dump({"property": o.property, "verif_seed": o.seed, "run": index, "known": sorted(KNOWN), "class": vm.cls, "message": vm.message, "original_message": v.message,
                           "hash": str(fingerprint(wm.trace)), "minimised_from": len(w.drawn), "attempts": tries, "choices": wm.drawn,
                           "trace": wm.trace[-200:], "repeats_exactly": True}, open(file, "w"), indent=1)
                r["violations"].append({"class": vm.cls, "message": vm.message, "replay": file, "run": index})
            index += o.jobs
    except BaseException as e:      # noqa
        import traceback
        r["fatal"] = "the harness failed in run %d: %s" % (index, traceback.format_exc()[-1500:])
    json.dump(r, open(path, "w"))


def main(scenarios):
    """scenarios: property -> (scenario, rule, real, stub)"""
    import argparse
    a = argparse.ArgumentParser()
    a.add_argument("--property", required=True)
    a.add_argument("--seed", type=int, default=1)
    a.add_argument("--time", type=float, default=10)
    a.add_argument("--jobs", type=int, default=8)
    a.add_argument("--max-runs", type=int, default=0)
    a.add_argument("--first", type=int, default=0)
    a.add_argument("--out")
    a.add_argument("--replay-dir", default=".")
    a.add_argument("--replay")
    a.add_argument("--one", type=int)
    a.add_argument("--scratch", default="/tmp")
    a.add_argument("--known", action="append")
    a.add_argument("--echo", action="store_true")
    o = a.parse_args()
    scenario, rule, real, stub = scenarios[o.property]
    KNOWN.update(o.known or [])
    own = os.path.join(os.path.abspath(o.scratch), "python-%d" % os.getpid())
    os.makedirs(own)
    o.scratch = own
    import shutil
    rmtree = shutil.rmtree
    try:
        if o.replay or o.one is not None:
            d = json.load(open(o.replay)) if o.replay else None
            KNOWN.update(d.get("known", []) if d else [])
            one_dir = os.path.join(own, "w0")
            os.makedirs(one_dir)
            w, v = one(scenario, None if d else seed_of(o.seed, o.property, o.one), d and d["choices"], one_dir)
            if o.echo:
                print("\n".join(w.trace), file=sys.stderr)
            if v is None:
                return 0
            print("%s: %s" % (v.cls, v.message))
            return 1 if d and v.cls == d["class"] and str(fingerprint(w.trace)) == d["hash"] else 3
        start = real_time.time()
        deadline = start + o.time
        pids = {}
        for j in range(o.jobs):
            path = os.path.join(own, "r%d.json" % j)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                worker(scenario, o, j, deadline, path)
                os._exit(0)
            pids[pid] = path
        results = []
        fatal = ""
        for pid, path in pids.items():
            late = deadline + 120
            while True:
                p, status = os.waitpid(pid, os.WNOHANG)
                if p:
                    break
                if real_time.time() > late:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    fatal = "a run does not end"
                    break
                real_time.sleep(0.02)
            try:
                results.append(json.load(open(path)))
            except (OSError, ValueError):
                fatal = fatal or "a worker left no result"
        stats = {}
        for r in results:
            for k, n in r["stats"].items():
                stats[k] = stats.get(k, 0) + n
            fatal = fatal or r["fatal"]
        total = lambda k: sum(r[k] for r in results)
        every = lambda k: [x for r in results for x in r[k]]
        violations = sorted(every("violations"), key=lambda v: v["run"])
        out = {"runs": total("runs"), "wall": real_time.time() - start, "nontrivial_runs": len(every("nontrivial")), "distinct_nontrivial": len(set(every("nontrivial"))),
               "distinct_histories": len(set(every("histories"))), "distinct_states": 0, "steps": total("steps"), "switches": total("steps"), "sim_seconds": total("sim"),
               "repeated_runs_identical": total("repeated"), "violating_runs": total("violating"), "jobs": o.jobs, "violations": violations[:3], "known_seen": sorted(k for k in KNOWN if "known:" + k in stats),
               "fatal": fatal, "rule": rule, "real": real, "stub": stub, "samples": every("samples")[:4], "stats": stats}
        json.dump(out, open(o.out, "w") if o.out else sys.stdout, indent=1)
        return 1 if violations else 2 if fatal else 0
    finally:
        rmtree(own, ignore_errors=True)
