#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seconds S]

Builds the simulation binary of a property from /repo's working tree, searches seeds for the given time, confirms every
violation in a fresh process from its replay file, prints VIOLATION / KNOWN-FINDING lines and writes the evidence file.
Exit status: 0 held on everything explored, 1 violation, 2 the check itself could not decide.
"""
import argparse, json, os, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from checks import CHECKS

START = time.time()


def known_findings(prop):
    """Lines 'finding: property=<id> class=<class> <text>' of KNOWN_FINDINGS.txt."""
    out = []
    try:
        for line in open(os.path.join(B.VERIF, "KNOWN_FINDINGS.txt")):
            if line.startswith("finding: "):
                f = line.split(None, 3)
                if f[1] == "property=" + prop and f[2].startswith("class="):
                    out.append((f[2][6:], f[3].strip()))
    except OSError:
        pass
    return out


def run(cmd, timeout):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seconds", type=float)
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    o = a.parse_args()
    c = CHECKS[o.property]
    tier = "thorough" if o.tier == "thorough" else "quick"
    budget = o.seconds or c.get(tier, {"quick": 30, "thorough": 600}[tier])
    if "command" in c:      # a simulator of its own (Python packages)
        binary = None
        cmd = [sys.executable, os.path.join(B.VERIF, c["command"])]
    else:
        try:
            binary = B.build(c["target"])
        except B.BuildError as e:
            print(e)
            print("ERROR property=%s the simulation binary does not build" % o.property)
            return 2
        cmd = [binary]
    built = time.time() - START
    replay_dir = os.path.join(B.VERIF, "build", "replay")
    os.makedirs(replay_dir, exist_ok=True)
    os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    found = known_findings(o.property)
    with tempfile.TemporaryDirectory(prefix="simcheck-") as scratch:
        out = os.path.join(scratch, "out.json")
        r = run(cmd + ["--property", o.property, "--seed", str(o.seed), "--time", str(budget), "--jobs", str(B.JOBS), "--out", out,
                       "--replay-dir", replay_dir, "--scratch", scratch] + sum([["--known", k] for k, _ in found], []), budget + 200)
        try:
            res = json.load(open(out))
        except (OSError, ValueError):
            print(r.stdout[-4000:])
            print("ERROR property=%s no result from the simulator (status %d)" % (o.property, r.returncode))
            return 2
        violation = None
        for v in res["violations"]:
            for attempt in range(6):
                q = run(cmd + ["--property", o.property, "--replay", v["replay"], "--scratch", scratch], 200)
                if q.returncode in (1, 3):
                    break
            exact = '"repeats_exactly": false' not in open(v["replay"], errors="replace").read()
            if q.returncode in (1, 3) or not exact:
                violation = v
                print("%s: %s" % (v["class"], v["message"]))
                print("replayed %s in a fresh process: %s" % ("exactly" if q.returncode == 1 else "(with a different history)", v["replay"]))
                break
            print("ERROR the replay of %s gave status %d" % (v["replay"], q.returncode))
            print(q.stdout[-2000:])
        if res["violations"] and not violation:
            res["fatal"] = res["fatal"] or "a violation could not be replayed"
    wall = time.time() - START
    search = max(res["wall"], 1e-6)
    stats = res["stats"]
    cov = {
        "evaluations": res["runs"],
        "distinct_nontrivial": res["distinct_nontrivial"],
        "rule": res["rule"],
        "samples": res["samples"] or ["(none)"],
        "nontrivial_runs": res["nontrivial_runs"],
        "runs_per_hour": round(res["runs"] / search * 3600),
       
        "simulated_seconds": round(res["sim_seconds"], 3),
        "scheduling_steps": res["steps"],
        "thread_switches": res["switches"],
        "distinct_histories": res["distinct_histories"],
        "distinct_states": res["distinct_states"],
        "runs_repeated_with_identical_history": res["repeated_runs_identical"],
        "faults_injected": {k[6:]: v for k, v in stats.items() if k.startswith("fault:")},
        "runs_with_fault_kind_enabled": {k[8:]: v for k, v in stats.items() if k.startswith("enabled:")},
        "probes_reached": {k[6:]: v for k, v in stats.items() if k.startswith("probe:")},
        "counters": {k: v for k, v in stats.items() if not k.startswith(("fault:", "enabled:", "probe:"))},
        "ran_real_code": res["real"],
        "ran_as_stub": res["stub"],
        "build_s": round(built, 2),
        "search_s": round(search, 2),
    }
    ev = {
        "property": o.property, "tier": tier, "seed": o.seed, "level": c["level"], "coverage": cov,
        "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    json.dump(ev, open(os.path.join(B.VERIF, "evidence", o.property + ".json"), "w"), indent=1)
    seen = set(res["known_seen"])
    for k, text in found:
        if k in seen:
            print("KNOWN-FINDING: property=%s %s" % (o.property, text))
    print("%s: %d runs, %d distinct non-trivial, %d distinct histories, %.0f simulated s, %d switches, faults %s, build %.1f s, search %.1f s" % (
        o.property, res["runs"], res["distinct_nontrivial"], res["distinct_histories"], res["sim_seconds"], res["switches"],
        cov["faults_injected"], built, search))
    if violation:
        print("VIOLATION property=%s replay=%s" % (o.property, violation["replay"]))
        return 1
    if res["fatal"]:
        print("ERROR property=%s %s" % (o.property, res["fatal"]))
        return 2
    missing = [p for p in c.get("must_probe", []) if not stats.get("probe:" + p)]
    if missing:
        print("note: not reached in this run: %s" % ", ".join(missing))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except B.BuildError as e:
        print(e)
        print("ERROR the build failed")
        sys.exit(2)
