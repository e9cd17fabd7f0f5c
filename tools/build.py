#!/usr/bin/env python3
"""Content-addressed builder: every object is keyed by its command line and validated against the contents of every file it included.

Objects live in /verif/build (git-ignored). Sources of the code under test are always taken from the working tree of /repo.
"""
import concurrent.futures, glob, hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))

_sha_cache = {}
_sha_lock = threading.Lock()


def sha(path):
    with _sha_lock:
        if path in _sha_cache:
            return _sha_cache[path]
    try:
        with open(path, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = None
    with _sha_lock:
        _sha_cache[path] = h
    return h


class BuildError(Exception):
    pass


def _parse_dep(path):
    text = open(path).read().replace("\\\n", " ")
    # first rule only
    text = text.split(":", 1)[1]
    out = []
    for tok in re.split(r"(?<!\\)\s+", text.strip()):
        if tok.endswith(":"):
            break
        out.append(tok.replace("\\ ", " "))
    return out


def compile_one(src, flags, compiler="g++", extra_deps=()):
    key = hashlib.sha1(json.dumps([compiler, src, flags]).encode()).hexdigest()[:20]
    base = os.path.join(BUILD, "obj", key[:2], os.path.basename(src) + "." + key)
    obj, meta = base + ".o", base + ".json"
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and all(sha(p) == h for p, h in m["deps"].items()):
            return obj, False
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = base + ".d"
    cmd = [compiler] + flags + ["-MD", "-MF", dep, "-MT", "x", "-c", src, "-o", obj]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s\n%s" % (src, " ".join(cmd), r.stdout[-6000:]))
    deps = {}
    for p in list(_parse_dep(dep)) + list(extra_deps):
        p = os.path.normpath(p)
        if p.startswith(("/usr/", "/opt/")):
            continue
        deps[p] = sha(p)
    json.dump({"deps": deps, "cmd": cmd}, open(meta, "w"))
    return obj, True


def pch(header_text, flags, name):
    """Precompiled header; returns the flags that use it and the files it depends on."""
    key = hashlib.sha1(json.dumps([header_text, flags]).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "pch", name + "." + key)
    h, g, meta = d + "/" + name + ".hpp", d + "/" + name + ".hpp.gch", d + "/meta.json"
    os.makedirs(d, exist_ok=True)
    if not os.path.exists(h) or open(h).read() != header_text:
        open(h, "w").write(header_text)
    try:
        m = json.load(open(meta))
        if os.path.exists(g) and all(sha(p) == s for p, s in m["deps"].items()):
            return ["-include", h], sorted(m["deps"])
    except (OSError, ValueError, KeyError):
        pass
    cmd = ["g++"] + flags + ["-MD", "-MF", d + "/dep", "-MT", "x", "-x", "c++-header", h, "-o", g]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError("precompiling failed:\n%s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    deps = {p: sha(p) for p in map(os.path.normpath, _parse_dep(d + "/dep")) if not p.startswith(("/usr/", "/opt/"))}
    json.dump({"deps": deps}, open(meta, "w"))
    return ["-include", h], sorted(deps)


def link(objs, out, flags):
    h = hashlib.sha1(json.dumps([objs, flags]).encode())
    for o in objs:
        h.update((sha_file(o)).encode())
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    r = subprocess.run(["g++", "-rdynamic", "-o", out] + objs + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError("linking %s failed:\n%s" % (out, r.stdout[-6000:]))
    open(stamp, "w").write(h.hexdigest())
    return out


def sha_file(p):
    with open(p, "rb") as f:
        return hashlib.sha1(f.read()).hexdigest()


def compile_all(jobs):
    """jobs: list of (src, flags[, extra_deps]); returns objects in order."""
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(compile_one, j[0], j[1], "g++", j[2] if len(j) > 2 else ()) for j in jobs]
        out, err = [], None
        for f in fs:
            try:
                out.append(f.result()[0])
            except concurrent.futures.CancelledError:
                pass
            except BuildError as e:
                if err is None or os.environ.get("VERIF_KEEP_GOING"):
                    err = BuildError((str(err) + "\n" if err else "") + str(e))
                if not os.environ.get("VERIF_KEEP_GOING"):
                    for g in fs:
                        g.cancel()
        if err:
            raise err
    return out


def messages():
    """Generates the stand-in ROS message headers; returns the include directory."""
    d = os.path.join(BUILD, "msgs")
    defs, gen = os.path.join(VERIF, "sim/msgs/definitions.txt"), os.path.join(VERIF, "sim/msgs/gen_msgs.py")
    key = hashlib.sha1()
    for p in [defs, gen] + sorted(
        os.path.join(r, f) for r, _, fs in os.walk(REPO) if "/.git" not in r and "/_build" not in r for f in fs if f.endswith((".msg", ".srv"))
    ):
        key.update(p.encode())
        key.update((sha(p) or "").encode())
    stamp = os.path.join(d, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == key.hexdigest():
        return d
    os.makedirs(d, exist_ok=True)
    r = subprocess.run([sys.executable, gen, defs, REPO, d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("message generation failed:\n" + r.stdout)
    open(stamp, "w").write(key.hexdigest())
    return d


def protos():
    """Runs protoc on the schema of the working tree; returns the include directory and the generated sources."""
    src = sorted(glob.glob(os.path.join(REPO, "simulation/simulation_interface/proto/*.proto")))
    d = os.path.join(BUILD, "proto")
    key = hashlib.sha1("".join((sha(p) or "") + p for p in src).encode()).hexdigest()
    stamp = os.path.join(d, "stamp")
    out = os.path.join(d, "simulation_interface")
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        os.makedirs(out, exist_ok=True)
        r = subprocess.run(["protoc", "--cpp_out=" + out, "-I" + os.path.dirname(src[0])] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("protoc failed:\n" + r.stdout)
        open(stamp, "w").write(key)
    return ["-I" + d, "-I" + out], [os.path.join(out, os.path.basename(p)[:-6] + ".pb.cc") for p in src]


KERNEL_FLAGS = ["-std=c++17", "-O2", "-g", "-Wall", "-I" + VERIF]


def kernel_jobs():
    return [(os.path.join(VERIF, "sim/kernel", f), KERNEL_FLAGS) for f in ("kernel.cpp", "interpose.cpp", "tsan_rt.cpp", "driver.cpp")]


def build(name):
    sys.path.insert(0, os.path.join(VERIF, "tools"))
    import targets  # noqa
    return targets.build(name)


if __name__ == "__main__":
    import build as _b      # one module object, so that BuildError is one class
    t = time.time()
    try:
        for n in sys.argv[1:]:
            print(_b.build(n))
    except _b.BuildError as e:
        print(e)
        sys.exit(2)
    print("%.1fs" % (time.time() - t))
