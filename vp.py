#!/usr/bin/env python3
"""Builds the library of /repo with one driver and runs it.

  vp.py setup            check the tools and build the drivers' common objects
  vp.py run ID           run the check of property ID (tier from VERIF_TIER)
  vp.py replay FILE      execute the single case stored in a replay file
  vp.py build ID         only build the driver (prints its path)
"""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(V, "build")
CXX = "g++"
COMMON = ["-std=c++17", "-fopenmp", "-w", "-DTINYMESH_PYTHON_MODULE", "-D_GLIBCXX_ASSERTIONS",
          "-I" + os.path.join(V, "standins"), "-I" + SRC, "-I" + os.path.join(SRC, "tinymesh"),
          "-I" + os.path.join(V, "lib"), "-isystem", "/usr/include/eigen3", "-isystem", "/usr/include"]
COMMON = COMMON[:-2]
CONFIG = {
    "plain": ["-O2"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "sched": ["-O1", "-g", "-fsanitize=thread"],
    "python": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "native": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
}
LINK = {"plain": ["-fopenmp"], "native": ["-fopenmp", "-fsanitize=address"], "asan": ["-fopenmp", "-fsanitize=address"], "sched": [],
        "python": ["-fopenmp", "-fsanitize=address", "-lpython3.12"]}
# slow translation units; compiled only when the driver needs one of their symbols
HEAVY = ("ops/features.cpp", "restore/completion.cpp")
JOBS = int(os.environ.get("VP_JOBS", "8"))


class BuildError(Exception):
    pass


def reg():
    return json.load(open(os.path.join(V, "checks", "registry.json")))


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(root, exts):
    r = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                r.append(os.path.join(d, f))
    return r


def headers_hash():
    parts = []
    for root in (SRC, os.path.join(V, "standins")):
        for p in tree(root, (".h", ".hpp", ".inl", ".hh")):
            parts += [os.path.relpath(p, root), read(p)]
    return sha(*parts)


def run_cmd(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))


def compile_one(src, flags, hh, extra=""):
    key = sha(" ".join(flags), hh, read(src), src, extra)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(obj):
        return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    fd, tmp = tempfile.mkstemp(suffix=".o", dir=os.path.dirname(obj))
    os.close(fd)
    try:
        run_cmd([CXX] + flags + ["-c", src, "-o", tmp], "compiling " + src)
        os.rename(tmp, obj)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return obj


SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def python_headers():
    """A copy of the pybind11 headers that also knows the layout numpy 2 gives to its type descriptors."""
    inst = "/usr/include/pybind11"
    text = read(os.path.join(inst, "numpy.h")).decode()
    version = re.search(r'^\s*version = "(\d+)', read(os.path.join(SITE, "numpy", "version.py")).decode(), re.M)
    new = text
    if version and int(version.group(1)) >= 2 and "PyArrayDescr2" not in text:
        new = re.sub(r"int elsize;\s+int alignment;", "unsigned long long flags2; Py_ssize_t elsize; Py_ssize_t alignment; void *metadata; Py_hash_t hash; void *reserved[2];", text, count=1)
        if new == text:
            raise BuildError("unknown layout of pybind11/numpy.h")
    dst = os.path.join(BUILD, "pyinc-" + sha(new))
    if not os.path.exists(dst):
        os.makedirs(BUILD, exist_ok=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        shutil.copytree(inst, os.path.join(tmp, "pybind11"))
        with open(os.path.join(tmp, "pybind11", "numpy.h"), "w") as f:
            f.write(new)
        os.chmod(tmp, 0o755)
        try:
            os.rename(tmp, dst)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return dst


def build(pid):
    r = reg()[pid]
    cfg = r.get("config", "plain")
    hh = headers_hash()
    lh = sha(*[read(p) for p in tree(os.path.join(V, "lib"), (".hpp", ".h", ".cpp")) + tree(os.path.join(V, "checks"), (".inc",))])
    common = COMMON
    if cfg == "native":  # as in a C++ program, where errors end the process
        common = [f for f in COMMON if f != "-DTINYMESH_PYTHON_MODULE"]
    if cfg == "python":  # the real binding library comes before the stand-in
        i = COMMON.index("-I" + os.path.join(V, "standins"))
        common = COMMON[:i] + COMMON[i + 1:] + ["-I" + python_headers(), "-I/usr/include/python3.12", "-idirafter", os.path.join(V, "standins"), "-fvisibility=hidden"]
    lflags = common + CONFIG[cfg] + [f.replace("@V@", V) for f in r.get("libflags", [])]
    dflags = common + ["-O2"] + [f.replace("@V@", V) for f in r.get("flags", [])]
    root = os.path.join(SRC, "tinymesh")
    lib = [p for p in tree(root, (".cpp",))]
    driver = [os.path.join(V, "checks", s) for s in r["sources"]]
    if cfg == "python":
        driver += [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith(".cpp")]
    light = [p for p in lib if not p.endswith(HEAVY)]
    heavy = [p for p in lib if p.endswith(HEAVY)]
    if r.get("heavy"):
        light, heavy = lib, []
    jobs = [(p, dflags, hh + lh) for p in driver] + [(p, lflags, hh + (lh if r.get("libflags") else "")) for p in light]
    # slow files first
    order = sorted(jobs, key=lambda j: (0 if j[0].endswith(HEAVY) or j[1] is dflags and cfg == "python" else 1 if "mesh.cpp" in j[0] or "eigen" in j[0] else 2))
    with ThreadPoolExecutor(JOBS) as ex:
        res = dict(zip([j[0] for j in order], ex.map(lambda j: compile_one(*j), order)))
    objs = [res[j[0]] for j in jobs]
    if cfg == "sched":  # the instrumented copies of inline functions have to win
        objs = objs[len(driver):] + objs[:len(driver)]
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)

    def link(objs):
        exe = os.path.join(bindir, pid + "-" + sha(*objs, *LINK[cfg], *r.get("link", [])))
        if os.path.exists(exe):
            return exe
        fd, tmp = tempfile.mkstemp(dir=bindir)
        os.close(fd)
        try:
            run_cmd([CXX, "-o", tmp] + objs + LINK[cfg] + r.get("link", []) + ["-lpthread", "-ldl"], "linking " + pid)
            os.chmod(tmp, 0o755)
            os.rename(tmp, exe)
        finally:
            if os.path.exists(tmp):
                os.unlink(tmp)
        return exe

    try:
        return link(objs)
    except BuildError as e:
        if "undefined reference" not in str(e) or not heavy:
            raise
    with ThreadPoolExecutor(JOBS) as ex:
        objs += list(ex.map(lambda p: compile_one(p, lflags, hh + (lh if r.get("libflags") else "")), heavy))
    return link(objs)


def known():
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known:"):
                m = re.match(r"known: property=(\S+) group=(\S+) case=(.*?) :: (.*)$", l)
                if m:
                    out.append(m.groups())
    return out


def env_for(scratch, tier=None):
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = "1"
    e["OMP_DYNAMIC"] = "false"
    e["VP_SCRATCH"] = scratch
    e["VP_REPO"] = REPO
    e["LC_ALL"] = "C"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["ASAN_OPTIONS"] = "detect_leaks=0:detect_container_overflow=0:exitcode=99:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0"
    if tier:
        e["VERIF_TIER"] = tier
    return e


def run(pid):
    t0 = time.time()
    r = reg()[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    ev = os.path.join(V, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    try:
        exe = build(pid)
    except BuildError as e:
        print(str(e))
        print("ERROR: the check of %s could not be built" % pid)
        return 2
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="vp-" + pid + "-")
    try:
        out = os.path.join(scratch, "result.json")
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        if r.get("unprivileged"):
            # these two directories were just made here: let another user pass through them
            os.chmod(scratch, 0o711)
            os.chmod(work, 0o711)
        p = subprocess.run([exe, "--out", out], env=env_for(work), cwd=work, stdin=subprocess.DEVNULL)
        if p.returncode != 0 or not os.path.exists(out):
            print("ERROR: driver of %s ended with status %s" % (pid, p.returncode))
            return 2
        res = json.load(open(out))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    kf = known()
    new, old = [], []
    for v in res["violations"]:
        hit = [k for k in kf if k[0] == pid and k[1] == v["group"] and k[2] == v["case"] and k[3].split(" (")[0] in v["message"]]
        (old if hit else new).append((v, hit[0] if hit else None))
    cov = {"exhaustive": res["executed"] == res["cases"],
           "cases": res["cases"], "groups": res["groups"], "samples": res["samples"] or [g["name"] for g in res["groups"]],
           "build_s": round(tb, 1)}
    if r["level"] == "model_checking":
        cov.update(states=res["states"], transitions=res["transitions"], traces_validated_against_impl=res["traces"],
                   distinct_outcomes=res["distinct"])
    else:
        cov.update(evaluations=res["evals"] or res["executed"], distinct_nontrivial=res["distinct"], rule=r.get("rule", "all cases of the enumerated alphabet are executed"))
        if res["states"]:
            cov.update(states=res["states"], transitions=res["transitions"])
    for i, n in enumerate(r.get("aux", [])):
        cov[n] = res["aux"][i]
    viol = len(new)
    evd = {"property": pid, "tier": tier, "seed": seed, "level": r["level"], "coverage": cov,
           "wall_s": round(time.time() - t0, 2), "assumptions": r.get("assumptions", []) + [
               "library compiled from the current working tree with stand-ins for tinyply and tinyobjloader" if r.get("config") == "python" else
               "library compiled from the current working tree with stand-ins for tinyply, tinyobjloader and pybind11"],
           "violations": viol}
    json.dump(evd, open(ev, "w"), indent=1)
    for v, k in old:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    print("%s: %d cases, states %d, transitions %d, distinct outcomes %d, build %.1fs, total %.1fs" % (
        pid, res["executed"], res["states"], res["transitions"], res["distinct"], tb, time.time() - t0))
    # a failure that was observed counts even if a second run takes another path; only a time-out has to repeat
    confirmed = [v for v, _ in new if v["confirmed"] == 1] or [
        v for v, _ in new if v["confirmed"] == 0 and v["message"] != "does not return"]
    if new and not confirmed:
        print(json.dumps(new[:3], indent=1))
        print("ERROR: failures did not reproduce in a fresh process")
        return 2
    if confirmed:
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + ".json")
        json.dump({"property": pid, "tier": tier, "cases": confirmed[:20]}, open(path, "w"), indent=1)
        for v in confirmed[:3]:
            print("  %s [%s #%d]: %s" % (v["case"], v["group"], v["index"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0


def replay(path):
    d = json.load(open(path))
    exe = build(d["property"])
    rc = 0
    for v in d["cases"][:5]:
        scratch = tempfile.mkdtemp(prefix="vp-replay-")
        try:
            os.chmod(scratch, 0o711)
            p = subprocess.run([exe, "--replay", v["group"], str(v["index"])], env=env_for(scratch, d["tier"]), cwd=scratch)
            if p.returncode != 0:
                rc = 1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return rc


def setup():
    for t in (CXX, "git"):
        if not shutil.which(t):
            print("missing tool", t)
            return 2
    for h in ("/usr/include/eigen3/Eigen/Core", "/usr/include/Spectra"):
        if not os.path.exists(h):
            print("missing header", h)
            return 2
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        sys.exit(setup())
    if a[:1] == ["run"] and len(a) == 2:
        sys.exit(run(a[1]))
    if a[:1] == ["build"] and len(a) == 2:
        print(build(a[1]))
        sys.exit(0)
    if a[:1] == ["replay"] and len(a) == 2:
        sys.exit(replay(a[1]))
    print(__doc__)
    sys.exit(2)
