#!/usr/bin/env python3
"""Builds the simulator with /repo's current sources and runs the seeded exploration of one property.

  check.py run <property> [--tier quick|thorough] [--seconds N]
  check.py replay <property> <file>       replays a recorded violation in a fresh process
  check.py build <property>               builds only, prints the path of the binary
  check.py setup                          builds the simulator core and runs its self test
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DLAF_SIM_REPO", "/repo")
BUILD = os.environ.get("DLAF_SIM_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, os.path.join(HERE, "tools"))
from targets import CAPI, CORE_SOURCES, SIM_SOURCES, TARGETS

CXX = "g++"
FLAGS = ["-std=c++17", "-O1", "-w", "-fno-strict-aliasing",
         "-include", "simshim/enums.h",
         "-I" + os.path.join(HERE, "sim/include"), "-I" + os.path.join(HERE, "harness"),
         "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "miniapp/include"),
         "-DDLAF_ASSERT_ENABLE", "-DDLAF_ASSERT_MODERATE_ENABLE", "-DDLAF_ASSERT_HEAVY_ENABLE",
         "-DDLAF_FUNCTION_NAME=__PRETTY_FUNCTION__", "-DDLAF_SIMULATION"]
LIBS = ["-llapackpp", "-lblaspp", "-lopenblas", "-ldl"]
JOBS = int(os.environ.get("DLAF_SIM_JOBS", str(os.cpu_count() or 8)))


def sha(path):
    h = hashlib.sha1()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


_sha_cache = {}


def fsha(p):
    if p not in _sha_cache:
        try:
            _sha_cache[p] = sha(p)
        except OSError:
            _sha_cache[p] = None
    return _sha_cache[p]


def compile_one(src, extra=()):
    """Object file of src, reused only if the content of every file it was built from is unchanged."""
    cdir = os.path.join(BUILD, "cache")
    os.makedirs(cdir, exist_ok=True)
    cmd = [CXX] + FLAGS + list(extra)
    key = hashlib.sha1(("\0".join(cmd) + "\0" + src).encode()).hexdigest()
    obj, meta = os.path.join(cdir, key + ".o"), os.path.join(cdir, key + ".json")
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            deps = json.load(open(meta))
            if all(fsha(p) == h for p, h in deps.items()):
                return obj, 0.0
        except (OSError, ValueError):
            pass
    t0 = time.time()
    tmp = obj + ".%d.tmp" % os.getpid()
    dep = tmp + ".d"
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("compilation of %s failed:\n%s" % (src, r.stdout[-6000:]))
    txt = open(dep).read().replace("\\\n", " ")
    files = txt.split(":", 1)[1].split()
    json.dump({p: fsha(p) for p in files}, open(meta + ".tmp%d" % os.getpid(), "w"))
    os.replace(tmp, obj)
    os.replace(meta + ".tmp%d" % os.getpid(), meta)
    os.unlink(dep)
    return obj, time.time() - t0


SRC_DIRS = ["", "blas", "common", "communication", "communication/kernels", "matrix", "memory", "c_api"]
SRC_OTHERS = {"dummy.cpp", "matrix/hdf5.cpp"}


def repo_sources(names):
    """The listed sources, without those which do not exist any more, and the ones which were added beside them."""
    have = lambda n: os.path.exists(os.path.join(REPO, "src", n.partition("|")[0]))
    out = [n for n in names if have(n)]
    dirs = {os.path.dirname(n.partition("|")[0]) for n in names}
    known = set(CORE_SOURCES) | SRC_OTHERS | set(CAPI["repo"])
    for d in SRC_DIRS:
        path = os.path.join(REPO, "src", d)
        if d in dirs and os.path.isdir(path):
            new = [os.path.join(d, n) for n in sorted(os.listdir(path)) if n.endswith(".cpp")]
            out += [n for n in new if n not in known and n not in out]
    return out


def sources(prop):
    t = TARGETS[prop]
    out = []
    for s in t["harness"]:
        name, _, defs = s.partition("|")
        out.append((os.path.join(HERE, "harness", name), ["-D" + d for d in defs.split(",") if d]))
    core = CORE_SOURCES if t.get("core") is None else t["core"]
    out += [(os.path.join(REPO, "src", s), []) for s in (repo_sources(core) if core else [])]
    repo = []
    for s in [n for n in t.get("repo", []) if n in repo_sources(t["repo"])]:
        name, _, defs = s.partition("|")
        repo.append((os.path.join(REPO, "src", name), ["-D" + d for d in defs.split(",") if d]))
    out = repo + out if t.get("repo_first") else out + repo
    out += [(os.path.join(HERE, s), ["-O2"]) for s in t.get("sim", SIM_SOURCES)]
    return [(s, f + ["-D" + d for d in t.get("all_defines", [])]) for s, f in out]


PIC = ["-fPIC", "-fno-gnu-unique"]


def shared_sources(prop):
    """Sources of the shared library which the harness loads once per simulated rank (its own process-wide state for each)."""
    t = TARGETS[prop].get("shared")
    if not t:
        return []
    out = []
    for s in t.get("harness", []):
        name, _, defs = s.partition("|")
        out.append((os.path.join(HERE, "harness", name), PIC + ["-D" + d for d in defs.split(",") if d]))
    defs = ["-D" + d for d in t.get("defines", [])]
    out = [(s, f + ["-D" + d for d in t.get("all_defines", [])]) for s, f in out]
    defs += ["-D" + d for d in t.get("all_defines", [])]
    out += [(os.path.join(REPO, "src", s), PIC + defs) for s in repo_sources(CORE_SOURCES + t.get("repo", []))]
    return out


def build(prop, verbose=False):
    t0 = time.time()
    srcs = sources(prop)
    nexe = len(srcs)
    srcs += shared_sources(prop)
    objs = []
    times = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = [(s, ex.submit(compile_one, s[0], s[1])) for s in srcs]
        for s, f in futs:
            o, t = f.result()
            objs.append(o)
            times.append((t, s[0]))
    odir = os.path.join(BUILD, "bin")
    os.makedirs(odir, exist_ok=True)
    exe = os.path.join(odir, prop)
    tmp = exe + ".%d" % os.getpid()
    if len(objs) > nexe:
        so = exe + ".so.%d" % os.getpid()
        r = subprocess.run([CXX, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,lazy", "-o", so] + objs[nexe:] + TARGETS[prop]["shared"].get("ldflags", []), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("link failed:\n" + r.stdout[-6000:])
        for i in range(TARGETS[prop]["shared"]["copies"]):
            shutil.copyfile(so, exe + ".so.tmp")
            os.replace(exe + ".so.tmp", "%s.rank%d.so" % (exe, i))
        os.unlink(so)
    objs = objs[:nexe]
    link = [CXX, "-o", tmp] + objs + TARGETS[prop].get("ldflags", []) + LIBS
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise RuntimeError("link failed:\n" + r.stdout[-6000:])
    os.replace(tmp, exe)
    if verbose:
        for t, s in sorted(times, reverse=True)[:12]:
            print("  %6.1fs %s" % (t, s), file=sys.stderr)
    print("build of %s: %.1fs" % (prop, time.time() - t0), file=sys.stderr)
    return exe


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) scenario=(\S+) kind=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def fresh_replay(exe, prop, path):
    r = subprocess.run([exe, "replay", "--property=" + prop, "--file=" + path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 1 and "REPRODUCED" in r.stdout, r.stdout


def run(prop, tier, seconds=None):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t = TARGETS[prop]
    exe = build(prop)
    build_s = time.time() - t0
    if seconds is None:
        seconds = t.get("thorough", 600) if tier == "thorough" else t.get("quick", 25)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "."):
            os.unlink(os.path.join(rdir, f))
    known = known_findings(prop)
    procs = []
    hfiles = []
    for i in range(JOBS):
        hf = os.path.join(BUILD, "hashes.%s.%d" % (prop, i))
        hfiles.append(hf)
        cmd = [exe, "explore", "--property=" + prop, "--seed=%d" % seed, "--first=%d" % i, "--stride=%d" % JOBS,
               "--seconds=%d" % seconds, "--recheck=%d" % t.get("recheck", 20), "--minimise=%d" % (60 if tier == "thorough" else 15),
               "--out=" + os.path.join(rdir, prop), "--hashes=" + hf, "--cpu=%d" % t.get("cpu", 40),
               "--known=" + ",".join(s + ":" + k for s, k, _ in known)]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
    results = []
    for i, p in enumerate(procs):
        out, err = p.communicate()
        try:
            d = json.loads(out.strip().splitlines()[-1])
        except (ValueError, IndexError):
            d = {"runs": 0, "errors": 1, "bad_output": out[-300:]}
        d["rc"] = p.returncode
        d["err"] = err
        results.append(d)
    hashes = set()
    for hf in hfiles:
        try:
            data = open(hf, "rb").read()
            hashes.update(struct.unpack("<%dQ" % (len(data) // 8), data))
            os.unlink(hf)
        except OSError:
            pass
    counters, khits = {}, {}
    for d in results:
        for k, (n, r) in d.get("counters", {}).items():
            a = counters.setdefault(k, [0, 0])
            a[0] += n
            a[1] += r
        for k, (n, m) in d.get("known", {}).items():
            khits.setdefault(k, [0, m])[0] += n
    runs = sum(d.get("runs", 0) for d in results)
    viols = [d["violation"] for d in results if "violation" in d]
    errors = sum(d.get("errors", 0) for d in results) + sum(1 for d in results if d["rc"] not in (0, 1, 3))
    confirmed = []
    for v in viols:
        ok, out = fresh_replay(exe, prop, v["replay"])
        if ok:
            confirmed.append(v)
        else:
            errors += 1
            print("replay in a fresh process did not reproduce %s:\n%s" % (v["replay"], out), file=sys.stderr)
    wall = time.time() - t0
    expl = max([d.get("wall", 0) for d in results] + [0.001])
    faults = {k[6:]: {"times": a[0], "runs": a[1]} for k, a in sorted(counters.items()) if k.startswith("fault.")}
    scen = {k[9:]: a[0] for k, a in sorted(counters.items()) if k.startswith("scenario.")}
    probes = {k: {"times": a[0], "runs": a[1]} for k, a in sorted(counters.items())
              if not k.startswith("fault.") and not k.startswith("scenario.")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hashes),
            "rule": "One evaluation is one simulated execution: a scenario of the property with drawn parameters, fault knobs and "
                    "schedule, all derived from one seed. Counted as distinct: executions with a different sequence of scheduling "
                    "decisions (hash over which fiber or transfer ran at each step), measured over this run's executions.",
            "samples": [s for d in results for s in d.get("samples", [])][:4],
            "runs_per_hour": int(runs / expl * 3600),
            "seeds_per_hour": int(runs / expl * 3600),
            "scheduler_steps": sum(d.get("steps", 0) for d in results),
            "simulated_time_units": sum(d.get("sim_time", 0) for d in results),
            "longest_run_steps": max([d.get("max_steps", 0) for d in results] + [0]),
            "determinism_rechecks": sum(d.get("rechecks", 0) for d in results),
            "faults_injected": faults,
            "scenarios": scen,
            "probes": probes,
            "processes": JOBS,
            "build_s": round(build_s, 1),
            "explore_s": round(expl, 1),
            "real_components": "DLA-Future sources of /repo's working tree (headers and core library), BLAS/LAPACK of the system"
                               + (", boost program_options" if prop in ("C31", "C36") else "") + (", the programs of /repo/miniapp" if prop == "C36" else ""),
            "stubbed_components": "task runtime (pika), MPI library and memory pool (umpire)%s: simulated, driven by the seeded scheduler"
                                  % (", HDF5 and its files" if prop in ("C32", "C36", "C37") else ""),
        },
        "assumptions": t.get("assumptions", []) + [
            "the simulated task runtime and MPI give every behaviour their specifications allow and nothing else",
            "multicore backend; element types double and complex<double> unless stated otherwise"],
        "wall_s": round(wall, 1),
        "violations": len(confirmed),
    }
    if errors:
        ev["coverage"]["machinery_errors"] = errors
    edir = os.path.join(HERE, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s, k, text in known:
        print("KNOWN-FINDING: property=%s %s (scenario %s, kind %s, seen %d times in this run)" %
              (prop, text, s, k, khits.get(s + ":" + k, [0])[0]))
    print("%s %s seed=%d: %d runs, %d distinct schedules, %d steps, build %.0fs, explore %.0fs" %
          (prop, tier, seed, runs, len(hashes), ev["coverage"]["scheduler_steps"], build_s, expl))
    if confirmed:
        confirmed.sort(key=lambda v: v["index"])
        for v in confirmed:
            print("  scenario=%s kind=%s seed=%d: %s" % (v["scenario"], v["kind"], v["seed"], v["message"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, confirmed[0]["replay"]))
        return 1
    if errors or runs == 0:
        for d in results:
            sys.stderr.write(d["err"][-2000:])
        print("ERROR: %d errors of the machinery" % errors, file=sys.stderr)
        return 3
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    opt = {}
    pos = []
    it = iter(a)
    for x in it:
        if x.startswith("--"):
            opt[x[2:]] = next(it)
        else:
            pos.append(x)
    try:
        if pos[0] == "run":
            return run(pos[1], opt.get("tier", os.environ.get("VERIF_TIER", "quick")),
                       int(opt["seconds"]) if "seconds" in opt else None)
        if pos[0] == "build":
            print(build(pos[1], True))
            return 0
        if pos[0] == "replay":
            exe = build(pos[1])
            ok, out = fresh_replay(exe, pos[1], pos[2])
            print(out)
            return 1 if ok else 0
        if pos[0] == "setup":
            with cf.ThreadPoolExecutor(JOBS) as ex:
                list(ex.map(lambda s: compile_one(os.path.join(HERE, s), ["-O2"]), SIM_SOURCES))
            print("simulator core built")
            return 0
    except RuntimeError as e:
        print("ERROR: %s" % e, file=sys.stderr)
        return 3
    return 2


if __name__ == "__main__":
    sys.exit(main())
