#!/usr/bin/env python3
"""Creates and tests planted bugs (development aid; no check uses it).

  plant.py make <spec.py> [id...]    writes seeded/<id>/ from the specs (patch, meta.json, demo.sh and the files it needs)
  plant.py test <id...>              in /repo: demo passes, apply, build, stable tests, demo fails, check exits 1, undo
"""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DLAF_SIM_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from targets import TARGETS, CORE_SOURCES, SIM_SOURCES
import check

DEMO = r'''#!/bin/bash
# Runs the simulated program below against the sources of the working directory: exit 0 if no run breaks the property.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
flags="@FLAGS@"
i=0
pids=()
while read -r f defs; do
  [ -z "$f" ] && continue
  case $f in
    repo:*) p=$repo/src/${f#repo:} ;;
    *) p=$here/$f ;;
  esac
  i=$((i + 1))
  echo "$p" >"$tmp/$i.src"
  echo "$defs" >"$tmp/$i.defs"
done <<'LIST'
@LIST@
LIST
export here repo tmp flags
seq 1 $i | xargs -P 8 -I{} bash -c 'eval g++ $flags $(cat $tmp/{}.defs) -c $(cat $tmp/{}.src) -o $tmp/{}.o' || { echo "demo: does not compile"; exit 2; }
objs() { for n in $(seq $1 $2); do echo "$tmp/$n.o"; done; }
@LINK@
for w in 0 1 2 3 4 5 6 7; do
  "$tmp/sim" explore --property=@PROP@ @ARGS@ --first=$w --stride=8 --seconds=@SECONDS@ --recheck=0 --minimise=0 \
    --out="$tmp/w$w" >"$tmp/w$w.out" 2>"$tmp/w$w.err" &
  pids+=($!)
done
bad=0
for w in 0 1 2 3 4 5 6 7; do
  wait ${pids[$w]} || { bad=1; tail -n 2 "$tmp/w$w.out" | cut -c1-600; }
done
exit $bad
'''


def make(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        assert not subprocess.run(["git", "-C", REPO, "status", "--porcelain"], stdout=subprocess.PIPE, text=True).stdout.strip()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE, text=True).stdout
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        prop = b["property"]
        json.dump({"property": prop, "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.copytree(os.path.join(HERE, "sim"), os.path.join(d, "sim"))
        os.makedirs(os.path.join(d, "harness"))
        t = TARGETS[prop]
        if b.get("harness_dir"):
            shutil.copytree(os.path.join(HERE, b["harness_dir"]), os.path.join(d, "harness"), dirs_exist_ok=True)
        only_h = b.get("harness")
        srcs, shared = check.sources(prop), check.shared_sources(prop)
        lst = []
        nshared = 0
        for p, defs in srcs + shared:
            if p.startswith(REPO + "/src/"):
                n = "repo:" + p[len(REPO) + 5:]
            else:
                n = os.path.relpath(p, HERE)
                if n.startswith("harness/") and n != "harness/common.cpp" and only_h is not None and n[8:] not in only_h:
                    continue
            if b.get("keep") and n.startswith("harness/") and not b["keep"](n[8:], " ".join(defs)):
                continue
            lst.append("%s %s" % (n, " ".join(defs)))
            nshared += (p, defs) in shared
            if n.startswith("harness/"):
                shutil.copy(p, os.path.join(d, "harness"))
        for h in os.listdir(os.path.join(HERE, "harness")):
            if h.endswith(".h"):
                shutil.copy(os.path.join(HERE, "harness", h), os.path.join(d, "harness"))
        nexe = len(lst) - nshared
        libs = " ".join(t.get("ldflags", []) + check.LIBS)
        link = 'g++ -o "$tmp/sim" $(objs 1 %d) %s || exit 2' % (nexe, libs)
        if shared:
            link += '\ng++ -shared -Wl,-Bsymbolic -Wl,-z,lazy -o "$tmp/lib.so" $(objs %d %d) %s || exit 2\n' % (nexe + 1, len(lst), " ".join(t["shared"].get("ldflags", [])))
            link += 'for r in $(seq 0 %d); do cp "$tmp/lib.so" "$tmp/sim.rank$r.so"; done' % (t["shared"]["copies"] - 1)
        flags = []
        for f in check.FLAGS:
            f = f.replace(os.path.join(HERE, "sim"), "$here/sim").replace(os.path.join(HERE, "harness"), "$here/harness").replace(REPO + "/", "$repo/")
            flags.append(f)
        s = DEMO.replace("@FLAGS@", " ".join(flags)).replace("@LIST@", "\n".join(lst)).replace("@LINK@", link)
        s = s.replace("@PROP@", prop).replace("@SECONDS@", str(b.get("seconds", 30))).replace("@ARGS@", b["args"])
        open(os.path.join(d, "demo.sh"), "w").write(s)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        print("made", b["id"])


def sh(cmd, cwd=None, timeout=1200):
    t = time.time()
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, shell=isinstance(cmd, str), timeout=timeout)
    return r.returncode, r.stdout, time.time() - t


def demo(d):
    tmp = subprocess.run(["mktemp", "-d"], stdout=subprocess.PIPE, text=True).stdout.strip()
    shutil.copytree(d, tmp, dirs_exist_ok=True)
    for f in ("patch.diff", "meta.json"):
        os.unlink(os.path.join(tmp, f))
    r = sh(["bash", os.path.join(tmp, "demo.sh")], cwd=REPO)
    shutil.rmtree(tmp)
    return r


def test(bug, nobase=False):
    d = os.path.join(HERE, "seeded", bug)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    res = [bug, prop]
    rc, out, t = demo(d)
    res.append("clean demo rc=%d %.0fs" % (rc, t))
    if rc != 0:
        print(out[-1500:])
    assert sh(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")])[0] == 0
    try:
        if not nobase:
            rc, out, t = sh("bash /opt/vp/build.sh >/tmp/bl.log 2>&1 && bash /opt/vp/test.sh /tmp/bl.json >/tmp/bl2.log 2>&1")
            j = json.load(open("/tmp/bl.json")) if rc in (0, 1) and os.path.exists("/tmp/bl.json") else {}
            base = json.load(open("/opt/vp/BASELINE.json"))
            names = base.get("stable", base.get("tests", base.get("passed", [])))
            p = set(j.get("passed", []))
            miss = [n for n in names if n not in p]
            res.append("baseline rc=%d passed=%d missing=%d" % (rc, len(p), len(miss)))
        rc, out, t = demo(d)
        res.append("bug demo rc=%d %.0fs %s" % (rc, t, out.strip()[:200]))
        rc, out, t = sh(["python3", os.path.join(HERE, "tools/check.py"), "run", prop, "--tier", "quick"], cwd=HERE)
        v = [l for l in out.splitlines() if "VIOLATION" in l]
        res.append("check rc=%d %.0fs %s" % (rc, t, v[:1]))
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
    print(" | ".join(res), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        for b in sys.argv[2:]:
            if b == "--nobase":
                continue
            test(b, "--nobase" in sys.argv)
