#!/usr/bin/env python3
"""Workbench for planted bugs (never used by a check).
  seed.py make SPEC.py [id...]   write /verif/seeded/<id> from a list of edits and keep those that qualify
  seed.py run id... [--props C01,C02]   run checks against scratch copies with the bug planted
A bug qualifies if it applies, builds, passes the stable tests, and its demo passes without and fails with it."""
import concurrent.futures as cf
import json, os, re, runpy, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
DEMO = """#!/bin/bash
# run in the repository's root after it was built
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
%s -std=c++17 %s -I include -I examples "$here/demo.cpp" -o "$out/demo" -pthread && %s "$out/demo"
rc=$?
rm -rf -- "$out"
exit $rc
"""


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def copy(name):
    d = "/tmp/sd_" + name
    shutil.rmtree(d, ignore_errors=True)
    sh(["git", "-C", "/repo", "worktree", "prune"])
    os.makedirs(d)
    sh("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm base" % (d, d))
    return d


def build_and_test(d):
    rc, o = sh("export CC=gcc CXX=g++; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest >/dev/null && ninja -C _build btree_test", cwd=d)
    if rc:
        return "does not build: " + o[-1500:]
    rc, o = sh("ctest --test-dir _build -j8 --timeout 180", cwd=d)
    if rc:
        return "fails tests: " + " ".join(re.findall(r"- ([\w./]+) \(", o))
    return None


def make(s):
    d = copy("mk_" + s["id"])
    out = tempfile.mkdtemp()
    try:
        edits = s["edits"] if "edits" in s else [(s["file"], s["old"], s["new"])]
        for f, old, new in edits:
            p = os.path.join(d, "include/bpptree", f)
            t = open(p).read()
            k = s.get("nth", 0)
            if t.count(old) == 0:
                return s["id"], "text not found in " + f
            if t.count(old) > 1 and "nth" not in s:
                return s["id"], "text found %d times in %s" % (t.count(old), f)
            parts = t.split(old)
            t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            open(p, "w").write(t)
        rc, diff = sh(["git", "diff"], cwd=d)
        cxx = s.get("cxx", "g++")
        flags = s.get("flags", "-O1 -DBPPTREE_SAFETY_CHECKS")
        open(os.path.join(out, "demo.sh"), "w").write(DEMO % (cxx, flags, s.get("run", "timeout 100")))
        open(os.path.join(out, "demo.cpp"), "w").write(s["demo"])
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], cwd=d)
        if rc == 0:
            return s["id"], "demo does not fail with the bug"
        o1 = o
        bad = build_and_test(d)
        if bad:
            return s["id"], bad
        sh("git checkout -q -- .", cwd=d)
        rc, o = sh(["bash", os.path.join(out, "demo.sh")], cwd=d)
        if rc != 0:
            return s["id"], "demo fails without the bug: " + o[-600:]
        t = os.path.join(SEEDED, s["id"])
        os.makedirs(t, exist_ok=True)
        open(os.path.join(t, "patch.diff"), "w").write(diff)
        for f in ("demo.sh", "demo.cpp"):
            shutil.copy(os.path.join(out, f), t)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(t, "meta.json"), "w"), indent=1)
        return s["id"], "kept (%s)" % o1.strip()[-100:].replace("\n", " | ")
    except Exception as e:
        return s["id"], "error %r" % e
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)


def run_one(i, props):
    meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
    d = copy("run_" + i)
    rows = []
    try:
        rc, o = sh(["git", "apply", os.path.join(SEEDED, i, "patch.diff")], cwd=d)
        if rc:
            return [(i, meta["property"], "does not apply", 0)]
        for p in props or [meta["property"]]:
            t = time.time()
            rc, o = sh([sys.executable, os.path.join(VERIF, "check.py"), p], env={"VX_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            why = [l for l in o.splitlines() if not l.startswith("VIOLATION") and not l.startswith("state")]
            rows.append((i, p, "CAUGHT" if rc == 1 and v else "missed" if rc == 0 else "ERROR %d" % rc, time.time() - t, (why[0] if why else "")[:150]))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return rows


if __name__ == "__main__":
    if sys.argv[1] == "make":
        specs = runpy.run_path(sys.argv[2])["SEEDS"]
        ids = sys.argv[3:]
        specs = [s for s in specs if not ids or s["id"] in ids]
        with cf.ThreadPoolExecutor(4) as ex:
            for r in ex.map(make, specs):
                print("%-28s %s" % r, flush=True)
    else:
        args = sys.argv[2:]
        props = None
        if "--props" in args:
            k = args.index("--props")
            props = args[k + 1].split(",")
            del args[k:k + 2]
        ids = args or sorted(os.listdir(SEEDED))
        for i in ids:
            for r in run_one(i, props):
                print("%-28s %-4s %-8s %5.0fs %s" % r, flush=True)
