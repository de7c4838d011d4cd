"""Machinery shared by all checks: building the harness, running TLC, validating traces, reporting."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, files=None, report=None):
        super().__init__(what)
        self.what, self.files, self.report = what, files or {}, report or {}


def run(cmd, timeout=600, env=None, cwd=None, out=None):
    """Run a command, return (exit code, output)."""
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE if out is None else open(out, "wb"), stderr=subprocess.STDOUT,
                           timeout=timeout, env=e, cwd=cwd, start_new_session=True)
        return p.returncode, (p.stdout or b"").decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf-8", "replace") + "\ntimed out"


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + "_", dir=base)
        self.lock = threading.Lock()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "events_validated": 0,
                    "model_checking_runs": [], "configurations": {}, "operations": {}, "samples": []}
        self.notes = []
        self.stop = threading.Event()

    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return time.time() - self.t0

    def path(self, *a):
        return os.path.join(self.work, *a)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


# --------------------------------------------------------------------------- building
CXX = "clang++"


def compiler(ctx, cfg, p):
    """Most configurations are built by clang++, every fifth by g++ (they evaluate arguments in different orders)."""
    return p.get("cxx") or ("g++" if (cfg + ctx.seed) % 5 == 3 else CXX)


def compile_one(ctx, name, sources, flags, cxx=CXX, link=(), timeout=600, pad=0):
    """Compile to an executable; a failure that names the code under test is a violation."""
    exe = ctx.path(name)
    cmd = [cxx, "-std=c++17", "-w", "-pipe", "-ftrivial-auto-var-init=pattern", "-DVX_PAD=%d" % pad, *flags, "-I", os.path.join(REPO, "include"), "-I", HARNESS, *sources, "-o", exe, *link]
    for attempt in (0, 1):
        rc, out = run(cmd, timeout=timeout)
        if rc == 0:
            return exe
        if rc > 0 and "error:" in out:
            break
    if rc > 0 and "node_size" in out and "static" in out and pad < 128:     # how large a node is apart from its elements is up to the library
        return compile_one(ctx, name, sources, flags, cxx, link, timeout, pad + 16)
    if rc > 0 and rc != 124 and "error:" in out:
        if cxx == CXX and not any("sanitize" in x for x in flags):      # the repository is built with g++
            return compile_one(ctx, name, sources, flags, "g++", link, timeout)
        raise Violation("a documented use of the library no longer compiles: " + next(l for l in out.splitlines() if "error:" in l),
                        {"compiler.txt": out[-20000:]}, {"command": cmd})
    raise CheckError("compiler failed: " + out[-2000:])


_common = {}
_common_lock = threading.Lock()


def objects(ctx):
    """The parts of the harness that do not depend on the library."""
    with _common_lock:
        if ctx.work not in _common:
            outs = []
            for s in ("drive.cpp", "rt.cpp"):
                o = ctx.path(s + ".o")
                rc, out = run([CXX, "-std=c++17", "-w", "-O1", "-c", os.path.join(HARNESS, s), "-I", HARNESS, "-o", o])
                if rc != 0:
                    raise CheckError("harness does not compile: " + out[-2000:])
                outs.append(o)
            _common[ctx.work] = outs
        return _common[ctx.work]


def build_cfg(ctx, cfg, feat, safe, cxx=CXX, opt="-O0", extra=()):
    objs = objects(ctx)
    name = "cfg%d_%x_%d_%s%s" % (cfg, feat, safe, cxx.replace("+", "p"), opt)
    flags = [opt, "-DVX_CFG=%d" % cfg, "-DVX_FEAT=%d" % feat, *extra] + (["-DBPPTREE_SAFETY_CHECKS"] if safe else [])
    return compile_one(ctx, name, [os.path.join(HARNESS, "cfg.cpp"), *objs], flags, cxx)


# --------------------------------------------------------------------------- TLC
def tlc(ctx, module, cfg, env=None, workers=1, heap="2g", timeout=600, args=(), want=None):
    """Run TLC; returns its output."""
    md = tempfile.mkdtemp(prefix="tlc_", dir=ctx.work)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", *(["-XX:TieredStopAtLevel=1", "-Xms768m", "-Xmn512m"] if workers == 1 else []), "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + md, "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", md, *args, "-config", cfg if os.path.isabs(cfg) else os.path.join(SPEC, cfg), os.path.join(SPEC, module)]
    rc, out = run(cmd, timeout=timeout, env=env, cwd=md)
    shutil.rmtree(md, ignore_errors=True)
    return rc, out


def model_check(ctx, module, cfg, workers=2, heap="3g", timeout=800, args=(), note=None):
    """Check a model exhaustively; the model must satisfy its properties (it does not depend on /repo)."""
    rc, out = tlc(ctx, module, cfg, workers=workers, heap=heap, timeout=timeout, args=args)
    m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
    if rc != 0 or not m:
        raise CheckError("model checking %s with %s failed:\n%s" % (module, cfg, out[-3000:]))
    gen, dist = (int(x.replace(",", "")) for x in m[-1])
    with ctx.lock:
        ctx.cov["states"] += dist
        ctx.cov["transitions"] += gen
        ctx.cov["model_checking_runs"].append({"module": module, "config": note or cfg, "distinct_states": dist, "transitions": gen})
    return out


def simulate(ctx, module, cfg, num, depth=200, workers=2, heap="2g", timeout=800):
    """Random behaviours of a model too large to be explored completely."""
    rc, out = tlc(ctx, module, cfg, workers=workers, heap=heap, timeout=timeout, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed)])
    m = re.findall(r"states generated: (\d+)", out)
    if rc != 0 or not m:
        raise CheckError("simulating %s with %s failed:\n%s" % (module, cfg, out[-3000:]))
    with ctx.lock:
        ctx.cov["transitions"] += int(m[-1])
        ctx.cov["model_checking_runs"].append({"module": module, "config": cfg, "simulated_behaviours": num * workers, "transitions": int(m[-1])})


def must_fail(ctx, module, base, change, name, workers=1, timeout=300):
    """The model with one of its constants changed must be found wrong: its properties depend on that part."""
    with open(os.path.join(SPEC, base)) as f:
        text = f.read()
    for a, b in change:
        if a not in text:
            raise CheckError("no %s in %s" % (a, base))
        text = text.replace(a, b)
    cfg = ctx.path(name + ".cfg")
    with open(cfg, "w") as f:
        f.write(text)
    rc, out = tlc(ctx, module, cfg, workers=workers, timeout=timeout)
    if "is violated" not in out:
        raise CheckError("%s is not found wrong with %s:\n%s" % (module, change, out[-2000:]))
    with ctx.lock:
        ctx.cov["model_checking_runs"].append({"module": module, "config": base, "changed": ["%s -> %s" % c for c in change], "result": "violated, as it must be"})


EDGE = re.compile(r'<<\s*"EDGE",\s*"([^"]*)",\s*"(\w)",\s*(\d+),\s*"([^"]*)",\s*(\d+)\s*>>')


def walk_file(ctx, lc, ic, n, path):
    """The state graph of the node-level model: checks its properties and writes every transition for the harness."""
    cfg = path + ".cfg"
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS LC = %d IC = %d MaxN = %d MaxD = 9 Track = FALSE\nVIEW View\nCHECK_DEADLOCK FALSE\n"
                "ACTION_CONSTRAINT Edge\nINVARIANTS TypeOK Refines Costs Shallow\n" % (lc, ic, n))
    out = model_check(ctx, "BppNode.tla", cfg, workers=1, heap="4g", note="LC=%d IC=%d MaxN=%d" % (lc, ic, n))
    edges = {x[:4] for x in EDGE.findall(out)}
    ids = {"0": 0}
    for a, _, _, b in sorted(edges):
        ids.setdefault(a, len(ids))
        ids.setdefault(b, len(ids))
    with open(path, "w") as f:
        f.write("%d %d %s\n" % (len(ids), len(edges), "".join("1" if k.startswith("'") else "0" for k in ids)))
        for a, o, p, b in sorted(edges):
            f.write("%d %s %s %d\n" % (ids[a], o, p, ids[b]))
    with ctx.lock:
        ctx.cov.setdefault("walks", {})["LC=%d IC=%d MaxN=%d" % (lc, ic, n)] = {"shapes": len(ids), "transitions": len(edges), "replayed": {}}


MATCHED = re.compile(r'<<"MATCHED", (-?\d+), (\d+)>>')


def validate(ctx, trace, cfg, module="Trace.tla", env=None, heap="2g", timeout=600, const=None):
    """(accepted events, all events); a TLC evaluation error counts as a rejection at that event."""
    e = {"TRACE": trace}
    e.update(env or {})
    for attempt in (0, 1):
        rc, out = tlc(ctx, module, cfg, env=e, heap=heap, timeout=timeout)
        m = MATCHED.search(out)
        if m:
            return int(m.group(1)), int(m.group(2)), out
        ls = re.findall(r"(?:/\\ )?\bl = (\d+)", out)
        if ls and "rror" in out and rc not in (124, 137):
            return int(ls[-1]) - 1, -1, out
    raise CheckError("TLC failed on %s: %s" % (trace, out[-3000:]))


OP = re.compile(rb'^\{"o":"(\w+)"(?:,"it":-?\d+)?(?:,"h":-?\d+)?(?:,"g":-?\d+)?(?:,"keep":\d)?(?:,"op":"([^"]*)")?', re.M)


def count_ops(ctx, data):
    c = {}
    for m in OP.finditer(data):
        k = m.group(1).decode() + (":" + m.group(2).decode() if m.group(2) else "")
        c[k] = c.get(k, 0) + 1
    with ctx.lock:
        for k, v in c.items():
            ctx.cov["operations"][k] = ctx.cov["operations"].get(k, 0) + v
    return sum(c.values())


def slice_run(lines, at):
    """The run (from its Cfg event) up to and including event number `at' (0-based)."""
    b = at
    while b > 0 and not lines[b].startswith(b'{"o":"Cfg"'):
        b -= 1
    return lines[b:at + 1]


def judge(ctx, trace, cfg, source, module="Trace.tla", env=None):
    """Validate a recorded trace; raises Violation if it is rejected, twice."""
    with open(trace, "rb") as f:
        data = f.read()
    lines = data.splitlines(keepends=True)
    if not lines:
        raise CheckError("empty trace " + trace)
    stamp(ctx, 'recorded %d %s' % (len(lines), os.path.basename(trace)))
    ok, n, out = validate(ctx, trace, cfg, module, env)
    stamp(ctx, 'validated ' + os.path.basename(trace))
    if ok >= len(lines):
        runs = sum(1 for l in lines if l.startswith(b'{"o":"Cfg"')) or 1
        count_ops(ctx, data)
        with ctx.lock:
            ctx.cov["traces_validated_against_impl"] += runs
            ctx.cov["events_validated"] += len(lines)
            if len(ctx.cov["samples"]) < 2:
                ctx.cov["samples"].append({"source": source, "events": [l.decode().strip()[:300] for l in lines[:6]]})
        return
    part = slice_run(lines, ok)
    p = trace + ".slice"
    with open(p, "wb") as f:
        f.writelines(part)
    e = dict(env or {})
    e["AT"] = str(len(part))
    ok2, _, out2 = validate(ctx, p, cfg, module, e)
    if ok2 >= len(part):
        raise CheckError("rejection of event %d of %s was not repeated" % (ok + 1, source))
    ev = lines[ok].decode("utf-8", "replace").strip()
    st = re.search(r'<<"STATE".*', out2, re.S)
    state = re.split(r"\n(?:Error|Model|Finished|Progress|\d+ states|The |<<\"MATCHED)", st.group(0))[0][:4000] if st else ""
    raise Violation("rejected: %s (event %d of %s)" % (ev[:300], ok + 1, source),
                    {"trace.ndjson": b"".join(part).decode("utf-8", "replace"), "tlc.txt": out2[-8000:]},
                    {"source": source, "module": module, "config": cfg, "event": ev, "event_number": len(part), "state_before": state, "env": env or {}})


# --------------------------------------------------------------------------- recorded behaviours of the contract
def record(ctx, exe, args, out, timeout=300):
    rc, o = run([exe, *args, "--out", out], timeout=timeout)
    if rc != 0:
        raise CheckError("recording failed: %s %s: %s" % (exe, args, o[-500:]))


class Pool:
    """Runs jobs in parallel; the first violation wins (lowest job number among those finished), errors come after."""

    def __init__(self, ctx, n):
        self.ctx, self.ex, self.fs = ctx, cf.ThreadPoolExecutor(n), []

    def add(self, f, *a):
        def job():
            if self.ctx.stop.is_set():
                return None
            return f(*a)
        self.fs.append(self.ex.submit(job))
        return self.fs[-1]

    def wait(self):
        err = None
        viol = None
        for f in cf.as_completed(self.fs):
            try:
                f.result()
            except Violation as v:
                viol = viol or v
                self.ctx.stop.set()
            except Exception as e:      # noqa
                err = err or e
        self.ex.shutdown()
        self.fs = []
        if viol:
            raise viol
        if err:
            raise err


def history_jobs(ctx, plan, extra=()):
    """plan: list of dicts cfgs, feat, safe, profiles, events (per trace), seeds, tcfg, [cxx, opt]."""
    builds = {}
    for p in plan:
        for c in p["cfgs"]:
            s = p["safe"] if p["safe"] != "mix" else (c + ctx.seed) % 2
            builds[(c, p["feat"], s, compiler(ctx, c, p), p.get("opt", "-O0"))] = None
    pool = Pool(ctx, CORES)
    objects(ctx)
    for p in plan:
        if "walk" in p:
            k = p["walk"]
            f = ctx.path("walk_%d_%d_%d" % k)
            if not any(q.get("walkfile") == f for q in plan):
                extra = [lambda k=k, f=f: walk_file(ctx, *k, f), *extra]
            p["walkfile"] = f

    def b(k):
        builds[k] = build_cfg(ctx, *k)
    for k in sorted(builds, key=lambda k: (k[0] not in (37, 38, 29, 6, 3, 9, 11, 16), str(k))):     # the slowest ones first
        pool.add(b, k)
    for x in extra:
        pool.add(x)
    pool.wait()
    stamp(ctx, 'built')
    jobs = []
    for p in plan:
        for c in p["cfgs"]:
            s = p["safe"] if p["safe"] != "mix" else (c + ctx.seed) % 2
            exe = builds[(c, p["feat"], s, compiler(ctx, c, p), p.get("opt", "-O0"))]
            for prof in p["profiles"]:
                for j in range(p.get("seeds", 1)):
                    if "walk" in p:
                        n, m = p["part"]
                        for part in range(n):
                            jobs.append(dict(exe=exe, cfg=c, safe=s, prof=prof, seed=ctx.seed * 7919 + j * 104729 + c, events=600000, weight=30000, tcfg=p.get("tcfg", "Trace.cfg"),
                                             module=p.get("module", "Trace.tla"), walk="LC=%d IC=%d MaxN=%d" % p["walk"], wf=p["walkfile"], part=(part + ctx.seed) % m,
                                             args=["--walk", p["walkfile"], "--part", str((part + ctx.seed) % m), "--parts", str(m)] + p.get("args", [])))
                        continue
                    jobs.append(dict(exe=exe, cfg=c, safe=s, prof=prof, seed=ctx.seed * 7919 + j * 104729 + c, events=p["events"], weight=p.get("weight", p["events"]),
                                     tcfg=p.get("tcfg", "Trace.cfg"), module=p.get("module", "Trace.tla"), args=p.get("args", [])))
    return jobs


def stamp(ctx, what):
    if os.environ.get("VX_TIME"):
        print("%6.1f %s" % (ctx.elapsed(), what), file=sys.stderr)


def batches(jobs, limit=30000):
    by = {}
    for j in jobs:
        by.setdefault((j["module"], j["tcfg"]), []).append(j)
    out = []
    for t, js in by.items():
        js = sorted(js, key=lambda j: "walk" not in j)       # the longest ones first
        cur, n = [], 0
        for j in js:
            if cur and n + j["weight"] > limit:
                out.append((t, cur))
                cur, n = [], 0
            cur.append(j)
            n += j["weight"]
        if cur:
            out.append((t, cur))
    return out


def do_batch(ctx, k, t, js):
    path = ctx.path("b%d.ndjson" % k)
    src = []
    with open(path, "wb") as f:
        for i, j in enumerate(js):
            one = ctx.path("b%d_%d.ndjson" % (k, i))
            args = ["--profile", j["prof"], "--seed", str(j["seed"]), "--events", str(j["events"])] + j["args"]
            if "walk" in j:
                tag = "t%d_%d" % (k, i)
                args += ["--tag", tag]
            record(ctx, j["exe"], args, one)
            if "walk" in j:
                try:
                    with open(j["wf"] + "." + tag) as g:
                        w, left = (int(v) for v in g.read().split())
                except FileNotFoundError:       # it crashed or hung: the recording says so
                    w = 0
                with ctx.lock:
                    r = ctx.cov["walks"][j["walk"]]["replayed"]
                    key = "cfg%d %s" % (j["cfg"], j["prof"])
                    r[key] = r.get(key, 0) + w
            with open(one, "rb") as g:
                d = g.read()
            os.unlink(one)
            f.write(d)
            src.append(os.path.basename(j["exe"]) + " " + " ".join(args))
            with ctx.lock:
                key = "cfg%d%s" % (j["cfg"], " safe" if j["safe"] else "")
                ctx.cov["configurations"][key] = ctx.cov["configurations"].get(key, 0) + d.count(b"\n")
    try:
        judge(ctx, path, t[1], " ; ".join(src), t[0])
    finally:
        if os.path.exists(path):
            os.unlink(path)


def histories(ctx, plan, extra=()):
    """Record and validate; extra: further jobs (callables) run alongside."""
    jobs = history_jobs(ctx, plan, extra)
    pool = Pool(ctx, CORES)
    for k, (t, js) in enumerate(batches(jobs, plan[0].get("batch", 30000))):
        pool.add(do_batch, ctx, k, t, js)
    pool.wait()


# --------------------------------------------------------------------------- threads
WRAP = ["-pthread", "-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock,--wrap=__cxa_guard_release"]


def threads(ctx, cfgs, feat, events, seeds, extra=()):
    """Several threads on an instrumented build, against TraceConc."""
    common = []
    for s, opt in (("conc.cpp", "-O1"), ("rt.cpp", "-O1")):
        o = ctx.path("th_" + s + ".o")
        rc, out = run([CXX, "-std=c++17", "-w", opt, "-c", os.path.join(HARNESS, s), "-I", HARNESS, "-o", o])
        if rc != 0:
            raise CheckError("harness does not compile: " + out[-2000:])
        common.append(o)
    pool = Pool(ctx, CORES)
    exes = {}

    def build(c):
        o = ctx.path("th%d.o" % c)
        safe = ["-DBPPTREE_SAFETY_CHECKS"] if (c + ctx.seed) % 2 else []
        compile_one(ctx, os.path.basename(o), [os.path.join(HARNESS, "cfg.cpp")], ["-c", "-O0", "-fsanitize=thread", "-DVX_CFG=%d" % c, "-DVX_FEAT=%d" % feat] + safe)
        exe = ctx.path("th%d" % c)
        rc, out = run([CXX, o, *common, "-o", exe, *WRAP])
        if rc != 0:
            raise CheckError("linking failed: " + out[-2000:])
        exes[c] = exe
    for c in cfgs:
        pool.add(build, c)
    for x in extra:
        pool.add(x)
    pool.wait()

    def one(c, j):
        t = ctx.path("th%d_%d.ndjson" % (c, j))
        a = ["--seed", str(ctx.seed * 7919 + j * 104729 + c), "--events", str(events)]
        record(ctx, exes[c], a, t)
        judge(ctx, t, "TraceConc.cfg", "th%d %s" % (c, " ".join(a)), "TraceConc.tla")
        os.unlink(t)
        with ctx.lock:
            k = "threads cfg%d" % c
            ctx.cov["configurations"][k] = ctx.cov["configurations"].get(k, 0) + events
    pool = Pool(ctx, CORES)
    for j in range(seeds):
        for c in cfgs:
            pool.add(one, c, j)
    pool.wait()


# --------------------------------------------------------------------------- reporting
def findings(pid):
    """(number, text) of the recorded defects of the property that were not repaired."""
    out = []
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) (\d+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((int(m.group(2)), m.group(3).strip()))
    return out


def report(ctx, v):
    h = hashlib.sha1((v.what + str(time.time())).encode()).hexdigest()[:8]
    d = os.path.join(VERIF, "replay", "%s-%s" % (ctx.pid, h))
    os.makedirs(d, exist_ok=True)
    for n, t in v.files.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    rep = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "what": v.what}
    rep.update(v.report)
    with open(os.path.join(d, "report.json"), "w") as f:
        json.dump(rep, f, indent=1)
    print(v.what)
    if rep.get("state_before"):
        print("state before: " + rep["state_before"][:1500])
    print("VIOLATION property=%s replay=%s" % (ctx.pid, os.path.relpath(d, VERIF)))


def evidence(ctx, level, violations, assumptions):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = {"property": ctx.pid, "tier": ctx.tier, "seed": ctx.seed, "level": level, "coverage": ctx.cov,
          "assumptions": assumptions, "wall_s": round(ctx.elapsed(), 1), "violations": violations}
    with open(os.path.join(VERIF, "evidence", ctx.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def replay(d):
    rep = json.load(open(os.path.join(d, "report.json")))
    if "module" not in rep:
        print(rep["what"])
        return 0
    ctx = Ctx(rep["property"], "quick", 1)
    try:
        e = dict(rep.get("env") or {})
        e["AT"] = str(rep["event_number"])
        ok, n, out = validate(ctx, os.path.abspath(os.path.join(d, "trace.ndjson")), rep["config"], rep["module"], e)
        print(out[-3000:])
        print("accepted %d of %d events" % (ok, rep["event_number"]))
        return 1 if ok < rep["event_number"] else 0
    finally:
        ctx.close()


def setup():
    """Nothing is kept between runs; only make sure that the tools the checks use are there and the specification parses."""
    rc, out = run(["java", "-cp", CP, "tla2sany.SANY", "Trace.tla"], cwd=SPEC)
    if rc != 0:
        print(out)
        return 2
    rc, out = run([CXX, "--version"])
    print(out.splitlines()[0] if out else "no compiler")
    return 0 if rc == 0 else 2


def main(argv):
    import plans
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    if argv and argv[0] == "--setup":
        return setup()
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(pid, tier, seed)
    rc, n = 2, 0
    try:
        plans.CHECKS[pid](ctx)
        rc = 0
    except Violation as v:
        report(ctx, v)
        rc, n = 1, 1
    except CheckError as e:
        print("check failed: %s" % e, file=sys.stderr)
    except Exception as e:      # noqa
        import traceback
        traceback.print_exc()
    finally:
        try:
            if rc != 2:
                evidence(ctx, plans.LEVEL.get(pid, "model_checking"), n, plans.ASSUMPTIONS.get(pid, []) + plans.COMMON)
        finally:
            ctx.close()
    if rc == 0:
        c = ctx.cov
        print("%s held: %d states / %d transitions of the specification, %d runs (%d events) of the library accepted, %.0f s"
              % (pid, c["states"], c["transitions"], c["traces_validated_against_impl"], c["events_validated"], ctx.elapsed()))
    return rc
