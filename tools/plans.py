"""What each check runs."""
import json, os, re
import vx
from vx import histories, model_check

LEVEL = {}
ASSUMPTIONS = {}
COMMON = [
    "the harness reports calls, arguments and results faithfully (it is exercised by planted bugs and corrupted traces)",
    "TLC and the JSON reader of the CommunityModules evaluate the specification correctly",
    "behaviours not generated within the stated configurations and lengths are not judged",
]
VEC = [1, 2, 3, 4, 5, 7, 19, 20, 21, 27, 42]
MAPS = [8, 9, 10, 11, 12, 13, 14, 15, 28, 43]
BIGV, BIGM = [6, 22], [16, 17]
TENS = [39, 40, 41, 46, 47]
SUMS = [2, 3, 7, 9, 11, 15, 16, 18, 19, 21, 27, 28, 30, 39, 42, 45, 47]
MMS = [3, 6, 7, 9, 11, 15, 18, 19, 20, 27, 28, 30, 36, 39, 40, 43, 46, 47]
IDXS = [1, 2, 3, 4, 7, 8, 12, 14, 16, 20, 22, 27, 36, 40, 42, 46]


def mc(ctx, *names):
    out = []
    for n in names:
        if n == "path":         # what the algorithm does to iterators
            out += [lambda z=z: path_model(ctx, *z) for z in ([(2, 4, 8), (3, 4, 8), (1, 5, 8)] if ctx.thorough() else [(2, 4, 6), (1, 4, 6)])]
        else:
            out.append(lambda n=n: model_check(ctx, "BppTreeMC.tla", "BppTreeMC_%s.cfg" % n))
    return out


def path_model(ctx, lc, ic, n):
    cfg = ctx.path("path_%d_%d_%d.cfg" % (lc, ic, n))
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nCONSTANTS LC = %d IC = %d MaxN = %d MaxD = 9 Track = FALSE\nVIEW View\nCHECK_DEADLOCK FALSE\n"
                "ACTION_CONSTRAINT Unshared\nINVARIANTS Unique Edits Advances\n" % (lc, ic, n))
    model_check(ctx, "BppPath.tla", cfg, workers=1, note="LC=%d IC=%d MaxN=%d" % (lc, ic, n))


# elements per leaf and children per inner node of the configurations with small nodes
SHAPE = {1: (1, 4), 8: (1, 4), 14: (1, 4), 20: (1, 4), 3: (3, 5), 10: (3, 4), 31: (3, 4), 35: (3, 4), 15: (2, 5), 32: (1, 6)}
SHAPE[40] = SHAPE[45] = (1, 4)
SHAPE[46] = SHAPE[47] = (2, 4)
for _c in (2, 4, 5, 9, 11, 12, 13, 18, 19, 27, 28, 30, 33, 34, 36, 39):
    SHAPE[_c] = (2, 4)


def plain(profiles, cfgs, feat, events=6000, seeds=1, safe="mix", tcfg="Trace.cfg", models=("plain",), extra=(), huge=(), walks=(), deep=(), **more):
    def f(ctx):
        k = 8 if ctx.thorough() else 1
        ps = [dict(cfgs=cfgs, feat=feat, safe=safe, profiles=profiles, events=events, seeds=seeds * k, tcfg=tcfg, **more)]
        for prof, cs in huge:       # trees of 70000 elements, or of depth 13
            for c in cs:
                ps.append(dict(ps[0], cfgs=[c], profiles=[prof], events=300 if c == 29 else 20, seeds=2 * k, weight=10000))
        # every transition of the node-level model: (configuration, elements, parts taken, of how many)
        for w in (tuple(walks) + tuple(deep) if ctx.thorough() else walks):
            c, n, take, of = w[:4]
            ps.append(dict(ps[0], cfgs=[c], profiles=list(w[4:]) or profiles, seeds=1, walk=SHAPE[c] + (n,), part=(of if ctx.thorough() and w in walks else take, of)))
        if ctx.thorough():
            ps[0]["safe"] = 1
            ps.append(dict(ps[0], safe=0, cxx="g++", opt="-O2"))
        histories(ctx, ps, mc(ctx, *models) + list(extra))
    return f


def index(ctx):
    """C19: histories of inverted indices against TraceIndex; the example's recorded defects are looked at separately."""
    inc = ["-I", os.path.join(vx.REPO, "examples")]
    k = 12 if ctx.thorough() else 1

    def src(n):
        return os.path.join(vx.HARNESS, n)

    def one(c, safe, seeds):
        exe = vx.compile_one(ctx, "ix%d_%d" % (c, safe), [src("index.cpp"), src("rt.cpp")], ["-O1", "-DVX_IX=%d" % c] + inc + (["-DBPPTREE_SAFETY_CHECKS"] if safe else []))
        for j in range(seeds):
            t = ctx.path("ix%d_%d_%d.ndjson" % (c, safe, j))
            a = ["--seed", str(ctx.seed * 7919 + j * 104729), "--events", "15000"]
            vx.record(ctx, exe, a, t)
            vx.judge(ctx, t, "TraceIndex.cfg", "ix%d%s %s" % (c, " safe" if safe else "", " ".join(a)), "TraceIndex.tla")
            with ctx.lock:
                ctx.cov["configurations"]["index%d%s" % (c, " safe" if safe else "")] = seeds * 15000
            os.unlink(t)

    def finding(n, text):
        exe = ctx.path("kf%d" % n)
        rc, out = vx.run([vx.CXX, "-std=c++17", "-w", "-O1", "-DVX_KF=%d" % n, "-I", os.path.join(vx.REPO, "include"), "-I", vx.HARNESS] + inc + [src("index_kf.cpp"), src("rt.cpp"), "-o", exe])
        if rc == 0:
            rc, out = vx.run([exe], timeout=60)
        if rc != 0:
            print("KNOWN-FINDING: property=C19 " + text)
    pool = vx.Pool(ctx, vx.CORES)
    for c in (1, 2, 4, 3, 5):
        for safe in (0, 1):
            pool.add(one, c, safe, (2 if c in (1, 2) else 1) * k)
    pool.add(lambda: model_check(ctx, "InvIndexAlg.tla", "InvIndexAlg.cfg"))
    for n, text in vx.findings("C19"):
        pool.add(finding, n, text)
    pool.wait()


def over(ctx):
    """C16: insertions beyond the greatest depth are refused and change nothing; known to be untrue of mutable trees."""
    known = dict(vx.findings("C16"))
    seen = []
    k = 8 if ctx.thorough() else 1

    def one(c):
        exe = vx.build_cfg(ctx, c, 0x2c, 1)
        t = ctx.path("over%d.ndjson" % c)
        vx.record(ctx, exe, ["--profile", "overp", "--events", str(4000 * k), "--seed", str(ctx.seed)], t)
        vx.judge(ctx, t, "TraceOver.cfg", "cfg%d overp" % c)
        for j in range(3 * k):
            a = ["--profile", "over", "--events", "150", "--seed", str(ctx.seed * 100 + j)]
            vx.record(ctx, exe, a, t)
            with open(t, "rb") as f:
                ls = f.read().splitlines()
            ok, n, out = vx.validate(ctx, t, "TraceOver.cfg")
            if ok >= len(ls):
                with ctx.lock:
                    ctx.cov["events_validated"] += len(ls)
                continue
            md = [json.loads(l)["md"] for l in ls[:ok + 1] if l.startswith(b'{"o":"Cfg"')][-1]

            def refused(i):
                e = json.loads(ls[i]) if i >= 0 else {}
                return e.get("o") == "E" and e.get("x") == 1 and e.get("d0") == md
            if 1 in known and (refused(ok) or refused(ok - 1)):
                with ctx.lock:
                    ctx.cov["events_validated"] += ok
                    seen.append(c)
                continue
            vx.judge(ctx, t, "TraceOver.cfg", "cfg%d " % c + " ".join(a))

    def done():
        if seen:
            print("KNOWN-FINDING: property=C16 " + known[1])
    return [lambda c=c: one(c) for c in (25, 26)], done


def failing(ctx):
    jobs, done = over(ctx)
    plain(["fail"], VEC + MAPS + [16, 17] + TENS, 4 | 16 | 32 | 64, 6000, 1, safe=1, extra=jobs, walks=[(1, 5, 1, 1), (12, 5, 1, 1)], deep=[(2, 6, 4, 4), (15, 6, 4, 4)])(ctx)
    done()


def sharing(ctx):
    """C15: the sharing protocol, model checked, and several threads on the real code, judged by contract and memory model."""
    k = 10 if ctx.thorough() else 1
    jobs = [lambda: model_check(ctx, "BppShare.tla", "BppShare.cfg", workers=4),
            lambda: model_check(ctx, "BppShare.tla", "BppShare_three.cfg", workers=2)]
    if ctx.thorough():
        jobs += [lambda: model_check(ctx, "BppShare.tla", "BppShare_deep.cfg", workers=6, heap="6g"),
                 lambda: model_check(ctx, "BppShare.tla", "BppShare_trees.cfg", workers=2),
                 lambda: vx.simulate(ctx, "BppShare.tla", "BppShare_walk.cfg", 100000, workers=4)]
    for c in ("ReleaseDec", "AcquireFence", "AtomicCount", "CheckMark", "SkipMarked"):
        jobs.append(lambda c=c: vx.must_fail(ctx, "BppShare.tla", "BppShare.cfg", [(c + " = TRUE", c + " = FALSE")], "no" + c))
    vx.threads(ctx, [3, 1, 9, 11, 2, 5, 8, 14, 12, 20], 0x3e, 20000, 2 * k, jobs)


L = "TraceLearn.cfg"
CHECKS = {
    "C01": plain(["seq"], VEC + BIGV + [8, 14], 2 | 8, 8000, 2, walks=[(1, 6, 1, 1), (2, 6, 1, 1)], deep=[(1, 7, 8, 8), (3, 8, 8, 8)], huge=[("huge_seq", [6, 29])]),
    "C02": plain(["keyed"], MAPS + BIGM + [36] + TENS, 2 | 4 | 8, 8000, 3, models=("map", "setdesc"), huge=[("huge_seq", BIGM)], walks=[(8, 6, 1, 1), (9, 6, 1, 1)], deep=[(14, 7, 8, 8), (10, 8, 8, 8)]),
    "C03": plain(["key"], MAPS + BIGM + [36] + TENS, 4 | 8 | 32, 6000, 3, tcfg=L, models=("map", "setdesc"), huge=[("huge_key", BIGM)], walks=[(8, 6, 1, 2), (36, 6, 1, 4)], deep=[(10, 7, 4, 4)]),
    "C04": plain(["idx"], IDXS, 4 | 8 | 32, 6000, 3, tcfg=L, huge=[("huge_idx", [16, 22, 29])], walks=[(1, 6, 1, 2), (14, 5, 1, 1)], deep=[(2, 7, 4, 4)]),
    "C05": plain(["sum"], SUMS + [6], 4 | 8 | 32, 6000, 3, tcfg=L, huge=[("huge_sum", [6, 16, 29])], walks=[(2, 6, 1, 3), (11, 5, 1, 1), (45, 5, 1, 1)], deep=[(3, 7, 4, 4)]),
    "C06": plain(["mm"], MMS, 4 | 8 | 32, 6000, 3, tcfg=L, huge=[("huge_mm", [6])], walks=[(18, 6, 1, 3), (20, 5, 1, 1)], deep=[(3, 7, 4, 4)]),
    "C07": plain(["pers"], VEC + MAPS + [6, 47], 4 | 8 | 32, 6000, 1, walks=[(1, 6, 1, 2), (9, 6, 1, 3)], deep=[(14, 7, 8, 8)]),
    "C08": plain(["conv"], VEC + MAPS + [6, 17, 47], 4 | 8 | 32, 6000, 1, walks=[(2, 6, 1, 2), (8, 6, 1, 3)], deep=[(1, 7, 8, 8)]),
    "C09": plain(["peq"], VEC + MAPS + BIGM + TENS, 2 | 4 | 8 | 32, 6000, 1, walks=[(1, 6, 1, 1), (9, 6, 1, 1), (10, 7, 1, 1)], deep=[(1, 7, 1, 1), (2, 8, 1, 1)]),
    "C10": plain(["iter"], VEC + BIGV + [8, 10, 14], 8 | 16, 6000, 2, models=("plain", "path"), huge=[("huge_iter", [6, 22, 29])], walks=[(1, 5, 1, 1), (2, 5, 1, 1)], deep=[(1, 6, 4, 4), (2, 6, 4, 4)]),
    "C11": plain(["cmp"], VEC + BIGV + [8, 10, 14], 8 | 16, 6000, 2, models=("plain", "path"), huge=[("huge_cmp", [6, 29])], walks=[(1, 5, 1, 1)], deep=[(1, 6, 4, 4), (2, 6, 4, 4)]),
    "C12": plain(["stab"], VEC + MAPS, 4 | 8, 8000, 1, models=("plain", "path"), walks=[(1, 6, 1, 2), (9, 5, 1, 1)], deep=[(1, 7, 8, 8), (12, 6, 2, 2)]),
    "C13": plain(["proxy"], [1, 2, 3, 4, 5, 9, 10, 11, 13, 18, 20, 21, 7, 23, 24, 42, 43], 1 | 32, 6000, 2, walks=[(2, 5, 1, 1), (9, 5, 1, 1)], deep=[(1, 6, 2, 2), (11, 6, 2, 2)]),
    "C14": plain(["seq", "proxy", "stab", "pers", "conv", "peq", "fail", "iter", "all"], [31, 32, 33, 34, 35, 44], 0x6d, 2500, 1, tcfg="TraceLife.cfg", module="TraceLife.tla", args=["--life", "1"], batch=10000, walks=[(32, 5, 1, 1, "seq"), (33, 5, 1, 1, "peq")], deep=[(32, 6, 4, 4, "conv"), (33, 6, 4, 4, "all")]),
    "C15": sharing,
    "C16": failing,
    "C17": plain(["cost"], [1, 2, 3, 5, 7, 8, 9, 10, 11, 12, 14, 15, 20, 21, 22, 6, 42, 43], 4 | 8, 6000, 2, tcfg="TraceBounds.cfg", walks=[(1, 6, 1, 1), (2, 6, 1, 1), (8, 5, 1, 1)], deep=[(1, 7, 8, 8), (3, 8, 8, 8)]),
    "C18": plain(["depth"], VEC + MAPS + [6, 17, 22, 37, 38], 2 | 8, 8000, 2, safe=1, tcfg="TraceBounds.cfg", huge=[("huge_depth", [6, 22, 29])], walks=[(1, 6, 1, 1), (2, 6, 1, 2)], deep=[(1, 7, 8, 8), (3, 8, 8, 8)]),
    "C19": index,
    "C20": plain(["all"], list(range(1, 25)) + [27, 28, 30, 36] + list(range(39, 44)) + [45, 46, 47], 0x7f, 5000, 1, walks=[(c, 4, 1, 1) for c in sorted(SHAPE) if c not in range(31, 36)], deep=[(c, 5, 1, 1) for c in sorted(SHAPE) if c not in range(31, 36)]),
}
NOT_YET = {}
TECHNIQUE = {
    "*": "TLA+ contract specification, model checked with TLC; behaviours of the real library, among them one through every transition of the node-level model TLC explored, validated against it by TLC (trace validation)",
    "C15": "TLA+ model of the sharing protocol (BppShare), model checked with TLC; executions of several threads on the real code, every atomic access recorded, validated by TLC against the contract and a happens-before memory model (TraceConc, BppMem)",
    "C19": "TLA+ contract and algorithm of the inverted index (InvIndex, InvIndexAlg), model checked with TLC; recorded histories of the real example validated against it by TLC (trace validation)",
}
NOTE = {"*": "Every recorded history in the small-node configurations listed in the evidence is a behaviour of the specification; all edits at all shapes of trees of up to 5 or 6 elements are covered, longer histories are sampled; what was not generated is not judged. Trusts TLC, the recorder in /verif/harness and the C++ compiler.",
        "C15": "The protocol is explored exhaustively for two or three threads and few nodes; of the real code only the generated schedules of two to four threads are judged, but by happens-before, not by what happened to go wrong. Trusts TLC, the recorder (own runtime under -fsanitize=thread's instrumentation) and the C++ compiler.",
        "C19": "Every recorded history of indexing and searching with the example's own code is a behaviour of the specification, apart from the two recorded findings; histories are generated, so what was not generated is not judged. Trusts TLC, the recorder and the C++ compiler."}
