#!/usr/bin/env python3
"""check.py C01 ... : decides one property on /repo's working tree.
VERIF_TIER=quick|thorough, VERIF_SEED=n.  Exit 0 held, 1 violated, 2 undecided."""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from vf import *

S = lambda xs: "{" + ", ".join('"%s"' % x for x in xs) + "}"
N = lambda xs: "{" + ", ".join(map(str, xs)) + "}"


# ------------------------------------------------------------------ repository
def mc_cfg(names, als, docs, maxdocs, maxix=3, emit=True):
    return """SPECIFICATION Spec
VIEW View
CONSTANTS
  Names = %s
  AliasNames = %s
  DocIds = %s
  MaxDocs = %d
  MaxIx = %d
  EmitOn = %s
INVARIANTS InvAlias InvResolve%s
PROPERTIES StepFrame StepRetention StepRename StepDrop StepAnswers
CHECK_DEADLOCK FALSE
""" % (S(names), S(als), N(docs), maxdocs, maxix, "TRUE" if emit else "FALSE", " Emit" if emit else "")


def graphs(c, which):
    """State graphs by exhaustive model checking of Repo: list of output files."""
    confs = {"tiny": (["x", "y", "a"], ["a", "x"], [1, 2], 2),
             "shadow": (["x", "y", "a"], ["a", "x"], [1, 2], 3),
             "wide": (["x", "y", "z"], ["a"], [1, 2], 3),
             "two": (["x", "y", "z"], ["a", "b"], [1], 3),
             "noname": (["x", "", "a"], ["a", ""], [1, 2], 2),
             "big": (["x", "y", "a"], ["a", "x", "b"], [1, 2], 3)}
    out = []
    for w in which:
        o, st = c.tlc("RepoMC", mc_cfg(*confs[w]), workers=8, tag=w)
        c.log("RepoMC", w, st)
        out.append(o)
    return out


def run_graphs(c, which, mode="", kind="i"):
    for o in graphs(c, which):
        r = c.drive("graph", kind=kind, mode=mode, **{"in": o})
        c.take(r)
        k = r["counts"]
        c.traces += k.get("transitions", 0) - k.get("skipped", 0)
        for n in ("skipped", "cut", "unconfirmed", "panic_cases", "detours", "detours_skipped"):
            if k.get(n):
                c.extra["graph_" + n] = c.extra.get("graph_" + n, 0) + k[n]
        c.extra["graph_transitions_replayed"] = c.extra.get("graph_transitions_replayed", 0) + k.get("transitions", 0)


def sim_cfg(names, als, ntok, nid, maxtok, maxq, skew, fan=0, fanat=(), spec=""):
    return """SPECIFICATION %s
CONSTANTS
  Names = %s
  AliasNames = %s
  NTok = %d
  NId = %d
  MaxTok = %d
  MaxQ = %d
  MaxHeld = 1000
  Skew = %d
  MaxFan = %d
  FanAt = %s
INVARIANTS InvAlias%s
PROPERTIES StepHeld
CHECK_DEADLOCK FALSE
""" % (spec or ("SpecFan" if fan else "SpecWalk"), S(names), S(als), ntok, nid, maxtok, maxq, skew, fan, N(fanat), " InvMany" if spec == "SpecBulk" else {"SpecMass": " InvMass", "SpecMassA": " InvMassA"}.get(spec, ""))


def run_walks(c, num, depth, variants=None):
    """Random behaviours of RepoSim, num per TLC process."""
    base = [(["x", "y", "z", "w", "v"], ["a", "b", "x"], 5, 6, 5, 4, 45),
            (["x", "y", "z"], ["a", "b"], 3, 3, 3, 3, 35),
            (["x", "y", "z", "w"], ["a", "b", "c", "y"], 8, 9, 8, 6, 60),
            (["x", "y"], ["a", "x", "y"], 2, 2, 3, 3, 30)]
    # many indices and aliases; long lives
    many = ["n%02d" % i for i in range(1, 15)]
    wide = (many, ["a", "b", "n01"], 4, 5, 4, 3, 25)
    jobs = []
    for i in range(NPROC):
        v, n, d = base[i % len(base)], num, depth
        if i == 6:
            v, n, d = wide, max(2, num // 12), depth * 3
        if i == 7:
            n, d = max(2, num // 8), depth * 8
        jobs.append(dict(module="RepoSim", cfg=sim_cfg(*v), sim=(n, d), seed=c.seed * 1009 + i, tag="sim"))
    # one repository for very long
    for i, v in enumerate([(["x", "y"], ["a", "x"], 3, 3, 3, 3, 25), (["x", "y", "z"], ["a", "b"], 2, 2, 2, 3, 20)]):
        jobs.append(dict(module="RepoSim", cfg=sim_cfg(*v).replace("MaxHeld = 1000", "MaxHeld = 20"), sim=(1, 5000 if c.quick else 30000),
                         seed=c.seed * 1019 + i, tag="long"))
    walks(c, jobs + big_jobs(c))


def big_jobs(c):
    """Many indices of one alias, many aliases of one index, large indices."""
    jobs = []
    names = lambda k: ["n%02d" % i for i in range(1, k + 1)]
    for i, (fan, at, n) in enumerate([(20, range(1, 21), 1), (12, range(1, 13), 2), (67, (31, 32, 33, 63, 64, 65, 66), 1)] if c.quick else
                                     [(40, range(1, 41), 2), (20, range(1, 21), 8), (130, (31, 32, 33, 63, 64, 65, 127, 128, 129), 1)]):
        jobs.append(dict(module="RepoSim", cfg=sim_cfg(names(fan + 3), ["a", "b"], 3, 4, 3, 2, 100, fan, at), sim=(n, 20 * fan + 50),
                         seed=c.seed * 1013 + i, tag="fan"))
    # many aliases of one index; large indices
    als = ["a%02d" % i for i in range(1, 41)] + ["x"]
    jobs.append(dict(module="RepoSim", cfg=sim_cfg(["x", "y", "z", "a01"], als, 3, 4, 3, 2, 30, 1, (1, 3, 9, 17, 24, 33, 40), "SpecAls"),
                     sim=(2, 150) if c.quick else (6, 400), seed=c.seed * 1021, tag="als"))
    jobs.append(dict(module="RepoSim", cfg=sim_cfg(["x", "y", "z"], ["a", "x"], 4, 6, 3, 2, 30, 1, (1, 60, 130, 300, 520), "SpecBulk"),
                     sim=(3, 36) if c.quick else (12, 60), seed=c.seed * 1031, tag="bulk"))
    # hundreds of indices of one alias
    most = 300 if c.quick else 700
    jobs.append(dict(module="RepoSim", cfg=sim_cfg(names(most) + ["x"], ["a", "b"], 2, 4, 3, 2, 30, most, (60, 110, 150), "SpecMass"),
                     sim=(2, 32) if c.quick else (8, 60), seed=c.seed * 1039, tag="mass"))
    jobs.append(dict(module="RepoSim", cfg=sim_cfg(["x", "y", "z", "a07"], ["a%02d" % i for i in range(1, most + 1)], 2, 4, 3, 2, 30, most, (40, 130), "SpecMassA"),
                     sim=(2, 32) if c.quick else (8, 60), seed=c.seed * 1049, tag="massa"))
    # calls many times over
    for i, v in enumerate([(["x", "y"], ["a", "x"], 2, 2, 2, 2, 25), (["x", "y", "z"], ["a", "b"], 2, 2, 2, 2, 25)]):
        jobs.append(dict(module="Fault", cfg=fault_cfg(v, [], "SpecRep"), sim=(3, 60) if c.quick else (30, 100), seed=c.seed * 1033 + i, tag="rep"))
    return jobs


def walks(c, jobs, mode=""):
    outs = [o for o, _ in c.tlc_many(jobs)]

    def one(i):
        return c.drive("walk", shards=1, seed=c.seed * 17 + i, mode=mode, **{"in": outs[i]})
    c.build("i")
    with ThreadPoolExecutor(NPROC) as ex:
        for r in ex.map(one, range(len(outs))):
            c.take(r)
            c.traces += r["counts"].get("walks", 0)
            for n in ("steps", "observations", "kept_results", "unconfirmed"):
                c.extra["walk_" + n] = c.extra.get("walk_" + n, 0) + r["counts"].get(n, 0)


# ------------------------------------------------------------------ concurrency
def prog_cfg(names, als, docs):
    return """SPECIFICATION Spec
CONSTANTS
  Names = %s
  AliasNames = %s
  NTok = 3
  NId = 4
  MaxDocsTotal = %d
  MaxCalls = 4
INVARIANTS InvAlias
CHECK_DEADLOCK FALSE
""" % (S(names), S(als), docs)


def programs(c, nrandom):
    pairs, st = c.tlc("RepoPar", """SPECIFICATION Spec
VIEW View
CONSTANTS
  Names = {"x", "y", "a"}
  AliasNames = {"a", "x"}
  DocIds = {1, 2}
  MaxDocs = 2
  MaxIx = 3
  EmitOn = FALSE
INVARIANTS InvAlias InvResolve EmitPairs
CHECK_DEADLOCK FALSE
""", workers=8)
    jobs = [dict(module="RepoProg", cfg=prog_cfg(["x", "y", "z"], [["a", "b", "x"], ["a"]][i % 2], 5 + i % 3),
                 sim=(nrandom, 24), seed=c.seed * 2003 + i) for i in range(4 if nrandom else 0)]
    n = len(jobs)
    if nrandom:
        for i, (k, m) in enumerate([((5, 9), 40), ((17, 33), 25), ((66,), 8)]):
            jobs.append(dict(module="RepoWide", tag="wide", sim=(m if c.quick else 10 * m, 12), seed=c.seed * 2011 + i,
                             cfg=prog_cfg(["x"], ["a"], 1).replace("SPECIFICATION Spec", "SPECIFICATION SpecW") + "CONSTANTS Sizes = %s\n" % N(k)))
    out = [o for o, _ in c.tlc_many(jobs)]
    return pairs, ",".join(out[:n]), ",".join(out[n:])


def lin(c, traces, modes, per=4000):
    """Validates recorded histories with TLC; returns rejected trace lines per mode."""
    items = []
    for t in traces:
        if os.path.exists(t):
            for l in open(t):
                items.append(l)
    # one history may have been recorded by several programs
    uniq = {}
    for l in items:
        t = json.loads(l)
        k = json.dumps(t["h"], sort_keys=True)
        uniq.setdefault(k, []).append(t)
    keys = list(uniq)
    c.extra["histories_recorded"] = c.extra.get("histories_recorded", 0) + len(items)
    c.extra["histories_distinct"] = c.extra.get("histories_distinct", 0) + len(keys)
    chunks = [keys[i:i + per] for i in range(0, len(keys), per)]
    jobs = []
    for i, ch in enumerate(chunks):
        f = c.fresh("hist")
        with open(f, "w") as fd:
            for k in ch:
                fd.write(k + "\n")
        jobs.append(dict(module="Lin", tag="lin", cfg="""SPECIFICATION Spec
CONSTANTS
  File = "%s"
  Modes = %s
INVARIANTS Accept
CHECK_DEADLOCK FALSE
""" % (f, S(modes))))
    rejected = {m: [] for m in modes}
    for ch, (out, st) in zip(chunks, c.tlc_many(jobs)):
        acc = {m: set() for m in modes}
        for l in open(out):
            m = re.match(r'<<"ACCEPT", (\d+), "(\w+)">>', l)
            if m:
                acc[m[2]].add(int(m[1]))
        for m in modes:
            for i, k in enumerate(ch):
                if i + 1 not in acc[m]:
                    rejected[m] += uniq[k]
    c.traces += len(keys)
    return rejected


def run_par(c, maxpairs, maxrandom, modes=None, kind="i", bound=2, cap=600, rcap=100, mode=""):
    # (no random programs when maxrandom is 0)
    """Explores the schedules of the pair programs (up to cap each) and of
    random programs of 2 to 4 threads (up to rcap each)."""
    pairs, rnd, wide = programs(c, max(10, maxrandom // 60) if maxrandom else 0)
    rejected = {}
    for src, mx, cp in ((rnd, maxrandom, rcap), (pairs, maxpairs, cap), (wide, maxrandom, 24 if c.quick else 80)):
        if not mx:
            continue
        tr = c.fresh("trace") + "-%d" if modes else ""
        fl = {"in": src, "bound": bound, "cap": cp, "max": mx, "mode": mode}
        if modes:
            fl["trace"] = tr
        r = c.drive("par", kind=kind, **fl)
        c.take(r)
        for n in ("programs", "schedules", "sched_steps", "programs_exhausted", "programs_capped", "programs_broken"):
            c.extra[n] = c.extra.get(n, 0) + r["counts"].get(n, 0)
        if not modes:
            c.traces += r["counts"].get("schedules", 0)
            continue
        rej = lin(c, [tr % i for i in range(NPROC)], modes)
        # programs whose uninterleaved executions already deviate from the
        # specification are another property's business
        for m in modes:
            bad = {(t["prog"]) for t in rej[m] if t["seq"]}
            c.extra["programs_excluded_" + m] = c.extra.get("programs_excluded_" + m, 0) + len(bad)
            rejected.setdefault(m, [])
            rejected[m] += [dict(t, src=src) for t in rej[m] if t["prog"] not in bad]
    return rejected


def hkey(t):
    return json.dumps(t["h"], sort_keys=True)


def report_lin(c, rej, what):
    for t in rej[:10]:
        ops = ["%s: call@%d return@%d -> %s" % (o["c"]["k"], o["call"], o["ret"], json.dumps(o["res"])) for o in t["h"]["ops"]]
        c.violations.append({"prop": c.prop, "what": what + ": " + " | ".join(t["calls"]),
                             "detail": ops + ["final state: " + json.dumps(t["h"]["fin"])],
                             "replay": t})


# ------------------------------------------------------------------ the checks
REPO_ASSUME = ["abstract names, identifiers, contents and tokens are mapped to concrete strings by the driver",
               "exhaustive within the model's constants; beyond them by random behaviours of the same specification"]
PAR_ASSUME = ["scheduling points are the code's operations of package sync and sync/atomic, goroutine starts, and calls back into the harness; "
              "at most the given number of preemptions per schedule",
              "memory accesses between them are judged by the race detector (C04)"]


# programs (pairs, random) and limits of the schedule exploration
PAR = {"quick": (7600, 2400), "thorough": (120000, 20000)}
PARK = {"quick": dict(bound=2, cap=200, rcap=60), "thorough": dict(bound=3, cap=2000, rcap=500)}


def chk_repo(c):
    c.assumptions = REPO_ASSUME
    run_graphs(c, ["shadow", "wide", "noname"] if c.quick else ["shadow", "wide", "two", "noname", "big"])
    run_walks(c, 40 if c.quick else 400, 60 if c.quick else 100)


# the same operations while others run: (pairs, random programs) and what the
# recorded histories are checked for
def par_some(c, pairs, rnd, modes=None, mode=""):
    if c.quick:
        return run_par(c, pairs, rnd, modes, mode=mode, **PARK["quick"])
    return run_par(c, 60000, 10000 if rnd else 0, modes, mode=mode, bound=2, cap=800, rcap=200)


def chk_C05(c):
    chk_repo(c)
    c.assumptions = REPO_ASSUME + PAR_ASSUME
    par_some(c, 3000, 1200)


def chk_C06(c):
    chk_repo(c)
    c.assumptions = REPO_ASSUME + PAR_ASSUME
    rej = par_some(c, 2500, 800, ["answers", "reach"], mode="kinds:search,put")
    other = {hkey(t) for t in rej["answers"]}   # wrong answers apart, do searches reach what they name?
    report_lin(c, [t for t in rej["reach"] if hkey(t) not in other], "an order of the calls explains their answers, but not which searches reach anything")


def chk_C07(c):
    chk_repo(c)
    c.assumptions = REPO_ASSUME + PAR_ASSUME
    rej = par_some(c, 3000, 0, ["all"], mode="kinds:rename")
    report_lin(c, rej["all"], "no order of a rename and another call explains their results")


def chk_C08(c):
    c.assumptions = REPO_ASSUME + PAR_ASSUME
    run_graphs(c, ["shadow", "wide", "noname"] if c.quick else ["shadow", "wide", "two", "noname", "big"], mode="detour")
    run_walks(c, 40 if c.quick else 400, 60 if c.quick else 100)
    rej = par_some(c, 3000, 0, ["all"], mode="kinds:drop")
    report_lin(c, rej["all"], "no order of a drop and another call explains their results")


def chk_C09(c):
    chk_repo(c)
    c.assumptions = REPO_ASSUME + PAR_ASSUME
    rej = par_some(c, 2500, 800, ["answers"])
    report_lin(c, rej["answers"], "no order of the calls explains their answers and the listings")


def chk_C20(c):
    chk_repo(c)
    c.assumptions = REPO_ASSUME + PAR_ASSUME
    par_some(c, 3000, 1200)


def chk_C01(c):
    c.assumptions = PAR_ASSUME
    rej = run_par(c, *PAR[c.tier], ["all"], **PARK[c.tier])
    report_lin(c, rej["all"], "no order of the calls explains their results")


def chk_C02(c):
    c.assumptions = REPO_ASSUME + PAR_ASSUME
    run_graphs(c, ["wide"] if c.quick else ["shadow", "wide", "two"])
    run_walks(c, 25 if c.quick else 300, 60)
    # one very large index
    o, _ = c.tlc("EnginesBig", cfg("Spec", "InvClosed Emit", Sizes="{70000}" if c.quick else "{200000}", Toks="{3, 64, 257, 2999, 10064, 20290, 30299}", NId=7, Mul=3,
                                   Queries="{{2999}, {64, 257}, {20290, 3}, {30299}}", Long=3), tag="big")
    native(c, "engines", [o], ("queries", "stored"), "queries", mode="big", shards=1)
    rej = run_par(c, *PAR[c.tier], ["content"], mode="put", **PARK[c.tier])
    report_lin(c, rej["content"], "no order of the calls explains the stored documents")


def chk_C03(c):
    c.assumptions = PAR_ASSUME
    run_graphs(c, ["tiny", "wide"] if c.quick else ["shadow", "wide", "two"], mode="probe")
    walks(c, big_jobs(c))
    run_par(c, *PAR[c.tier], **PARK[c.tier])


def chk_C04(c):
    c.assumptions = PAR_ASSUME
    run_graphs(c, ["wide"] if c.quick else ["shadow", "wide"])
    walks(c, big_jobs(c))
    run_par(c, *((4000, 1500) if c.quick else (60000, 15000)), kind="r", bound=1 if c.quick else 2,
            cap=60 if c.quick else 300, rcap=40 if c.quick else 150)


def fault_walks(c, kinds):
    """Histories in which code of the caller's panics now and then."""
    jobs = []
    for i in range(NPROC):
        v, sim = [((["x", "y", "z"], ["a", "x"], 3, 3, 3, 3, 40), (40, 60)), ((["x", "y", "z", "w"], ["a", "b"], 4, 5, 3, 3, 40), (10, 300)),
                  ((["x", "y"], ["a", "y"], 2, 2, 2, 3, 30), (60, 40)), ((["x", "y"], ["a"], 2, 2, 2, 2, 50), (2, 1500))][i % 4]
        jobs.append(dict(module="Fault", tag="fault", seed=c.seed * 10211 + i, sim=(sim[0] * (1 if c.quick else 12), sim[1]), cfg=fault_cfg(v, kinds, "SpecFault")))
    walks(c, jobs, mode="fault:" + c.prop)


def fault_par(c, kind):
    """Concurrent programs with calls in which code of the caller's panics."""
    progs, st = c.tlc("RepoFault", """SPECIFICATION Spec
VIEW View
CONSTANTS
  Names = {"x", "y", "a"}
  AliasNames = {"a", "x"}
  DocIds = {1%s}
  MaxDocs = 2
  MaxIx = 3
  EmitOn = FALSE
  Kind = "%s"
  Few = %d
INVARIANTS InvAlias EmitProgs
CHECK_DEADLOCK FALSE
""" % ("" if c.quick else ", 2", kind, 20 if c.quick else 150), workers=8)

    def explore(src, mx, mode):
        tr = c.fresh("trace") + "-%d"
        r = c.drive("par", kind="i", trace=tr, mode=mode, bound=2 if c.quick else 3, cap=120 if c.quick else 800, max=mx, **{"in": src})
        c.take(r)
        for n in ("programs", "schedules", "not_by_fault"):
            c.extra["fault_" + n] = c.extra.get("fault_" + n, 0) + r["counts"].get(n, 0)
        return lin(c, [tr % i for i in range(NPROC)], ["all"])["all"]
    rej = explore(progs, 3000 if c.quick else 30000, "fault:" + c.prop)
    bad = {t["prog"] for t in rej if t["seq"]}
    rej = [t for t in rej if t["prog"] not in bad]
    if not rej:
        return
    # the same without the calls that panic
    src = c.fresh("strip")
    byp = {}
    for t in rej:
        byp.setdefault(json.dumps(t["p"], sort_keys=True), []).append(t)
    keys = list(byp)[:40]
    with open(src, "w") as f:
        for k in keys:
            f.write(k + "\n")
    other = {json.dumps([t["h"]["s"], [o["c"] for o in t["h"]["ops"]]], sort_keys=True) for t in explore(src, 0, "strip")}

    def stripped(t):
        return json.dumps([t["h"]["s"], [o["c"] for o in t["h"]["ops"] if o["c"]["k"] != kind]], sort_keys=True)
    report_lin(c, [t for k in keys for t in byp[k] if stripped(t) not in other], "no order of the calls explains their results, with a call that panics among them")


def fault_cfg(v, kinds, spec):
    return sim_cfg(*v, spec=spec).replace("InvAlias", "InvAlias InvAgain InvOne").replace("MaxHeld = 1000", "MaxHeld = 20") + "CONSTANTS Faults = %s\n" % S(kinds)


def chk_C18(c):
    c.assumptions = REPO_ASSUME
    run_graphs(c, ["tiny"] if c.quick else ["shadow", "wide"], mode="panic")
    fault_walks(c, ["panicsearch"])
    c.assumptions = REPO_ASSUME + PAR_ASSUME
    fault_par(c, "panicsearch")


def chk_C27(c):
    c.assumptions = REPO_ASSUME
    fault_walks(c, ["panicquery", "panicbuild", "panicdoc"])
    c.assumptions = REPO_ASSUME + PAR_ASSUME
    fault_par(c, "panicquery")


# ------------------------------------------------------------------ one index and its engines
def cfg(spec, inv, props="", **consts):
    r = "SPECIFICATION %s\nCONSTANTS\n" % spec
    for k, v in consts.items():
        r += " %s = %s\n" % (k, ("TRUE" if v else "FALSE") if isinstance(v, bool) else N(v) if isinstance(v, (list, tuple)) else v)
    return r + "INVARIANTS %s\n" % inv + ("PROPERTIES %s\n" % props if props else "") + "CHECK_DEADLOCK FALSE\n"


def fold(c, r, names, pre=""):
    c.take(r)
    for n in names + ("unconfirmed",):
        if r["counts"].get(n):
            c.extra[pre + n] = c.extra.get(pre + n, 0) + r["counts"][n]


def native(c, cmd, outs, names, traces, shards=NPROC, **fl):
    """Replays the behaviours in the given TLC outputs into the real code."""
    r = c.drive(cmd, kind="n", shards=shards, **dict(fl, **{"in": ",".join(outs)}))
    fold(c, r, names, cmd + "_")
    c.traces += r["counts"].get(traces, 0)


def run_engines_lite(c):
    """Larger indices, read by engines that overwrite what they are given."""
    jobs = [dict(module="Engines", tag="sim", seed=c.seed * 4001 + i, sim=(2, k["MaxDocs"] + 1),
                 cfg=cfg("SpecSim", "EmitLarge", EmitOn=True, **k)) for i, k in enumerate([
                     dict(NId=4, NTok=30, MaxTok=12, MaxDocs=300, MaxQ=5, NQ=6, Every=100), dict(NId=2, NTok=3, MaxTok=3, MaxDocs=60, MaxQ=70, NQ=8, Every=30)])]
    native(c, "engines", [o for o, _ in c.tlc_many(jobs)], ("indices", "queries"), "indices", reps=2)
    big = "{{1}, {2}, {2,3}, {1,31}, {64}, {257}, {5,65}}"
    jobs = [dict(module="EnginesBig", tag="big", cfg=cfg("Spec", "InvClosed Emit", Sizes=z, Toks="{1, 2, 3, 5, 31, 64, 65, 257}", NId=7, Mul=3, Queries=qq, Long=lg))
            for z, qq, lg in [("{300, 5000}", big, 300), ("{13}", "{{1}, {2,3}}", 70000)]]
    native(c, "engines", [o for o, _ in c.tlc_many(jobs)], ("queries",), "queries", mode="big", shards=4)


def run_engines(c):
    mc = [dict(NId=2, NTok=2, MaxTok=2, MaxDocs=3, MaxQ=3)]
    if not c.quick:
        mc += [dict(NId=2, NTok=3, MaxTok=2, MaxDocs=3, MaxQ=3), dict(NId=1, NTok=2, MaxTok=2, MaxDocs=5, MaxQ=4),
               dict(NId=3, NTok=1, MaxTok=1, MaxDocs=6, MaxQ=3)]
    for k in mc:
        o, st = c.tlc("Engines", cfg("SpecAll", "InvPost InvEngines Emit", "Grows", NQ=1, Every=1, EmitOn=True, **k), workers=8, tag="mc")
        c.log("Engines", k, st)
        native(c, "engines", [o], ("indices", "queries"), "indices", reps=3 if k["NTok"] == 2 else 2)
    sims = [dict(NId=3, NTok=5, MaxTok=6, MaxDocs=40, MaxQ=5, NQ=6, Every=4),
            dict(NId=2, NTok=3, MaxTok=3, MaxDocs=60, MaxQ=6, NQ=8, Every=5),
            dict(NId=9, NTok=12, MaxTok=9, MaxDocs=30, MaxQ=4, NQ=6, Every=3),
            dict(NId=40, NTok=4, MaxTok=4, MaxDocs=80, MaxQ=3, NQ=6, Every=20),
            dict(NId=4, NTok=30, MaxTok=12, MaxDocs=300, MaxQ=5, NQ=6, Every=100)]
    num = 12 if c.quick else 150
    jobs = []
    for i in range(NPROC):
        k = sims[i % len(sims)]
        big = k["MaxDocs"] > 100
        jobs.append(dict(module="Engines", tag="sim", seed=c.seed * 4001 + i, sim=((2 if c.quick else 10) if big else num, k["MaxDocs"] + 1),
                         cfg=cfg("SpecSim", "EmitLarge" if big else "InvPost EmitSim", EmitOn=True, **k)))
    native(c, "engines", [o for o, _ in c.tlc_many(jobs)], ("indices", "queries"), "indices", reps=2)
    toks = "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 31, 64, 65, 100, 128, 257, 1000, 2999, 10002, 10010, 10025, 10064, 10100, 10257, 20001, 20064, 20290, 30001, 30255, 30257, 30299}"
    q = ("{{10064, 1}, {10100, 2, 3}, {10010, 10100}, {10257, 10064, 7}, {10025}, {20001, 10002}, {30001, 1}, {20064, 30257}, {20290, 30255, 10025}, {30299, 10010, 3},"
         " {20290, 2}, {1, 30257, 64}, {10002, 10257}, {1}, {2}, {2,3}, {4,6}, {5,7,12}, {1,2,3,4,5,6,7,8,9,10,11,12}, {11}, {1,31}, {1,64}, {1,65}, {1,100}, {1,128}, {2,257}, {1,1000}, {3,1000},"
         " {1,2999}, {2,100}, {1,2,31}, {3,65}, {2,64,1000}, {257}, {1000}, {5,65}, {7,31}, {31,64}}")
    few = "{{1}, {2,3}, {1,1000}, {2999}, {64,128}, {257, 1000}, {10064, 10257}, {20290, 1}, {30299, 10002}}"
    sets = [("{300, 3000}", 7, 3, q, 300), ("{13}", 7, 3, "{{1}, {2,3}, {4}, {1,11}}", 70000), ("{70000}", 7, 3, few, 3)]
    if not c.quick:
        sets += [("{20000}", 7, 5, q, 300), ("{66000}", 3, 2, q, 10), ("{5000}", 97, 31, q, 300), ("{40000}", 3, 2, few, 300)]
    jobs = [dict(module="EnginesBig", tag="big", cfg=cfg("Spec", "InvClosed Emit", Sizes=z, Toks=toks, NId=n, Mul=m, Queries=qq, Long=lg)) for z, n, m, qq, lg in sets]
    w = 70000 if c.quick else 300000
    jobs.append(dict(module="EnginesWide", tag="wide", cfg=cfg("Spec", "InvClosed Emit", Docs=30, W=w,
                     Queries="{{12, 18}, {30, 60, 69990}, {1, 7}, {65535, 65520}, {256, 512}, {29, 58, 69977}, {65536, 40}}",
                     Probe="{1, 2, 60, 255, 256, 257, 1000, 1024, 4096, 5040, 10080, 32767, 32768, 65535, 65536, 65537, 69984, 70000}")))
    outs = [o for o, _ in c.tlc_many(jobs)]
    for o in outs[:-1]:
        native(c, "engines", [o], ("queries",), "queries", mode="big", shards=4)
    native(c, "engines", outs[-1:], ("queries",), "queries", mode="wide", shards=1)


ENG_ASSUME = ["exhaustive for indices and queries within the model's constants, random behaviours and closed-form indices beyond",
              "documents of a given token list are realised with a table pipeline, a plain and a Spanish pipeline"]


def chk_C10(c):
    c.assumptions = ENG_ASSUME
    run_engines(c)
    run_walks(c, 25 if c.quick else 200, 60)


def chk_C11(c):
    c.assumptions = ENG_ASSUME + REPO_ASSUME
    run_engines(c)
    run_graphs(c, ["wide"] if c.quick else ["wide", "shadow"])
    run_walks(c, 25 if c.quick else 200, 60)
    rej = run_par(c, *((2500, 1200) if c.quick else PAR[c.tier]), ["all", "exact"], **PARK[c.tier])
    other = {hkey(t) for t in rej["all"]}   # what not even bags explain is C01's
    report_lin(c, [t for t in rej["exact"] if hkey(t) not in other], "an order of the calls explains the results, but not their sequence and hits")


def chk_C13(c):
    chk_repo(c)
    run_engines_lite(c)


def chk_C12(c):
    c.assumptions = ENG_ASSUME
    run_engines(c)


# ------------------------------------------------------------------ text analysis
def chk_C14(c):
    c.assumptions = ["characters are classes in the specification, each realised by several characters of several scripts"]
    inv = "InvScan InvCompose InvKept Emit"
    o, st = c.tlc("Analyze", cfg("SpecAll", inv, Chars=[11, 12, 21, 31, 41, 51, 61], MaxLen=4 if c.quick else 5, MaxFilters=0, EmitOn=True), workers=8)
    c.log("Analyze", st)
    jobs = [dict(module="Analyze", tag="sim", seed=c.seed * 5003 + i, sim=(600 if c.quick else 6000, 60),
                 cfg=cfg("SpecSim", "InvScan InvCompose InvKept InvStop InvRepeat Emit", Chars=[], MaxLen=[30, 12, 50, 5][i % 4], MaxFilters=[6, 3, 2, 8][i % 4], EmitOn=True))
            for i in range(NPROC)]
    native(c, "analyze", [o] + [o for o, _ in c.tlc_many(jobs)], ("texts", "concurrent"), "texts", reps=2 if c.quick else 4)
    o, st = c.tlc("Analyze", cfg("SpecSweep", "InvScan InvCompose InvKept Emit", Chars=[], MaxLen=0, MaxFilters=1, EmitOn=True), tag="sweep")
    native(c, "analyze", [o], ("characters",), "characters", mode="sweep")


def chk_C15(c):
    c.assumptions = ["words are drawn from a multilingual vocabulary and at random; the stemmer is taken as an unknown function of the word"]
    o, st = c.tlc("Text", cfg("SpecAll", "InvFound InvNone InvSuper Emit", NW=3, Noise=[3], NClass=2, MaxWords=2, MaxDocs=1, MaxSel=2 if c.quick else 3, EmitOn=True), workers=8)
    c.log("Text", st)
    native(c, "text", [o], ("queries", "nothing_left"), "queries", reps=1, profile="3")
    jobs = [dict(module="Text", tag="sim", seed=c.seed * 6007 + i, sim=(250 if c.quick else 3000, 16),
                 cfg=cfg("SpecSim", "InvFound InvNone InvSuper Emit", NW=24, Noise=[3, 4, 11, 12, 20], NClass=9, MaxWords=[10, 4, 20, 7][i % 4],
                         MaxDocs=[6, 2, 12, 3][i % 4], MaxSel=[6, 4, 10, 3][i % 4], EmitOn=True)) for i in range(NPROC)]
    native(c, "text", [o for o, _ in c.tlc_many(jobs)], ("queries", "nothing_left"), "queries", reps=2, profile="3,4,11,12,20")


def chk_C16(c):
    c.assumptions = ["words of the submitted texts are tokens of the specification, in between there are arbitrary bytes that are no words"]
    o, st = c.tlc("Verbatim", cfg("Spec", "InvSame InvHidden Emit", Toks=[1, 2], MaxId=1, MaxC=1, MaxS=1, MaxQ=2, MaxReqs=2, EmitOn=True), workers=8)
    c.log("Verbatim", st)
    jobs = [dict(module="Verbatim", tag="sim", seed=c.seed * 7001 + i, sim=(40 if c.quick else 400, 14),
                 cfg=cfg("SpecSim", "InvSame InvHidden Emit", Toks=[1, 2, 3, 4], MaxId=2, MaxC=4, MaxS=4, MaxQ=2, MaxReqs=[6, 3, 12, 4][i % 4], EmitOn=True))
            for i in range(NPROC)]
    native(c, "verbatim", [o] + [o for o, _ in c.tlc_many(jobs)], ("queries",), "request_lists", reps=2 if c.quick else 6)
    run_walks(c, 25 if c.quick else 200, 60)


def chk_C17(c):
    c.assumptions = ["letters are the vowels and other letters of the specification, and letters of other scripts as further non-vowels"]
    o, st = c.tlc("Regions", cfg("Spec", "InvMachine InvReading InvSuffix Emit EmitLetters", MaxLen=10 if c.quick else 14, EmitOn=True), workers=8)
    c.log("Regions", st)
    native(c, "regions", [o], ("words",), "words", reps=8 if c.quick else 20, bound=4 if c.quick else 5)
    jobs = [dict(module="Regions", tag="sim", seed=c.seed * 8009 + i, sim=([400, 400, 150, 60][i] * (1 if c.quick else 10), [40, 40, 150, 300][i] + 5),
                 cfg=cfg("SpecSim", "InvSim EmitSim", MaxLen=[40, 40, 150, 300][i], EmitOn=True))
            for i in range(4)]
    letters = c.fresh("letters")
    with open(letters, "w") as f:
        f.writelines(l for l in open(o) if "vowels" in l)
    native(c, "regions", [letters] + [o for o, _ in c.tlc_many(jobs)], ("words",), "words", reps=4, bound=0)


def chk_C19(c):
    c.assumptions = ["values of the specification's trees are realised by many strings, numbers, layouts and escapings"]
    o, st = c.tlc("Wire", cfg("Spec", "InvDecode InvTruncated InvRoundTrip Emit", Strs=[1, 2], Ints=[1], EmitOn=True), workers=8)
    c.log("Wire", st)
    native(c, "wire", [o], ("trees", "decodings", "round_trips", "truncations", "noise"), "trees", reps=1 if c.quick else 10)


def chk_C21(c):
    c.assumptions = ["the indices of the specification are objects of the driver, which record what reaches them and answer at random"]
    k = dict(Names='{"x", "y", "a"}', AliasNames='{"a", "b"}')
    o, st = c.tlc("Custom", cfg("Spec", "InvOwn InvOnce", "StepGone", MaxInst=2 if c.quick else 4, EmitOn=False, **k) + "VIEW View\n", workers=8)
    c.log("Custom", st)
    fan = ", ".join('"n%02d"' % i for i in range(1, 31))
    jobs = [dict(module="Custom", tag="sim", seed=c.seed * 9001 + i, sim=((250 if c.quick else 3000), 60) if i % 4 < 3 else ((15 if c.quick else 150), 400),
                 cfg=cfg("SpecSim", "InvOwn InvOnce", "StepGone", MaxInst=0, EmitOn=True, **(
                     k if i % 4 < 2 else dict(Names='{"x", "y", "z", "w", "v"}', AliasNames='{"a", "x"}') if i % 4 == 2 else dict(Names="{%s}" % fan, AliasNames='{"a", "b", "n07"}'))))
            for i in range(NPROC)]
    native(c, "custom", [o for o, _ in c.tlc_many(jobs)], ("calls",), "walks")


def chk_C22(c):
    c.assumptions = ["letters of identifiers are realised by bytes, characters and long blocks"]
    o, st = c.tlc("Keys", cfg("Spec", "InvAlone InvApart Emit", Letters=[1, 2, 3], MaxLen=5 if c.quick else 7, Contents=[1, 2], EmitOn=True), workers=8)
    c.log("Keys", st)
    native(c, "keys", [o], ("keys",), "keys")


def chk_C23(c):
    c.assumptions = ["hit counts and identifiers of the specification are realised by several ascending sequences of each, extremes included"]
    o, st = c.tlc("Sort", cfg("Spec", "InvPerm InvSorted InvOrder Emit", Hits=[1, 2, 3] if c.quick else [0, 2, 3, 6], NId=2 if c.quick else 3, MaxLen=4, EmitOn=True), workers=8)
    c.log("Sort", st)
    jobs = [dict(module="Sort", tag="sim", seed=c.seed * 9601 + i, sim=(200 if c.quick else 3000, 42),
                 cfg=cfg("SpecSim", "EmitSim", Hits=[0, 1, 2, 3, 4, 5, 6], NId=8, MaxLen=[6, 12, 25, 40][i], EmitOn=True)) for i in range(4)]
    native(c, "sort", [o] + [x for x, _ in c.tlc_many(jobs)], ("collections",), "collections", reps=4 if c.quick else 10)


def chk_C24(c):
    c.assumptions = REPO_ASSUME + ["the repositories share names, identifiers, texts and, partly, builders and pipelines"]
    jobs = []
    for i in range(NPROC):
        v = [(["x", "y", "z"], ["a", "x"], 3, 3, 3, 3, 30), (["x", "y"], ["a", "b"], 2, 3, 2, 2, 40)][i % 2]
        jobs.append(dict(module="Twin", tag="twin", seed=c.seed * 9811 + i, sim=(12 if c.quick else 150, 50),
                         cfg=sim_cfg(*v, spec="SpecTwin").replace("InvAlias", "InvTwin InvApart").replace("StepHeld", "StepTwin") + "CONSTANTS NRepo = %d\n" % [3, 2, 3, 5][i % 4]))
    outs = [o for o, _ in c.tlc_many(jobs)]
    r = c.drive("twin", kind="r", reps=6 if c.quick else 20, **{"in": ",".join(outs)})
    fold(c, r, ("walks", "steps", "concurrent", "not_by_others", "cut"))
    c.traces += r["counts"].get("walks", 0) + r["counts"].get("concurrent", 0)


def chk_C25(c):
    c.assumptions = REPO_ASSUME + ["the caller's engine reads everything it is shown and answers what the specification says, any rows at all"]
    jobs = []
    fan = ["n%02d" % i for i in range(1, 71)]
    for i in range(NPROC):
        v, sim = [((["x", "y", "z"], ["a", "x"], 4, 5, 4, 4, 35), (30, 60)), ((["x", "y", "z", "w", "v"], ["a", "b"], 5, 5, 4, 6, 45), (20, 100)),
                  ((["x", "y"], ["a", "b"], 2, 2, 3, 3, 60), (20, 80)), [((fan, ["a"], 4, 5, 3, 4, 45, 1), (2, 350)), ((["x", "y"], ["a"], 2, 5, 3, 3, 95), (1, 320))][i // 4]][i % 4]
        jobs.append(dict(module="Eng", tag="eng", seed=c.seed * 9901 + i, sim=(sim[0] * (1 if c.quick else 12), sim[1]),
                         cfg=sim_cfg(*v, spec="SpecEng").replace("InvAlias", "InvAlias InvBuiltin InvPost")))
    outs = [o for o, _ in c.tlc_many(jobs)]
    r = c.drive("eng", kind="i", reps=2 if c.quick else 4, **{"in": ",".join(outs)})
    fold(c, r, ("walks", "calls", "searches", "not_by_engine", "not_confirmed"))
    c.traces += r["counts"].get("walks", 0)


def chk_C26(c):
    c.assumptions = ["tokens, identifiers and contents of the specification are realised by valid UTF-8 strings that need care in JSON"]
    o, st = c.tlc("Dump", cfg("Spec", "InvPost InvRound InvFound", NIx=1, NTok=2, NId=1, MaxTok=2, MaxQ=2, MaxDocs=2 if c.quick else 3) + "VIEW View\n", workers=8)
    c.log("Dump", st)
    jobs = [dict(module="Dump", tag="sim", seed=c.seed * 10007 + i, sim=((30, 60) if c.quick else (300, 120)) if i % 4 < 3 else ((4, 300) if c.quick else (30, 600)),
                 cfg=cfg("SpecSim", "InvPost InvRound" if i % 4 < 2 else "", MaxDocs=0, **[dict(NIx=2, NTok=3, NId=3, MaxTok=3, MaxQ=3), dict(NIx=3, NTok=8, NId=12, MaxTok=6, MaxQ=2),
                                                                             dict(NIx=1, NTok=2, NId=1, MaxTok=2, MaxQ=4), dict(NIx=2, NTok=30, NId=9, MaxTok=10, MaxQ=2)][i % 4])) for i in range(NPROC)]
    jobs += [dict(module="Dump", tag="long", seed=c.seed * 10009 + i, sim=(1 if c.quick else 4, 480 if c.quick else 900),
                  cfg=cfg("SpecSim", "", MaxDocs=0, NIx=1, NTok=3, NId=2, MaxTok=4, MaxQ=2)) for i in range(2)]
    native(c, "dump", [x for x, _ in c.tlc_many(jobs)], ("walks", "looks", "not_by_form"), "walks", reps=3)
    k = dict(Names='{"x", "y", "z"}', AliasNames='{"a", "x"}')
    jobs = [dict(module="Custom", tag="form", seed=c.seed * 10103 + i, sim=(60 if c.quick else 600, 60), cfg=cfg("SpecSim", "InvOwn", MaxInst=0, EmitOn=True, **k)) for i in range(4)]
    native(c, "custom", [x for x, _ in c.tlc_many(jobs)], ("calls",), "walks", mode="form")


def chk_C28(c):
    c.assumptions = REPO_ASSUME + ["a stream is used by one goroutine at a time, its rows are asked for only between a successful Next and the next one"]
    o, st = c.tlc("Stream", """SPECIFICATION SpecAll
CONSTANTS
  Names = {"x"}
  AliasNames = {"a"}
  NTok = 1
  NId = 1
  MaxTok = 1
  MaxQ = 1
  MaxHeld = 0
  Skew = 0
  MaxFan = 0
  FanAt = {}
  NStr = 2
  MaxRaw = %d
INVARIANTS InvGot
PROPERTIES StepOwn
CHECK_DEADLOCK FALSE
""" % (1 if c.quick else 2), workers=8, tag="mc")
    c.log("Stream", st)
    jobs = []
    for i in range(NPROC):
        v, sim = [((["x", "y", "z"], ["a", "x"], 4, 5, 4, 3, 40), (40, 120)), ((["x", "y", "z", "w"], ["a", "b"], 3, 4, 3, 2, 45), (20, 250)),
                  ((["x"], ["a"], 2, 5, 2, 2, 60), (30, 150)), ((["x", "y"], ["a", "b"], 2, 3, 3, 2, 50), (6, 600))][i % 4]
        jobs.append(dict(module="Stream", tag="str", seed=c.seed * 9931 + i, sim=(sim[0] * (1 if c.quick else 20), sim[1]),
                         cfg=sim_cfg(*v, spec="SpecStr").replace("InvAlias", "InvAlias InvGot").replace("StepHeld", "StepOwn") + "CONSTANTS\n  MaxRaw = 2\n  NStr = %d\n" % [3, 4, 2, 12][i % 4]))
    # streams of hundreds of rows
    for i in range(2 if c.quick else 6):
        jobs.append(dict(module="Stream", tag="strlong", seed=c.seed * 9949 + i, sim=(1, [1200, 2000][i % 2] * (1 if i < 4 else 2)),
                         cfg=sim_cfg(["x"], ["x"], 1, 2 + i % 2, 1, 1, 100, spec="SpecStr").replace("InvAlias", "InvAlias InvGot").replace("StepHeld", "StepOwn") + "CONSTANTS\n  MaxRaw = 2\n  NStr = 2\n"))
    outs = [o for o, _ in c.tlc_many(jobs)]
    r = c.drive("stream", kind="r", reps=8 if c.quick else 20, **{"in": ",".join(outs)})
    fold(c, r, ("walks", "steps", "crowd", "concurrent", "not_by_streams", "unconfirmed", "cut"))
    c.traces += r["counts"].get("walks", 0) + r["counts"].get("concurrent", 0)


CHECKS = {"C28": chk_C28, "C27": chk_C27, "C26": chk_C26, "C25": chk_C25, "C24": chk_C24, "C23": chk_C23, "C21": chk_C21, "C22": chk_C22, "C10": chk_C10, "C11": chk_C11, "C12": chk_C12, "C14": chk_C14, "C15": chk_C15, "C16": chk_C16, "C17": chk_C17, "C19": chk_C19,
          "C01": chk_C01, "C02": chk_C02, "C03": chk_C03, "C04": chk_C04, "C05": chk_C05, "C06": chk_C06,
          "C07": chk_C07, "C08": chk_C08, "C09": chk_C09, "C13": chk_C13, "C18": chk_C18, "C20": chk_C20}


def setup():
    """Builds every driver and runs a small check, to fill the build cache."""
    c = Ctx("setup")
    for k in ("n", "i", "r"):
        c.build(k)
    c.tlc("Regions", cfg("Spec", "InvMachine InvReading InvSuffix", MaxLen=3, EmitOn=False))
    print("ready" + (" (%s)" % c.fallback_note if c.fallback_note else ""))
    return 0


def main():
    prop = sys.argv[1]
    if prop == "setup":
        return setup()
    if prop not in CHECKS:
        print("unknown property", prop)
        return 2
    c = Ctx(prop)
    try:
        CHECKS[prop](c)
        return c.finish()
    except CheckError as e:
        print("UNDECIDED property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("UNDECIDED property=%s" % prop)
        return 2


if __name__ == "__main__":
    sys.exit(main())
