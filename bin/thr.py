"""The checks decided with Thr.tla: threads, under a virtual scheduler."""
import random
import heap
from vlib import *
from heap import P, G, FIN, TAG, EXT, JIT, DBG, PMS, tla_weights

WRAP = ("pthread_create pthread_join pthread_detach pthread_self pthread_mutex_init pthread_mutex_destroy "
        "pthread_mutex_trylock pthread_mutex_lock pthread_mutex_unlock pthread_spin_init pthread_spin_destroy "
        "pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_cond_init pthread_cond_destroy "
        "pthread_cond_wait pthread_cond_broadcast pthread_cond_signal pthread_barrier_init pthread_barrier_destroy "
        "pthread_barrier_wait sem_init sem_destroy sem_post sem_wait sem_trywait sem_getvalue sched_yield usleep "
        "nanosleep posix_memalign malloc free mmap munmap sbrk").split()
# the portable barrier, by denying that there's another one
GENB = "genb"


def build_thr(ctx, name, defs, cc="gcc", opts=("-O1",), lib=LIB, genb=False, srcs=("ht.c", "vs.c", "osmem.c")):
    out = ctx.path("bin", name)
    d = os.path.dirname(ctx.path("obj", name, "x"))
    inc = ["-I" + REPO, "-I" + HARN]
    if genb:
        with open(os.path.join(d, "nobarrier.h"), "w") as f:
            f.write("#include <unistd.h>\n#undef _POSIX_BARRIERS\n#define _POSIX_BARRIERS 0\n")
        inc += ["-include", os.path.join(d, "nobarrier.h")]
    common = ["-g", "-w", "-D_XOPEN_SOURCE=600", "-DGGGGC_VERIF"] + inc + list(defs) + list(opts)
    for inst in (["-fsanitize=thread"], []):
        objs = []
        for s in [os.path.join(REPO, x) for x in lib] + [os.path.join(HARN, x) for x in srcs]:
            o = os.path.join(d, os.path.basename(s) + ".o")
            ours = s.startswith(HARN)
            x = ["gcc"] if ours and not s.endswith("ht.c") else [cc] + (["-fpermissive", "-x", "c++"] if cc == "g++" else [])
            if ours:
                x = x + ["-D_GNU_SOURCE"]
            rc, msg = run(x + common + ([] if ours else inst) + ["-c", s, "-o", o], timeout=300)
            if rc:
                ctx.notes.setdefault("not_built", []).append(name)
                sys.stderr.write("note: configuration %s does not build: %s\n" % (name, msg[:600]))
                return None
            objs.append(o)
        rc, msg = run([cc] + objs + ["-pthread", "-lm"] + ["-Wl,--wrap=" + w for w in WRAP] + ["-o", out], timeout=300)
        if not rc:
            return out
        ctx.notes.setdefault("not_instrumented", []).append(name)
    sys.stderr.write("note: configuration %s does not link: %s\n" % (name, msg[:600]))
    return None


def build_thrs(ctx, cfgs):
    fs = {n: ctx.pool.submit(build_thr, ctx, n, **kw) for n, kw in cfgs.items()}
    ok = {n: f.result() for n, f in fs.items()}
    ok = {n: p for n, p in ok.items() if p}
    if not ok:
        raise CheckError("nothing builds")
    return ok


def gen_thr(ctx, name, weights, total, n, maxt=4, off=0, procs=6):
    text = "---- MODULE MC ----\nEXTENDS ThrGen\nWts == %s\n====\n" % tla_weights(weights)
    cfg = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = %d\n MaxT = %d\n W <- Wts\n" % (n, maxt)
    return generate(ctx, name, "MC", text, cfg, total, 20 * n + 300, procs=procs, seed_off=off)


def schedules(rng, k):
    """k schedules: random walks, priorities, and a few preemptions."""
    out = []
    for i in range(k):
        m = (i * 7 + rng.randrange(3)) % 8
        seed = rng.randrange(1, 1 << 30)
        span = rng.choice([300, 1000, 3000, 8000])
        out.append(["sched"] + ([0, seed, 2, 0], [0, seed, 6, 0], [0, seed, 40, 0], [1, seed, 2, span], [1, seed, 5, span],
                                [2, seed, rng.randrange(1, 4), span], [3, seed, rng.randrange(1, 5), span],
                                [2, seed, rng.randrange(4, 20), span])[m])
    return out


CFG = {
    "g2p12": dict(defs=P(12, 8) + G(2)),
    "g2p13": dict(defs=P(13, 9) + G(2), opts=["-O2"]),
    "g3p12": dict(defs=P(12, 8) + G(3)),
    "g1p12": dict(defs=P(12, 8) + G(1)),
    "pms12": dict(defs=P(12, 8) + [PMS]),
    "pms13": dict(defs=P(13, 8) + [PMS], opts=["-O2"]),
    "dbg": dict(defs=P(12, 8) + G(2) + [DBG]),
    "pmsdbg": dict(defs=P(12, 8) + [PMS, DBG]),
    "fin": dict(defs=P(12, 8) + G(2) + [FIN]),
    "fin3": dict(defs=P(12, 8) + G(3) + [FIN]),
    "finpms": dict(defs=P(12, 8) + [PMS, FIN]),
    "finjit": dict(defs=P(12, 8) + G(2) + [FIN, JIT]),
    "jit": dict(defs=P(12, 8) + G(2) + [JIT]),
    "jitpms": dict(defs=P(12, 8) + [PMS, JIT]),
    "jitext": dict(defs=P(12, 8) + G(2) + [JIT, EXT]),
    "jitextpms": dict(defs=P(12, 8) + [PMS, JIT, EXT]),
    "tag": dict(defs=P(12, 8) + G(3) + [TAG]),
    "cxx": dict(defs=P(12, 8) + G(2), cc="g++"),
    "nogcc": dict(defs=P(12, 8) + G(2) + ["-DGGGGC_NO_GNUC_FEATURES"]),
    "genb": dict(defs=P(12, 8) + G(2), genb=True),
    "genb3": dict(defs=P(13, 9) + G(3), genb=True, opts=["-O2"]),
    "genbpms": dict(defs=P(12, 8) + [PMS], genb=True),
    "genbfin": dict(defs=P(12, 8) + G(2) + [FIN], genb=True),
    "genbcxx": dict(defs=P(12, 8) + G(2), genb=True, cc="g++"),
}
DATA = dict(new=16, chain=3, wp=12, wn=2, rp=7, mv=3, clr=5, eq=1, gset=6, gget=6, jset=4, jget=3)
GC = dict(churn=7, collect=3)
PLAIN = [c for c in CFG if not c.startswith("fin") and c != "genbfin"]
FINS = [c for c in CFG if c.startswith("fin") or c == "genbfin"]


def thr_run(ctx, name, weights, quick, thorough, what, names, maxt=4, off=0):
    """quick and thorough: programs, their length, schedules of each in each configuration"""
    n, ln, k = ctx.scale(quick, thorough)
    rng = random.Random(ctx.seed * 7919 + off)
    progs = gen_thr(ctx, name, weights, n, ln, maxt, off)
    cfgs = {c: CFG[c] for c in names}
    exes = build_thrs(ctx, cfgs)
    # every configuration gets schedules of its own
    res, scripts, jobs = [], [], []
    for c in exes:
        own = [[s] + p for p in progs for s in schedules(rng, k)]
        jobs.append((c, len(scripts), own))
        scripts += own
    def one(j):
        c, base_, own = j
        r = []
        for x in run_scripts(ctx, {c: exes[c]}, own, chunk=max(1, len(own) // 2), timeout=800):
            r.append((x[0], x[1] + base_, x[2]))
        return r
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(4) as px:
        for r in px.map(one, jobs):
            res += r
    ctx.add(evaluations=len(res))
    bad = validate(ctx, name, "ThrTrace", res, cfg_extra="CONSTANT PoolBound = 120\n", timeout=850)
    report(ctx, bad, scripts, cfgs, what)
    return res


# ------------------------------------------------- World.tla and Barrier.tla
WORLD_INV = "INVARIANTS BarrierSafe CollectSafe SweepSafe CountRight OneLocks\n"


def world_cfg(nt, lens, macros, late=False, bug="", spec="Spec", emit=False):
    return ("SPECIFICATION %s\nCHECK_DEADLOCK %s\nCONSTANTS\n NT = %d\n Len1 = %d\n Len2 = %d\n Len3 = %d\n Macros = {%s}\n Late = %s\n"
            " Bug = \"%s\"\n Emitting = %s\n%s%s"
            % ((spec, "FALSE" if emit else "TRUE", nt) + tuple(lens) + (", ".join('"%s"' % m for m in macros), "TRUE" if late else "FALSE",
               bug, "TRUE" if emit else "FALSE", "" if emit else WORLD_INV, "PROPERTY Ends\n" if spec == "FairSpec" else "")))


def world_check(ctx, jobs, bugs=()):
    """Check the protocol, and that the specification notices mistakes in it. jobs: arguments of world_cfg"""
    fs = [ctx.pool.submit(tlc_check, ctx, "world-%d" % k, "World", cfg=world_cfg(*a[0], **a[1]), workers=3, timeout=3000)
          for k, a in enumerate(jobs)]
    gs = [(b, ctx.pool.submit(tlc_check, ctx, "world-bug-" + b[0], "World",
                              cfg=world_cfg(b[1], b[2], b[3], bug=b[0]), workers=2, expect_ok=False)) for b in bugs]
    for f in fs:
        f.result()
    for b, g in gs:
        o = g.result()[2]
        if "is violated" not in o and "Deadlock reached" not in o:
            raise CheckError("World.tla does not notice the mistake " + b[0])
    ctx.notes["exhaustive"] = "World.tla: every interleaving of every set of programs within the bounds"
    ctx.notes["spec_mutants_noticed"] = [b[0] for b in bugs]


def world_programs(ctx, name, nt, lens, macros):
    _, _, o = tlc_check(ctx, name, "World", cfg=world_cfg(nt, lens, macros, spec="Only", emit=True), workers=1)
    return scripts_in(o)


def dress(prog, rng, fin=False):
    """A program of World.tla as one for the threads driver, with some data."""
    head = [["sem", 0, 2], ["sem", 1, 0], ["bar", 0, 2], ["bar", 1, 1]]
    out = [[1, "new", 1, rng.randrange(1, 6)], [1, "gset", 1, 1], [1, "chain", 2, 3]]
    name = {"C": ["collect"], "Y": ["yield"], "N": ["nap", 2], "P": ["post", 1], "W": ["wait", 1], "L": ["lock", 1],
            "U": ["unlock", 1], "B": ["bar", 0]}

    def data(t, most):
        r = []
        for _ in range(rng.randrange(most + 1)):
            v, w, f = rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 3)
            r.append(rng.choice([[t, "new", v, rng.randrange(1, 6)], [t, "wp", v, f, w], [t, "wp", v, f, w], [t, "rp", v, f, w], [t, "gset", v, w],
                                 [t, "gget", v, w], [t, "clr", v], [t, "obs"]] + ([[t, "fin", v]] * 2 if fin else [])))
        return r
    for t, p in enumerate(prog, 1):
        if t > 1:
            out += [[t, "new", 2, rng.randrange(1, 6)], [t, "wp", 1, 1, 2]]
        for op in p:
            out += data(t, 2)
            if op[0] == "K":
                out.append([t, "create", op[1], rng.randrange(1, 3)])
            elif op[0] == "J":
                out.append([t, "join", op[1]])
            elif op[0] == "C" and rng.random() < .3:
                out.append([t, "churn", rng.randrange(3), 1])
            else:
                out.append([t] + name[op[0]])
        out.append([t, "obs"])
    return head + out + [[1, "collect"], [1, "obs"]]


def sweep_run(ctx, name, progs, names, what, k=1, lim=0, fin=False, off=0):
    """Programs under every schedule of at most k preemptions."""
    rng = random.Random(ctx.seed * 104729 + off)
    cfgs = {c: CFG[c] for c in names}
    exes = build_thrs(ctx, cfgs)
    scripts = [[["sweep", k, lim, ctx.seed]] + dress(p, rng, fin) for p in progs]
    before = ctx.runs
    res = run_scripts(ctx, exes, scripts, chunk=max(1, len(scripts) // 6), timeout=20 * 3600)
    ctx.notes[name + "_schedules"] = ctx.runs - before
    ctx.add(evaluations=ctx.runs - before)
    bad = validate(ctx, name, "ThrTrace", res, cfg_extra="CONSTANT PoolBound = 120\n", timeout=3000)
    report(ctx, bad, scripts, cfgs, what)


def sweeps(ctx, macros2, macros3, names, what, n=10, fin=False, off=0):
    """Some of the programs of World.tla (in a thorough check many), swept in some configurations (or in all)."""
    rng = random.Random(ctx.seed * 31 + off)
    progs = []
    for nt, lens, m in [(2, (2, 2, 0), macros2), (3, (1, 1, 1), macros3)]:
        if m:
            p = world_programs(ctx, "programs-%d-%d" % (nt, off), nt, lens, m)
            # those in which something happens in several threads
            p = [x for x in p if sum(1 for q in x if [o for o in q if o[0] not in "KJ"]) > 1 and any(o[0] == "C" for q in x for o in q)]
            progs += rng.sample(p, min(len(p), ctx.scale(n, 40 * n)))
            ctx.notes["world_programs_%d" % nt] = len(p)
    sweep_run(ctx, "sweep%d" % off, progs, names, what, k=2, lim=ctx.scale(250, 3000), fin=fin, off=off)


def base(ctx, rule):
    ctx.assumptions.append("sequentially consistent memory; interleavings at synchronisation operations and at the library's "
                           "accesses to global variables (and some of its others)")
    ctx.cov["rule"] = rule + "; a trace counts as distinct if its log differs from every other"


A = ["C", "Y", "N", "P", "W", "M"]


def t01(ctx):
    base(ctx, "random programs of up to four threads sharing objects, under random, priority-based and almost sequential schedules")
    w = dict(DATA, **GC, call=4, ret=3, obs=6, create=6, exit=2, join=2, post=3, wait=3, lock=1, rel=3, acq=1)
    w["yield"] = 2
    w["bar"] = 1
    thr_run(ctx, "share", w, (40, 60, 3), (400, 120, 12), "threads and collections", PLAIN)
    world_check(ctx, ctx.scale([((2, (1, 1, 0), A), {}), ((2, (1, 1, 0), A), dict(late=True))],
                               [((3, (1, 1, 1), A), {}), ((3, (1, 1, 1), ["C", "N", "Y"]), dict(late=True)), ((2, (3, 2, 0), ["C", "N", "P", "W"]), {})]),
                bugs=[("no-second-barrier", 2, (1, 1, 0), A), ("roots-forgotten", 2, (1, 1, 0), A)])
    sweeps(ctx, A + ["B"], A, ["g2p12", "g3p12", "pms12", "jit", "jitpms", "cxx", "dbg", "pmsdbg"], "threads and collections")
    w["fin"] = 8
    thr_run(ctx, "share-fin", w, (40, 60, 3), (400, 120, 12), "threads, collections and finalizers", FINS, off=100)
    sweeps(ctx, A, A, FINS, "threads, collections and finalizers", n=6, fin=True, off=200)


BLK = dict(call=3, ret=2, create=6, exit=2, join=3, post=6, wait=6, bwait=3, nap=2, lock=5, trylock=3, acq=4, rel=10, bar=4, obs=3)


def t02(ctx):
    base(ctx, "random programs of up to six threads which mostly synchronise, collect, start, finish and join, without deadlocks of "
              "their own, under random, priority-based and almost sequential schedules; no schedule may get stuck")
    w = dict(BLK, **GC, new=4, chain=1, wp=2, clr=1)
    w["yield"] = 5
    thr_run(ctx, "sync", w, (40, 60, 3), (400, 120, 12), "threads, synchronisation and collections", PLAIN, maxt=6)
    w = dict(BLK, churn=4, collect=14, new=3, chain=1, clr=1, create=12, exit=6, join=8, storm=1)
    w["yield"] = 3
    thr_run(ctx, "sync-many", w, (40, 50, 3), (400, 100, 12), "threads which all collect, come and go", PLAIN, maxt=8, off=100)
    world_check(ctx, ctx.scale([((2, (1, 1, 0), A), dict(spec="FairSpec")), ((2, (1, 1, 0), A), dict(late=True, spec="FairSpec"))],
                               [((2, (2, 2, 0), ["C", "Y", "N", "M"]), dict(spec="FairSpec")), ((3, (1, 1, 1), ["C", "N"]), dict(spec="FairSpec")),
                                ((2, (2, 2, 0), A + ["B"]), {})]),
                bugs=[("pre-spins", 2, (1, 1, 0), A), ("exit-spins", 2, (1, 1, 0), A), ("collect-spins", 2, (1, 1, 0), A)])
    sweeps(ctx, A, A, ["g2p12", "g2p13", "pms12", "genb", "genbpms", "nogcc", "tag", "fin"], "threads, synchronisation and collections", off=40)
    w["fin"] = 4
    thr_run(ctx, "sync-fin", w, (30, 50, 3), (300, 100, 12), "threads, synchronisation and finalizers", FINS, maxt=6, off=200)


def t03(ctx):
    base(ctx, "random programs of up to eight threads which come and go, publish objects for others, and fail to start; and storms of "
              "up to 300 short threads, which may not use more and more memory")
    w = dict(DATA, **GC, create=26, exit=14, join=16, xcreate=4, storm=4, post=2, wait=2, obs=8, gset=14, gget=10, call=2, ret=1)
    thr_run(ctx, "life", w, (40, 70, 3), (400, 140, 12), "threads which come and go", PLAIN, maxt=8)
    world_check(ctx, ctx.scale([((2, (2, 1, 0), ["C", "N"]), {}), ((3, (1, 1, 0), ["C"]), {})],
                               [((3, (2, 1, 1), ["C", "N"]), {}), ((2, (3, 2, 0), ["C", "Y", "N"]), {})]),
                bugs=[("create-unlocked", 2, (1, 1, 0), A), ("exit-spins", 2, (1, 1, 0), A)])
    sweeps(ctx, ["C", "N"], ["C", "N", "Y"], ["g2p12", "g1p12", "pms12", "jit", "finpms", "fin", "pmsdbg", "genb"], "threads which come and go", off=80)
    w["fin"] = 8
    thr_run(ctx, "life-fin", w, (40, 70, 3), (400, 140, 12), "threads which come and go, with finalizers", FINS, maxt=8, off=100)


def t04(ctx):
    base(ctx, "random programs of up to five threads which mostly block on locks, semaphores, barriers and threads, also unsuccessfully, "
              "while others collect")
    w = dict(BLK, **GC, **DATA, xlock=2, xwait=2, xbar=2, xjoin=2, xcreate=1)
    thr_run(ctx, "block", w, (40, 80, 3), (400, 140, 12), "blocking operations", PLAIN, maxt=5)
    world_check(ctx, ctx.scale([((2, (1, 1, 0), A + ["B", "S"]), {}), ((2, (1, 1, 0), A + ["B", "S"]), dict(late=True))],
                               [((2, (2, 2, 0), A + ["B"]), {}), ((3, (1, 1, 1), ["C", "N", "M"]), {})]),
                bugs=[("no-blocked-list", 2, (1, 1, 0), A), ("pre-spins", 2, (1, 1, 0), A)])
    sweeps(ctx, ["C", "N", "M", "P", "W", "B", "S"], ["C", "N", "M", "P", "W"], ["g2p12", "g3p12", "pms12", "pmsdbg", "jit", "jitext", "genb", "finpms"],
           "blocking operations", off=120)
    w["fin"] = 6
    thr_run(ctx, "block-fin", w, (30, 80, 3), (300, 140, 12), "blocking operations and finalizers", FINS, maxt=5, off=100)


def b01(ctx):
    base(ctx, "random programs of up to eight threads meeting at barriers, which collect, come and go, on the library's own barrier")
    names = [c for c in CFG if c.startswith("genb") and c != "genbfin"]
    w = dict(new=3, churn=3, collect=6, bar=40, create=16, exit=2, join=3, post=2, wait=2, obs=2, nap=2)
    w["yield"] = 3
    thr_run(ctx, "bars", w, (80, 60, 5), (500, 120, 20), "barriers", names, maxt=8)
    cfg = "SPECIFICATION Spec\nCONSTANTS N = %d\n R = %d\n Replace = %s\n Bug = \"%s\"\nINVARIANTS Meets NobodyWithin\nPROPERTY Ends\n"
    for k, a in enumerate(ctx.scale([(3, 4, "TRUE"), (4, 3, "FALSE"), (4, 3, "TRUE")], [(4, 4, "TRUE"), (5, 3, "FALSE"), (5, 3, "TRUE")])):
        tlc_check(ctx, "barrier%d" % k, "Barrier", cfg=cfg % (a + ("",)), workers=6, timeout=3000)
    for b, r in [("leader-does-not-wait", "TRUE"), ("not-reset", "FALSE"), ("destroy-does-not-wait", "TRUE")]:
        _, _, o = tlc_check(ctx, "barrier-" + b, "Barrier", cfg=cfg % (3, 2, r, b), workers=2, expect_ok=False)
        if "is violated" not in o and "Deadlock reached" not in o:
            raise CheckError("Barrier.tla does not notice the mistake " + b)
    ctx.notes["exhaustive"] = "Barrier.tla: every interleaving within the bounds"
    sweeps(ctx, ["B", "C", "N", "Y"], ["C", "N", "Y"], ["genb", "genb3", "genbpms", "genbcxx"], "barriers", n=16, off=160)
    w = dict(BLK, **GC, **DATA)
    thr_run(ctx, "bars-mixed", w, (40, 80, 4), (300, 140, 15), "barriers, locks and semaphores", names, maxt=5, off=100)


SOURCES = {
    "malloc": dict(defs=P(12, 8) + G(2) + ["-DGGGGC_USE_MALLOC"]),
    "sbrk": dict(defs=P(12, 8) + G(2) + ["-DGGGGC_USE_SBRK"]),
    "sbrk3": dict(defs=P(13, 9) + G(3) + ["-DGGGGC_USE_SBRK"], opts=["-O2"]),
    "mmap": dict(defs=P(12, 8) + G(2) + ["-include", "noadvisory.h"]),
    "malign": dict(defs=P(12, 8) + G(2)),
    "portable": dict(defs=P(12, 8) + [PMS]),
    "mallocfin": dict(defs=P(12, 8) + G(2) + ["-DGGGGC_USE_MALLOC", FIN]),
}
CFG.update(SOURCES)
SRCS = [c for c in SOURCES if not c.endswith("fin")]


def p01(ctx):
    heap.p01(ctx)
    w = dict(DATA, **GC, create=22, exit=10, join=10, obs=4, chain=14)
    thr_run(ctx, "src", w, (30, 60, 3), (300, 120, 12), "several threads take memory", SRCS, maxt=6)
    w = dict(w, refuse=3, chain=20, storm=1)
    thr_run(ctx, "src-refuse", w, (30, 60, 2), (300, 120, 8), "several threads are refused memory", SRCS, maxt=6, off=100)


CHECKS = {"P01": ("model_checking", p01), "T01": ("model_checking", t01), "T02": ("model_checking", t02), "T03": ("model_checking", t03),
          "T04": ("model_checking", t04), "B01": ("model_checking", b01)}
