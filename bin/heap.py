"""The checks decided with Heap.tla."""
import random
from vlib import *

HD = dict(srcs=["hd.c", "osmem.c"], wrap=["posix_memalign", "malloc", "free", "mmap", "munmap", "sbrk"])


def tla_weights(w):
    return "<< " + ", ".join('<<"%s", %d>>' % kv for kv in w.items()) + " >>"


def gen_heap(ctx, name, weights, total, n, maxobjs=50, maxlen=12, tag=False, maxframes=6, off=0, procs=6, maxwords=0):
    text = "---- MODULE MC ----\nEXTENDS HeapGen\nWts == %s\n====\n" % tla_weights(weights)
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = %d\n MaxObjs = %d\n MaxLen = %d\n Tag = %s\n"
           " MaxFrames = %d\n MaxWords = %d\n W <- Wts\n" % (n, maxobjs, maxlen, "TRUE" if tag else "FALSE", maxframes, maxwords))
    return generate(ctx, name, "MC", text, cfg, total, n + 5, procs=procs, seed_off=off)


def P(size, card):
    return ["-DGGGGC_POOL_SIZE=%d" % size, "-DGGGGC_CARD_SIZE=%d" % card]


def G(n):
    return ["-DGGGGC_GENERATIONS=%d" % n]


FIN, TAG, EXT, JIT = ["-DGGGGC_FEATURE_%s" % f for f in ("FINALIZERS", "TAGGING", "EXTTAG", "JITPSTACK")]
DBG = "-DGGGGC_DEBUG_MEMORY_CORRUPTION"
PMS = "-DGGGGC_COLLECTOR=portablems"


def configs(feat, which, ctx=None):
    """Named configurations with the given features."""
    feat = list(feat)
    C = {
        "g2p12": dict(defs=P(12, 8) + G(2)),
        "g2p12c9": dict(defs=P(12, 9) + G(2)),
        "g2p13": dict(defs=P(13, 9) + G(2), opts=["-O2"]),
        "g2p14": dict(defs=P(14, 10) + G(2), cc="clang", opts=["-O2"]),
        "g3p12": dict(defs=P(12, 8) + G(3)),
        "g4p13": dict(defs=P(13, 8) + G(4)),
        "g5p12": dict(defs=P(12, 8) + G(5), opts=["-O0"]),
        "g1p12": dict(defs=P(12, 8) + G(1)),
        "g1p13": dict(defs=P(13, 8) + G(1)),
        "g2p16": dict(defs=P(16, 12) + G(2)),
        "default": dict(defs=[]),
        "g3": dict(defs=G(3)),
        "g2p12dbg": dict(defs=P(12, 8) + G(2) + [DBG]),
        "g3p13dbg": dict(defs=P(13, 9) + G(3) + [DBG]),
        "g1p12dbg": dict(defs=P(12, 8) + G(1) + [DBG]),
        "pms12": dict(defs=P(12, 8) + [PMS]),
        "pms13": dict(defs=P(13, 8) + [PMS], opts=["-O2"]),
        "pms": dict(defs=[PMS]),
        "pms12dbg": dict(defs=P(12, 8) + [PMS, DBG]),
        "g2p14dbg": dict(defs=P(14, 9) + G(2) + [DBG], opts=["-O2"]),
        "dbg": dict(defs=[DBG]),
        "pmsdbg": dict(defs=[DBG, PMS]),
        "cxxdbg": dict(defs=P(12, 8) + G(2) + [DBG], cc="g++"),
        "cxx": dict(defs=P(12, 8) + G(2), cc="g++"),
        "cxxg3": dict(defs=P(13, 9) + G(3), cc="g++"),
        "cxxpms": dict(defs=P(12, 8) + [PMS], cc="g++"),
        "nogcc": dict(defs=P(12, 8) + G(2) + ["-DGGGGC_NO_GNUC_FEATURES"]),
        "nogccpms": dict(defs=P(12, 8) + [PMS, "-DGGGGC_NO_GNUC_FEATURES"]),
        "nogccxx": dict(defs=P(12, 8) + G(3) + ["-DGGGGC_NO_GNUC_FEATURES"], cc="g++"),
        "nothr": dict(defs=P(12, 8) + G(2) + ["-DGGGGC_NO_THREADS"]),
        "malloc": dict(defs=P(12, 8) + G(2) + ["-DGGGGC_USE_MALLOC"]),
        "malloc3": dict(defs=P(13, 9) + G(3) + ["-DGGGGC_USE_MALLOC"]),
        "asan": dict(defs=P(12, 8) + G(2), opts=["-O1", "-fsanitize=undefined", "-fno-sanitize=alignment,null,pointer-overflow",
                                              "-fno-sanitize-recover=bounds"]),
    }
    out = {}
    for n in which:
        c = dict(HD, **C[n])
        c["defs"] = c["defs"] + feat
        out[n] = c
    return out


def heap_run(ctx, name, scripts, cfgs, what, fast=None):
    exes = build_all(ctx, cfgs)
    res = run_scripts(ctx, exes, scripts)
    ctx.add(evaluations=len(res))
    bad = validate(ctx, name, "HeapTrace", res)
    report(ctx, bad, scripts, cfgs, what)
    return res


CORE = dict(new=14, lost=4, wpo=20, wp=3, wn=2, rp=8, wd=6, rd=2, newpa=4, newda=4, minor=5, collect=2, obs=4, push2=2, pop=2,
            clr=4, mv=3, eq=2, len=1, pad=2, blob=1, comb=1, thin=1, glob=1, newd=2, desc=1)


def base(ctx, rule):
    ctx.assumptions.append("the driver observes objects through the interface's own read macros, and the placement of "
                           "objects by their addresses")
    ctx.cov["rule"] = rule + "; a trace counts as distinct if its log differs from every other"


def profile(ctx, name, w, cfgs, what, quick=(200, 100), thorough=(3000, 220), **kw):
    n, ln = ctx.scale(quick, thorough)
    s = gen_heap(ctx, name, w, n, ln, **kw)
    heap_run(ctx, name, s, cfgs, what)


# ----------------------------------------------- Compact.tla and Sweep.tla
def compact_cfg(c, lo, hi, bug="", emit=False):
    return ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n C = %d\n MinSize = %d\n MaxSize = %d\n Bug = \"%s\"\n Emitting = %s\n"
            "INVARIANTS Never Slid Ends%s\n" % (c, lo, hi, bug, "TRUE" if emit else "FALSE", " Emit" if emit else ""))


def sweep_cfg(c, nr, sizes, bug="", emit=False):
    return ("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS\n C = %d\n NR = %d\n Sizes = {%s}\n Bug = \"%s\"\n Emitting = %s\n"
            "INVARIANTS Covered Listed Disjoint NodesFit Joined%s\n"
            % (c, nr, ",".join(map(str, sizes)), bug, "TRUE" if emit else "FALSE", " Emit" if emit else ""))


def must_notice(ctx, name, module, cfg):
    _, _, o = tlc_check(ctx, name, module, cfg=cfg, workers=1, expect_ok=False)
    if "is violated" not in o:
        raise CheckError("%s does not notice %s" % (module, name))


def sized(size, slot, rng):
    """allocate an object of so many words (in builds without guards)"""
    if size == 3:
        return ["new", rng.choice([1, 2]), 1, slot]
    if size == 4:
        return rng.choice([["new", 3, 1, slot], ["newda", 11, 1, 1, slot]])
    return ["newda", 11, size - 3, 1, slot]


WARM = [["new", t, 1, 1] for t in (1, 2, 3)] + [["newda", 11, 1, 1, 1], ["clr", 1, 1], ["collect"]]


def compact_program(layout, c, rng):
    s = [["push", 0, max(6, len(layout))]] + WARM + [["fill", c, rng.randrange(2)]]
    for i, (size, _) in enumerate(layout):
        s.append(sized(size, i + 1, rng))
        if rng.random() < .3 and i and s[-1][0] == "new" and s[-1][1] > 1:
            s.append(["wp", 1, i + 1, s[-1][1], 1, 1, rng.randrange(1, i + 1)])
    if rng.random() < .5:
        s.append(["collect"])
    dead = [i + 1 for i, (_, live) in enumerate(layout) if not live]
    s += [["clr", 1, i] for i in dead] + [["collect"], ["obs"]]
    for i in dead:
        s.append(sized(rng.choice([3, 4, 5]), i, rng))
    return s + [["obs"], ["churn", rng.randrange(4), 1], ["obs"], ["clr", 1, 1], ["collect"], ["obs"]]


def sweep_program(prog, c, rng):
    s = [["push", 0, 6]] + WARM + [["fill", c, 1]]
    for op in prog:
        s.append(sized(op[1], op[2], rng) if op[0] == "alloc" else op)
        if op[0] == "collect" and rng.random() < .3:
            s.append(["obs"])
    return s + [["obs"], ["new", 3, 1, 5], ["new", 2, 1, 6], ["collect"], ["obs"]]


def places(ctx):
    """Compaction and sweeping: every small layout of a pool, in the model and in the code."""
    rng = random.Random(ctx.seed + 5)
    for nm, mod, cfg in [("no-roll", "Compact", compact_cfg(20, 3, 4, "no-roll")), ("small-objects", "Compact", compact_cfg(10, 2, 4)),
                         ("split-small", "Sweep", sweep_cfg(12, 3, (3, 4, 5), "split-small")),
                         ("exact-stays", "Sweep", sweep_cfg(12, 3, (3, 4, 5), "exact-stays")),
                         ("rest-lost", "Sweep", sweep_cfg(12, 3, (3, 4, 5), "rest-lost")),
                         ("no-join", "Sweep", sweep_cfg(12, 3, (3, 4, 5), "no-join"))]:
        ctx.pool.submit(must_notice, ctx, nm, mod, cfg).result() if ctx.thorough else None
    j = [ctx.pool.submit(tlc_check, ctx, "compact", "Compact", cfg=compact_cfg(ctx.scale(20, 24), 3, 4), workers=4),
         ctx.pool.submit(tlc_check, ctx, "compact3", "Compact", cfg=compact_cfg(ctx.scale(24, 33), 3, 3), workers=2),
         ctx.pool.submit(tlc_check, ctx, "sweep", "Sweep", cfg=sweep_cfg(ctx.scale(14, 20), 4, (3, 4, 5)), workers=4)]
    c = 20
    _, _, o = tlc_check(ctx, "layouts", "Compact", cfg=compact_cfg(c, 3, 5, emit=True), workers=2)
    lay = scripts_in(o)
    ctx.note("layouts", len(lay))
    rng.shuffle(lay)
    s = [compact_program(x, c, rng) for x in lay[:ctx.scale(700, 5000)]]
    heap_run(ctx, "layouts", s, configs([], ["g1p12", "g1p13", "g2p12", "g3p12", "g1p12dbg", "pms12"]), "compaction")
    c = 14
    _, _, o = tlc_check(ctx, "sweeps", "Sweep", cfg=sweep_cfg(c, 4, (3, 4, 5), emit=True), workers=2)
    prog = maximal(scripts_in(o))
    ctx.note("free_lists", len(prog))
    rng.shuffle(prog)
    s = [sweep_program(x, c, rng) for x in prog[:ctx.scale(900, 9000)]]
    heap_run(ctx, "sweeps", s, configs([], ["pms12", "pms13", "cxxpms", "g1p12"]), "sweeping")
    for k in j:
        k.result()


def g01(ctx):
    ctx.assumptions.append("single-threaded programs; threads are covered by T01-T04")
    base(ctx, "random behaviours of Heap.tla, run in every configuration")
    cfgs = configs([], ["g2p12", "g2p12c9", "g2p13", "g2p14", "g3p12", "g4p13", "g5p12", "g1p12", "g2p16", "default",
                        "g2p12dbg", "g3p13dbg", "pms12", "pms13", "pms12dbg", "cxx", "nogcc", "nothr"])
    profile(ctx, "core", CORE, cfgs, "reachable objects are intact", (200, 110), (4000, 250), maxobjs=ctx.scale(50, 80))
    w = dict(CORE, blob=6, comb=4, thin=4, pad=12, minor=6, collect=3, newda=10, newpa=10, clr=8)
    profile(ctx, "bulk", w, cfgs, "reachable objects are intact", (60, 70), (1500, 150), maxlen=90, off=50)
    places(ctx)


# ------------------------------------------------------------------ Gembc.tla
def gembc_cfg(g, no, nr, nm, fail, barrier=True, emit=False, inv=True):
    return ("SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANTS\n G = %d\n NO = %d\n NR = %d\n NM = %d\n"
            " MaxFail = %d\n NoBarrier = %s\n Emitting = %s\nINVARIANTS Refine NoDangling Remembered NoForward%s\n"
            % (g, no, nr, nm, fail, "FALSE" if barrier else "TRUE", "TRUE" if emit else "FALSE", " Emit" if emit else ""))


def gembc_scripts(ctx, g, no, nr, nm, name):
    """One shortest program for every reachable state of Gembc, all the way to that state and beyond."""
    _, _, o = tlc_check(ctx, name, "Gembc", cfg=gembc_cfg(g, no, nr, nm, 0, emit=True), workers=3)
    return scripts_in(o)


def maximal(scripts):
    """Drop programs which are the beginning of others."""
    pre = set()
    for s in scripts:
        for k in range(1, len(s)):
            pre.add(json.dumps(s[:k]))
    return [s for s in scripts if json.dumps(s) not in pre]


def dress(scripts, rng, pads=True, every=False):
    """Add steps which mean nothing (in Heap.tla): padding before allocations, observations."""
    out = []
    for s in scripts:
        t = []
        for op in s:
            if pads and op[0] == "new" and rng.random() < .5:
                t.append(["pad", rng.randint(1, 60)])
            t.append(op)
            if op[0] in ("churn", "collect") and (every or rng.random() < .4):
                t.append(["obs"])
        t += [["obs"], ["churn", rng.randint(0, 3), 1], ["obs"], ["collect"], ["obs"]]
        out.append(t)
    return out


def g02(ctx):
    base(ctx, "Gembc.tla exhaustively checked; one shortest program for each of its states replayed on the real code "
              "(with random padding), and random behaviours with many stores into old objects")
    rng = random.Random(ctx.seed)
    jobs = [ctx.pool.submit(tlc_check, ctx, "gembc-%d" % g, "Gembc", cfg=gembc_cfg(g, no, 2, nm, f), workers=3)
            for g, no, nm, f in ctx.scale([(2, 3, 1, 3), (3, 2, 1, 3)],
                                          [(2, 3, 1, 4), (3, 3, 1, 4), (4, 2, 1, 3), (2, 2, 2, 3), (3, 2, 2, 3)])]
    jobs2 = [ctx.pool.submit(gembc_scripts, ctx, g, no, nr, nm, "emit-%d-%d-%d" % (g, no, nm)) for g, no, nr, nm in
             ctx.scale([(2, 3, 2, 1), (3, 2, 2, 2)], [(2, 3, 2, 1), (3, 3, 2, 1), (3, 2, 2, 2), (2, 3, 3, 1)])]
    # the specification can tell: without the write barrier it must fail
    _, _, o = tlc_check(ctx, "gembc-nb", "Gembc", cfg=gembc_cfg(2, 2, 2, 1, 1, barrier=False), workers=1, expect_ok=False)
    if "is violated" not in o:
        raise CheckError("Gembc.tla does not notice a missing write barrier")
    for j in jobs:
        j.result()
    ctx.note("exhaustive", "Gembc.tla: every state for the listed bounds")
    cfgs = configs([], ["g2p12", "g2p12c9", "g2p14", "g3p12", "g4p13", "g2p13", "cxx", "malloc3", "g2p12dbg"])
    for k, j in enumerate(jobs2):
        s = maximal(j.result())
        ctx.note("model_programs_%d" % k, len(s))
        rng.shuffle(s)
        s = dress(s[:ctx.scale(900, 12000)], rng)
        heap_run(ctx, "model%d" % k, s, cfgs if ctx.thorough else {c: cfgs[c] for c in ["g2p12", "g3p12", "g2p14", "cxx"]},
                 "stores into older objects")
    cfgs.update(configs([], ["default", "g3", "g5p12", "g3p13dbg"]))
    w = dict(new=10, lost=3, wpo=30, wn=2, rp=6, newpa=6, blob=1, thin=1, comb=1, minor=10, collect=2, obs=4, clr=5, mv=2, wd=2, desc=1, newd=2,
             wup=3, rup=1, pad=4, push2=1, pop=1, glob=1, newda=2)
    profile(ctx, "old", w, cfgs, "stores into older objects", (140, 120), (4000, 250), maxobjs=ctx.scale(40, 80), maxlen=150)


def g03(ctx):
    base(ctx, "random behaviours of Heap.tla with long allocation of garbage of six kinds; the pools obtained from the "
              "system are counted, and bounded in terms of the program's data (PoolsOk)")
    w = dict(CORE, steady=3, collect=2, minor=3, clr=8, blob=2)
    cfgs = configs([], ["g2p12", "g2p14", "g3p12", "g4p13", "g5p12", "g1p12", "g1p13", "pms12", "pms13", "g2p12dbg", "cxx",
                        "malloc", "nothr"])
    cfgs.update({"fin-" + k: v for k, v in configs([FIN], ["g2p12", "g3p12", "pms12", "g1p12"]).items()})
    profile(ctx, "steady", w, cfgs, "memory stays bounded", (60, 60), (1000, 120))
    s = [[["push", 0, 2], ["steady", k, n], ["obs"], ["steady", (k + j) % 7, n], ["collect"], ["obs"]] for k in range(7)
         for j in range(7) for n in ctx.scale([300, 2000], [300, 3000])]
    heap_run(ctx, "long", s, cfgs, "memory stays bounded")
    s = [[["push", 0, 2], ["steady", k, n], ["steady", (k + 1) % 7, n]] for k in range(7) for n in ctx.scale([4], [4, 12])]
    cfgs = configs([], ["default", "g3", "pms", "g2p16"])
    heap_run(ctx, "long-default", s, cfgs, "memory stays bounded")
    w = dict(new=4, lost=3, blob=3, thin=3, big=10, newda=10, newpa=10, clr=10, collect=1, obs=2, wpo=4, pad=6)
    profile(ctx, "frag", w, configs([], ["g2p12", "g3p12", "g1p12", "pms12", "g2p14", "pms13", "g4p13"]),
            "allocation makes progress", (80, 60), (1500, 150), maxlen=300, off=70)


def g04(ctx):
    base(ctx, "random behaviours of Heap.tla with many kinds and sizes of allocation, in junk-filled memory")
    cfgs = configs([], ["g2p12", "g2p13", "g3p12", "g5p12", "g1p12", "pms12", "pms13", "pms12dbg", "g2p12dbg", "cxx", "malloc",
                        "default", "pms", "g2p16", "nothr", "cxxpms"])
    w = dict(new=10, lost=3, newpa=14, newda=14, zero=6, big=4, pad=10, blob=1, clr=6, wpo=8, wd=4, rd=2, len=6, collect=2, minor=4, comb=1,
             obs=5, desc=2, newd=4, push2=1, pop=1)
    profile(ctx, "alloc", w, cfgs, "new objects are zeroed, sized and disjoint", (160, 90), (3000, 200), maxlen=250)
    w["over"] = 12
    w["big"] = 8
    profile(ctx, "over", w, cfgs, "an object too large is refused", (100, 25), (600, 60), maxlen=100, off=60)


def g05(ctx):
    base(ctx, "random behaviours of Heap.tla with many kinds of frames; finalizers show what is no longer a root")
    names = ["g2p12", "g3p12", "g1p12", "pms12", "cxx", "cxxpms", "nogcc", "nogccpms", "nogccxx", "g2p14", "nothr"]
    cfgs = configs([], names)
    w = dict(new=16, lost=3, wpo=6, rp=3, mv=8, clr=3, push=8, push2=3, pop=9, glob=3, minor=7, collect=4, obs=6, newpa=1, blob=1,
             eq=2)
    profile(ctx, "frames", w, cfgs, "exactly the pushed and globalized variables are roots", (180, 120), (3000, 250),
            maxframes=12)
    w["fin"] = 9
    w["collect"] = 7
    cfgs = {"fin-" + k: v for k, v in configs([FIN], names).items()}
    profile(ctx, "unroot", w, cfgs, "popped variables are no roots", (140, 120), (3000, 250), maxframes=12, off=80)


def g06(ctx):
    base(ctx, "random behaviours of Heap.tla with finalizers of four kinds (looking, resurrecting, allocating, "
              "re-registering)")
    names = ["g2p12", "g2p12c9", "g2p14", "g3p12", "g4p13", "g5p12", "g1p12", "pms12", "pms13", "default", "pms", "cxx",
             "cxxpms", "nogcc", "nothr", "g2p12dbg", "pms12dbg", "g1p12dbg", "malloc"]
    cfgs = configs([FIN], names)
    w = dict(new=14, lost=3, wpo=14, wn=2, rp=3, mv=4, clr=14, push2=2, pop=3, minor=6, collect=5, obs=4, newpa=2, newda=1, blob=1,
             fin=18, resget=4, glob=1, desc=1, newd=2)
    profile(ctx, "fin", w, cfgs, "finalizers", (260, 110), (5000, 250))
    w2 = dict(w, fin=30, new=20, clr=24, minor=2, collect=2, pad=6)
    profile(ctx, "manyfin", w2, cfgs, "finalizers", (60, 200), (1000, 500), maxobjs=150, off=40)


def g07(ctx):
    base(ctx, "random behaviours of Heap.tla with tagged immediates, and with externally tagged types and JIT frames")
    names = ["g2p12", "g2p14", "g3p12", "g4p13", "g1p12", "pms12", "pms13", "cxx", "g2p12dbg", "pms12dbg", "nogcc"]
    w = dict(new=12, lost=3, wpo=10, wp=12, wn=2, rp=8, mv=5, clr=4, push2=3, pop=3, minor=6, collect=4, obs=5, newpa=5, blob=1,
             imm=16, eq=3, glob=1, desc=2, newd=4, wup=3, rup=2, wd=2)
    cfgs = {"tag-" + k: v for k, v in configs([TAG], names).items()}
    profile(ctx, "tag", w, cfgs, "tagged words", (160, 110), (3000, 250), tag=True)
    cfgs = {"tagall-" + k: v for k, v in configs([TAG, JIT, FIN], names).items()}
    wj = dict(w, jpush=6, jpop=4, jrd=4, jwr=6, fin=6, resget=2)
    profile(ctx, "tagall", wj, cfgs, "tagged words", (100, 110), (2000, 250), tag=True, off=40)
    w = dict(CORE, desc=8, newd=16, wup=2, rup=2, collect=5, minor=8, wd=8)
    cfgs = {"ext-" + k: v for k, v in configs([EXT], names).items()}
    profile(ctx, "ext", w, cfgs, "externally tagged words", (100, 110), (2000, 250), off=80)
    cfgs = {"extall-" + k: v for k, v in configs([EXT, JIT, FIN], names).items()}
    w.update(jpush=6, jpop=4, jrd=4, jwr=6, fin=6, resget=2)
    profile(ctx, "extall", w, cfgs, "externally tagged words", (100, 110), (2000, 250), off=120)


def g08(ctx):
    base(ctx, "random behaviours of Heap.tla with JIT stack frames of every mixture of words")
    names = ["g2p12", "g2p14", "g3p12", "g4p13", "g1p12", "pms12", "pms13", "cxx", "g2p12dbg", "pms12dbg", "nothr"]
    w = dict(new=14, lost=3, wpo=10, rp=4, mv=4, clr=9, push2=2, pop=2, minor=8, collect=6, obs=5, newpa=2, blob=1, jpush=14, jpop=6,
             jrd=8, jwr=10, desc=1, newd=2)
    for k, (nm, f) in enumerate([("jit", [JIT]), ("jittag", [JIT, TAG]), ("jitext", [JIT, EXT]), ("jitfin", [JIT, FIN])]):
        ww = dict(w)
        if f[-1] == TAG:
            ww["imm"] = 6
        if f[-1] == FIN:
            ww.update(fin=10, resget=3)
        cfgs = {nm + "-" + c: v for c, v in configs(f, names).items()}
        profile(ctx, nm, ww, cfgs, "the JIT pointer stack", (100, 110), (2500, 250), tag=f[-1] == TAG, off=40 * k)


def g09(ctx):
    base(ctx, "random behaviours of Heap.tla with run-time types of many sizes and layouts, their objects and user pointers")
    names = ["g2p12", "g2p14", "g3p12", "g1p12", "g5p12", "pms12", "pms13", "cxx", "g2p12dbg", "pms12dbg", "nogcc", "default",
             "pms"]
    w = dict(new=6, lost=3, wpo=16, wn=1, rp=5, mv=4, clr=10, push2=2, pop=2, minor=6, collect=5, obs=5, newpa=4, newda=5, desc=14,
             newd=20, wup=10, rup=8, wd=3, pad=4, eq=2)
    cfgs = configs([], names)
    profile(ctx, "types", w, cfgs, "types and their objects", (200, 110), (4000, 250), maxobjs=ctx.scale(60, 120))
    cfgs = {"ext-" + k: v for k, v in configs([EXT], names).items()}
    profile(ctx, "exttypes", w, cfgs, "types and their objects", (120, 110), (2500, 250), off=40, maxobjs=ctx.scale(60, 120))
    cfgs = {"fin-" + k: v for k, v in configs([FIN, JIT], names).items()}
    w["fin"] = 6
    profile(ctx, "fintypes", w, cfgs, "types and their objects", (80, 110), (1500, 250), off=80)


# memory sources: mappings are used where there's no posix_memalign
ALLOCATORS = {"malign": [], "malloc": ["-DGGGGC_USE_MALLOC"], "sbrk": ["-DGGGGC_USE_SBRK"], "mmap": ["-include", "noadvisory.h"]}
PORTABLE = ["-DGGGGC_USE_PORTABLE_ALLOCATOR"]


def p01(ctx):
    base(ctx, "random behaviours of Heap.tla with every memory source, under refusals by the system after any number of pools; "
              "memory obtained and given back is followed by Pools.tla; and concurrent programs of Thr.tla")
    C = {}
    # the portable collector needs the portable source
    for al, d in ALLOCATORS.items():
        for k, v in configs(d, ["g2p12", "g2p14", "g3p12", "g1p13"] + (["g5p12", "cxx"] if al != "mmap" else [])).items():
            C[al + "-" + k] = v
    for k, v in configs(PORTABLE, ["pms12", "pms13", "cxxpms", "pms12dbg"]).items():
        C["portable-" + k] = v
    for al, d in ALLOCATORS.items():
        C[al + "-fin"] = configs([FIN] + d, ["g2p12"])["g2p12"]
    w = dict(CORE, blob=6, pad=10, minor=6, collect=3, newda=8, newpa=8, clr=8, mem=8, big=2)
    profile(ctx, "sources", w, C, "every memory source", (40, 70), (1500, 150), maxlen=60)
    w = dict(CORE, blob=4, pad=8, minor=8, collect=4, newda=6, newpa=6, clr=8, mem=3, big=1, refuse=5, grant=3)
    profile(ctx, "refuse", w, C, "refusals by the system", (60, 60), (2000, 150), maxlen=60, off=40)
    # memory which was enough for something is enough for more of it
    rng = random.Random(ctx.seed)
    s = []
    for k in range(6):
        for n in ctx.scale([60], [60, 300]):
            for pre in range(ctx.scale(2, 10)):
                x = [["push", 0, 3]] + [["new", rng.randrange(1, 7), 1, 1 + j % 3] for j in range(rng.randrange(0, 20) if pre else 0)]
                s.append(x + [["steady", k, n], ["refuse", 0], ["try", k], ["steady", k, n], ["obs"], ["try", k], ["steady", k, n], ["mem"],
                              ["refuse", -1], ["steady", (k + 1) % 6, n], ["obs"]])
    # (a collector which doesn't move may be left with fragments)
    heap_run(ctx, "enough", s, {c: v for c, v in C.items() if "pms" not in c}, "allocations which can be satisfied")
    # until there's no more
    s = []
    for k in range(ctx.scale(10, 60)):
        for rf in (0, 1, 4, 10):
            x = [["push", 0, 6]] + [["collect"]] * rng.randrange(2) + [["refuse", rf]]
            for j in range(200):
                x.append(rng.choice([["new", rng.randrange(1, 7), 1, rng.randrange(1, 7)], ["newpa", rng.choice([3, 30, 100]), 1, rng.randrange(1, 7)],
                                     ["newda", 11, rng.choice([3, 30, 100]), 1, rng.randrange(1, 7)], ["pad", rng.choice([3, 30, 60])],
                                     ["blob", rng.choice([0, 1]), 50, 1, rng.randrange(1, 7)], ["churn", rng.randrange(4), 1]]))
            s.append(x + [["obs"], ["mem"]])
    heap_run(ctx, "exhaust", s, C, "the end of memory")


def x01(ctx):
    base(ctx, "random behaviours of Heap.tla, by C++ reference objects (as variables, parameters, arrays and temporaries, also unwound by "
              "exceptions) and overloaded members")
    names = ["cxx", "cxxg3", "cxxpms", "cxxdbg", "nogccxx"]
    more = {"cxx14": dict(HD, defs=P(12, 8) + G(2), cc="g++", opts=["-O2", "-std=c++14"]),
            "cxxO0": dict(HD, defs=P(12, 8) + G(2), cc="g++", opts=["-O0", "-std=c++11"]),
            "clangxx": dict(HD, defs=P(13, 9) + G(2), cc="clang++", opts=["-O2"]),
            "cxxnothr": dict(HD, defs=P(12, 8) + G(2) + ["-DGGGGC_NO_THREADS"], cc="g++")}

    def cc(feat, tag):
        c = configs(feat, names)
        c.update({k: dict(v, defs=v["defs"] + list(feat)) for k, v in more.items()})
        return {tag + k: dict(v, defs=v["defs"] + ["-DHD_CC"]) for k, v in c.items()}
    w = dict(CORE, new=12, cp=20, lostcp=8, wp=10, mv=16, rp=12, rd=6, wd=8, eq=6, clr=6, wn=4, push=6, push2=3, pop=7, minor=8, collect=4,
             newpa=8, newda=8, len=1)
    profile(ctx, "cxx", w, cc([], "x-"), "C++ references", (180, 120), (3000, 250), maxframes=10)
    w["fin"] = 10
    w["collect"] = 7
    profile(ctx, "cxxfin", w, cc([FIN], "xf-"), "the lifetimes of C++ references", (120, 120), (3000, 250), maxframes=10, off=60)


def d01(ctx):
    base(ctx, "random behaviours of Heap.tla in corruption-checking builds, some ending with an overwritten guard word")
    C = {}
    names = ["g2p12dbg", "g3p13dbg", "g1p12dbg", "pms12dbg", "dbg", "pmsdbg", "g2p14dbg", "cxxdbg"]
    for nm, f in [("", []), ("fin-", [FIN]), ("tag-", [TAG]), ("ext-", [EXT]), ("jit-", [JIT])]:
        if nm and not ctx.thorough:
            names = ["g2p12dbg", "pms12dbg", "g3p13dbg"]
        for k, v in configs(f, names).items():
            C[nm + k] = v
    profile(ctx, "clean", dict(CORE, big=2, zero=1, pad=4, newpa=6, newda=8), C, "corruption checking accepts a correct program",
            (110, 110), (2500, 250), maxlen=40)
    w = dict(CORE, corrupt=3, buried=6, pad=4, clr=8)
    profile(ctx, "corrupt", w, C, "corruption is reported", (200, 40), (2500, 80), off=40, maxlen=40)
    cf = {k: v for k, v in C.items() if k.startswith("fin-")}
    profile(ctx, "finclean", dict(CORE, fin=10, resget=3, collect=4), cf, "corruption checking accepts a correct program",
            (60, 110), (1500, 250), off=80)


# ------------------------------------------------------- configurations
# every documented option, and the compilers. C++ needs its constructors
OPTIONS = [
    ("coll", [("1", G(1)), ("2", G(2)), ("3", G(3)), ("4", G(4)), ("6", G(6)), ("p", [PMS]), ("d", [])]),
    ("pool", [("12", P(12, 8)), ("12c", P(12, 10)), ("13", P(13, 9)), ("14", P(14, 7)), ("16", P(16, 12)), ("20", P(20, 13)), ("", [])]),
    ("source", [("", []), ("m", ["-DGGGGC_USE_MALLOC"]), ("s", ["-DGGGGC_USE_SBRK"]), ("a", ["-include", "noadvisory.h"])]),
    ("fin", [("", []), ("F", [FIN])]),
    ("jit", [("", []), ("J", [JIT])]),
    ("tag", [("", []), ("T", [TAG]), ("E", [EXT])]),
    ("debug", [("", []), ("D", [DBG]), ("R", ["-DGGGGC_DEBUG_REPORT_COLLECTIONS"]), ("DR", [DBG, "-DGGGGC_DEBUG_REPORT_COLLECTIONS"])]),
    ("gnuc", [("", []), ("n", ["-DGGGGC_NO_GNUC_FEATURES"]), ("nc", ["-DGGGGC_NO_GNUC_CLEANUP"]), ("nk", ["-DGGGGC_NO_GNUC_CONSTRUCTOR"])]),
    ("threads", [("", []), ("t", ["-DGGGGC_NO_THREADS"])]),
    ("compiler", [("0", ("gcc", ["-O0"])), ("1", ("gcc", ["-O1"])), ("2", ("gcc", ["-O2"])), ("3", ("gcc", ["-O3", "-flto"])),
                  ("c", ("clang", ["-O2"])), ("x", ("g++", ["-O2"])), ("X", ("clang++", ["-O1"]))]),
]


def covering(rng, extra=0):
    """configurations such that every two choices of different options meet"""
    k = len(OPTIONS)
    # portablems brings its own source of memory (allocator/portable.c), and cannot use another
    coll, source = 0, 2
    pms = [c[0] for c in OPTIONS[coll][1]].index("p")
    assert OPTIONS[source][0] == "source" and OPTIONS[coll][0] == "coll"
    todo = {(i, a, j, b) for i in range(k) for j in range(i + 1, k)
            for a in range(len(OPTIONS[i][1])) for b in range(len(OPTIONS[j][1]))
            if not (i == coll and a == pms and j == source and b)}
    rows = []

    def pairs(r):
        return {(i, r[i], j, r[j]) for i in range(k) for j in range(i + 1, k)}
    while todo or extra:
        best = None
        for _ in range(60):
            r = [rng.randrange(len(o[1])) for o in OPTIONS]
            if todo:
                i, a, j, b = min(todo) if _ % 2 else rng.choice(sorted(todo)[:50])
                r[i], r[j] = a, b
            if r[coll] == pms and r[source]:
                if todo and i == coll:
                    r[source] = 0
                else:
                    r[coll] = rng.choice([c for c in range(len(OPTIONS[coll][1])) if c != pms])
            n = len(pairs(r) & todo)
            if best is None or n > best[0]:
                best = (n, r)
        if not todo:
            extra -= 1
        todo -= pairs(best[1])
        rows.append(best[1])
    return rows


def configuration(r):
    name, defs, cc, opts = "", [], "gcc", []
    for (o, choices), c in zip(OPTIONS, r):
        name += choices[c][0] + "-"
        if o == "compiler":
            cc, opts = choices[c][1]
        else:
            defs = defs + choices[c][1]
    return name.strip("-"), dict(HD, defs=defs, cc=cc, opts=opts)


def c01(ctx):
    base(ctx, "random behaviours of Heap.tla in a covering array of the documented options (every two choices meet), and with the tiny heap")
    rng = random.Random(ctx.seed)
    C = dict(configuration(r) for r in covering(rng, ctx.scale(0, 200)))
    ctx.notes["configurations"] = len(C)
    w = dict(CORE, newda=8, newpa=8, desc=3, newd=5, wup=2, rup=2, big=1, zero=1, len=3, collect=4, blob=2)
    profile(ctx, "covering", w, C, "every configuration", (60, 110), (400, 220), maxlen=40)
    # the tiny heap: a program which needs more is stopped with a report, others behave the same
    tiny = ["-DGGGGC_DEBUG_TINY_HEAP"]
    T = {}
    for k, d, o in [("g2", P(14, 9) + G(2), {}), ("g2s", P(12, 8) + G(2), {}), ("g3", P(13, 9) + G(3), {}), ("g1", P(14, 8) + G(1), {}),
                    ("g5", P(12, 8) + G(5), {}), ("pms", P(14, 9) + [PMS], {}), ("cxx", P(13, 8) + G(2), dict(cc="g++")),
                    ("fin", P(14, 8) + G(2) + [FIN], {}), ("g3fin", P(13, 8) + G(3) + [FIN], {}), ("pmsfin", P(14, 8) + [PMS, FIN], {}),
                    ("jit", P(13, 8) + G(2) + [JIT], {})]:
        T["tiny-" + k] = dict(HD, defs=d + tiny, **o)
    for k, d in [("g2", P(14, 9) + G(2)), ("g3", P(13, 9) + G(3)), ("pms", P(14, 9) + [PMS]), ("all", P(15, 10) + [FIN, JIT])]:
        T["debug-" + k] = dict(HD, defs=d + ["-DGGGGC_DEBUG"])
    n, ln = ctx.scale((120, 110), (2500, 200))
    w = dict(CORE, newda=6, newpa=6, desc=1, newd=2, clr=10, minor=8, collect=4, blob=2, thin=1, steady=3)
    s = gen_heap(ctx, "tiny", w, n, ln, maxlen=24, maxobjs=40, off=30)
    heap_run(ctx, "tiny", [[["refuse", 1000000]] + x for x in s], T, "the tiny heap")
    # which is large enough for a program whose objects fit in a pool
    T = {}
    for k, d, o in [("g2", P(16, 10) + G(2), {}), ("g1", P(16, 12) + G(1), {}), ("g3", P(16, 9) + G(3), {}), ("g6", P(16, 10) + G(6), {}),
                    ("clang", P(16, 12), dict(cc="clang", opts=["-O2"])), ("cxx", P(16, 11), dict(cc="g++")), ("tag", P(16, 12) + [TAG], {}),
                    ("fin", P(16, 12) + G(2) + [FIN], {}), ("g3fin", P(16, 12) + G(3) + [FIN], {})]:
        T["roomy-" + k] = dict(HD, defs=d + tiny, **o)
    pms = {"roomy-" + k: dict(HD, defs=P(16, 9) + [PMS] + d + tiny) for k, d in [("pms", []), ("pmsfin", [FIN])]}
    w = dict(CORE, newda=6, newpa=6, clr=12, minor=10, collect=6, churn=4, blob=6, thin=1)
    n, ln = ctx.scale((60, 110), (1500, 250))
    for k, words, C in [("quarter", 2000, dict(T, **pms)), ("half", 9000, T)]:
        s = gen_heap(ctx, k, w, n, ln, maxlen=24, maxobjs=60, off=31, maxwords=words)
        heap_run(ctx, k, s, C, "a program which fits in the tiny heap")


CHECKS = {k: ("model_checking", f) for k, f in dict(C01=c01, G01=g01, G02=g02, G03=g03, G04=g04, G05=g05, G06=g06, G07=g07, G08=g08,
                                                     G09=g09, D01=d01, X01=x01).items()}
