"""The checks decided with Coll.tla: lists, maps, units."""
from vlib import *
from heap import P, G, FIN, TAG, EXT, JIT, DBG, PMS, tla_weights

HC = dict(srcs=["hcoll.c"], lib=LIB + COLL)


def gen_coll(ctx, name, weights, total, n, fin, off=0, procs=6, big=120):
    text = "---- MODULE MC ----\nEXTENDS CollGen\nWts == %s\n====\n" % tla_weights(weights)
    cfg = ("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = %d\n Fin = %s\n W <- Wts\n Big = %d\n"
           % (n, "TRUE" if fin else "FALSE", big))
    return generate(ctx, name, "MC", text, cfg, total, n + 5, procs=procs, seed_off=off)


CFG = {
    "g2p12": dict(defs=P(12, 8) + G(2)),
    "g2p13": dict(defs=P(13, 9) + G(2), opts=["-O2"]),
    "g2p14": dict(defs=P(14, 10) + G(2), cc="clang", opts=["-O2"]),
    "g3p12": dict(defs=P(12, 8) + G(3)),
    "g1p12": dict(defs=P(12, 8) + G(1), opts=["-O0"]),
    "pms12": dict(defs=P(12, 8) + [PMS]),
    "pms13": dict(defs=P(13, 8) + [PMS], opts=["-O2"]),
    "dbg": dict(defs=P(12, 8) + G(2) + [DBG]),
    "pmsdbg": dict(defs=P(12, 8) + [PMS, DBG]),
    "tag": dict(defs=P(12, 8) + G(2) + [TAG]),
    "tagpms": dict(defs=P(12, 8) + [PMS, TAG]),
    "ext": dict(defs=P(12, 8) + G(3) + [EXT]),
    "jit": dict(defs=P(12, 8) + G(2) + [JIT]),
    "cxx": dict(defs=P(12, 8) + G(2), cc="g++"),
    "cxxpms": dict(defs=P(12, 8) + [PMS], cc="g++", opts=["-O2"]),
    "nogcc": dict(defs=P(12, 8) + G(2) + ["-DGGGGC_NO_GNUC_FEATURES"]),
    "g2p16": dict(defs=P(16, 10) + G(2)),
    "g3p16": dict(defs=P(16, 10) + G(3), opts=["-O2"]),
    "pms16": dict(defs=P(16, 10) + [PMS]),
    "dbg16": dict(defs=P(16, 10) + G(2) + [DBG]),
    "default": dict(defs=[]),
    "pms": dict(defs=[PMS], opts=["-O2"]),
}


def coll_cfgs(names, fin):
    out = {}
    for n in names:
        c = dict(HC, **CFG[n])
        if fin:
            c["defs"] = c["defs"] + [FIN]
        out[n] = c
    return out


LARGE = ["g2p16", "g3p16", "pms16", "dbg16", "default", "pms"]
ALL = [x for x in CFG if x not in LARGE[:4]]
FEW = ["g2p12", "g2p14", "g3p12", "g1p12", "pms12", "dbg", "pmsdbg", "tag", "ext", "cxx", "pms13"]
ELEMS = dict(newe=12, mve=2, clre=3, churn=6, collect=3, obs=5)
LISTS = dict(ELEMS, newl=4, mvl=2, clrl=1, lpush=14, lunshift=10, lshift=10, lpushl=4, lunshiftl=4, lins=9, linsl=4,
             ltoarr=4, ltrav=2, lfill=2)
MAPS = dict(ELEMS, newm=4, mvm=2, clrm=1, mclone=3, put=40, get=16, mfill=1, mnew=1)
UNITS = dict(newu=4, uset=16, ufill=6, uget=8, deunit=10, churn=5, collect=3, obs=4)


def coll_run(ctx, name, weights, quick, thorough, what, names=ALL, fin=False, off=0, big=120):
    n, ln = ctx.scale(quick, thorough)
    scripts = gen_coll(ctx, name, weights, n, ln, fin, off, big=big)
    cfgs = coll_cfgs(names, fin)
    exes = build_all(ctx, cfgs)
    res = run_scripts(ctx, exes, scripts)
    ctx.add(evaluations=len(res))
    report(ctx, validate(ctx, name, "CollTrace", res), scripts, cfgs, what)


def base(ctx, rule):
    ctx.assumptions.append("the driver reads lists through their documented fields, and maps and units through the interface")
    ctx.cov["rule"] = rule + "; a trace counts as distinct if its log differs from every other"


def l01(ctx):
    base(ctx, "random behaviours of Coll.tla with lists, in every configuration; with finalizers, elements which have left "
              "every list must be reclaimed")
    coll_run(ctx, "lists", LISTS, (160, 90), (3000, 250), "lists are sequences")
    coll_run(ctx, "lists-large", dict(LISTS, lfill=5, newl=2, clrl=0, obs=3, collect=2), (40, 50), (700, 80), "long lists are sequences",
             LARGE, off=90, big=900)
    coll_run(ctx, "lists-fin", dict(LISTS, fin=10, lshift=20, collect=6, clre=8, lfill=0), (100, 90), (2000, 200),
             "lists keep what they contain, only", FEW, True, 50)


def m01(ctx):
    base(ctx, "random behaviours of Coll.tla with maps of five hash functions (colliding, extreme, allocating and collecting) "
              "and two types of keys")
    coll_run(ctx, "maps", MAPS, (140, 90), (3000, 250), "maps are dictionaries")
    coll_run(ctx, "maps-large", dict(MAPS, mnew=10, mfill=0, newm=2, clrm=0, obs=3, collect=2, put=30, mclone=4), (40, 40), (700, 60),
             "large maps are dictionaries", LARGE, off=90, big=1600)
    coll_run(ctx, "maps-fin", dict(MAPS, fin=12, clre=10, collect=6, mfill=0, mnew=0, get=6, obs=3), (80, 80), (2000, 200),
             "maps keep what they contain, only", FEW, True, 50)


def u01(ctx):
    base(ctx, "random behaviours of Coll.tla with units of eight types and ten extreme values of each")
    coll_run(ctx, "units", UNITS, (160, 80), (3000, 200), "units give back their values")
    coll_run(ctx, "units-large", dict(UNITS, ufill=10), (40, 50), (700, 80), "large arrays of units", LARGE, off=90, big=900)


CHECKS = {"L01": ("model_checking", l01), "M01": ("model_checking", m01), "U01": ("model_checking", u01)}
