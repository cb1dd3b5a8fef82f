"""Shared machinery of the checks: building drivers from /repo's working tree,
generating programs and checking specifications with TLC, running programs on
the real code, and validating the recorded logs with TLC."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4
LIB = ["allocator.c", "collector/gembc.c", "collector/portablems.c", "globals.c", "roots.c", "threads.c"]
COLL = ["collections/list.c", "collections/map.c"]


def library():
    """The library's sources, by its own Makefile."""
    try:
        t = open(os.path.join(REPO, "Makefile")).read().replace("\\\n", " ")
        m = re.search(r"^OBJS\s*=(.*)$", t, re.M)
        o = [x[:-2] + ".c" for x in m.group(1).split() if x.endswith(".o")]
        if o and all(os.path.exists(os.path.join(REPO, x)) for x in o):
            return [x for x in o if not x.startswith("collections/")], [x for x in o if x.startswith("collections/")]
    except (OSError, AttributeError):
        pass
    return LIB, COLL


LIB, COLL = library()


JTMP = "/tmp"


class CheckError(Exception):
    pass


class Ctx:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        global JTMP
        JTMP = self.dir
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], evaluations=0,
                        distinct_nontrivial=0)
        self.notes = {}
        self.violations = []
        self.assumptions = []
        self.pool = cf.ThreadPoolExecutor(CORES)
        self.known = load_known(prop)
        self.runs = 0

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def note(self, k, v):
        self.notes[k] = v

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        if len(self.cov["samples"]) < 4:
            self.cov["samples"].append(s)

    def violation(self, what, files=(), script=None):
        """Record a violation; files are copied to the replay directory."""
        if len(self.violations) >= 5:
            self.violations.append(None)
            return
        n = len(self.violations)
        rd = os.path.join(VERIF, "evidence", "replay", self.prop, str(n))
        shutil.rmtree(rd, ignore_errors=True)
        os.makedirs(rd)
        with open(os.path.join(rd, "what.txt"), "w") as f:
            f.write(what + "\n")
        for name, src in files:
            try:
                if os.path.exists(str(src)):
                    shutil.copy(src, os.path.join(rd, name))
                else:
                    open(os.path.join(rd, name), "w").write(str(src))
            except OSError:
                open(os.path.join(rd, name), "w").write(str(src))
        self.violations.append((what, rd))
        print("VIOLATION property=%s replay=%s" % (self.prop, rd), flush=True)
        print("  " + what[:1000].replace("\n", "\n  "), flush=True)

    def finish(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(self.cov, **self.notes), assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        print("%s: %s in %.1fs: %s" % (self.prop, "VIOLATED" if self.violations else "held", time.time() - self.t0,
              ", ".join("%s=%s" % (k, v) for k, v in self.cov.items() if isinstance(v, int))), flush=True)
        return 1 if self.violations else 0


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def run(cmd, timeout=None, env=None, cwd=None, stdin=None):
    e = dict(os.environ)
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd,
                           stdin=stdin or subprocess.DEVNULL, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or ""
        if isinstance(o, bytes):
            o = o.decode(errors="replace")
        return -999, o


# ------------------------------------------------------------------- builds
def build(ctx, name, srcs, defs=(), cc="gcc", opts=("-O1",), wrap=(), lib=LIB, libs=("-lm",), extra=()):
    """Compile the library from /repo with the given configuration, together
    with our own sources. Returns the executable's path, or None."""
    out = ctx.path("bin", name)
    cxx = cc in ("g++", "clang++")
    files = []
    for s in list(srcs) + [os.path.join(REPO, x) for x in lib]:
        files.append(s if os.path.isabs(s) else os.path.join(HARN, s))
    cmd = [cc, "-g", "-w"] + list(opts) + ["-D_XOPEN_SOURCE=600", "-DGGGGC_VERIF", "-I" + REPO, "-I" + HARN] \
        + list(defs) + list(extra)
    if cxx:
        cmd += ["-x", "c++", "-fpermissive"]
    cmd += files
    if cxx:
        cmd += ["-x", "none"]
    cmd += ["-pthread"] + list(libs) + ["-Wl,--wrap=" + w for w in wrap] + ["-o", out]
    rc, o = run(cmd, timeout=300)
    if rc:
        ctx.notes.setdefault("not_built", []).append(name)
        sys.stderr.write("note: configuration %s does not build: %s\n" % (name, o[:600]))
        return None
    return out


def build_all(ctx, jobs):
    """jobs: {name: kwargs for build}"""
    fs = {n: ctx.pool.submit(build, ctx, n, **kw) for n, kw in jobs.items()}
    res = {n: f.result() for n, f in fs.items()}
    ok = {n: p for n, p in res.items() if p}
    if not ok:
        raise CheckError("nothing builds")
    return ok


# ---------------------------------------------------------------------- TLC
def java(mem="2g", threads=2):
    return ["java", "-Djava.io.tmpdir=" + JTMP, "-Xmx" + mem, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % threads,
            "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC"]


def spec_dir(ctx, name, module, text="", cfg=""):
    d = ctx.path("tlc", name, "x")
    d = os.path.dirname(d)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    with open(os.path.join(d, module + ".cfg"), "w") as f:
        f.write(cfg)
    if text:
        with open(os.path.join(d, module + ".tla"), "w") as f:
            f.write(text)
    return d


def tlc_simulate(ctx, name, module, text, cfg, num, depth, seed, timeout=300):
    """Run TLC's simulator; returns the printed SCRIPT values."""
    d = spec_dir(ctx, name, module, text, cfg)
    rc, o = run(java() + ["-metadir", os.path.join(d, "meta"), "-simulate", "num=%d" % num, "-depth", str(depth),
                          "-seed", str(seed), "-workers", "1", "-noTE", module + ".tla"], timeout=timeout, cwd=d)
    res = scripts_in(o)
    if not res or "Error:" in o:
        raise CheckError("generation with %s failed:\n%s" % (name, o[-3000:]))
    m = re.search(r"number of states generated: (\d+)", o)
    return res, int(m.group(1)) if m else 0


def scripts_in(o):
    res = []
    for l in o.splitlines():
        if l.startswith('<<"SCRIPT", "'):
            res.append(json.loads(json.loads('"' + l[len('<<"SCRIPT", "'):l.rindex('"')] + '"')))
    return res


def generate(ctx, name, module, text, cfg, total, depth, procs=6, seed_off=0):
    """Random behaviours, from several simulators in parallel."""
    per = (total + procs - 1) // procs
    fs = [ctx.pool.submit(tlc_simulate, ctx, "%s-%d" % (name, k), module, text, cfg, per, depth,
                          ctx.seed * 1000 + seed_off + k) for k in range(procs)]
    out = []
    for f in fs:
        r, st = f.result()
        out += r
        ctx.add(states=st, transitions=st)
    seen, uniq = set(), []
    for s in out:
        k = json.dumps(s)
        if k not in seen:
            seen.add(k)
            uniq.append(s)
    return uniq


def tlc_check(ctx, name, module, text="", cfg="", workers=4, timeout=600, mem="4g", opts=(), expect_ok=True):
    """Exhaustively check a specification. Returns (states, distinct, output)."""
    d = spec_dir(ctx, name, module, text, cfg)
    rc, o = run(java(mem, workers) + ["-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noTE"] + list(opts)
                + [module + ".tla"], timeout=timeout, cwd=d)
    m = None
    for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", o):
        pass
    if expect_ok and ("No error has been found" not in o or not m):
        raise CheckError("checking %s failed (rc %s):\n%s" % (name, rc, o[-4000:]))
    g, di = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    ctx.add(states=di, transitions=g)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return g, di, o


# ---------------------------------------------------- programs on real code
def write_scripts(path, scripts):
    with open(path, "w") as f:
        for k, s in enumerate(scripts):
            f.write("S %d\n" % k)
            for op in s:
                f.write(" ".join(str(x) for x in op) + "\n")
            f.write("E\n")


def read_logs(path):
    """[(script number, [json line, ...], preemptions)], and how many runs there were"""
    logs, cur, runs = [], None, 0
    if not os.path.exists(path):
        return logs, runs
    for l in open(path, errors="replace"):
        if l.startswith("S "):
            w = l.split()
            cur = []
            logs.append((int(w[1]), cur, " ".join(w[2:])))
            runs += 1
        elif l.startswith("R "):
            # runs of a sweep, most of which had a log which was there already
            runs += int(l[2:]) - sum(1 for x in logs if x[0] == logs[-1][0])
        else:
            l = l.rstrip("\n")
            if l and cur is not None:
                cur.append(l)
    return logs, runs


def clean(lines):
    """A process which died may leave half an event behind."""
    out = []
    for l in lines:
        try:
            json.loads(l)
            out.append(l)
        except ValueError:
            pass
    return out


def run_scripts(ctx, exes, scripts, chunk=None, timeout=600, env=None):
    """Run all scripts on all executables ({name: path}); a list of
    (config, script index, log lines)."""
    if not scripts:
        return []
    # the programs of a broken library need not all be run to know, and those of a slow machine can't
    env = dict(env or {}, VP_STOP=ctx.path("stop"), VP_DEADLINE=str(int(ctx.t0 + ctx.scale(480, 20 * 3600))))
    chunk = chunk or max(1, (len(scripts) + 3) // 4)
    jobs = []
    for c0 in range(0, len(scripts), chunk):
        p = ctx.path("scripts", "%d-%d.txt" % (id(scripts) % 100003, c0))
        write_scripts(p, scripts[c0:c0 + chunk])
        for n, exe in exes.items():
            jobs.append((n, exe, p, c0))

    def one(j):
        n, exe, p, c0 = j
        out = p + "." + n + ".out"
        rc, o = run([exe, p, out], timeout=timeout, env=env, cwd=ctx.dir)
        logs, runs = read_logs(out)
        try:
            os.unlink(out)
        except OSError:
            pass
        if rc in (97, -999):
            ctx.notes["cut_short"] = ctx.notes.get("cut_short", 0) + 1
        elif rc:
            raise CheckError("driver %s failed (%s): %s" % (n, rc, o[-500:]))
        if "most CPU" in o:
            print(n, o.strip())
        ctx.runs += runs
        return [(n, c0 + k, clean(v)) + ((sc,) if sc else ()) for k, v, sc in logs]
    res = []
    for r in ctx.pool.map(one, jobs):
        res += r
    return res


def validate(ctx, name, module, results, cfg_extra="", procs=3, workers=3, text="", timeout=600):
    """Check logs against a trace specification. Returns the rejected ones:
    (config, script index, event index, why, log lines)."""
    uniq, who = {}, []
    for n, k, lines, *sched in results:
        key = "\n".join(lines)
        if key not in uniq:
            uniq[key] = len(who)
            who.append([(n, k, " ".join(sched)), lines, 0])
        who[uniq[key]][2] += 1
    if not who:
        return []
    procs = min(procs, max(1, len(who) // 20))
    # logs with beginnings in common are next to each other
    order = sorted(range(len(who)), key=lambda i: who[i][1])
    parts = [order[len(order) * p // procs:len(order) * (p + 1) // procs] for p in range(procs)]

    def one(pi):
        ids = parts[pi]
        nm = "%s-v%d" % (name, pi)
        d = spec_dir(ctx, nm, module, text,
                     "SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\nCONSTANT LogFile = \"logs.ndjson\"\n" + cfg_extra)
        nodes, under = [[None, [], False]], {}      # event, children, end; where a log's path begins to be its own
        path, prev = [0], []
        for i in ids:
            ls = who[i][1]
            k = 0
            while k < len(ls) and k < len(prev) and ls[k] == prev[k]:
                k += 1
            del path[k + 1:]
            for l in ls[k:]:
                nodes.append([l, [], False])
                nodes[path[-1]][1].append(len(nodes))
                path.append(len(nodes) - 1)
            nodes[path[-1]][2] = True
            under[i] = list(path)
            prev = ls
        with open(os.path.join(d, "logs.ndjson"), "w") as f:
            for e, c, end in nodes:
                f.write('{%s"c":%s,"end":%s}\n' % ('"e":%s,' % e if e else "", json.dumps(c), "true" if end else "false"))
        rc, o = run(java("4g", 2) + ["-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noTE",
                                     "-deadlock", module + ".tla"], timeout=timeout, cwd=d)
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", o)
        rej = {int(a) - 1: w for a, w in re.findall(r'<<"REJECT", (\d+), "([^"]*)">>', o)}
        # an event which the specification cannot even evaluate is not one of its own
        if "Error:" in o:
            er = re.findall(r"tid = (\d+)", o)
            if not er or not nodes[int(er[-1]) - 1][1]:
                raise CheckError("validation %s failed:\n%s" % (nm, o[-3000:]))
            rej[nodes[int(er[-1]) - 1][1][0] - 1] = "not evaluable"
        elif not m or rc not in (0,):
            raise CheckError("validation %s failed (%s):\n%s" % (nm, rc, o[-3000:]))
        if m:
            ctx.add(states=int(m.group(2).replace(",", "")), transitions=int(m.group(1).replace(",", "")))
            if not rej and int(m.group(2).replace(",", "")) != len(nodes):
                raise CheckError("validation %s is incomplete:\n%s" % (nm, o[-3000:]))
        shutil.rmtree(d, ignore_errors=True)
        out = []
        if rej:
            for i in ids:
                for k, nd in enumerate(under[i]):
                    if nd in rej:
                        out.append((i, k, rej[nd]))
                        break
        return out
    bad = []
    for r in ctx.pool.map(one, range(procs)):
        bad += r
    ctx.add(traces_validated_against_impl=len(results), distinct_nontrivial=len(who))
    if who:
        ctx.sample(dict(config=who[0][0][0], program=who[0][0][1], log=who[0][1][:12]))
    return [(who[t][0][0], who[t][0][1], e, w, who[t][1], who[t][0][2]) for t, e, w in bad]


def report(ctx, bad, scripts, configs, what, limit=3):
    """Turn rejected logs into violations."""
    for n, k, e, why, lines, sched in sorted(bad, key=lambda x: (len(x[4]), x[2]))[:limit]:
        ev = lines[e - 1] if 0 < e <= len(lines) else "(end)"
        sc = "\n".join("preempt " + sched if op[0] == "sweep" else " ".join(str(x) for x in op) for op in scripts[k])
        ctx.violation("%s: configuration %s, program %d, event %d: %s: %s" % (what, n, k, e, why, ev[:600]),
                      [("program.txt", "S 0\n" + sc + "\nE\n"), ("log.ndjson", "\n".join(lines) + "\n"),
                       ("config.txt", json.dumps(configs.get(n), default=str, indent=1))])
    if len(bad) > limit:
        by = {}
        for b in bad:
            by[b[0]] = by.get(b[0], 0) + 1
        print("  (%d logs rejected in all: %s)" % (len(bad), ", ".join("%s %d" % x for x in sorted(by.items()))))


def main(checks):
    prop = sys.argv[1] if len(sys.argv) > 1 else ""
    if prop not in checks:
        print("usage: check PROPERTY; one of " + " ".join(sorted(checks)))
        return 2
    level, fn = checks[prop]
    ctx = Ctx(prop, level)
    try:
        fn(ctx)
        return ctx.finish()
    except CheckError as e:
        if ctx.violations:
            return ctx.finish()
        print("ERROR: %s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(ctx.dir, ignore_errors=True)
