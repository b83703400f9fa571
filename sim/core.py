"""Driver shared by every check: seeded search, gating, minimising, replay files, evidence."""
import collections, hashlib, json, multiprocessing, os, random, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, corpus, gen, simlib
from simlib import Job, Scenario

WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 4)
SURVEY = int(os.environ.get("VERIF_SURVEY", "0"))            # development: count violations instead of stopping at the first
TARGETS = (("-VM", "ruc"), ("-LLVM", "ll"), ("-MIPS", "s"))


class Violation(Exception):
    """kind: stable class used to compare runs; detail: text for people"""

    def __init__(self, kind, detail=""):
        super().__init__("%s: %s" % (kind, detail))
        self.kind, self.detail = kind, detail


class Skip(Exception):
    pass


class Ctx:
    """one worker: executor process, programs, cache of fault-free reference runs, statistics"""

    def __init__(self, exe):
        self.exe = exe
        self.sim = simlib.Sim(exe)
        self.plain = None
        self.trust_hang = False         # set while a violation is minimised: its first and last run are confirmed
        self.corpus = corpus.load()
        self.cache = collections.OrderedDict()
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.distinct = set()
        self.probes = collections.Counter()
        self.last_hash = []
        self.gruns = 0

    def run(self, sc):
        r = self.sim.run(sc)
        self.last_hash.append(r.events[1])
        self.stats["runs"] += 1
        self.stats["events"] += r.events[0]
        self.stats["switches"] += r.events[4]
        for i, n in r.fired.items():
            if n:
                f = sc.faults[i]
                self.faults["%s:%s" % (f[0], f[4])] += n
        if r.refused and not any(f[0] == "malloc" for f in sc.faults):
            self.faults["malloc:heapcap"] += r.refused
        if r.end == "killed":
            self.faults["kill"] += 1
        if r.end == "lost" or r.end == "harness":
            raise RuntimeError("simulator lost a child: " + r.end_detail)
        return r

    def ends(self, sc, steps):
        """does the scenario end within a much larger step budget?  Decided by the faster build"""
        if self.plain is None:
            self.plain = simlib.Sim(os.path.join(os.path.dirname(os.path.dirname(self.exe)), "plain", "simx"))
        s = sc.copy()
        s.knobs["steps"] = steps
        self.stats["runs"] += 1
        return self.plain.run(s).end != "hang"

    def golden(self, sc, j):
        """the same job alone in a fresh process: no faults, default knobs.  (JobResult, Result)"""
        job = sc.jobs[j]
        g = job.copy()
        g.thread = 0
        if g.api.startswith("again:"):
            g.api = "again::" + g.api.split(":")[2]     # a fresh workspace
        # only the files below the job's own directory
        own = sc.files
        pre = getattr(sc, "own", None)
        if pre:
            own = {p: d for p, d in sc.files.items() if p.startswith(pre[j])}
        s = Scenario(own, [g], [], {k: v for k, v in sc.knobs.items() if k in ("steps",)})
        key = hashlib.sha1(s.encode()).digest()
        hit = self.cache.get(key)
        if hit is None:
            r = self.sim.run(s)
            self.gruns += 1
            if r.end == "ok" and r.steps > .7 * sc.knobs.get("steps", 30000000):
                r.end = "slow"                          # too close to the step budget to judge a disturbed run by it
            hit = r
            self.cache[key] = hit
            if len(self.cache) > 6000:
                self.cache.popitem(last=False)
        return hit.jobs[0], hit


# ---------------------------------------------------------------------------------------------- workloads

def pick_program(rng, ctx, prefix="/w/", gen_share=0.4, only=None, **kw):
    """(files, args) with every path below prefix"""
    if rng.random() < gen_share:
        files, args = gen.program(rng, **kw)
        name = "generated"
    else:
        pool = ctx.corpus if only is None else [c for c in ctx.corpus if only(c[0])]
        name, files, args = pool[rng.randrange(len(pool))]
    rel = prefix[len("/w/"):]
    files = {prefix + p[len("/w/"):]: d for p, d in files.items()}
    nargs = []
    for a in args:
        if a.startswith("-I"):
            nargs.append("-I" + rel + a[2:])
        else:
            nargs.append(rel + a)
    return name, files, nargs


def storage_damage(rng, ctx, d):
    """(kind, damaged bytes)"""
    n = len(d)
    m = rng.randint(0, 13)
    i = rng.randrange(n + 1)

    def other():
        f = ctx.corpus[rng.randrange(len(ctx.corpus))][1]
        return f[sorted(f)[rng.randrange(len(f))]]

    if m <= 3:
        return "cut", d[:i]
    sec = rng.choice([1, 4, 16, 64, 512])
    if m == 4:
        return "zeroed", d[:i] + b"\0" * min(sec, n - i) + d[i + sec:]
    if m == 5:
        return "lost", d[:i] + d[i + sec:]
    if m == 6:
        return "repeated", d[:i] + d[max(0, i - sec):i] + d[i:]
    if m == 7:
        o = other()
        k = rng.randrange(len(o) + 1)
        return "misplaced", d[:i] + o[k:k + sec] + d[i + sec:]
    if m == 8 and n:
        b = bytearray(d)
        for _ in range(rng.choice([1, 1, 2, 8])):
            b[rng.randrange(n)] ^= 1 << rng.randrange(8)
        return "bits flipped", bytes(b)
    if m == 9:
        # line ends lost: long lines
        sec = rng.choice([64, 512, 4096, 1 << 20])
        return "line ends lost", d[:i] + d[i:i + sec].replace(b"\n", rng.choice([b"", b" "])) + d[i + sec:]
    if m == 10:
        # a block written many times over
        o = rng.choice([d, other()])
        k = rng.randrange(len(o) + 1)
        part = o[k:k + rng.choice([1, 2, 5, 20, 100])]
        times = min(rng.choice([10, 100, 500, 1500]), 1000 // max(1, len(part)))
        return "block repeated many times", d[:i] + part * times + d[i:]
    if m == 11:
        # a block of other data: text without line ends, bytes, digits
        sec = rng.choice([100, 512, 1024, 1100, 2100, 4200])
        al = rng.choice([b"a", b"ab cd", b"0123456789", b"A1+/=", "жш".encode(), bytes(range(256)), b"(", b"{[(\"' ", b"\xff", b" ", b"\\"])
        if al not in (b"a", b"0123456789", b" "):
            sec = min(sec, 600)        # every byte may be an error of its own, and every message looks its line up
        return "foreign block", d[:i] + bytes(rng.choice(al) for _ in range(sec)) + d[i + rng.choice([0, sec]):]
    o = other()
    return "stale end", d[:i] + o[rng.randrange(len(o) + 1):]


def definitions(rng):
    """-D arguments, some of them wrong"""
    n = rng.randint(0, 9)
    if rng.random() < .5:
        return ["-DEXTRA=%d" % n]
    return rng.choice([["-DEXTRA"], ["-DИМЯ=текст"], ["-D"], ["-D=%d" % n], ["-D%dx=1" % n], ["-DA=1", "-DA=2"], ["-DA=1", "-DB=A"], ["-DA:%d" % n], ["-DA=(1 + %d)" % n], ["-DA="], ["-DA", "-DB", "-DЯ"],
                       ["-DA B=1"], ["-D_" + "x" * rng.choice([10, 100, 200, 300]) + "=1"], ["-DA=" + "1" * rng.choice([10, 200, 300, 1000])], ["-D" + "ж" * rng.choice([60, 130, 260])], ["-DA(x)=x"], ["-D\xff=1"], ["-DA=#eval(1)"]])


def pick_job(rng, ctx, prefix="/w/", apis=("cli", "auto", "ws", "target"), flags=True, loggers=0, thread=0, damage=.08, **kw):
    name, files, args = pick_program(rng, ctx, prefix, **kw)
    if rng.random() < damage:
        # not a program any more: its messages are the result
        p = rng.choice(sorted(files))
        d = files[p]
        files[p] = storage_damage(rng, ctx, d[0] if isinstance(d, tuple) else d)[1]
    t = rng.randrange(3)
    flag, ext = TARGETS[t]
    out = prefix[len("/w/"):] + "out." + ext
    api = rng.choice(list(apis))
    extra = []
    if flags:
        if rng.random() < .15:
            extra.append("-Wno")
        if rng.random() < .07:
            extra.append("-c")
        if rng.random() < .08:
            extra.append("-E")
        if rng.random() < .08:
            extra += definitions(rng)
        if rng.random() < .08:
            # width of the virtual machine's words, architecture of the LLVM code
            extra += rng.choice([["-i8"], ["-u8"], ["-i16"], ["-u16"], ["-i32"], ["-u32"], ["-i64"], ["-u64"], ["-i16", "-i32"], ["--mipsel"], ["--x86_64"]])
    argv = ["ruc"] + args + extra + ["-o", out]
    if api == "again":
        api = "again:%s:%s" % (rng.choice(["vm", "llvm", "mips", "file", "text"]), rng.choice(["vm", "llvm", "mips", "file", "text"]))
    elif api == "nomacro" and len(args) > 1:
        api = "auto"
        argv.append(flag)
    elif api == "nomacro":
        # the source as it is, without the preprocessor; the output has its default name
        return files, Job(("nomacro_vm", "nomacro_llvm", "nomacro_mips")[t], ["ruc"] + args, "out." + ("ruc", "ll", "s")[t], thread, loggers)
    elif api == "target":
        api = ("auto_vm", "auto_llvm", "auto_mips")[t]
    else:
        argv.append(flag)
    if rng.random() < .1 and api != "ws":
        # flags before the files
        argv = ["ruc"] + extra + ([flag] if flag in argv else []) + ["-o", out] + args
    if prefix == "/w/" and "-E" not in extra and api in ("cli", "auto", "ws", "auto_vm", "auto_llvm", "auto_mips") and rng.random() < .06:
        # no -o: the name the target gives
        i = argv.index("-o")
        del argv[i:i + 2]
        out = "out." + ("ruc", "ll", "s")[t]
    return files, Job(api, argv, out, thread, loggers)


# ---------------------------------------------------------------------------------------------- property base

class Prop:
    id = None
    variant = "plain"
    confirm = False         # also needs the plain build
    model = False              # needs model.cc: drives the library's containers and streams directly
    quick = 4000
    thorough = 200000
    limit_quick = 330
    limit_thorough = 7200
    level = "exploration"
    rule = ""
    real = ["libs/utils", "libs/macro", "libs/compiler", "src/main.c (entry point renamed)"]
    stub = ["file system, stdio back end, allocator, clock, pid, environment, randomness: simulated", "ruc-vm / llvm / assembler: not run"]
    assumptions = []

    def gen(self, rng, ctx):
        raise NotImplementedError

    def judge(self, sc, ctx):
        """raise Violation / Skip"""
        raise NotImplementedError

    def distinct_key(self, sc, ctx):
        return hashlib.sha1(sc.encode()).hexdigest()[:16]


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def known_match(known, prop, kind, detail):
    for k in known:
        if k.get("status") == "open" and k["property"] == prop and k["kind"] == kind and k.get("match", "") in detail:
            return k
    return None


def case_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(b"%d/%s/%d" % (seed, prop.encode(), i)).digest()[:8], "big")


def try_judge(prop, sc, ctx):
    """None | Violation"""
    try:
        prop.judge(sc, ctx)
    except Violation as v:
        return v
    except Skip:
        ctx.stats["skipped"] += 1
    return None


# ---------------------------------------------------------------------------------------------- minimising

def minimise(prop, sc, ctx, kind, budget=400, wall=60):
    t0 = time.time()
    used = [0]

    def fails(c):
        if used[0] >= budget or time.time() - t0 > wall:
            return False
        used[0] += 1
        v = try_judge(prop, c, ctx)
        return v is not None and v.kind == kind

    def attempt(c):
        nonlocal sc
        if fails(c):
            sc = c
            return True
        return False

    def with_own(c):
        for a in ("own", "meta"):
            if hasattr(sc, a):
                setattr(c, a, getattr(sc, a))
        return c

    changed = True
    while changed and used[0] < budget and time.time() - t0 < wall:
        changed = False
        # whole jobs
        for j in range(len(sc.jobs) - 1, -1, -1):
            if len(sc.jobs) > 1:
                c = with_own(sc.copy())
                del c.jobs[j]
                c.faults = [[f[0], "heap:%d" % (int(f[1][5:]) - (int(f[1][5:]) > j))] + list(f[2:]) if f[1].startswith("heap:") else f
                            for f in c.faults if f[1] != "heap:%d" % j]
                if hasattr(sc, "own"):
                    c.own = [o for i, o in enumerate(sc.own) if i != j]
                    c.files = {p: d for p, d in c.files.items() if any(p.startswith(o) for o in c.own)}
                if prop.shrinkable_jobs and attempt(c):
                    changed = True
        # faults, knobs, scheduling decisions
        for i in range(len(sc.faults) - 1, -1, -1):
            c = with_own(sc.copy())
            del c.faults[i]
            changed |= attempt(c)
        for i in range(len(sc.faults)):
            if sc.faults[i][3] != 1:
                c = with_own(sc.copy())
                c.faults[i][3] = 1
                changed |= attempt(c)
        for k in sorted(sc.knobs):
            if k in prop.keep_knobs:
                continue
            c = with_own(sc.copy())
            del c.knobs[k]
            changed |= attempt(c)
        if sc.sched:
            step = max(1, len(sc.sched) // 2)
            while step:
                i = 0
                while i < len(sc.sched):
                    c = with_own(sc.copy())
                    del c.sched[i:i + step]
                    c.knobs["explicit"] = 1
                    if attempt(c):
                        changed = True
                    else:
                        i += step
                step //= 2
        for j in range(len(sc.jobs)):
            if sc.jobs[j].ops:
                step = max(1, len(sc.jobs[j].ops) // 2)
                w = prop.op_width
                step = max(1, step // w) * w
                while step >= w:
                    i = 0
                    while i < len(sc.jobs[j].ops):
                        c = with_own(sc.copy())
                        del c.jobs[j].ops[i:i + step]
                        if attempt(c):
                            changed = True
                        else:
                            i += step
                    step = step // 2 // w * w
        # lines of the sources
        for p in sorted(sc.files):
            if p in prop.keep_files or not prop.shrinkable_files:
                continue
            d = sc.files[p]
            mode = None
            if isinstance(d, tuple):
                d, mode = d
            ls = d.split(b"\n")
            step = max(1, len(ls) // 2)
            while step:
                i = 0
                while i < len(ls) and len(ls) > 1:
                    t = ls[:i] + ls[i + step:]
                    c = with_own(sc.copy())
                    nd = b"\n".join(t)
                    c.files[p] = nd if mode is None else (nd, mode)
                    if attempt(c):
                        ls = t
                        changed = True
                    else:
                        i += step
                step //= 2
    return sc, used[0]


Prop.shrinkable_jobs = True
Prop.keep_knobs = ("explicit",)
Prop.keep_files = ()
Prop.shrinkable_files = True
Prop.op_width = 1


# ---------------------------------------------------------------------------------------------- workers

def worker(prop, exe, seed, w, nw, count, deadline, stop, q, known):
    ctx = None
    try:
        ctx = Ctx(exe)
        prop.begin(ctx)
        found = None
        done = 0
        nondet = 0
        samples = []
        knownhits = collections.Counter()
        for i in range(w, count, nw):
            if stop.value or time.time() > deadline:
                break
            rng = random.Random(case_seed(seed, prop.id, i))
            sc = prop.gen(rng, ctx)
            if sc is None:
                continue
            ctx.last_hash = []
            v = try_judge(prop, sc, ctx)
            done += 1
            h = list(ctx.last_hash)
            if v is None and (i // nw) % 97 == 3:
                # determinism sample: same scenario again, event logs must agree
                ctx.last_hash = []
                try_judge(prop, sc, ctx)
                ctx.stats["determinism_pairs"] += 1
                if ctx.last_hash != h:
                    nondet += 1
            ctx.distinct.add(prop.distinct_key(sc, ctx))
            if len(samples) < 2 and (i // nw) in (5, 40):
                samples.append(describe(sc, i))
            if v is not None and SURVEY:
                ctx.probes["survey %s %s" % (v.kind, v.detail[:SURVEY])] += 1
                continue
            if v is not None:
                k = known_match(known, prop.id, v.kind, v.detail)
                if k is not None:
                    knownhits[k["id"]] += 1
                    continue
                found = (i, sc, v.kind, v.detail)
                stop.value = 1
                break
        res = dict(w=w, done=done, stats=dict(ctx.stats), faults=dict(ctx.faults), distinct=ctx.distinct, probes=dict(ctx.probes), pcs=ctx.sim.pcs(),
                   steps=ctx.sim.steps, gruns=ctx.gruns, nondet=nondet, samples=samples, known=dict(knownhits), found=None, error=None)
        if found:
            i, sc, kind, detail = found
            res["found"] = (i, pack(sc), kind, detail)
        q.put(res)
    except BaseException:
        q.put(dict(w=w, error=traceback.format_exc()))
    finally:
        if ctx:
            ctx.sim.close()


def pack(sc):
    o = sc.to_json()
    for a in ("own", "meta"):
        if hasattr(sc, a):
            o[a] = getattr(sc, a)
    return o


def unpack(o):
    sc = Scenario.from_json(o)
    for a in ("own", "meta"):
        if a in o:
            setattr(sc, a, o[a])
    return sc


def describe(sc, i):
    return {"case": i, "jobs": ["%s %s" % (j.api, " ".join(j.args)) if j.ops is None else "%s %s ops=%d" % (j.api, j.args[0], len(j.ops)) for j in sc.jobs],
            "files": sorted(sc.files)[:6], "faults": sc.faults[:6], "knobs": sc.knobs, "switch_points": len(sc.sched)}


def default_begin(self, ctx):
    pass


Prop.begin = default_begin


def build_for(prop, scratch):
    if prop.confirm and prop.variant != "plain":
        build.build("plain", os.path.join(scratch, "plain"), prop.model)
    return build.build(prop.variant, os.path.join(scratch, prop.variant), prop.model)


def run_check(prop, tier, seed):
    t0 = time.time()
    base = os.environ.get("VERIF_SCRATCH") or tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="rucsim_", dir=base)
    code = 2
    try:
        code = _run_check(prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def _run_check(prop, tier, seed, t0, scratch):
    prop.variant = os.environ.get("VERIF_VARIANT", prop.variant)       # development only
    exe = build_for(prop, scratch)
    t_build = time.time() - t0
    count = prop.quick if tier == "quick" else prop.thorough
    count = int(os.environ.get("VERIF_COUNT", count))
    limit = prop.limit_quick if tier == "quick" else prop.limit_thorough
    limit = float(os.environ.get("VERIF_LIMIT", limit))
    known = load_known()
    print("check %s tier=%s VERIF_SEED=%d cases=%d workers=%d variant=%s" % (prop.id, tier, seed, count, WORKERS, prop.variant), flush=True)
    mp = multiprocessing.get_context("fork")
    q, stop = mp.Queue(), mp.Value("i", 0)
    deadline = time.time() + limit
    ps = [mp.Process(target=worker, args=(prop, exe, seed, w, WORKERS, count, deadline, stop, q, known)) for w in range(WORKERS)]
    t1 = time.time()
    for p in ps:
        p.start()
    rs = [q.get() for _ in ps]
    for p in ps:
        p.join()
    t_run = time.time() - t1
    sites = build.trace_sites(exe)
    errs = [r["error"] for r in rs if r.get("error")]
    if errs:
        print("ERROR in worker:\n" + errs[0])
        return 2
    tot, faults, probes, knownhits = collections.Counter(), collections.Counter(), collections.Counter(), collections.Counter()
    distinct = set()
    pcs = set()
    samples = []
    for r in sorted(rs, key=lambda r: r["w"]):
        tot.update(r["stats"]); faults.update(r["faults"]); probes.update(r["probes"]); knownhits.update(r["known"])
        distinct |= r["distinct"]
        samples += r["samples"]
        pcs.update(r["pcs"])
    if os.environ.get("VERIF_PCS"):
        with open(os.environ["VERIF_PCS"], "w") as f:
            json.dump({"reached": sorted(pcs), "sites": build.locate(exe, sites)}, f)
    done = sum(r["done"] for r in rs)
    runs = tot["runs"] + sum(r["gruns"] for r in rs)
    if any(r["nondet"] for r in rs):
        print("ERROR: the simulation is not deterministic (event logs of one scenario differ between two runs)")
        return 2
    found = sorted([r["found"] for r in rs if r["found"]], key=lambda f: f[0])
    violations = 0
    if found:
        i, packed, kind, detail = found[0]
        rc = report(prop, exe, scratch, seed, i, packed, kind, detail, tier)
        if rc == 2:
            return 2
        violations = 1
    printed = set()
    for k in known:
        if k.get("status") == "open" and k["property"] == prop.id and k["id"] not in printed:
            printed.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": prop.level, "wall_s": round(time.time() - t0, 2), "violations": violations,
        "assumptions": prop.assumptions,
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(distinct),
            "rule": prop.rule,
            "samples": samples[:6],
            "simulated_runs": runs,
            "reference_runs": sum(r["gruns"] for r in rs),
            "runs_per_hour": int(runs / max(t_run, .001) * 3600),
            "seeds_per_hour": int(done / max(t_run, .001) * 3600),
            "simulated_time_steps": sum(r["steps"] for r in rs),
            "simulated_time_unit": "basic blocks of repository code executed",
            "simulator_events": tot["events"],
            "faults_fired": dict(sorted(faults.items())),
            "thread_switches": tot["switches"],
            "distinct_basic_blocks_reached": len(pcs),
            "basic_blocks_instrumented": len(sites),
            "determinism_pairs_compared": tot["determinism_pairs"],
            "cases_skipped": tot["skipped"],
            "probes": dict(sorted(probes.items())),
            "known_findings_hit": dict(knownhits),
            "components_real": prop.real, "components_stubbed": prop.stub,
            "build_s": round(t_build, 1), "planned_cases": count, "exhaustive": False,
        },
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print("%s: %d cases, %d simulated runs, %d distinct, %d blocks, faults %s, %.1f s" % (prop.id, done, runs, len(distinct), len(pcs), dict(sorted(faults.items())), time.time() - t0))
    if SURVEY:
        for k, n in sorted(probes.items(), key=lambda x: -x[1]):
            print("%6d %s" % (n, k))
        return 3
    if probes:
        print("probes: %s" % dict(sorted(probes.items())))
    return 1 if violations else 0


def report(prop, exe, scratch, seed, i, packed, kind, detail, tier):
    """minimise, gate, write the replay file, print the violation"""
    ctx = Ctx(exe)
    prop.begin(ctx)
    sc = unpack(packed)
    ctx.trust_hang = True
    hs = []
    for _ in range(2):
        ctx.last_hash = []
        v = try_judge(prop, sc, ctx)
        hs.append((v.kind if v else None, list(ctx.last_hash)))
    if hs[0] != hs[1] or hs[0][0] != kind:
        print("ERROR: case %d of seed %d does not reproduce (%s vs %s vs %s)" % (i, seed, kind, hs[0][0], hs[1][0]))
        return 2
    prop.explicit_schedule(sc, ctx)
    small, used = minimise(prop, sc, ctx, kind)
    ctx.trust_hang = False
    v = try_judge(prop, small, ctx)
    if v is None or v.kind != kind:
        small = unpack(packed)
        v = try_judge(prop, small, ctx)
    tr = small.copy()
    tr.knobs["trace"] = 1
    trace = ctx.sim.run(tr).trace
    ctx.sim.close()
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s_seed%d_case%d.json" % (prop.id, seed, i))
    with open(path, "w") as f:
        json.dump({"property": prop.id, "kind": v.kind, "detail": v.detail, "seed": seed, "case": i, "minimise_steps": used, "scenario": pack(small),
                   "event_trace": trace[-300:]}, f, indent=1, ensure_ascii=False)
    env = dict(os.environ, RUC_SIM_EXE=exe)
    p = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode != 1:
        print("ERROR: replay in a fresh process did not reproduce the violation (exit %d)\n%s" % (p.returncode, p.stdout.decode("utf-8", "replace")[-2000:]))
        return 2
    print("seed %d case %d (%d minimisation runs): %s: %s" % (seed, i, used, v.kind, v.detail))
    print("scenario: %s" % json.dumps(describe(small, i), ensure_ascii=False))
    print("VIOLATION property=%s replay=%s" % (prop.id, path), flush=True)
    return 1


def no_explicit(self, sc, ctx):
    pass


Prop.explicit_schedule = no_explicit


def replay(props, path):
    with open(path) as f:
        o = json.load(f)
    prop = props[o["property"]]
    exe = os.environ.get("RUC_SIM_EXE")
    scratch = None
    if not exe:
        scratch = tempfile.mkdtemp(prefix="rucsim_")
        exe = build_for(prop, scratch)
    try:
        ctx = Ctx(exe)
        prop.begin(ctx)
        v = try_judge(prop, unpack(o["scenario"]), ctx)
        ctx.sim.close()
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    if v is None:
        print("replay: no violation")
        return 0
    print("replay: %s: %s" % (v.kind, v.detail))
    if v.kind != o["kind"]:
        print("replay: a different violation than recorded (%s)" % o["kind"])
        return 3
    print("VIOLATION property=%s replay=%s" % (prop.id, path))
    return 1
