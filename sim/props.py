"""The properties: workload, fault space and oracle of each."""
import hashlib, random, re
import core
from core import Prop, Skip, Violation, pick_job, pick_program, storage_damage
from simlib import Job, Scenario

ERR = b"\xd0\xbe\xd1\x88\xd0\xb8\xd0\xb1\xd0\xba\xd0\xb0"          # "ошибка"


def norm(p):
    return p if p.startswith("/") else "/w/" + p


def sig(r):
    d = r.end_detail.split(" ")
    fr = d[1].split("<")[:2] if len(d) > 1 else []
    return "%s %s %s" % (r.end, d[0], "<".join(fr))


LOOP = re.compile("#[ \\t]*(while|WHILE|пока|ПОКА)".encode())


def has_loop(sc):
    """the preprocessor has loops: once its input is damaged or partly unreadable, a program with one may rightly never end"""
    return any(LOOP.search(d[0] if isinstance(d, tuple) else d) for d in sc.files.values())


def alive(r, sc=None):
    if r.crashed:
        if r.end == "hang" and sc is not None and has_loop(sc):
            raise Skip()
        kind = "hang" if r.end == "hang" else "crash"
        raise Violation("%s:%s" % (kind, sig(r) if kind == "crash" else ""), "job %d ended with %s %s" % (r.end_job, r.end, r.end_detail))
    for j, v in r.viol:
        raise Violation("invariant:" + v.split(" ")[0], v)


def golden_ok(ctx, sc, j):
    g, r = ctx.golden(sc, j)
    if r.end != "ok" or r.viol:
        raise Skip()
    return g, r


def content(o):
    return o if o in ("none", None) else (o[1], o[2])


def size(c):
    return "nothing" if c in ("none", None) else "%d bytes (%s)" % (c[0], c[1][:8])


def show(o):
    return "absent" if o in ("none", None) else "%d bytes, hash %s" % (o[1], o[2][:8])


def perturb(rng, knobs, io=True, heap=True, env=True):
    """knobs that must not matter: a random subset per run"""
    if heap:
        if rng.random() < .7:
            knobs["heapfill"] = rng.choice([0, 0, 0xFF, 0x01, 0x41, 0x7F, 0x80, 0x20, 256, 257, 257])
            knobs["heapseed"] = rng.randint(1, 1 << 30)
        if rng.random() < .6:
            knobs["stackfill"] = rng.choice([0, 0xFF, 0x01, 0x41, 0x7F, 257, 257])
        if rng.random() < .5:
            knobs["stackbase"] = rng.randint(1, 4000)
        if rng.random() < .4:
            knobs["reuse"] = 1
        if rng.random() < .3:
            knobs["inplace"] = 1
        if rng.random() < .3:
            knobs["heapbase"] = rng.randint(1, 100000)
    if io:
        if rng.random() < .6:
            knobs["rchunk"] = rng.choice([1, 2, 3, 7, 16, 100, 511, 4096])
        if rng.random() < .5:
            knobs["wchunk"] = rng.choice([1, 2, 5, 64, 1000])
        if rng.random() < .6:
            knobs["bufsize"] = rng.choice([1, 2, 3, 8, 64, 512, 4096, 65536])
        if rng.random() < .5:
            knobs["fdbase"] = rng.choice([1, 7, 97, 250, 997, 9997, 60000])
        knobs["ioseed"] = rng.randint(1, 1 << 30)
    if env:
        if rng.random() < .6:
            knobs["clock"] = rng.choice([0, 1, 86399, 1700000000, 2147483647, 4102444800])
        if rng.random() < .6:
            knobs["pid"] = rng.choice([1, 2, 999, 32767, 4194303])
        if rng.random() < .5:
            knobs["env"] = rng.randint(1, 6)
        knobs["envseed"] = rng.randint(1, 1 << 30)


def inputs(sc, g):
    """paths of the inputs the reference run actually read"""
    return sorted(p for (k, p) in g.counts if k == "open" and p in sc.files)


# ------------------------------------------------------------------------------------------------ P01
class P01(Prop):
    id = "P01"
    quick = 30000
    rule = ("one case = one compile (repository test program or generated one, three targets or -E, four entry points) with seeded faults on the output path: failing open, "
            "failing or torn write, full disk at a byte count, failing close with or without lost tail, and benign short writes; non-trivial = distinct (program, entry, fault, knobs)")

    def gen(self, rng, ctx):
        files, job = pick_job(rng, ctx, flags=True)
        sc = Scenario(files, [job])
        g, r = ctx.golden(sc, 0)
        if r.end != "ok" or g.status != 0 and rng.random() < .9:
            return None
        out = norm(job.out)
        if rng.random() < .2:
            sc.files[out] = (bytes(rng.randrange(32, 127) for _ in range(rng.randint(1, 9000))), rng.choice([0o644, 0o744, 0o600]))
        size = 0 if g.out == "none" else g.out[1]
        k = sc.knobs
        if rng.random() < .75:
            k["bufsize"] = rng.choice([1, 16, 64, 256, 1024, 4096])
        if rng.random() < .3:
            k["wchunk"] = rng.choice([1, 3, 17, 100])
        k["ioseed"] = rng.randint(1, 1 << 30)
        bs = k.get("bufsize", 4096)
        writes = max(1, size // bs + 1)
        m = rng.randint(0, 9)
        err = rng.choice(["ENOSPC", "EIO", "EDQUOT", "EFBIG", "EINTR", "ESTALE", "EAGAIN"])
        cnt = rng.choice([1, 1, 1, 2, -1])
        if m <= 3:
            nth = rng.choice([0, writes - 1, rng.randrange(writes + 1), rng.randrange(writes + 1)])
            sc.faults.append(["write", out, nth, cnt, err, rng.choice([0, 0, 1, 7, 100, 4000])])
        elif m <= 5:
            sc.faults.append(["close", out, 0, cnt, err, rng.choice([0, 0, 1, 50, 1 << 20])])
        elif m == 6:
            k["quota"] = rng.choice([0, size // 2, max(0, size - 1), max(0, size - rng.randint(1, 100)), size, rng.randrange(size + 1)])
            k["quota_from_ino"] = len(sc.files) + 1
            if out in sc.files:
                del sc.files[out]
                k["quota_from_ino"] -= 1
        elif m == 7:
            sc.faults.append(["open", out, 0, cnt, rng.choice(["EACCES", "ENOSPC", "EMFILE", "EROFS", "EIO", "ETXTBSY"]), 0])
        elif m == 8:
            sc.faults.append([rng.choice(["chmod", "stat"]), out, 0, -1, rng.choice(["EPERM", "EIO", "EROFS"]), 0])
        # m == 9: benign short writes only
        else:
            k["wchunk"] = rng.choice([1, 2, 3, 50])
        if rng.random() < .15:
            sc.faults.append(["write", out, rng.randrange(writes + 1), 1, err, 0])
        return sc

    def judge(self, sc, ctx):
        g, gr = golden_ok(ctx, sc, 0)
        r = ctx.run(sc)
        alive(r)
        j = r.jobs[0]
        lost = any(n and sc.faults[i][0] in ("open", "write", "close") for i, n in r.fired.items()) or "quota" in sc.knobs
        if j.status == 0:
            ctx.probes["success under output faults" if lost else "success, benign"] += 1
            if g.status != 0:
                raise Violation("success-of-bad-program", "status 0, fault-free status %d" % g.status)
            if content(j.out) != content(g.out):
                raise Violation("false-success", "status 0 but the output file is %s; complete output is %s" % (show(j.out), show(g.out)))
        else:
            ctx.probes["failure reported"] += 1
            if not lost and g.status == 0:
                raise Violation("spurious-failure", "no output fault took effect, yet status %d" % j.status)


# ------------------------------------------------------------------------------------------------ P02
class P02(Prop):
    id = "P02"
    quick = 30000
    rule = ("one case = one compile with seeded faults on its sources and headers: read error at the n-th read, failing open, access, readlink, close, under seeded read sizes; "
            "non-trivial = distinct (program, entry, fault, knobs)")

    def gen(self, rng, ctx):
        if rng.random() < .4:
            files, job = pick_job(rng, ctx, gen_share=1.0, multi=True, err=False if rng.random() < .8 else None)
        elif rng.random() < .3:
            files, job = pick_job(rng, ctx, gen_share=0.0, only=lambda n: "multifile" in n or "include" in n)
        else:
            files, job = pick_job(rng, ctx)
        if rng.random() < .12 and not any(a.startswith("-I") for a in job.args) and len([a for a in job.args if a.endswith(".c")]) == 1:
            src = [a for a in job.args if a.endswith(".c")][0]
            t = rng.randrange(3)
            job = Job(("nomacro_vm", "nomacro_llvm", "nomacro_mips")[t], ["ruc", src], ("out.ruc", "out.ll", "out.s")[t])
        sc = Scenario(files, [job])
        g, r = ctx.golden(sc, 0)
        if r.end != "ok":
            return None
        ins = inputs(sc, r)
        if not ins:
            return None
        k = sc.knobs
        if rng.random() < .8:
            k["rchunk"] = rng.choice([1, 4, 16, 64, 256, 1024])
        if rng.random() < .6:
            k["bufsize"] = rng.choice([1, 16, 128, 1024])
        k["ioseed"] = rng.randint(1, 1 << 30)
        for _ in range(rng.choice([1, 1, 1, 2])):
            p = rng.choice(ins)
            size = len(files[p])
            per = min(k.get("rchunk", 4096) / 2 + 1, k.get("bufsize", 4096))
            reads = int(size / per) + 2
            cnt = rng.choice([1, 1, 1, -1])
            m = rng.randint(0, 9)
            if m <= 5:
                sc.faults.append(["read", p, rng.choice([0, rng.randrange(reads), rng.randrange(reads), reads - 1]), cnt, rng.choice(["EIO", "EINTR", "ESTALE", "EISDIR", "EAGAIN"]), 0])
            elif m <= 7:
                n = r.counts.get(("open", p), 1)
                sc.faults.append(["open", p, rng.randrange(n), cnt, rng.choice(["EACCES", "EIO", "EMFILE", "ENFILE", "ENOENT", "ENOMEM"]), 0])
            elif m == 8:
                # a header said to be absent may rightly be replaced by the next of that name
                sc.faults.append(["access", p, rng.randrange(max(1, r.counts.get(("access", p), 1))), cnt, rng.choice(["EACCES", "EIO", "ENOMEM", "ELOOP"]), 0])
            else:
                sc.faults.append([rng.choice(["readlink", "readlink", "close"]), p, rng.randrange(4), cnt, "EIO", 0])
        return sc

    def judge(self, sc, ctx):
        g, gr = golden_ok(ctx, sc, 0)
        r = ctx.run(sc)
        alive(r, sc)
        j = r.jobs[0]
        if j.status == 0:
            if g.status != 0:
                raise Violation("success-of-bad-program", "status 0 under an input fault, fault-free status is %d" % g.status)
            # without readlink the #line marks of preprocessed text have no path: the marks are for diagnostics, not content
            marks = "-E" in sc.jobs[0].args and any(n and sc.faults[i][0] == "readlink" for i, n in r.fired.items())
            if not marks and (content(j.out) != content(g.out) or j.ret != g.ret):
                raise Violation("false-success", "status 0 but the output is %s instead of %s" % (show(j.out), show(g.out)))
            ctx.probes["absorbed"] += 1
        else:
            ctx.probes["failure reported"] += 1
            if g.status == 0 and not any(r.fired.values()):
                raise Violation("spurious-failure", "no fault fired, yet status %d" % j.status)


# ------------------------------------------------------------------------------------------------ P03
class P03(Prop):
    id = "P03"
    variant = "plain"
    quick = 24000
    rule = ("one case = one compile in which the n-th allocation (single, burst, or all from then on) is refused, or the heap is capped at a byte count; "
            "non-trivial = distinct (program, entry, refused allocations)")

    def gen(self, rng, ctx):
        files, job = pick_job(rng, ctx)
        sc = Scenario(files, [job])
        g, r = ctx.golden(sc, 0)
        if r.end != "ok":
            return None
        n = r.allocs
        m = rng.randint(0, 9)
        if m <= 6:
            sc.faults.append(["malloc", "heap", rng.randrange(n), rng.choice([1, 1, 1, 2, 5, -1]), "ENOMEM", 0])
            if rng.random() < .2:
                sc.faults.append(["malloc", "heap", rng.randrange(n), 1, "ENOMEM", 0])
        elif m <= 8:
            sc.knobs["heapcap"] = rng.randrange(1000, max(2000, r.peak))
        else:
            for i in range(rng.randint(2, 6)):
                sc.faults.append(["malloc", "heap", rng.randrange(n), 1, "ENOMEM", 0])
        if rng.random() < .3:
            sc.knobs["heapfill"] = rng.choice([0, 0xFF, 257])
        return sc

    def judge(self, sc, ctx):
        g, gr = golden_ok(ctx, sc, 0)
        ctx.sim.want_sites = True
        r = ctx.run(sc)
        try:
            self.look(sc, ctx, g, r)
        except Violation as v:
            v.kind += " refused in " + "<".join(r.refused_site.split("<")[:5])
            raise

    def look(self, sc, ctx, g, r):
        alive(r, sc)
        j = r.jobs[0]
        if j.status == 0:
            ctx.probes["success although refused" if r.refused else "nothing refused"] += 1
            if g.status != 0:
                raise Violation("success-of-bad-program", "status 0 with refused allocations, otherwise status %d" % g.status)
            if content(j.out) != content(g.out):
                raise Violation("false-success", "status 0 but the output is %s instead of %s" % (show(j.out), show(g.out)))
        else:
            ctx.probes["failure reported"] += 1
            if not r.refused and g.status == 0:
                raise Violation("spurious-failure", "nothing refused, yet status %d" % j.status)
            if not j.text.strip():
                raise Violation("silent-failure", "status %d without a word" % j.status)


# ------------------------------------------------------------------------------------------------ P04
class P04(Prop):
    id = "P04"
    quick = 30000
    rule = ("one case = one compile or macro call re-run with the environment perturbed: heap and stack garbage, block reuse and placement, buffer and transfer sizes, descriptor numbers, clock, pid, "
            "environment variables, random numbers; non-trivial = distinct (program, entry, perturbation)")

    def gen(self, rng, ctx):
        apis = ("cli", "auto", "ws", "target", "macro", "macro_file", "nomacro", "auto_macro_file", "ws_repeat")
        files, job = pick_job(rng, ctx, apis=apis, loggers=rng.randint(0, 1))
        sc = Scenario(files, [job])
        perturb(rng, sc.knobs)
        if rng.random() < .2:
            out = norm(job.out)
            sc.files[out] = (b"stale " * rng.randint(1, 3000), 0o644)
        return sc

    def judge(self, sc, ctx):
        g, gr = golden_ok(ctx, sc, 0)
        r = ctx.run(sc)
        alive(r)
        same_as(r.jobs[0], g, r, gr, "perturbed run")
        strip = lambda fl: {p: v[1:] for p, v in fl.items()}
        if strip(r.files) != strip(gr.files):
            raise Violation("files-differ", "files after the run differ: %s" % sorted(set(strip(r.files).items()) ^ set(strip(gr.files).items()))[:3])


def same_as(j, g, r, gr, what):
    if j.status != g.status:
        raise Violation("status-differs", "%s: status %s, reference %s" % (what, j.status, g.status))
    if content(j.out) != content(g.out):
        raise Violation("output-differs", "%s: output %s, reference %s" % (what, show(j.out), show(g.out)))
    if j.out not in (None, "none") and (j.out[0] & 0o111) != (g.out[0] & 0o111):
        raise Violation("mode-differs", "%s: output mode %o, reference %o" % (what, j.out[0], g.out[0]))
    if j.text != g.text:
        raise Violation("diagnostics-differ", "%s: diagnostics %r, reference %r" % (what, j.text[-300:].decode("utf-8", "replace"), g.text[-300:].decode("utf-8", "replace")))
    if j.ret != g.ret:
        raise Violation("returned-text-differs", what)


def many_jobs(rng, ctx, n, threads, loggers, apis=("cli", "auto", "ws", "target", "macro", "macro_file", "nomacro", "auto_macro_file", "ws_repeat")):
    sc = Scenario()
    sc.own = []
    base = None
    # often the programs have something in common: what one leaves behind, or does meanwhile, then matters to the other
    kw = dict(gen_share=1.0, theme=[rng.randrange(5040) for _ in range(rng.randint(1, 4))], err=rng.choice([None, True, False])) if rng.random() < .4 else {}
    for i in range(n):
        t = rng.randrange(threads) if i >= threads else i % threads
        pre = "/w/j%d/" % i
        if base is not None and rng.random() < .15:
            # the same program again (other directory)
            st = rng.getstate()
            rng2 = random.Random(base)
            files, job = pick_job(rng2, ctx, prefix=pre, apis=apis, loggers=loggers, thread=t, **kw)
        else:
            s = rng.randint(0, 1 << 60)
            if base is None or rng.random() < .5:
                base = s
            files, job = pick_job(random.Random(s), ctx, prefix=pre, apis=[a for a in apis if a != "ws_repeat"] if threads > 1 else apis, loggers=loggers, thread=t, **kw)
        if job.api == "ws_repeat":
            job.api = "auto"
        if job.api.startswith("nomacro") and any(x.out == job.out for x in sc.jobs):
            # its output has a fixed name: two calls may not share it
            job = Job("macro", job.args, pre[len("/w/"):] + "out.i", t, loggers)
        sc.files.update(files)
        sc.jobs.append(job)
        sc.own.append(pre)
    return sc


def own_fault(rng, sc, j):
    """one fault that only call j can meet"""
    own = sorted(p for p in sc.files if p.startswith(sc.own[j]))
    m = rng.randint(0, 5)
    if m <= 1:
        sc.faults.append(["read", rng.choice(own), rng.randint(0, 3), -1, "EIO", 0])
    elif m == 2:
        sc.faults.append(["open", rng.choice(own), 0, -1, "EACCES", 0])
    elif m == 3:
        sc.faults.append(["write", norm(sc.jobs[j].out), rng.randint(0, 1), -1, "ENOSPC", 0])
    elif m == 4:
        sc.faults.append(["open", norm(sc.jobs[j].out), 0, -1, "EACCES", 0])
    else:
        sc.faults.append(["malloc", "heap:%d" % j, int(2 ** (rng.random() * 9)) - 1, rng.choice([1, 1, 3, -1]), "ENOMEM", 0])


def hit_jobs(sc, r):
    """calls that had a fault of their own"""
    h = set(r.refused_jobs)
    for i, n in r.fired.items():
        if n:
            h |= set(j for j, o in enumerate(sc.own) if sc.faults[i][1].startswith(o) or sc.faults[i][1] == norm(sc.jobs[j].out))
    return h


# ------------------------------------------------------------------------------------------------ P05
class P05(Prop):
    id = "P05"
    quick = 14000
    rule = ("one case = a history of 2 to 8 compiles and preprocessor calls in one process (mixed targets, entry points, good and bad programs), some of them hit by I/O or allocation faults or "
            "cut by a missing file; every call without a fault of its own is compared with the same call alone in a fresh process; non-trivial = distinct history")

    def gen(self, rng, ctx):
        n = rng.choice([2, 2, 3, 3, 4, 5, 8])
        sc = many_jobs(rng, ctx, n, 1, rng.randint(0, 1), apis=("cli", "auto", "ws", "target", "macro", "macro_file", "nomacro", "auto_macro_file", "again", "again"))
        if rng.random() < .5:
            perturb(rng, sc.knobs, env=False)
        if rng.random() < .5:
            for _ in range(rng.choice([1, 1, 2])):
                own_fault(rng, sc, rng.randrange(n - 1) if n > 1 else 0)
        return sc

    def judge(self, sc, ctx):
        gs = [golden_ok(ctx, sc, j) for j in range(len(sc.jobs))]
        r = ctx.run(sc)
        hit = hit_jobs(sc, r)
        if r.crashed or r.viol:
            if hit:
                raise Skip()                            # a crash on a faulted call is judged by P02, P03
            alive(r)
        ok = 0
        for j, (g, gr) in enumerate(gs):
            if j in hit:
                continue
            same_as(r.jobs[j], g, r, gr, "call %d of %d in one process" % (j + 1, len(sc.jobs)))
            ok += 1
        ctx.probes["calls compared"] += ok
        if hit and ok:
            ctx.probes["compared after a faulted call"] += 1


# ------------------------------------------------------------------------------------------------ P06
class P06(Prop):
    id = "P06"
    quick = 9000
    rule = ("one case = 2 to 4 threads of one process compiling different programs; a seeded scheduler decides at every basic block which thread runs; non-trivial = distinct schedule hash with at "
            "least one switch inside a compile")

    def gen(self, rng, ctx):
        t = rng.choice([2, 2, 2, 3, 4])
        n = t + rng.choice([0, 0, 1, 2])
        sc = many_jobs(rng, ctx, n, t, rng.randint(0, 1), apis=("cli", "auto", "ws", "target", "macro", "macro_file", "nomacro"))
        k = sc.knobs
        k["period"] = rng.choice([30, 100, 300, 1000, 3000, 10000, 40000])
        k["schedseed"] = rng.randint(1, 1 << 30)
        k["first"] = rng.randrange(t)
        k["watch"] = rng.choice([0, 20, 50, 80])
        if rng.random() < .3:
            perturb(rng, k, env=False)
            k.pop("stackfill", None)
        if rng.random() < .3:
            for _ in range(rng.choice([1, 1, 2])):
                own_fault(rng, sc, rng.randrange(n))
        return sc

    def judge(self, sc, ctx):
        gs = [golden_ok(ctx, sc, j) for j in range(len(sc.jobs))]
        r = ctx.run(sc)
        self.last = r
        hit = hit_jobs(sc, r)
        if hit and (r.crashed or r.viol):
            one = sc.copy()                             # the same calls and faults, one call after the other
            one.own, one.sched = sc.own, []
            one.knobs["explicit"], one.knobs["period"] = 1, 0
            for x in one.jobs:
                x.thread = 0
            r1 = ctx.run(one)
            if r1.crashed or r1.viol:
                raise Skip()                            # then it is no matter of threads
        alive(r)
        for j, (g, gr) in enumerate(gs):
            if j in hit:
                continue
            same_as(r.jobs[j], g, r, gr, "call %d in thread %d of a %d-thread process" % (j + 1, sc.jobs[j].thread, max(x.thread for x in sc.jobs) + 1))
        ctx.probes["switches >= 10" if r.events[4] >= 10 else "switches < 10"] += 1

    def distinct_key(self, sc, ctx):
        return self.last.events[5] if getattr(self, "last", None) else ""

    def explicit_schedule(self, sc, ctx):
        r = ctx.run(sc)
        sc2 = sc.copy()
        # turn the drawn schedule into an explicit one, so it can be shrunk
        sc.sched = [[s, t] for s, t in r.sw]
        sc.knobs["explicit"] = 1
        sc.knobs["period"] = 0
        v = core.try_judge(self, sc, ctx)
        if v is None:
            sc.sched = []
            sc.knobs = sc2.knobs


# ------------------------------------------------------------------------------------------------ P07
class P07(Prop):
    id = "P07"
    quick = 26000
    rule = ("one case = 1 to 3 calls (good and bad programs, all entry points) with or without I/O or allocation faults; after every call the heap blocks and files it still owns are counted; "
            "non-trivial = distinct (programs, entry, faults)")

    def gen(self, rng, ctx):
        n = rng.choice([1, 1, 1, 2, 3])
        sc = many_jobs(rng, ctx, n, 1, rng.randint(0, 1))
        m = rng.random()
        if m < .6:
            for _ in range(rng.choice([1, 1, 2])):
                j = rng.randrange(n)
                one = Scenario(sc.files, [sc.jobs[j]])
                one.own = [sc.own[j]]
                g, gr = ctx.golden(one, 0)
                own = sorted(p for p in sc.files if p.startswith(sc.own[j]))
                out = norm(sc.jobs[j].out)
                k = rng.randint(0, 9)
                if k <= 1:
                    sc.faults.append(["read", rng.choice(own), rng.randint(0, 3), rng.choice([1, -1]), "EIO", 0])
                elif k <= 3:
                    sc.faults.append(["open", rng.choice(own), rng.randint(0, 1), rng.choice([1, -1]), rng.choice(["EACCES", "EMFILE"]), 0])
                elif k == 4:
                    sc.faults.append(["open", out, 0, -1, "EACCES", 0])
                elif k == 5:
                    sc.faults.append(["write", out, rng.randint(0, 2), -1, "ENOSPC", 0])
                elif k == 6:
                    sc.faults.append(["close", rng.choice(own + [out]), 0, -1, "EIO", 0])
                elif k == 7:
                    sc.faults.append(["access", rng.choice(own), rng.randint(0, 2), -1, "EACCES", 0])
                else:
                    sc.faults.append(["malloc", "heap", rng.randrange(max(1, gr.allocs * (j + 1))), rng.choice([1, 1, -1]), "ENOMEM", 0])
            if rng.random() < .5:
                sc.knobs["rchunk"] = rng.choice([1, 16, 256])
                sc.knobs["bufsize"] = rng.choice([16, 256])
        return sc

    def judge(self, sc, ctx):
        r = ctx.run(sc)
        if r.crashed or r.viol:
            if any(r.fired.values()):
                raise Skip()
            for j in range(len(sc.jobs)):
                golden_ok(ctx, sc, j)
            alive(r)
        for j, x in enumerate(r.jobs):
            if x.open_files:
                raise Violation("open-files", "call %d (status %s) left open: %s" % (j + 1, x.status, x.open_list))
            if x.leaks:
                raise Violation("leak", "call %d (status %s) left %d heap blocks, %d bytes: %s" % (j + 1, x.status, x.leaks, x.leak_bytes, x.leak_list))
            ctx.probes["status 0" if x.status == 0 else "status != 0"] += 1


# ------------------------------------------------------------------------------------------------ P08
class P08(Prop):
    id = "P08"
    quick = 30000
    rule = ("one case = one compile in a directory with bystander files, ended by success, error, I/O fault, refused allocation or a kill at a seeded instant; afterwards the simulated file system is "
            "compared with what the call was allowed to change; non-trivial = distinct (program, entry, fault, kill point)")

    def gen(self, rng, ctx):
        apis = ("cli", "auto", "ws", "target", "macro", "macro_file", "nomacro", "auto_macro_file")
        files, job = pick_job(rng, ctx, apis=apis)
        if rng.random() < .1:
            # no -o: the documented default name
            if "-o" in job.args:
                i = job.args.index("-o")
                del job.args[i:i + 2]
                t = [f for f, e in core.TARGETS if f in job.args]
                if job.api == "auto_vm" or job.api == "auto_llvm" or job.api == "auto_mips":
                    job.out = {"auto_vm": "out.ruc", "auto_llvm": "out.ll", "auto_mips": "out.s"}[job.api]
                elif t:
                    job.out = {"-VM": "out.ruc", "-LLVM": "out.ll", "-MIPS": "out.s"}[t[0]]
                if job.api in ("macro_file", "auto_macro_file"):
                    return None
        sc = Scenario(files, [job])
        g, r = ctx.golden(sc, 0)
        if r.end != "ok":
            return None
        out = norm(job.out)
        for p in ("/w/out.ruc", "/w/out.ll", "/w/out.s", "/w/macro.txt", "/w/export.txt", "/w/codes.txt", "/w/tree.txt", "/w/a.out", "/w/src/notes.txt", out + ".tmp", out + ".bak"):
            if p != out and rng.random() < .5:
                sc.files[p] = (b"bystander " + p.encode(), rng.choice([0o644, 0o600, 0o444, 0o755]))
        m = rng.randint(0, 9)
        if m <= 3:
            if rng.random() < .5:
                sc.knobs["kill_op"] = rng.randrange(r.events[3] + 1)
            else:
                sc.knobs["kill_step"] = rng.randrange(1, r.steps + 2)
            if rng.random() < .7:
                sc.knobs["bufsize"] = rng.choice([1, 16, 64, 256, 1024])
                if "kill_op" in sc.knobs:
                    sc.knobs["kill_op"] = rng.randrange(r.events[3] + (0 if g.out == "none" else g.out[1] // sc.knobs["bufsize"]) + 3)
        elif m == 4:
            sc.faults.append(["write", out, rng.randint(0, 3), rng.choice([1, -1]), "ENOSPC", rng.choice([0, 5])])
            sc.knobs["bufsize"] = rng.choice([16, 256, 1024])
        elif m == 5:
            sc.faults.append(["close", out, 0, 1, "EIO", rng.choice([0, 10])])
        elif m == 6:
            own = sorted(files)
            sc.faults.append([rng.choice(["read", "open"]), rng.choice(own), rng.randint(0, 2), rng.choice([1, -1]), "EIO", 0])
        elif m == 7:
            sc.faults.append(["malloc", "heap", rng.randrange(max(1, r.allocs)), rng.choice([1, -1]), "ENOMEM", 0])
        return sc

    def judge(self, sc, ctx):
        job = sc.jobs[0]
        base = Scenario({p: d for p, d in sc.files.items()}, [job])
        g, gr = golden_ok(ctx, base, 0)
        r = ctx.run(sc)
        if r.crashed:
            if any(r.fired.values()):
                raise Skip()
            alive(r)
        out = norm(job.out)
        if r.end == "killed":
            ctx.probes["killed"] += 1
        for p, d in sorted(sc.files.items()):
            if p == out:
                continue
            mode = 0o644
            if isinstance(d, tuple):
                d, mode = d
            now = r.files.get(p)
            if now is None:
                raise Violation("file-removed", "%s is gone" % p)
            if now[1] != len(d) or now[2] != fnv(d):
                raise Violation("file-changed", "%s was modified" % p)
            if now[0] != mode:
                raise Violation("mode-changed", "%s: mode %o became %o" % (p, mode, now[0]))
        new = [p for p in r.files if p not in sc.files and p != out]
        if new and r.end != "killed":
            raise Violation("file-created", "unexpected files %s" % new)
        j = r.jobs[0]
        o = r.files.get(out)
        is_vm = not ("-LLVM" in job.args or "-MIPS" in job.args or job.api in ("auto_llvm", "auto_mips", "macro", "macro_file", "auto_macro_file", "nomacro_llvm", "nomacro_mips") or "-E" in job.args)
        if o is not None and out not in sc.files and (o[0] & 0o111):
            ctx.probes["executable output"] += 1
            # what a refused allocation does to the content is P03's subject
            if (o[1], o[2]) != content(g.out) and not r.refused:
                raise Violation("incomplete-executable", "%s is executable (mode %o) but has %d bytes instead of %s" % (out, o[0], o[1], show(g.out)))
            if r.end != "killed" and j.status != 0:
                raise Violation("executable-on-failure", "status %s but the output was made executable" % j.status)
            if g.status != 0:
                raise Violation("executable-on-failure", "the program does not compile, yet the output was made executable")
        if r.end == "ok" and j.status == 0 and not any(r.fired.values()) and is_vm and g.status == 0:
            if o is None or not (o[0] & 0o100):
                raise Violation("not-executable", "successful VM output is not executable")


def fnv(b):
    h = 1469598103934665603
    for x in b:
        h = ((h ^ x) * 1099511628211) & 0xFFFFFFFFFFFFFFFF
    return "%016x" % h


# ------------------------------------------------------------------------------------------------ P09
class P09(Prop):
    id = "P09"
    quick = 22000
    rule = ("one case = a compile cut by a kill at a seeded instant, or failed by a fault, over a possibly stale output, followed after restart by the same call without faults on whatever survived; "
            "non-trivial = distinct (program, entry, cut)")

    def gen(self, rng, ctx):
        files, job = pick_job(rng, ctx, apis=("cli", "auto", "ws", "target", "macro_file", "nomacro", "auto_macro_file"))
        sc = Scenario(files, [job])
        g, r = ctx.golden(sc, 0)
        if r.end != "ok":
            return None
        out = norm(job.out)
        if rng.random() < .4:
            sc.files[out] = (b"#!/old\n" * rng.choice([1, 100, 5000]), rng.choice([0o644, 0o744, 0o600]))
        k = sc.knobs
        k["bufsize"] = rng.choice([1, 16, 64, 512, 4096])
        m = rng.randint(0, 5)
        if m <= 1:
            k["kill_op"] = rng.randrange(r.events[3] + (0 if g.out == "none" else g.out[1] // k["bufsize"]) + 3)
        elif m == 2:
            k["kill_step"] = rng.randrange(1, r.steps + 2)
        elif m == 3:
            sc.faults.append(["write", out, rng.randint(0, 4), -1, "ENOSPC", rng.choice([0, 9])])
        elif m == 4:
            sc.faults.append(["close", out, 0, 1, "EIO", rng.choice([0, 30, 1 << 20])])
        else:
            sc.faults.append([rng.choice(["read", "open"]), rng.choice(sorted(files)), rng.randint(0, 2), -1, "EIO", 0])
        return sc

    def judge(self, sc, ctx):
        job = sc.jobs[0]
        out = norm(job.out)
        clean = Scenario({p: d for p, d in sc.files.items() if p != out}, [job])
        g, gr = golden_ok(ctx, clean, 0)
        one = sc.copy()
        one.knobs["dump"] = 1
        r = ctx.run(one)
        if r.crashed:
            raise Skip()
        left = {p: (r.data[p], v[0]) for p, v in r.files.items()}
        r2 = ctx.run(Scenario(left, [job]))
        alive(r2)
        j2 = r2.jobs[0]
        if out in sc.files:
            # an older output keeps its mode, and a call that fails early rightly leaves it alone
            if g.status != 0:
                j2.out = g.out
            elif j2.out not in (None, "none"):
                j2.out = (g.out[0],) + tuple(j2.out[1:])
        same_as(j2, g, r2, gr, "rerun after a cut run")
        ctx.probes["rerun after kill" if r.end == "killed" else "rerun after fault"] += 1


# ------------------------------------------------------------------------------------------------ P10
class P10(Prop):
    id = "P10"
    quick = 26000
    rule = ("one case = one call on a good or bad program with or without I/O faults, with host loggers or the default ones on a faulty stderr; the delivered messages are compared with the status; "
            "non-trivial = distinct (program, entry, fault, logger)")

    def gen(self, rng, ctx):
        files, job = pick_job(rng, ctx, apis=("cli", "auto", "ws", "target", "macro", "macro_file"), loggers=1 if rng.random() < .7 else 0)
        if rng.random() < .1:
            t = rng.randrange(3)
            src = [a for a in job.args if a.endswith(".c")]
            if src:
                job = Job(("nomacro_vm", "nomacro_llvm", "nomacro_mips")[t], ["ruc", src[0]], ("out.ruc", "out.ll", "out.s")[t], 0, 1)
        sc = Scenario(files, [job])
        g, r = ctx.golden(sc, 0)
        if r.end != "ok":
            return None
        out = norm(job.out)
        ins = inputs(sc, r) or sorted(files)
        m = rng.randint(0, 9)
        k = sc.knobs
        if m <= 1:
            sc.faults.append(["read", rng.choice(ins), rng.randint(0, 4), rng.choice([1, -1]), "EIO", 0])
            k["rchunk"] = rng.choice([16, 64, 1024])
            k["bufsize"] = rng.choice([16, 64, 1024])
        elif m == 2:
            sc.faults.append(["open", rng.choice(ins), rng.randint(0, 1), -1, rng.choice(["EACCES", "EMFILE", "ENOENT"]), 0])
        elif m == 3:
            sc.faults.append(["access", rng.choice(ins), rng.randint(0, 1), -1, "ENOENT", 0])
        elif m == 4:
            sc.faults.append(["open", out, 0, -1, "EACCES", 0])
        elif m == 5:
            sc.faults.append([rng.choice(["write", "close"]), out, 0, rng.choice([1, -1]), "ENOSPC", 0])
            k["bufsize"] = rng.choice([16, 64, 1024])
        elif m == 6:
            job.loggers = 0
            sc.faults.append(["write", "<stderr>", rng.randint(0, 40), rng.choice([1, 3, -1]), rng.choice(["EPIPE", "ENOSPC", "EIO", "EAGAIN"]), 0])
        if rng.random() < .1:
            # a source that does not exist
            job.args = ["ruc", "src/absent.c"] + job.args[1:]
        return sc

    def judge(self, sc, ctx):
        g, gr = golden_ok(ctx, sc, 0)
        r = ctx.run(sc)
        alive(r, sc)
        j = r.jobs[0]
        stderr_fault = any(n and sc.faults[i][1] == "<stderr>" for i, n in r.fired.items())
        if stderr_fault:
            if j.status != g.status or content(j.out) != content(g.out):
                raise Violation("stderr-matters", "a failing stderr changed the result: status %s (was %s)" % (j.status, g.status))
            ctx.probes["stderr fault"] += 1
            return
        if sc.jobs[0].loggers:
            errors = j.text.count(b"[error]{")
            if j.status != 0 and not errors:
                raise Violation("silent-failure", "status %s without a single error message; messages: %r" % (j.status, j.text[:200]))
            # the reference: an unfinished code generator may complain about a node and go on, with or without faults
            if j.status == 0 and errors > g.text.count(b"[error]{"):
                raise Violation("error-with-success", "status 0 after error message %r" % j.text[:300].decode("utf-8", "replace"))
            ctx.probes["host logger, status %s" % (0 if j.status == 0 else "!= 0")] += 1
        else:
            if j.status != 0 and not j.text:
                raise Violation("silent-failure", "status %s and nothing on stderr" % j.status)
            ctx.probes["stderr, status %s" % (0 if j.status == 0 else "!= 0")] += 1


# ------------------------------------------------------------------------------------------------ P12
class P11(Prop):
    id = "P11"
    model = True
    quick = 120000
    op_width = 4
    rule = ("one case = one random history of 10 to 400 operations on one container (vector, stack, strings, map, hash, tree with node vector, macro storage) with or without refused allocations, beside a reference model; "
            "non-trivial = distinct (container, history, faults)")
    real = ["libs/utils vector, stack, strings, map, hash, tree, node_vector, uniio and uniscanner (buffer input)", "libs/macro/storage.c, keywords.c"]

    def gen(self, rng, ctx):
        kind = rng.choice(["vector", "stack", "strings", "map", "map", "hash", "hash", "tree", "tree", "storage", "workspace"])
        n = rng.choice([10, 30, 60, 120, 400])
        big = rng.random() < .1
        # a history that mostly does a few of the operations gets further than one that does them all alike
        few = [rng.randrange(40) for _ in range(rng.randint(2, 6))]
        ops = []
        for _ in range(n):
            ops += [rng.choice(few) if rng.random() < .5 else rng.randrange(240), rng.randrange(1 << rng.choice([4, 8, 16, 30])), rng.randrange(1 << rng.choice([4, 8, 16])), rng.randrange(1 << 16)]
        sc = Scenario(dict(("/w/%sf%d" % (d, i), b"") for d in ("", "d/") for i in range(4)) if kind == "workspace" else {}, [Job("model", ["%s:%d" % (kind, 300 if big else rng.randint(0, 4))], "", ops=ops)])
        m = rng.random()
        if m < .3:
            sc.faults.append(["malloc", "heap", rng.randint(0, 12), rng.choice([1, 1, 2, -1]), "ENOMEM", 0])
        elif m < .55:
            a = 0
            for _ in range(rng.randint(1, 6)):
                a += rng.randint(1, 5)
                sc.faults.append(["malloc", "heap", a, 1, "ENOMEM", 0])
        elif m < .7:
            sc.faults.append(["malloc", "heap", rng.randint(0, 60), rng.choice([1, 3, 10]), "ENOMEM", 0])
        if rng.random() < .5:
            perturb(rng, sc.knobs, io=False, env=False)
        return sc

    def judge(self, sc, ctx):
        r = ctx.run(sc)
        alive(r)
        x = r.jobs[0]
        if x.status != 0:
            raise Violation("model", "the history was not run: %s" % x.status)
        if x.leaks:
            raise Violation("leak", "left %d heap blocks, %d bytes: %s" % (x.leaks, x.leak_bytes, x.leak_list))
        ctx.probes[sc.jobs[0].args[0].split(":")[0]] += 1

    def distinct_key(self, sc, ctx):
        return hashlib.sha1(sc.encode()).hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ P13
class P13(Prop):
    id = "P13"
    quick = 24000
    rule = ("one case = one program given in one process to two to five ways in (command line, compile on a workspace, compile for a target, preprocess to a file and then compile that file; for text: macro, macro_to_file, "
            "auto_macro_to_file, -E), in random order, over leftovers, after failed attempts, with reads and writes split at random; non-trivial = distinct (program, ways, faults, knobs)")

    CODE = ("cli", "auto", "ws", "target", "steps", "again")
    TEXT = ("macro", "macro_file", "auto_macro_file", "cli", "ws", "again")

    def gen(self, rng, ctx):
        name, files, args = pick_program(rng, ctx, "/w/")
        files = dict(files)
        if rng.random() < .15:
            p = rng.choice(sorted(files))
            d = files[p]
            files[p] = storage_damage(rng, ctx, d[0] if isinstance(d, tuple) else d)[1]
        extra = []
        if rng.random() < .15:
            extra += core.definitions(rng)
        t = rng.randrange(3)
        flag, ext = core.TARGETS[t]
        text = rng.random() < .35
        sc = Scenario(files, [])
        groups = []
        for i in range(rng.randint(2, 5)):
            way = rng.choice(self.TEXT if text else self.CODE)
            out = "out%d.%s" % (i, "i" if text else ext)
            argv = ["ruc"] + args + extra
            loggers = rng.randint(0, 1)
            first = len(sc.jobs)
            if way == "steps":
                mid = "mid%d.i" % i
                for _ in range(1 if rng.random() < .7 else 2):
                    sc.jobs.append(Job(rng.choice(["macro_file", "auto_macro_file"]), argv + ["-o", mid], mid, 0, loggers))
                sc.jobs.append(Job(("nomacro_vm", "nomacro_llvm", "nomacro_mips")[t], ["ruc", mid], "out." + ext, 0, loggers))
                if len(sc.jobs) - first == 3:
                    sc.faults.append([rng.choice(["write", "write", "close", "open"]), "/w/" + mid, 0, 1, rng.choice(["ENOSPC", "EIO"]), 0])
            elif way == "again":
                sc.jobs.append(Job("again:%s:%s" % (rng.choice(["vm", "llvm", "mips", "file", "text"]), rng.choice(["file", "text"]) if text else ("vm", "llvm", "mips")[t]), argv + ["-o", out], out, 0, loggers))
            elif way == "target":
                sc.jobs.append(Job(("auto_vm", "auto_llvm", "auto_mips")[t], argv + ["-o", out], out, 0, loggers))
            elif text and way in ("cli", "ws"):
                sc.jobs.append(Job(way, argv + ["-E", "-o", out] + rng.choice([[], [flag]]), out, 0, loggers))
            elif text:
                sc.jobs.append(Job(way, argv + ["-o", out], out, 0, loggers))
            else:
                sc.jobs.append(Job(way, argv + [flag, "-o", out], out, 0, loggers))
            if rng.random() < .2:
                for p in (out, "mid%d.i" % i):
                    sc.files["/w/" + p] = b"int stale = 1;\n" * rng.randint(1, 3000)
            groups.append((first, len(sc.jobs)))
        if rng.random() < .7:
            perturb(rng, sc.knobs)
        return sc

    def judge(self, sc, ctx):
        r = ctx.run(sc)
        if r.crashed:
            raise Skip()                   # a hang of a damaged program, a crash: other properties
        answers = []
        i = 0
        while i < len(sc.jobs):
            j, x = sc.jobs[i], r.jobs[i]
            if j.api in ("macro_file", "auto_macro_file") and j.out.startswith("mid"):
                k = i
                while not sc.jobs[k].api.startswith("nomacro"):
                    k += 1
                if any(f[1] == "/w/" + j.out for f in sc.faults) and k - i == 1:
                    raise Skip()           # a reduced case: the attempt that met the fault is the only one
                mid, x = r.jobs[k - 1], r.jobs[k]
                ok = mid.status == 0 and x.status == 0
                answers.append(("two steps", ok, content(x.out) if ok else None))
                i = k
            elif x.ret is not None:
                ok = x.status == 0
                answers.append((j.api, ok, (len(x.ret) - 1, x.ret_hash) if ok else None))
            else:
                ok = x.status == 0
                answers.append((j.api, ok, content(x.out) if ok else None))
            i += 1
        self.messages(sc, r, ctx)
        a = answers[0]
        for b in answers[1:]:
            if a[1] != b[1]:
                raise Violation("status", "%s %s, %s %s" % (a[0], "succeeds" if a[1] else "fails", b[0], "succeeds" if b[1] else "fails"))
            if a[2] != b[2]:
                raise Violation("content", "%s gives %s, %s gives %s" % (a[0], size(a[2]), b[0], size(b[2])))
        ctx.probes["text" if sc.jobs[0].out.endswith(".i") and not sc.jobs[0].out.startswith("mid") else "code"] += 1
        ctx.probes["succeeds" if a[1] else "fails"] += 1


    def messages(self, sc, r, ctx):
        """the same messages at the same places, whichever way (once a host has installed its loggers they stay)"""
        if sc.faults:
            return
        seen = {}
        for i, j in enumerate(sc.jobs):
            host = any(x.loggers for x in sc.jobs[:i + 1])
            t = r.jobs[i].text
            if j.out.startswith("mid"):
                continue
            if j.api.startswith("nomacro"):
                if r.jobs[i - 1].status != 0 or host != any(x.loggers for x in sc.jobs[:i]):
                    continue               # the preprocessor's own messages only: compared through the status
                t = r.jobs[i - 1].text + t
            way, first = seen.setdefault(host, (j.api, t))
            if first != t:
                raise Violation("messages", "%s says %r, %s says %r" % (way, first[-300:].decode("utf-8", "replace"), j.api, t[-300:].decode("utf-8", "replace")))
            ctx.probes["same messages" if t else "no messages"] += 1


# ------------------------------------------------------------------------------------------------ P14
PIECES = ["a", "z9", "_x", "main", "0", "7", "12", "0101", "-5", "+3", "0x1F", "1.5", "1.5e3", "2e+", ".5", "1e", "0x", "inf", "nan", "-", "+", "e", ".", ",", "\n", "\r\n", " ", "  ", "\t",
          "ж", "Ё", "число", "пока7", "€", "中", "😀", "\u0800", "\u07ff", "\uffff", "\U0010ffff", "9223372036854775807", "99999999999999999999", "\"", "\\", "#", "(", "}", "%d"]


class P14(Prop):
    id = "P14"
    model = True
    quick = 60000
    op_width = 4
    rule = ("one case = one random history of 10 to 400 operations on a stream, the same on a file, a buffer and (for output) a user function, under random buffer sizes, split reads and writes, failed reads, seeks, writes and "
            "allocations, beside the text that must result; non-trivial = distinct (history, text, faults)")
    real = ["libs/utils uniio, uniscanner, uniprinter, utf8", "the C library's buffered streams, driven over the simulated disk"]

    def gen(self, rng, ctx):
        inp = rng.random() < .6
        n = rng.choice([10, 30, 60, 120, 400])
        few = [rng.randrange(40) for _ in range(rng.randint(2, 6))]
        ops = []
        for _ in range(n):
            ops += [rng.choice(few) if rng.random() < .5 else rng.randrange(240), rng.randrange(1 << rng.choice([4, 8, 16, 30])), rng.randrange(1 << rng.choice([4, 8, 16])), rng.randrange(1 << 16)]
        sc = Scenario({}, [Job("model", ["input" if inp else "output:%d" % rng.choice([0, 1, 2, 7, 100, 5000])], "", ops=ops)])
        if inp:
            few = [rng.choice(PIECES) for _ in range(rng.randint(2, 8))]
            sc.files["/w/in"] = "".join(rng.choice(few) if rng.random() < .6 else rng.choice(PIECES) for _ in range(rng.choice([0, 1, 5, 20, 100, 400, 3000]))).encode()
            # storage may hold a byte that is no character
            m = rng.random()
            if m < .15:
                sc.faults.append(["read", "/w/in", rng.randint(0, 6), rng.choice([1, 1, 3, -1]), "EIO", 0])
            elif m < .2:
                sc.faults.append(["seek", "/w/in", rng.randint(0, 6), rng.choice([1, 3, -1]), "EIO", 0])
            elif m < .25:
                sc.faults.append([rng.choice(["open", "close"]), "/w/in", rng.randint(0, 2), 1, "EIO", 0])
        else:
            m = rng.random()
            if m < .2:
                sc.faults.append(["write", "/w/out", rng.choice([0, 0, 1, 2, 5, 20]), rng.choice([1, 1, 2, -1]), rng.choice(["ENOSPC", "EIO", "EINTR", "EAGAIN"]), rng.choice([0, 0, 1, 7])])
            elif m < .28:
                sc.faults.append(["close", "/w/out", 0, 1, rng.choice(["ENOSPC", "EIO"]), rng.choice([0, 1, 50])])
            elif m < .32:
                sc.faults.append(["open", "/w/out", 0, 1, "EACCES", 0])
            elif m < .5:
                sc.faults.append(["malloc", "heap", rng.randint(0, 12), rng.choice([1, 1, 2, -1]), "ENOMEM", 0])
            if rng.random() < .3:
                sc.files["/w/out"] = b"old" * rng.randint(1, 3000)
        if rng.random() < .8:
            perturb(rng, sc.knobs, env=False)
        return sc

    def judge(self, sc, ctx):
        r = ctx.run(sc)
        alive(r)
        x = r.jobs[0]
        if x.status != 0:
            raise Violation("model", "the history was not run: %s" % x.status)
        if x.leaks:
            raise Violation("leak", "left %d heap blocks, %d bytes: %s" % (x.leaks, x.leak_bytes, x.leak_list))
        if x.open_files:
            raise Violation("open-file", "left open: %s" % x.open_list)
        hit = any(r.fired.values())
        ctx.probes[sc.jobs[0].args[0].split(":")[0] + (" with faults" if hit else "")] += 1

    def distinct_key(self, sc, ctx):
        return hashlib.sha1(sc.encode()).hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ P15
QUOTED = re.compile(rb'(?m)^([ \t]*#[ \t]*(?:include|INCLUDE|\xd0\xb4\xd0\xbe\xd0\xb1\xd0\xb0\xd0\xb2\xd0\xb8\xd1\x82\xd1\x8c|\xd0\x94\xd0\x9e\xd0\x91\xd0\x90\xd0\x92\xd0\x98\xd0\xa2\xd0\xac)[ \t]*")([^"\n]+)(")')
PLACES = ["b/", "Каталог/", "with space/", "x/y/z/", "a.b/", "..d/", "...//".replace("//", "/"), "d" * 200 + "/", "/".join("u%d" % i for i in range(40)) + "/", "ё" * 100 + "/" + "q" * 90 + "/", "a/", "src/", "x.c/", "~/", "$HOME/", "%s%n/"]


def respell(rng, path):
    """another name of the same file: extra ., .. and slashes"""
    absolute = path.startswith("/")
    out = []
    parts = [p for p in path.split("/") if p]
    depth = 0
    for i, p in enumerate(parts):
        m = rng.random()
        if m < .15:
            out.append(".")
        elif m < .25:
            k = rng.randint(1, 3)
            out += [rng.choice(["up", "x.y", "ж", "..."])] * k + [".."] * k
        elif m < .38 and depth:
            out += ["..", parts[i - 1]]
        elif m < .42 and absolute and i == 0:
            out += [".."] * rng.randint(1, 3)
        out.append(p)
        depth += p != ".."
    sep = ""
    r = "/" if absolute else ""
    for i, p in enumerate(out):
        r += ("" if i == 0 else rng.choice(["/", "/", "/", "//", "///"])) + p
    return r


class P15(Prop):
    id = "P15"
    shrinkable_files = False
    quick = 40000
    shrinkable_jobs = False
    rule = ("one case = one program at its place and a copy of it at another place (deep, long, non-ASCII, odd names), the copy named by absolute or relative paths with extra '.', '..' and slashes in arguments and "
            "includes, with split reads and foreign files beside it; non-trivial = distinct (program, place, spelling, knobs)")

    def gen(self, rng, ctx):
        name, files, args = pick_program(rng, ctx, "/w/a/")
        place = rng.choice(PLACES) if rng.random() < .6 else "p" * rng.randint(1, 60) + "/"
        if place == "a/":
            place = "b/a/"
        # one file must not be named both from the root and from the working directory: names are compared as written
        root = rng.choice(["", "", "", "/w/", "/w/", "../w/", "/../w/"])
        t = rng.randrange(3)
        flag, ext = core.TARGETS[t]
        sc = Scenario(files, [])
        api = rng.choice(["cli", "auto", "ws"])
        sc.jobs.append(Job(api, ["ruc"] + args + [flag, "-o", "a/out." + ext], "a/out." + ext))
        spell = respell if rng.random() < .7 else lambda rng, p: p
        for p, d in files.items():
            if isinstance(d, tuple):
                d = d[0]
            if rng.random() < .5:
                d = QUOTED.sub(lambda m: m.group(1) + (spell(rng, m.group(2).decode()).encode() if b".." not in m.group(2) and b"\\" not in m.group(2) and m.group(2)[:1] != b"/" else m.group(2)) + m.group(3), d)
            sc.files["/w/" + place + p[len("/w/a/"):]] = d
        argv = ["ruc"]
        for a in args:
            inc = a.startswith("-I")
            q = a[2:] if inc else a
            q = root + place + q[2:]
            q = spell(rng, q)
            if rng.random() < .05:
                q = q.replace("/", "\\")
            if inc and rng.random() < .3:
                q += rng.choice(["/", "//", "/./", "/.", "/no/.."])
            argv.append(("-I" if inc else "") + q)
        out = root + place + "out." + ext
        if rng.random() < .3:
            argv = argv[:1] + [flag, "-o", out] + argv[1:]
        else:
            argv += [flag, "-o", out]
        sc.jobs.append(Job(api, argv, out))
        if rng.random() < .4:
            # files that have nothing to do with the program
            for n in ("out.ruc", "h0.h", "main.c", "macro.txt", "up", "lib1.h"):
                if rng.random() < .3:
                    sc.files["/w/" + n] = b"int foreign = ;\n"
        if rng.random() < .6:
            perturb(rng, sc.knobs)
        return sc

    def judge(self, sc, ctx):
        r = ctx.run(sc)
        alive(r, sc)
        a, b = r.jobs
        if (a.status == 0) != (b.status == 0):
            raise Violation("status", "%s at its place, %s as %s: %r" % (a.status, b.status, " ".join(sc.jobs[1].args[1:])[:200], (b.text if b.status else a.text)[:300].decode("utf-8", "replace")))
        if a.status == 0 and content(a.out) != content(b.out):
            raise Violation("content", "%s at its place, %s as %s" % (show(a.out), show(b.out), " ".join(sc.jobs[1].args[1:])[:200]))
        ctx.probes["status 0" if a.status == 0 else "status != 0"] += 1


class P12(Prop):
    id = "P12"
    variant = "asan"
    confirm = True
    quick = 12000
    rule = ("one case = one compile of a source or header damaged the way storage damages it: cut at a byte, a sector zeroed, lost, repeated or taken from another file, bits flipped, the end replaced by "
            "stale bytes; non-trivial = distinct damaged input")

    def gen(self, rng, ctx):
        files, job = pick_job(rng, ctx, apis=("cli", "target", "cli", "target", "nomacro"), damage=0)
        files = dict(files)
        p = rng.choice(sorted(files))
        d = files[p]
        if isinstance(d, tuple):
            d = d[0]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind, d = storage_damage(rng, ctx, d)
            ctx.faults["storage:" + kind] += 1
        files[p] = d
        return Scenario(files, [job], [], {"steps": 120000000})

    def judge(self, sc, ctx):
        r = ctx.run(sc)
        if r.end == "hang" and r.end_detail.startswith("steps") and not has_loop(sc) and not ctx.trust_hang and ctx.ends(sc, 3000000000):
            # a message for every damaged byte of a long line takes its time
            ctx.probes["slow, but ends"] += 1
            return
        alive(r, sc)
        ctx.probes["status 0" if r.jobs[0].status == 0 else "status != 0"] += 1


def table():
    return {c.id: c() for c in (P01, P02, P03, P04, P05, P06, P07, P08, P09, P10, P11, P12, P13, P14, P15)}
