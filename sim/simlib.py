"""Scenario, executor process and result objects shared by all checks."""
import base64, json, os, subprocess


class Job:
    __slots__ = ("thread", "api", "loggers", "out", "args", "ops")

    def __init__(self, api, args, out="", thread=0, loggers=0, ops=None):
        self.api, self.args, self.out, self.thread, self.loggers, self.ops = api, list(args), out, thread, loggers, ops

    def to_json(self):
        return {"api": self.api, "args": self.args, "out": self.out, "thread": self.thread, "loggers": self.loggers, "ops": self.ops}

    @staticmethod
    def from_json(j):
        return Job(j["api"], j["args"], j["out"], j["thread"], j["loggers"], None if j["ops"] is None else list(j["ops"]))

    def copy(self):
        return Job.from_json(self.to_json())


def _b(s):
    return s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")


class Scenario:
    """files: {path: bytes | (bytes, mode)}; faults: [kind, path, nth, count, action, param]; sched: [[step, thread]]"""

    def __init__(self, files=None, jobs=None, faults=None, knobs=None, sched=None):
        self.files = dict(files or {})
        self.jobs = list(jobs or [])
        self.faults = [list(f) for f in (faults or [])]
        self.knobs = dict(knobs or {})
        self.sched = [list(x) for x in (sched or [])]

    def copy(self):
        return Scenario(self.files, [j.copy() for j in self.jobs], self.faults, self.knobs, self.sched)

    def encode(self):
        o = []
        for k in sorted(self.knobs):
            o.append(b"KNOB %s %d\n" % (k.encode(), self.knobs[k]))
        for p in sorted(self.files):
            d = self.files[p]
            mode = 0o644
            if isinstance(d, tuple):
                d, mode = d
            pb, db = _b(p), _b(d)
            o.append(b"FILE %o %d %d\n%s\n%s\n" % (mode, len(pb), len(db), pb, db))
        for j in self.jobs:
            o.append(b"JOB %d %s %d %s\n" % (j.thread, j.api.encode(), j.loggers, _b(j.out)))
            for a in j.args:
                ab = _b(a)
                o.append(b"ARG %d\n%s\n" % (len(ab), ab))
            if j.ops is not None:
                o.append(b"OPS %d\n" % len(j.ops))
                o.append(b"".join(b"%d\n" % x for x in j.ops))
        for f in self.faults:
            o.append(b"FAULT %s %s %d %d %s %d\n" % (_b(f[0]), _b(f[1]), f[2], f[3], _b(f[4]), f[5]))
        for s in self.sched:
            o.append(b"SW %d %d\n" % (s[0], s[1]))
        o.append(b"GO\n")
        return b"".join(o)

    def to_json(self):
        fl = {}
        for p, d in self.files.items():
            mode = 0o644
            if isinstance(d, tuple):
                d, mode = d
            d = _b(d)
            try:
                t = d.decode("utf-8")
                fl[p] = {"mode": mode, "text": t}
            except UnicodeDecodeError:
                fl[p] = {"mode": mode, "b64": base64.b64encode(d).decode()}
        return {"files": fl, "jobs": [j.to_json() for j in self.jobs], "faults": self.faults, "knobs": self.knobs, "sched": self.sched}

    @staticmethod
    def from_json(o):
        fl = {}
        for p, d in o["files"].items():
            data = d["text"].encode("utf-8") if "text" in d else base64.b64decode(d["b64"])
            fl[p] = (data, d["mode"])
        return Scenario(fl, [Job.from_json(j) for j in o["jobs"]], o["faults"], o["knobs"], o["sched"])


class JobResult:
    def __init__(self):
        self.status = None          # None: did not finish
        self.leaks = self.leak_bytes = self.open_files = 0
        self.leak_list = ""
        self.open_list = ""
        self.out = None             # (mode, len, hash) | "none"
        self.text = b""
        self.ret = None
        self.ret_hash = ""
        self.mkexec = []
        self.wopen = []

    def key(self):
        return (self.status, self.out, self.text, self.ret)


class Result:
    def __init__(self, raw, njobs):
        self.raw = raw
        self.end = "lost"
        self.end_job = -1
        self.end_detail = ""
        self.refused_pcs = self.refused_site = ""
        self.jobs = [JobResult() for _ in range(njobs)]
        self.viol = []
        self.files = {}
        self.data = {}
        self.counts = {}
        self.fired = {}
        self.asan = b""
        self.sw = []
        self.events = (0, "", 0, 0, 0, "")
        self.allocs = self.refused = self.peak = self.total = 0
        self.refused_jobs = frozenset()
        self.trace = []
        self.effects = []
        i, n = 0, len(raw)
        last = None
        while i < n:
            e = raw.find(b"\n", i)
            if e < 0:
                break
            ln = raw[i:e]
            i = e + 1
            t = ln.split(b" ")
            k = t[0]
            if k == b"JOB":
                j = self.jobs[int(t[1])]
                j.status = int(t[3]); j.leaks = int(t[5]); j.leak_bytes = int(t[6]); j.open_files = int(t[8]); j.leak_list = t[9].decode(); j.open_list = t[10].decode("utf-8", "replace")
            elif k == b"OUT":
                self.jobs[int(t[1])].out = "none" if t[2] == b"none" else (int(t[2], 8), int(t[3]), t[4].decode())
            elif k == b"TEXT":
                m = int(t[2]); self.jobs[int(t[1])].text = raw[i:i + m]; i += m + 1
            elif k == b"RET":
                m = int(t[2]); self.jobs[int(t[1])].ret = raw[i:i + m]; i += m + 1
            elif k == b"RHASH":
                self.jobs[int(t[1])].ret_hash = t[2].decode()
            elif k == b"FILE":
                last = b" ".join(t[4:]).decode("utf-8", "surrogateescape")
                self.files[last] = (int(t[1], 8), int(t[2]), t[3].decode())
            elif k == b"DATA":
                m = int(t[1]); self.data[last] = raw[i:i + m]; i += m + 1
            elif k == b"ASAN":
                m = int(t[1]); self.asan = raw[i:i + m]; i += m + 1
            elif k == b"COUNT":
                self.counts[(t[2].decode(), b" ".join(t[3:]).decode("utf-8", "surrogateescape"))] = int(t[1])
            elif k == b"FIRED":
                self.fired[int(t[1])] = int(t[2])
            elif k == b"ALLOC":
                self.allocs, self.refused, self.peak, self.total = int(t[1]), int(t[3]), int(t[5]), int(t[7])
                self.refused_jobs = frozenset(j for j in range(64) if int(t[9], 16) >> j & 1)
            elif k == b"RSITE":
                self.refused_pcs = t[1].decode()
            elif k == b"EVENTS":
                self.events = (int(t[1]), t[2].decode(), int(t[4]), int(t[6]), int(t[8]), t[10].decode())
            elif k == b"END":
                self.end = t[1].decode(); self.end_job = int(t[2][1:]); self.end_detail = b" ".join(t[3:]).decode("utf-8", "replace")
            elif k == b"VIOL":
                self.viol.append((int(t[1]), b" ".join(t[2:]).decode("utf-8", "replace")))
            elif k == b"SW":
                self.sw.append([int(t[1]), int(t[2])])
            elif k == b"MKEXEC":
                self.jobs[int(t[1])].mkexec.append((b" ".join(t[2:-2]).decode("utf-8", "replace"), int(t[-2]), t[-1].decode()))
            elif k == b"WOPEN":
                if int(t[1]) >= 0:
                    self.jobs[int(t[1])].wopen.append(b" ".join(t[2:]).decode("utf-8", "replace"))
            elif k in (b"UNLINK", b"RENAME"):
                self.effects.append((k.decode(), int(t[1]), b" ".join(t[2:]).decode("utf-8", "replace")))
            elif k == b"EV":
                self.trace.append(ln.decode("utf-8", "replace"))

    @property
    def steps(self):
        return self.events[2]

    @property
    def crashed(self):
        return self.end in ("asan", "signal", "abort", "memory", "lost", "hang", "exit")

    def crash_sig(self):
        return "%s %s" % (self.end, self.end_detail)


_SYM = {}


def symbolize(exe, pcs):
    """function names of the repository for program counters (hex strings), innermost first"""
    need = [p for p in pcs if (exe, p) not in _SYM]
    if need:
        o = subprocess.run(["addr2line", "-f", "-i", "-a", "-e", exe] + need, stdout=subprocess.PIPE).stdout.decode("utf-8", "replace").split("\n")
        cur, fr = None, {}
        i = 0
        while i < len(o):
            if o[i].startswith("0x"):
                cur = "%x" % int(o[i], 16); fr[cur] = []; i += 1
            elif cur is not None and i + 1 < len(o):
                fr[cur].append((o[i], o[i + 1])); i += 2
            else:
                i += 1
        for p in need:
            _SYM[(exe, p)] = [f for f, loc in fr.get(p, []) if "/libs/" in loc or "/src/main.c" in loc]
    r = []
    for p in pcs:
        r += _SYM[(exe, p)]
    return r


class Sim:
    def __init__(self, exe):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:handle_segv=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=16:symbolize=0:log_path=/dev/null"
        self.exe = exe
        self.p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env)
        self.runs = 0
        self.steps = 0
        self.want_sites = False

    def run(self, sc):
        self.p.stdin.write(sc.encode())
        self.p.stdin.flush()
        n = self.p.stdout.readline()
        if not n:
            raise RuntimeError("simulator process ended")
        raw = self.p.stdout.read(int(n))
        self.runs += 1
        r = Result(raw, len(sc.jobs))
        if r.refused_pcs and self.want_sites:
            r.refused_site = "<".join(x for x in symbolize(self.exe, r.refused_pcs.split(",")) if x not in ("refuse", "sim_malloc", "sim_calloc", "sim_realloc"))
        if r.end in ("asan", "signal", "hang") and " " in r.end_detail:
            kind, pcs = r.end_detail.split(" ", 1)
            r.end_detail = kind + " " + "<".join(symbolize(self.exe, [x for x in pcs.split(",") if x])[:12 if r.end == "hang" else 4])
        self.steps += r.steps
        return r

    def pcs(self):
        self.p.stdin.write(b"PCS\n")
        self.p.stdin.flush()
        m = self.p.stdout.read(1 << 22)
        r, i = [], m.find(1)
        while i >= 0:
            r.append(i)
            i = m.find(1, i + 1)
        return r

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()
