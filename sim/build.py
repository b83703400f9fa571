#!/usr/bin/env python3
"""Build the simulator from /repo's working tree.  usage: build.py VARIANT OUTDIR   (plain | asan)"""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from redefs import SEAM

REPO = os.environ.get("RUC_REPO", "/repo")
COMMON = ["-g", "-fno-omit-frame-pointer", "-no-pie", "-fno-pie", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-w"]
FLAGS = {
    "plain": ["-O1"],
    "asan": ["-O1", "-fsanitize=address", "-fno-common"],
}
HEADERS = ["-I%s/libs/%s" % (REPO, d) for d in ("compiler", "macro", "utils")]


def sources():
    s = []
    for d in ("compiler", "macro", "utils"):
        s += sorted(glob.glob("%s/libs/%s/**/*.c" % (REPO, d), recursive=True))
    return s


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write("build failed: %s\n%s\n" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")))
        sys.exit(2)


def build(variant, out, model=False):
    os.makedirs(out, exist_ok=True)
    flags = FLAGS[variant]
    redef = os.path.join(out, "redefs.txt")
    with open(redef, "w") as f:
        for s in SEAM:
            f.write("%s sim_%s\n" % (s, s))
    jobs = []
    for src in sources():
        jobs.append((src, os.path.join(out, src[len(REPO) + 1:].replace("/", "_")[:-2] + ".o"), []))
    main = REPO + "/src/main.c"
    jobs.append((main, os.path.join(out, "src_main.o"), ["-Dmain=ruc_main"]))

    def one(job):
        src, obj, extra = job
        run(["gcc", "-std=gnu11", "-DNDEBUG", "-D_POSIX_C_SOURCE=200112L", "-fsanitize-coverage=trace-pc", *COMMON, *flags, *extra, *HEADERS, "-c", src, "-o", obj])
        # static variables of the code under test get sections of their own: the scheduler watches them
        run(["objcopy", "--redefine-syms=" + redef, *(["--rename-section", ".data=repo_data", "--rename-section", ".bss=repo_bss"] if variant == "plain" else []), obj])
        return obj

    def own(name):
        obj = os.path.join(out, "own_" + name + ".o")
        cc = ["g++", "-std=gnu++17", "-D_GNU_SOURCE"] if name.endswith(".cc") else ["gcc", "-std=gnu11"]
        run([*cc, *COMMON[:-1], "-Wno-format-truncation", *([] if name.endswith(".cc") else ["-Werror=incompatible-pointer-types", "-Werror=implicit-function-declaration"]), *flags, *HEADERS, "-I" + HERE, "-c", os.path.join(HERE, name), "-o", obj])
        return obj

    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
        objs += list(ex.map(own, ["simx.cc", "jobs.c"] + ["model.cc"] * model))
        if not model:
            objs.append(own("nomodel.c"))
    exe = os.path.join(out, "simx")
    run(["g++", "-no-pie", *flags, *objs, "-o", exe, "-lm", "-lpthread"])
    return exe


def trace_sites(exe):
    """return addresses of all basic-block callbacks (low 22 bits, as the simulator records them)"""
    o = subprocess.run(["objdump", "-d", "--no-show-raw-insn", exe], stdout=subprocess.PIPE).stdout.decode()
    r, hit = [], False
    for ln in o.split("\n"):
        a = ln.split(":", 1)
        if len(a) == 2 and a[0].startswith(" "):
            if hit:
                r.append(int(a[0].strip(), 16) & ((1 << 22) - 1))
            hit = "call" in a[1] and "__sanitizer_cov_trace_pc" in a[1]
    return r


def locate(exe, sites):
    """[[site, function, file:line]]"""
    base = 0x400000
    q = "\n".join("%x" % (base + s - 1) for s in sites)
    o = subprocess.run(["addr2line", "-f", "-e", exe], input=q.encode(), stdout=subprocess.PIPE).stdout.decode().split("\n")
    return [[s, o[2 * i], o[2 * i + 1]] for i, s in enumerate(sites)]


if __name__ == "__main__":
    if sys.argv[1:] == ["--self-test"]:
        # setup: nothing is kept, every check builds from the working tree; only prove that the tools are there
        import shutil, tempfile
        d = tempfile.mkdtemp(prefix="rucsim_")
        try:
            for v in sorted(FLAGS):
                build(v, os.path.join(d, v), True)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print("ok")
    else:
        print(build(sys.argv[1], sys.argv[2]))
