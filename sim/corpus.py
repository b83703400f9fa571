"""Programs the simulations compile: every test program of the repository plus generated ones."""
import os

REPO = os.environ.get("RUC_REPO", "/repo")


def load():
    """[(name, {path: bytes}, [args: sources and -I])]; paths below /w/src"""
    root = REPO + "/tests"
    out = []
    for d, subs, fs in sorted(os.walk(root)):
        subs.sort()
        if "/include" in d:
            continue
        for f in sorted(fs):
            if f.endswith(".c"):
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    data = h.read()
                rel = os.path.relpath(p, root)
                out.append((rel, {"/w/src/" + f: data}, ["src/" + f]))
        if "include" in subs:
            inc = os.path.join(d, "include")
            for name in sorted(os.listdir(inc)):
                base = os.path.join(inc, name)
                files, srcs, dirs = {}, [], []
                for dd, ss, ff in sorted(os.walk(base)):
                    ss.sort()
                    for f in sorted(ff):
                        p = os.path.join(dd, f)
                        r = "src/" + os.path.relpath(p, base)
                        with open(p, "rb") as h:
                            files["/w/" + r] = h.read()
                        if f.endswith(".c"):
                            srcs.append(r)
                        if f.endswith(".h"):
                            dirs.append("-I" + os.path.dirname(r))
                if srcs:
                    out.append((os.path.relpath(base, root), files, srcs + dirs))
    return out
