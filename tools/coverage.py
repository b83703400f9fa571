"""usage: coverage.py PCS.json [FILE-SUBSTRING]   (PCS.json written by a check run with VERIF_PCS=PCS.json)
Prints, per function, the source lines whose basic blocks no simulated run has reached."""
import collections, json, sys
o = json.load(open(sys.argv[1]))
want = sys.argv[2] if len(sys.argv) > 2 else ""
hit = set(o["reached"])
per = collections.OrderedDict()
for s, f, loc in o["sites"]:
    loc = loc.split(" ")[0].replace("/repo/", "")
    p, l = loc.rsplit(":", 1)
    d = per.setdefault((p, f), [0, 0, set()])
    d[1] += 1
    if s in hit:
        d[0] += 1
    else:
        d[2].add(int(l) if l.isdigit() else 0)
tot = collections.Counter(); cov = collections.Counter()
for (p, f), d in per.items():
    tot[p] += d[1]; cov[p] += d[0]
for p in tot:
    print("%5d/%5d %s" % (cov[p], tot[p], p))
print("total", sum(cov.values()), sum(tot.values()))
if want:
    for (p, f), d in per.items():
        if want in p and d[2]:
            print("%s %s %d/%d: %s" % (p, f, d[0], d[1], " ".join(str(x) for x in sorted(d[2]))))
