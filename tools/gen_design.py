"""DESIGN.md = tools/design.md with the bounds of the suites and the planted bugs filled in."""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
b = []
for i in range(1, 100):
    f = os.path.join(HERE, "harness", "c%02d.py" % i)
    if not os.path.exists(f):
        continue
    s = importlib.import_module("harness.c%02d" % i).suite
    n = len(s.instances)
    t = len([x for x in s.instances if x.tier == "thorough"])
    b.append("* **C%02d** (%d instances%s): %s.%s" % (i, n, ", %d thorough only" % t if t else "", s.bounds, (" Assumes: " + "; ".join(s.assumes) + ".") if s.assumes else ""))
seeds = ["| bug | property | caught | what it breaks | needs |", "|---|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    cl = lambda s: " ".join(str(s).split()).replace("|", "/")
    seeds.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m.get("caught_by", "check " + m["property"]), cl(m["what_it_breaks"]), cl(m["needs"])))
t = open(os.path.join(HERE, "tools", "design.md")).read()
t = t.replace("@BOUNDS@", "\n".join(b)).replace("@SEEDED@", "\n".join(seeds))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
