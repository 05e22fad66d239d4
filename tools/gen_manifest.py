"""Regenerate MANIFEST.json from properties.jsonl, the harnesses present and NOT_APPLICABLE."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    "C41": "uniformity of a random sample is a statement about the output distribution (a measure), not an assertion over one symbolic execution; an SMT query cannot express or decide it. The support part (samples lie in the set, on the surface, are reproducible) is decided under C27-C30.",
    "C42": "rounding-error bounds of the float64 kernels (LAPACK eigen-solver, qhull/cdd, numpy reductions) live in compiled libraries that cannot be encoded here; everything is decided over exact reals instead.",
}
NOTE = "bounded symbolic model checking: z3 decides every obligation for all inputs within the stated bounds, over exact reals; trusts the encoding of numpy/scipy/cvxpy/pycddlib primitives in /verif/symx (contracts in DESIGN.md), which each run cross-checks by replaying solver witnesses on the real package. Bounds: "
PY = "/opt/venv/bin/python check.py"
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    f = os.path.join(HERE, "harness", i.lower() + ".py")
    if i in NA or not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
        continue
    s = importlib.import_module("harness." + i.lower()).suite
    checks.append({
        "property": i,
        "quick_cmd": "VERIF_TIER=quick %s %s" % (PY, i),
        "thorough_cmd": "VERIF_TIER=thorough %s %s" % (PY, i),
        "evidence_file": "evidence/%s.json" % i,
        "technique": "symbolic execution of the real Python code, obligations decided by z3 over the reals",
        "level": "model_checking",
        "level_note": NOTE + s.bounds + (" Assumes: " + "; ".join(s.assumes) if s.assumes else ""),
    })
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo. All checks run the source of /repo/src/rigeo through the loader in /verif/symx (numpy, scipy, cvxpy and pycddlib replaced by symbolic models).",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
