#!/opt/venv/bin/python
"""check.py CXX [--only NAME] [--jobs N] : decide one property.
check.py CXX --replay FILE : re-run a recorded counterexample on the real code."""
import os

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
import sys

sys.dont_write_bytecode = True
import argparse
import importlib
import json
import multiprocessing as mp
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from symx import core, run, loader  # noqa: E402


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known:"):
                d = dict(x.split("=", 1) for x in line[6:].split("|")[0].split() if "=" in x)
                d["what"] = line.split("|", 1)[1].strip() if "|" in line else ""
                if d.get("property") == prop:
                    d.setdefault("label", "")
                    out.append(d)
    return out


def child(conn, inst, tier, wall, known):
    try:
        r = run.run_instance(inst, tier, wall, known)
    except BaseException as e:
        r = dict(name=inst.name, status="inconclusive", notes=["crash %r" % e, traceback.format_exc()[-800:]], undecided=[])
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def schedule(insts, tier, jobs, known, total):
    t0 = time.time()
    order = sorted(insts, key=lambda i: -i.opts.get("cost", 1))
    todo = list(order)
    running = {}
    results = {}
    ctx = mp.get_context("fork")
    stop = False
    while todo or running:
        while todo and len(running) < jobs and not stop:
            inst = todo.pop(0)
            wall = inst.opts.get("wall", 120 if tier == "quick" else 1500)
            wall = min(wall, max(10, total - (time.time() - t0)))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, inst, tier, wall, known))
            p.start()
            b.close()
            running[p] = (inst, a, time.time() + wall * 2 + 60)
        for p in list(running):
            inst, conn, dl = running[p]
            if conn.poll(0):
                try:
                    results[inst.name] = conn.recv()
                except EOFError:
                    results[inst.name] = dict(name=inst.name, status="inconclusive", notes=["process died"], undecided=[])
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[p]
                if os.environ.get("SYMX_VERBOSE"):
                    r = results[inst.name]
                    print("  %-50s %s %.1fs paths=%s obl=%s/%s wit=%s val=%s %s %s" % (inst.name, r["status"], r.get("wall", 0), r.get("paths"), r.get("proved"), r.get("obligations"), r.get("witnessed"), r.get("validated"), r.get("undecided"), r.get("notes")), flush=True)
                if results[inst.name]["status"] == "violation":
                    stop = True
            elif not p.is_alive():
                if not conn.poll(0.2):
                    results[inst.name] = dict(name=inst.name, status="inconclusive", notes=["process died (exit %s)" % p.exitcode], undecided=[])
                    del running[p]
            elif time.time() > dl:
                p.kill()
                results[inst.name] = dict(name=inst.name, status="inconclusive", notes=["killed at the time limit"], undecided=[])
                del running[p]
        if stop:
            for p in running:
                p.kill()
            break
        time.sleep(0.01)
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--total", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.v:
        os.environ["SYMX_VERBOSE"] = "1"
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop.upper()
    t0 = time.time()
    mod = importlib.import_module("harness." + prop.lower())
    suite = mod.suite
    if a.replay:
        d = json.load(open(a.replay))
        inst = [i for i in suite.instances if i.name == d["instance"]][0]
        r = run.run_concrete(inst, d["values"], rots=d.get("rots"), ints=d.get("ints"))
        print(r[:3])
        sys.exit(1 if r[0] == "fail" else 0)
    insts = [i for i in suite.instances if tier == "thorough" or i.tier == "quick"]
    if a.only:
        insts = [i for i in suite.instances if a.only in i.name]
    known = known_findings(prop)
    out_dir = os.path.join(HERE, "evidence")
    os.makedirs(out_dir, exist_ok=True)
    broken_import = None
    try:
        run.real_rigeo()
    except Exception as e:
        broken_import = e
    total = a.total or (600 if tier == "quick" else 6 * 3600)
    results = {} if broken_import else schedule(insts, tier, a.jobs, known, total)
    vio = [r for r in results.values() if r["status"] == "violation"]
    inc = [r for r in results.values() if r["status"] == "inconclusive"]
    rs = list(results.values())

    def tot(k):
        return sum(r.get(k, 0) or 0 for r in rs)

    st = {}
    for r in rs:
        for k, v in (r.get("stats") or {}).items():
            st[k] = st.get(k, 0) + v
    funcs = sorted({f for r in rs for f in r.get("functions", [])})
    samples = [s for r in rs for s in r.get("samples", [])][:6]
    cov = {
        "states": tot("paths"),
        "transitions": tot("transitions"),
        "traces_validated_against_impl": tot("validated"),
        "integer_array_replays": tot("whole"),
        "samples": samples or [{"note": "no witness on this run"}],
        "instances": [
            {
                "name": r["name"], "status": r["status"], "paths": r.get("paths", 0), "forks": r.get("forks", 0), "obligations": r.get("obligations", 0),
                "proved": r.get("proved", 0), "witnesses": r.get("witnessed", 0), "wall_s": round(r.get("wall", 0), 2),
                "reduced_bound": bool(r.get("reduced")), "paths_not_explored": r.get("cut_paths", 0),
                "notes": [n[:300] for n in r.get("notes", [])][:6], "undecided": r.get("undecided", [])[:6],
            }
            for r in sorted(rs, key=lambda r: r["name"])
        ],
        "obligations": tot("obligations"),
        "discharged": tot("proved"),
        "decisions_forked": tot("forks"),
        "infeasible_paths": tot("infeasible") + tot("aborted"),
        "coefficient_cuts": tot("poly_cuts"),
        "solver_queries": st.get("queries", 0),
        "solver_seconds": round(st.get("solver_s", 0), 3),
        "closed_by_normal_form": st.get("syntactic", 0),
        "closed_by_linear_abstraction": st.get("lra", 0),
        "nonlinear_queries": st.get("nra", 0),
        "solver_unknowns": st.get("unknown", 0),
        "functions_encoded": funcs,
        "bounds": suite.bounds,
        "assumptions": suite.assumes,
        "explanation": "each state is one feasible path of the real functions under symbolic inputs; every obligation is decided by z3 for all inputs of the path (exact real arithmetic); witnesses are solver models of paths re-run on the real package",
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    if not a.only:
        with open(os.path.join(out_dir, prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    hits = [h for r in rs for h in r.get("known", [])]
    for k in known:
        if any(h[0] == k["instance"] and h[1].startswith(k["label"]) for h in hits):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d instances, %d paths, %d/%d obligations discharged, %d witnesses validated, %d queries, %.1f s solver, %.1f s" % (prop, len(rs), cov["states"], cov["discharged"], cov["obligations"], cov["traces_validated_against_impl"], cov["solver_queries"], cov["solver_seconds"], time.time() - t0))
    for r in rs:
        if r.get("reduced"):
            print("  note: %s decided at a reduced bound (fixed rotations)" % r["name"])
    if broken_import is not None:
        print("UNDECIDED: the package cannot be imported: %r" % broken_import)
        sys.exit(2)
    if vio:
        v = vio[0]["violation"]
        rp = os.path.join(out_dir, "%s-violation.json" % prop)
        with open(rp, "w") as f:
            json.dump(dict(property=prop, **v), f, indent=1, default=str)
        print("  %s / %s: %s: %s" % (v["instance"], v["obligation"], v["failed"], v["detail"][:400]))
        print("  inputs: %s" % json.dumps(v["inputs"])[:600])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    if inc:
        for r in inc:
            print("UNDECIDED %s: %s %s" % (r["name"], r.get("undecided"), [n[:500] for n in r.get("notes", [])]))
        # the property held on everything explored; no answer if that is less than half of the instances
        if os.environ.get("SYMX_STRICT") or 2 * len(inc) > len(rs):
            sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
