"""Path exploration, obligations, counterexample replay, evidence."""
import importlib
import json
import math
import os
import signal
import sys
import time
import traceback
from fractions import Fraction

from . import core, arr, loader, stubs
from . import ctx as ctxm
from .core import And, SymBool, Unsupported, PathAbort, Inconclusive, mkbool

NAME_RE_CACHE = {}


class Violation(BaseException):
    def __init__(self, info):
        self.info = info


class Stop(BaseException):
    """too many undecided obligations."""


class Instance:
    def __init__(self, fn, name, opts):
        self.fn = fn
        self.name = name
        self.opts = opts
        self.tier = opts.get("tier", "quick")


class Suite:
    """Collects the instances of one property."""

    def __init__(self, prop, **defaults):
        self.prop = prop
        self.defaults = defaults
        self.instances = []
        self.bounds = defaults.pop("bounds", "")
        self.assumes = defaults.pop("assumes", [])

    def inst(self, name=None, params=None, **opts):
        def deco(f):
            o = dict(self.defaults)
            o.update(opts)
            base = name or f.__name__
            if params is None:
                self.instances.append(Instance(f, base, o))
            else:
                for p in params:
                    oo = dict(o)
                    if isinstance(p, dict):
                        p = dict(p)
                        oo.update(p.pop("_o", {}))
                        kw = p
                    else:
                        kw = {"p": p}
                    nm = base + "[" + ",".join(str(v).replace(" ", "") for v in kw.values()) + "]"
                    self.instances.append(Instance(_bind(f, kw), nm, oo))
            return f

        return deco


def _bind(f, kw):
    def g(c):
        if list(kw) == ["p"]:
            return f(c, kw["p"])
        return f(c, **kw)

    g.__name__ = f.__name__
    return g


# --------------------------------------------------------------------------
def margin(b, d):
    """strengthen every strict atom of b by d (to move models off boundaries)."""
    if b.k in ("true", "false", "<=", "=="):
        return b
    if b.k == "<":
        num, den = d.numerator, d.denominator
        p = core.pscale(b.a, den)
        return SymBool("<=", core.padd(p, {0: num}))
    if b.k == "and":
        return core.And([margin(x, d) for x in b.a])
    if b.k == "or":
        return core.Or([margin(x, d) for x in b.a])
    if b.k == "not" and b.a.k == "==":
        p = b.a.a
        m = {k: -v for k, v in p.items()}
        return core.Or([margin(SymBool("<", p), d), margin(SymBool("<", m), d)])
    return b


class _Alarm(Exception):
    pass


def _on_alarm(*a):
    raise _Alarm()


_REAL = {}


def real_rigeo():
    if "rg" not in _REAL:
        src = loader.REPO
        if src not in sys.path:
            sys.path.insert(0, src)
        import rigeo

        if not os.path.realpath(rigeo.__file__).startswith(os.path.realpath(src)):
            raise RuntimeError("imported rigeo from %s" % rigeo.__file__)
        import warnings

        warnings.filterwarnings("ignore")
        import numpy

        numpy.seterr(all="ignore")
        _REAL["rg"] = rigeo
    return _REAL["rg"]


def run_concrete(inst, values, rots=None, limit=60, ints=None, int_arrays=True):
    """('ok', nchecks) | ('skip', why) | ('fail', label, detail)"""
    rg = real_rigeo()
    o = dict(inst.opts)
    o["rots"] = rots
    o["ints"], o["int_arrays"] = ints, int_arrays
    c = ctxm.ConcCtx(rg, values, o)
    eng = core._E
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(limit)
    try:
        core.set_engine(None)
        inst.fn(c)
        return ("ok", c.nchecks, c.used)
    except ctxm.Skip as e:
        return ("skip", str(e), c.used)
    except ctxm.Failed as e:
        return ("fail", e.label, e.detail, c.used)
    except _Alarm:
        return ("skip", "timeout", c.used)
    except MemoryError:
        return ("skip", "memory", c.used)
    except Exception as e:
        nm = type(e).__name__
        if nm in ("SolverError", "DCPError") and "installed" not in str(e):
            if nm == "SolverError":
                return ("skip", "solver: " + str(e)[:80], c.used)
        tb = traceback.extract_tb(e.__traceback__)
        inrg = [f for f in tb if "/rigeo/" in f.filename]
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
        if not inrg:
            return ("skip", "harness error %s: %s at %s" % (nm, e, where), c.used)
        return ("fail", "exception", "%s: %s (in %s, at %s)" % (nm, str(e)[:160], inrg[-1].name, where), c.used)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        core.set_engine(eng)


QUATS = [
    (1, 0, 0, 0), (1, 2, 2, 4), (1, 1, 1, 1), (2, -1, 4, 2), (1, 1, 0, 0), (3, 1, -2, 1), (0, 1, 0, 0), (2, 3, 1, -1), (1, 0, 0, 1),
]


class Recorder:
    def __init__(self, inst, tier, deadline, known):
        self.inst = inst
        self.tier = tier
        self.deadline = deadline
        self.known = known
        self.known_hit = []
        self.obls = 0
        self.proved = 0
        self.undecided = []
        self.path_obls = 0
        self.rots = None
        self.violation = None
        self.cexq = 0
        self.giveup = 0

    def left(self):
        return self.deadline - time.time()

    def obligation(self, c, label, goal, ms):
        if self.left() < 0:
            raise Inconclusive("time limit of the instance reached at %s" % label)
        self.obls += 1
        self.path_obls += 1
        E = c.E
        r = E.prove(goal, min(ms, max(300, self.left() * 1000)))
        if r == "proved":
            self.proved += 1
            return
        info = self.counterexample(c, label, goal)
        if info is not None:
            if self.is_known(label):
                self.known_hit.append((self.inst.name, label, info))
                return
            raise Violation(info)
        if self.is_known(label):
            return
        self.undecided.append("%s: %s" % (label, r))
        if len(self.undecided) >= 4:
            raise Stop()

    def is_known(self, label):
        return any(k["instance"] == self.inst.name and label.startswith(k["label"]) for k in self.known)

    def counterexample(self, c, label, goal):
        """query the solver for a violating input and replay it on the real code."""
        E = c.E
        neg = ~goal
        pos = [E.varsym(i) for i, v in enumerate(E.vars) if v.kind == "input" and v.sign in ("+", ">=0")]
        plans = []
        big = Fraction(1, 20)
        plans.append((dict(bounds=10), [margin(neg, Fraction(1, 50))] + [p >= big for p in pos], 5000))
        plans.append((dict(bounds=10), [margin(neg, Fraction(1, 1000))], 5000))
        plans.append((dict(bounds=1000), [margin(neg, Fraction(1, 10**5))], 5000))
        plans.append((dict(), [neg], 8000))
        seen = 0
        skipped = 0
        qn = [n[:-2] for n in E.names if n.endswith(".w") and n[:-2] + ".z" in E.names]
        for kw, extra, ms in plans:
            if self.left() < 0:
                return None
            m = self.ask(E, extra, ms, kw, qn)
            if m == "unsat" and not kw:
                break
            if m is None or m == "unsat":
                continue
            seen += 1
            r = self.replay(m)
            if r[0] == "fail":
                return self.vio(label, m, r)
            skipped += 1
        return None

    def ask(self, E, extra, ms, kw, qn):
        m = E.model(extra, ms=ms, **kw)
        if m is not None:
            return m
        # too hard as it stands: fix the rotations to particular ones
        import random

        rnd = random.Random(core.SEED)
        for k in range(4):
            if self.left() < 0:
                return None
            fixed = {}
            for j, nm in enumerate(qn):
                q = QUATS[(k + 2 * j + 1) % len(QUATS)] if k else QUATS[0]
                n2 = sum(x * x for x in q)
                s = math.isqrt(n2)
                if s * s != n2:
                    q = (1, 2, 2, 4)
                    s = 5
                for ch, x in zip("wxyz", q):
                    fixed[nm + "." + ch] = Fraction(x, s)
            if k >= 2:
                for i, v in enumerate(E.vars):
                    if v.kind in ("input", "draw") and v.name not in fixed and rnd.random() < 0.5:
                        fixed[v.name] = Fraction(rnd.randint(1, 8) if v.sign else rnd.randint(-8, 8), rnd.choice([2, 3, 4]))
                        if v.kind == "draw":
                            fixed[v.name] = Fraction(rnd.randint(1, 9), 10)
            if not fixed:
                continue
            m = E.model(extra, ms=ms // 2, fixed=fixed, **kw)
            if m not in (None, "unsat"):
                return m
        return None

    def replay(self, m):
        return run_concrete(self.inst, m, rots=self.rots)

    def vio(self, label, m, r):
        return {
            "instance": self.inst.name,
            "obligation": label,
            "failed": r[1],
            "detail": r[2],
            "inputs": {k: _num(v) for k, v in r[3].items()},
            "values": {k: _num(v) for k, v in m.items()},
            "rots": self.rots,
        }


def _num(v):
    if isinstance(v, Fraction):
        return float(v)
    return v


# --------------------------------------------------------------------------
class Funcs:
    """functions of rigeo executed symbolically."""

    def __init__(self):
        self.names = set()
        self.tool = 3
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.tool, "symx")
        except ValueError:
            pass
        mon.register_callback(self.tool, mon.events.PY_START, self.cb)

    def cb(self, code, off):
        f = code.co_filename
        if "/rigeo/" in f:
            self.names.add(f.split("/rigeo/")[-1] + ":" + code.co_qualname)
        return sys.monitoring.DISABLE

    def on(self):
        sys.monitoring.set_events(self.tool, sys.monitoring.events.PY_START)

    def off(self):
        sys.monitoring.set_events(self.tool, 0)


def explore(inst, tier, wall, known=(), rots=None, code_cache=None):
    t0 = time.time()
    deadline = t0 + wall
    rec = Recorder(inst, tier, deadline, list(known))
    E = None
    rec.rots = rots
    opts = inst.opts
    max_paths = opts.get("max_paths", 400 if tier == "quick" else 4000)
    max_wit = opts.get("witnesses", 6 if tier == "quick" else 25)
    pending = [[]]
    res = dict(
        name=inst.name, status="ok", paths=0, transitions=0, forks=0, aborted=0, infeasible=0, obligations=0, proved=0,
        witnessed=0, validated=0, replay_skips=0, whole=0, samples=[], undecided=[], notes=[], cut_paths=0, poly_cuts=0, rots=rots,
    )
    st0 = dict(core.STATS.__dict__)
    funcs = Funcs()
    cache = code_cache if code_cache is not None else {}
    unwit = 0
    try:
        while pending:
            if res["paths"] + res["aborted"] >= max_paths:
                res["cut_paths"] = len(pending)
                res["notes"].append("bound: %d paths explored, %d pending prefixes left" % (max_paths, len(pending)))
                break
            if time.time() > deadline:
                raise Inconclusive("time limit")
            prefix = pending.pop()
            E = core.Engine(prefix, decide_ms=opts.get("decide_ms", 1500), max_int=opts.get("max_int", 6))
            core.set_engine(E)
            E.poly_cut = opts.get("poly_cut", True)
            E.round_sqrt = opts.get("fsqrt", False)
            E.symint = opts.get("symint", False)
            E.max_draws = opts.get("max_draws", 60)
            L = loader.Loader()
            L.code = cache
            rec.path_obls = 0
            pi = None
            if opts.get("np_pi"):
                E.pi()
            funcs.on()
            aborted = False
            try:
                c = ctxm.SymCtx(E, L, rec, dict(opts, rots=rots))
                inst.fn(c)
            except PathAbort:
                aborted = True
            except (Unsupported, Inconclusive, Violation, Stop):
                funcs.off()
                raise
            except Exception as e:
                funcs.off()
                # the code raised where the harness expects none
                tb = traceback.extract_tb(e.__traceback__)
                where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno)
                inrg = [f for f in tb if f.filename.startswith(loader.PKG)]
                label = "exception %s: %s at %s" % (type(e).__name__, str(e)[:120], where)
                if not inrg:
                    raise
                info = rec.counterexample(c, label, core.FALSE)
                if info is not None:
                    raise Violation(info)
                rec.undecided.append(label)
                if os.environ.get("SYMX_DEBUG"):
                    traceback.print_exc()
                raise Stop()
            finally:
                funcs.off()
            pending.extend(E.pending)
            res["transitions"] += len(E.trace)
            res["forks"] += sum(1 for v, f in E.trace if f)
            res["poly_cuts"] += E.cuts
            for n in E.notes:
                if n not in res["notes"]:
                    res["notes"].append(n)
            if aborted:
                res["aborted"] += 1
                continue
            res["paths"] += 1
            # witness: is the path reachable at all, and does the real code agree there
            if res["validated"] + res["replay_skips"] < max_wit and unwit < 12:
                m = witness(E, opts, rec)
                if m == "unsat":
                    res["infeasible"] += 1
                    continue
                if m is None:
                    unwit += 1
                    continue
                res["witnessed"] += 1
                r = rec.replay(m)
                if r[0] == "ok":
                    res["validated"] += 1
                    if len(res["samples"]) < 3:
                        res["samples"].append(
                            {
                                "instance": inst.name,
                                "decisions": "".join("01"[v] for v, f in E.trace if f)[:80],
                                "obligations_on_path": rec.path_obls,
                                "inputs": {k: (round(v, 6) if isinstance(v, float) else v) for k, v in list(r[2].items())[:24]},
                                "replay": "passed %d assertions on the real code" % r[1],
                            }
                        )
                elif r[0] == "skip":
                    res["replay_skips"] += 1
                    n = "replay skipped: " + str(r[1])
                    if n not in res["notes"]:
                        res["notes"].append(n)
                else:
                    if rec.is_known(r[1]):
                        rec.known_hit.append((inst.name, r[1], rec.vio(r[1], m, r)))
                    else:
                        raise Violation(rec.vio("replay of a solver witness", m, r))
        if rec.undecided:
            raise Stop()
        whole_numbers(inst, rec, res)
    except Violation as v:
        res["status"] = "violation"
        res["violation"] = v.info
    except Stop:
        res["status"] = "inconclusive"
        last_chance(E, opts, rec, res)
    except Unsupported as e:
        res["status"] = "inconclusive"
        last_chance(E, opts, rec, res)
        tb = traceback.extract_tb(e.__traceback__)
        inrg = [f for f in tb if f.filename.startswith(loader.PKG)]
        res["notes"].append("unsupported: %s (%s)" % (e, ["%s:%d" % (os.path.basename(f.filename), f.lineno) for f in inrg[-2:]] or [f"{f.name}:{f.lineno}" for f in tb[-4:]]))
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
    except Inconclusive as e:
        res["status"] = "inconclusive"
        last_chance(E, opts, rec, res)
        res["notes"].append(str(e))
    except MemoryError:
        res["status"] = "inconclusive"
        res["notes"].append("memory")
    except Exception as e:
        res["status"] = "inconclusive"
        res["notes"].append("error %s: %s" % (type(e).__name__, e))
        if os.environ.get("SYMX_DEBUG"):
            traceback.print_exc()
        else:
            res["notes"].append(traceback.format_exc()[-600:])
    finally:
        funcs.off()
        core.set_engine(None)
    res["obligations"] = rec.obls
    res["proved"] = rec.proved
    res["undecided"] = rec.undecided
    res["known"] = rec.known_hit
    if res["status"] == "ok" and rec.undecided:
        res["status"] = "inconclusive"
    if res["status"] == "ok" and (rec.obls == 0 or res["paths"] == 0):
        res["status"] = "inconclusive"
        res["notes"].append("vacuous: no obligation reached")
    if res["status"] == "ok" and res["witnessed"] == 0 and not opts.get("nowit"):
        res["status"] = "inconclusive"
        res["notes"].append("no path has a satisfiable witness")
    st1 = core.STATS.__dict__
    res["stats"] = {k: st1[k] - st0[k] for k in st1}
    res["functions"] = sorted(funcs.names)
    res["wall"] = time.time() - t0
    return res


def last_chance(E, opts, rec, res):
    """an undecided path: inputs on it (solver models of its hypotheses) may still fail on the real code."""
    if not hasattr(E, "hyps"):
        return
    core.set_engine(E)
    t0 = time.time()
    for k in range(8):
        if time.time() - t0 > 25:
            return
        try:
            m = witness(E, opts, rec) if k == 7 else generic_witness(E, k)
            if m in (None, "unsat"):
                continue
            r = rec.replay(m)
        except (PathAbort, Unsupported, Inconclusive):
            continue
        if r[0] == "fail" and not rec.is_known(r[1]):
            res["status"] = "violation"
            res["violation"] = rec.vio("input on an undecided path", m, r)
            return


ANGLES = [(3, 4, 5), (5, 12, 13), (-4, 3, 5), (-12, 5, 13), (8, 15, 17), (4, -3, 5)]


def generic(E, rnd, frac=1.0):
    """values in general position for (a part of) the inputs"""
    fixed = {}
    for nm in E.names:
        if nm.endswith(".w") and nm[:-2] + ".z" in E.names:
            q = rnd.choice([(1, 2, 2, 4), (2, -1, 4, 2), (4, 2, -1, 2), (2, 4, 1, -2), (-1, 2, 4, 2)])
            for ch, x in zip("wxyz", q):
                fixed[nm[:-1] + ch] = Fraction(x, 5)
        elif nm.endswith(".c") and nm[:-2] + ".s" in E.names:
            a, b, d = rnd.choice(ANGLES)
            fixed[nm] = Fraction(a, d)
            fixed[nm[:-1] + "s"] = Fraction(b, d)
    for v in E.vars:
        if v.name in fixed or v.kind not in ("input", "draw") or "[" in v.name:
            continue
        if rnd.random() > frac:
            continue
        if v.kind == "draw":
            fixed[v.name] = Fraction(rnd.randint(1, 15), 16)
        elif v.sign in ("+", ">=0"):
            fixed[v.name] = Fraction(rnd.randint(1, 24), 8)
        else:
            fixed[v.name] = Fraction(rnd.randint(-16, 16), 8)
    return fixed


def generic_witness(E, k, ms=1500):
    import random

    rnd = random.Random(core.SEED * 100 + k)
    for frac in (1.0, 0.8, 0.6, 0.4, 0.2, 0.0):
        fixed = generic(E, rnd, frac)
        if not fixed:
            continue
        m = E.model((), ms=ms, fixed=fixed, bounds=50)
        if m not in (None, "unsat"):
            return m
    return None


def witness(E, opts, rec):
    pos = [E.varsym(i) >= Fraction(1, 10) for i, v in enumerate(E.vars) if v.kind == "input" and v.sign in ("+", ">=0")]
    ms = opts.get("wit_ms", 2500)
    m = E.model(pos, ms=ms, bounds=8)
    if m in (None, "unsat"):
        m = E.model((), ms=ms, bounds=50)
    if m in (None, "unsat"):
        m2 = E.model((), ms=ms)
        if m2 == "unsat":
            return m2
        m = m2 if m is None or m == "unsat" else m
    if m is None or m == "unsat":
        # inputs only, with simple rotations
        import random

        rnd = random.Random(core.SEED)
        defs = 0
        for i, v in enumerate(E.vars):
            if v.kind in ("def", "intdef"):
                defs |= 1 << i
        keep = [h for h, hm in zip(E.hyps, E.hypmask) if not (core._varset(hm) & defs)]
        old = E.hyps
        try:
            E.hyps = keep
            m = E.model((), ms=ms, bounds=20)
            if m is None:
                fixed = {}
                for nm in E.names:
                    if nm.endswith(".w") and nm[:-2] + ".z" in E.names:
                        for ch, x in zip("wxyz", (1, 2, 2, 4)):
                            fixed[nm[:-1] + ch] = Fraction(x, 5)
                if fixed:
                    m = E.model((), ms=ms, fixed=fixed, bounds=20)
        finally:
            E.hyps = old
        if m == "unsat":
            m = None
    return m


def whole_numbers(inst, rec, res, limit=6.0, tries=14, enough=10):
    """The encoding has one kind of number; arrays have an element type.  The real code is run on whole numbers held in
    float arrays and on the same numbers held in integer arrays (all inputs, or all but some): where the first meets the
    property, so must the second."""
    res["whole"] = 0
    if rec.rots is not None or not inst.opts.get("whole", True):
        return
    end = min(time.time() + limit, max(rec.deadline, time.time() + 1))
    for k in range(tries):
        if res["whole"] >= enough or time.time() > end:
            break
        rots = FALLBACK_ROTS[k % 3] if k % 3 else None
        r = run_concrete(inst, {}, rots=rots, limit=6, ints=k, int_arrays=False)
        if r[0] != "ok":
            continue
        r = run_concrete(inst, {}, rots=rots, limit=6, ints=k)
        if r[0] == "ok":
            res["whole"] += 1
        elif r[0] == "fail" and not rec.is_known(r[1]):
            v = rec.vio("whole numbers in integer arrays", {}, r)
            v.update(rots=rots, ints=k)
            raise Violation(v)


FALLBACK_ROTS = [[QUATS[1], QUATS[3], QUATS[5]], [QUATS[0], QUATS[2], QUATS[7]], [QUATS[4], QUATS[0], QUATS[1]]]


def run_instance(inst, tier, wall, known):
    r = explore(inst, tier, wall, known)
    if r["status"] != "inconclusive" or not inst.opts.get("fallback", True):
        return r
    if any(n.startswith("unsupported") for n in r["notes"]):
        return r
    # smaller bound: particular rotations instead of all of them
    left = max(20.0, wall - r["wall"])
    parts = []
    for rots in FALLBACK_ROTS:
        p = explore(inst, tier, left / 3 + 10, known, rots=rots)
        parts.append(p)
        if p["status"] == "violation":
            p["notes"] = r["notes"] + p["notes"]
            return p
        if p["status"] != "ok" or not p.get("paths"):
            r["notes"].append("fallback undecided too: %s %s" % (p["undecided"], p["notes"]))
            return r
    out = parts[0]
    for k in ("paths", "transitions", "forks", "obligations", "proved", "witnessed", "validated", "replay_skips", "whole"):
        out[k] = sum(p[k] for p in parts)
    out["wall"] = r["wall"] + sum(p["wall"] for p in parts)
    out["reduced"] = True
    out["undecided"] = []
    out["notes"] = r["notes"] + ["reduced bound: rotations fixed to %d rational triples; undecided for all rotations: %s" % (len(parts), r["undecided"][:4])]
    out["status"] = "ok"
    return out
