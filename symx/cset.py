"""Sets described by cvxpy constraints: {value : exists aux. constraints(value, aux)}.

SymSet: the constraints are built by the real code on symbolic values; they can
be assumed (semidefinite constraints through instantiations z^T M z >= 0) or
shown to be satisfiable (by a witness for the auxiliary variables: candidates
come from the harness, the rest is solved from the linear equalities).
ConcSet: the same question put to the real cvxpy and its solver.
"""
import itertools

import numpy as np

from . import core, arr
from .arr import base
from .core import And, Or, Sym, SymBool, ZERO, ONE, TRUE, mkbool


def flat_eqs(b, eqs, rest):
    b = mkbool(b)
    if b.k == "and":
        for x in b.a:
            flat_eqs(x, eqs, rest)
    elif b.k == "==":
        eqs.append(b)
    elif b.k != "true":
        rest.append(b)


def sym_part(M):
    M = base(M)
    n = M.shape[0]
    o = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            o[i, j] = M[i, j] if i == j else (Sym.const(M[i, j]) + Sym.const(M[j, i])) / 2
    return o


def iszero(x):
    x = Sym.const(x)
    return not core.is_special(x) and x.isconst() and x.value() == 0


def det(M):
    n = len(M)
    if n == 0:
        return ONE
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    r = ZERO
    for j in range(n):
        if iszero(M[0][j]):
            continue
        sub = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = M[0][j] * det(sub)
        r = r + t if j % 2 == 0 else r - t
    return r


def quad(M, z):
    r = ZERO
    n = len(z)
    for i in range(n):
        for j in range(n):
            if iszero(z[i]) or iszero(z[j]):
                continue
            r = r + M[i, j] * z[i] * z[j]
    return Sym.const(r)


def psd_formula(M, decs=(), max_n=4):
    """formula implying (for max_n >= n: equivalent to) M >= 0, or None."""
    M = sym_part(M)
    n = M.shape[0]
    keep = [i for i in range(n) if not all(iszero(M[i, j]) for j in range(n))]
    if not keep:
        return TRUE
    for dec in decs:
        ok = True
        for i in range(n):
            for j in range(i, n):
                s = ZERO
                for w, u in dec:
                    s = s + w * u[i] * u[j]
                if not iszero(Sym.const(M[i, j]) - s):
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return And([Sym.const(w) >= 0 for w, u in dec])
    n = len(keep)
    K = [[Sym.const(M[i, j]) for j in keep] for i in keep]
    # rank one with a known pivot
    for p in range(n):
        if all(iszero(K[i][j] * K[p][p] - K[i][p] * K[j][p]) for i in range(n) for j in range(i, n)):
            d = [K[i][i] >= 0 for i in range(n)]
            if n == 1:
                return And(d)
            # pivot > 0: rank one.  pivot == 0: its column vanishes too, look at the rest
            return And(d + [Or([K[p][p] > 0, And([K[i][j] == 0 for i in range(n) for j in range(i, n)])])])
    if n > max_n:
        return None
    out = []
    for k in range(1, n + 1):
        for s in itertools.combinations(range(n), k):
            out.append(det([[K[i][j] for j in s] for i in s]) >= 0)
    return And(out)


class SymSet:
    def __init__(self, c, builder, values):
        from . import cpshim

        self.c = c
        E = core._E
        R = cpshim._reg()
        n0 = len(R.vars)
        vs = [cpshim.C(arr.A(v)) if isinstance(v, (list, np.ndarray)) else v for v in values]
        cons = builder(*vs)
        if not isinstance(cons, (list, tuple)):
            cons = [cons]
        self.load(cons, R.vars[n0:])

    def load(self, cons, aux):
        from . import cpshim

        self.aux = aux
        self.eqs, self.rest, self.psds = [], [], []
        self.mateqs = []
        for x in cons:
            if isinstance(x, cpshim.Con):
                if x.diff is not None:
                    self.mateqs.append(x.diff)
                if x.kind == "psd":
                    self.psds.append(sym_part(x.data))
                else:
                    flat_eqs(x.formula(), self.eqs, self.rest)
            elif isinstance(x, np.ndarray):
                flat_eqs(And([mkbool(arr.cv(y)) for y in x.view(np.ndarray).ravel()]), self.eqs, self.rest)
            else:
                flat_eqs(mkbool(x), self.eqs, self.rest)
        self.vars = []
        for v in self.aux:
            b = v.arr.view(np.ndarray)
            for e in b.ravel():
                for i in core.pvars(e.num):
                    if i not in self.vars:
                        self.vars.append(i)
            if v.attrs.get("PSD"):
                self.psds.append(sym_part(b))
            if v.attrs.get("nonneg"):
                for e in b.ravel():
                    self.rest.append(Sym.const(e) >= 0)
        self.n_con = len(cons)

    # -- linear elimination of auxiliary variables
    def solve_linear(self, m, eqs, candidates):
        from . import cpshim

        eqs = list(eqs)
        free = set(candidates)
        new = {}
        progress = True
        while progress and free:
            progress = False
            for k, q in enumerate(eqs):
                if q is None or q.k != "==":
                    continue
                p = q.a
                vs = [i for i in core.pvars(p) if i in free]
                for i in vs:
                    ms = [mo for mo in p if any(j == i for j, _ in core.mono_items(mo))]
                    if len(ms) != 1 or core.mono_items(ms[0]) != [(i, 1)]:
                        continue
                    co = p[ms[0]]
                    rest = {mo: -x for mo, x in p.items() if mo != ms[0]}
                    val = Sym(rest) / co if rest else ZERO
                    step = {i: val}
                    fs = cpshim.subst_fn(step)
                    for kk in new:
                        if i in core.pvars(new[kk].num):
                            new[kk] = fs(new[kk])
                    new[i] = val
                    free.discard(i)
                    for n2 in range(len(eqs)):
                        e2 = eqs[n2]
                        if e2 is not None and n2 != k and e2.k == "==" and i in core.pvars(e2.a):
                            e2 = fs.b(e2)
                            eqs[n2] = None if e2.k == "true" else e2
                    eqs[k] = None
                    progress = True
                    break
        return new, [e for e in eqs if e is not None]

    # -- hypothesis
    def assume(self, zs=None, ws=None, solve_for=()):
        """solve_for: symbols of the harness to be expressed by the auxiliary
        variables; the substitution is returned.
        zs(M): vectors z for which z^T M z >= 0 is instantiated, for each
        semidefinite M.  ws(D): vectors; y^T D z == 0 is instantiated for all
        pairs instead of the single equations of a matrix equation D == 0."""
        from . import cpshim

        E = core._E
        skip = set()
        for D in self.mateqs if ws else ():
            vs = ws(D)
            if not vs:
                continue
            for x in D.ravel():
                b = Sym.const(x) == ZERO
                if isinstance(b, SymBool):
                    skip.add(core._bkey(b))
            for y in vs:
                for z in vs:
                    t = ZERO
                    for i in range(D.shape[0]):
                        for j in range(D.shape[1]):
                            t = t + Sym.const(y[i]) * D[i, j] * z[j]
                    E.assume_(t == ZERO)
        if skip:
            self.eqs = [q for q in self.eqs if core._bkey(q) not in skip]
        first = {}
        eqs = self.eqs
        if len(solve_for):
            ids = [core.pvars(Sym.const(x).num)[0] for x in base(solve_for).ravel()]
            first, eqs = self.solve_linear({}, eqs, ids)
        new, eqs = self.solve_linear({}, eqs, self.vars)
        if first:
            f1 = cpshim.subst_fn(new)
            first = {i: f1(v) for i, v in first.items()}
            new = dict(new)
            new.update(first)
        fs = cpshim.subst_fn(new)
        for q in eqs:
            E.assume_(fs.b(q) if first else q)
        for q in self.rest:
            E.assume_(fs.b(q) if new else q)
        self.hyp_psds = []
        for M in self.psds:
            M0 = M
            n = M.shape[0]
            if new:
                N = np.empty_like(M)
                for ix in np.ndindex(*M.shape):
                    N[ix] = fs(Sym.const(M[ix]))
                M = N
            self.hyp_psds.append(M)
            for i in range(n):
                E.assume_(Sym.const(M[i, i]) >= 0)
            if n <= 4 and zs is None:
                for i in range(n):
                    for j in range(i):
                        E.assume_(M[i, i] * M[j, j] >= M[i, j] * M[i, j])
            for z in (zs(M0) if zs else ()):
                E.assume_(quad(M, [Sym.const(x) for x in z]) >= 0)
        return fs

    # -- obligation
    def goals(self, hint, decs):
        """list of (name, formula) for one candidate witness; None if unusable."""
        from . import cpshim

        m = {}
        for info, val in zip(self.aux, hint):
            if val is None:
                continue
            b = info.arr.view(np.ndarray)
            v = base(val)
            if b.shape != v.shape:
                return None
            for ix in np.ndindex(*b.shape):
                e = b[ix]
                i = core.pvars(e.num)
                if len(i) == 1:
                    m[i[0]] = Sym.const(v[ix])
        fs = cpshim.subst_fn(m)
        eqs = []
        for q in self.eqs:
            r = fs.b(q) if any(i in m for i in core.pvars(q.a)) else q
            flat_eqs(r, eqs, eqs)
        rest = [i for i in self.vars if i not in m]
        new, eqs = self.solve_linear(m, eqs, rest)
        for i in rest:
            if i not in new:
                new[i] = ZERO
        if new:
            # leftovers set to zero may occur in solved ones
            f0 = cpshim.subst_fn({i: ZERO for i in rest if new[i] is ZERO or iszero(new[i])})
            new = {i: (f0(v) if not iszero(v) else ZERO) for i, v in new.items()}
            eqs = [f0.b(q) for q in eqs]
        m.update(new)
        self.last_map = m
        fs = cpshim.subst_fn(m)
        out = [("equality", q) for q in eqs]
        for q in self.rest:
            out.append(("inequality", fs.b(q)))
        for M in self.psds:
            N = np.empty_like(M)
            for ix in np.ndindex(*M.shape):
                N[ix] = fs(Sym.const(M[ix]))
            f = psd_formula(N, decs(N.shape[0]) if decs else ())
            if f is None:
                return None
            out.append(("semidefinite %d" % N.shape[0], f))
        return out

    def admit(self, label, hints=None, decs=None, ms=None):
        c = self.c
        E = core._E
        ms = ms or c.ms
        cands = []
        hs = hints(self.aux) if hints else [[None] * len(self.aux)]
        worst = None
        for h in hs:
            g = self.goals(h, decs)
            if g is None:
                continue
            bad = None
            for nm, f in g:
                if E.prove(f, ms) != "proved":
                    bad = (nm, f)
                    break
            if bad is None:
                c.rec.obls += len(g)
                c.rec.proved += len(g)
                c.rec.path_obls += len(g)
                if not g:
                    c.rec.obligation(c, label, TRUE, ms)
                return self.last_map
            worst = worst or bad
        if worst is None:
            raise core.Inconclusive("no usable witness for %s" % label)
        c.rec.obligation(c, label + " (%s)" % worst[0], worst[1], ms)


class Solved(SymSet):
    """The last problem handed to the solver.  Contract of the solver: its answer
    is feasible, and its objective is no worse than that of any feasible point."""

    def __init__(self, c):
        from . import cpshim

        self.c = c
        R = cpshim._reg()
        if not R.problems:
            raise core.Inconclusive("no optimisation problem was solved")
        self.problem = R.problems[-1]
        self.load(self.problem.constraints, self.problem.variables_snapshot)
        self.base_eqs = list(self.eqs)

    def info(self, result):
        """the variable a result is the value of"""
        from . import cpshim

        r = base(result).ravel()
        for v in self.aux:
            b = cpshim.in_eig(v.arr).view(np.ndarray).ravel()
            if len(b) == len(r) and all(iszero(Sym.const(x) - y) for x, y in zip(b, r)):
                return v
        return None

    def values(self):
        """[(info, value)] of the variables"""
        from . import cpshim

        return [(v, cpshim.in_eig(v.arr).view(arr.SArr)) for v in self.aux]

    def feasible(self, zs=None):
        from . import cpshim

        E = core._E
        known = [base(v.arr) for v in self.aux if getattr(v, "eig", None)]
        out = []
        for M in self.psds:
            n = M.shape[0]
            if any(k.shape == M.shape and arr._same(k, M) for k in known):
                continue
            M = base(cpshim.in_eig(M))
            for i in range(n):
                E.assume_(Sym.const(M[i, i]) >= 0)
            if n <= 4 and zs is None:
                f = psd_formula(M)
                if f is not None:
                    E.assume_(f)
            for z in (zs(M) if zs else ()):
                q = quad(M, [Sym.const(x) for x in z])
                out.append(q)
                E.assume_(q >= 0)
        return out

    def compete(self, label, pairs, hints=None, decs=None, ms=None):
        """the point at which the results take the given values is feasible
        (obligation), so the answer is at least as good (contract)"""
        from . import cpshim

        E = core._E
        self.eqs = list(self.base_eqs)
        for a, b in pairs:
            a, b = base(a), base(b)
            for x, y in zip(a.ravel(), b.ravel()):
                flat_eqs(Sym.const(x) == Sym.const(y), self.eqs, self.rest)
        m = self.admit(label, hints, decs, ms)
        self.eqs = list(self.base_eqs)
        if m is None:
            return None
        fs = cpshim.subst_fn(m)
        ob = self.problem.objective
        if isinstance(ob.expr, cpshim.Opaque):
            ts = ob.expr.terms
            if len(ts) == 1 and ts[0][0].isconst():
                co, _, M = ts[0]
                N = np.empty_like(base(M))
                for ix in np.ndindex(*N.shape):
                    N[ix] = fs(Sym.const(base(M)[ix]))
                here, there = arr.det(base(cpshim.in_eig(M))), arr.det(N)
                # the logarithm is increasing
                E.add_hyp(here <= there if ob.sense * co.value() > 0 else there <= here)
            return fs
        fe = cpshim.eig_fn()
        here, there = fe(ob.expr) if fe else ob.expr, fs(ob.expr)
        E.add_hyp(here <= there if ob.sense > 0 else there <= here)
        return fs


class ConcSolved:
    """numbers: the real solver has done its work"""

    aux = ()

    def tri(self):
        return None

    def feasible(self, zs=None):
        pass

    def info(self, result):
        return None

    def compete(self, label, pairs, hints=None, decs=None, ms=None):
        pass


class ConcSet:
    def __init__(self, c, builder, values):
        self.c = c
        self.builder = builder
        self.values = [np.asarray(v, dtype=float) for v in values]
        self._d = None

    def dist(self):
        """distance of the values to the set in the max norm; inf if empty; None if undecided"""
        if self._d is not None:
            return self._d[0]
        import cvxpy as cp

        xs = [cp.Variable(v.shape) for v in self.values]
        cons = self.builder(*xs)
        cons = list(cons) if isinstance(cons, (list, tuple)) else [cons]
        t = cp.Variable()
        extra = [cp.abs(x - v) <= t for x, v in zip(xs, self.values)]
        pr = cp.Problem(cp.Minimize(t), cons + extra)
        try:
            pr.solve(solver=cp.CLARABEL)
        except cp.SolverError:
            # numbers that are not finite can be met by nothing
            d = pr.get_problem_data(cp.CLARABEL)[0]
            ok = all(np.isfinite(x).all() for x in (d["A"].data, d["b"]))
            self._d = (None,) if ok else (float("inf"),)
            return self._d[0]
        if pr.status in ("optimal", "optimal_inaccurate"):
            self._d = (max(0.0, float(pr.value)),)
        elif pr.status == "infeasible":
            self._d = (float("inf"),)
        else:
            self._d = (None,)
        return self._d[0]

    def tri(self):
        d = self.dist()
        sc = max([1.0] + [float(np.max(np.abs(v))) for v in self.values if v.size])
        if d is None:
            return None
        if d <= 1e-6 * sc:
            return True
        return False if d >= 1e-3 * sc or d == float("inf") else None
