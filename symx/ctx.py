"""Harness contexts.  A harness is one Python function `h(c)` that is executed
symbolically (SymCtx: inputs are solver variables, obligations are proved for
all of them) and concretely (ConcCtx: inputs come from a solver model, the real
package with the real numpy / cvxpy / pycddlib is called)."""
import math
import random as _pyrandom
from fractions import Fraction

import numpy as np

from . import core, arr, stubs
from .core import Sym, SymBool, mkbool, And, Or, Not, Iff, Implies


class Skip(BaseException):
    """Concrete run leaves the assumed region (or sits on a boundary)."""


class Failed(BaseException):
    def __init__(self, label, detail):
        self.label = label
        self.detail = detail


class Ctx:
    sym = None

    def vec(self, name, n, sign=None, **k):
        return self.arr([self.real("%s%d" % (name, i), sign, **k) for i in range(n)])

    def mat(self, name, r, q, **k):
        return self.arr([[self.real("%s%d%d" % (name, i, j), **k) for j in range(q)] for i in range(r)])

    def symmat(self, name, n, **k):
        M = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                M[i][j] = M[j][i] = self.real("%s%d%d" % (name, i, j), **k)
        return self.arr(M)

    def rotn(self, name, n):
        if n == 1:
            return self.arr([[1]])
        if n == 2:
            return self.rot2(name)
        if n == 3:
            return self.rot(name)
        return self.rot4(name)

    def rot4(self, name):
        """rotation of R^4: left times right unit quaternion"""
        p, q = self.quat(name + "l"), self.quat(name + "r")
        a, b, c, d = p
        L = self.arr([[a, -b, -c, -d], [b, a, -d, c], [c, d, a, -b], [d, -c, b, a]])
        a, b, c, d = q
        R = self.arr([[a, -b, -c, -d], [b, a, d, -c], [c, -d, a, b], [d, c, -b, a]])
        return L @ R

    def eig(self, M, w, V):
        """tell the eigen-solver contract that M == V diag(w) V^T"""

    def eig_direction(self, z):
        """Rayleigh quotient of z bounds the eigenvalues of matrices of its size"""

    def eig_factor(self, U, d):
        """the eigenvalues of U diag(d) U^T are d-weighted sums of squares"""

    def frame(self, F, r):
        """tell the orth/null-space contract about the orthogonal matrix F"""

    def check_sos(self, label, q, cands=()):
        """q >= 0; a candidate [(w, s), ...] with w >= 0 and q == sum w s^2 settles it."""
        if self.sym:
            for cand in cands:
                t = 0
                for w, x in cand:
                    t = t + w * x * x
                if self.E.prove(self.same(q, t), 2000) == "proved" and all(self.E.prove(self.le(0, w), 2000) == "proved" for w, _ in cand):
                    self.check(label, self.lor(self.same(q, t), self.le(0, q)))
                    return
        self.check(label, self.lor(self.le(0, q), self.same(q, 0)))

    def check_all(self, label, conds):
        for i, x in enumerate(conds):
            self.check("%s[%d]" % (label, i), x)


# --------------------------------------------------------------------------
class SymCtx(Ctx):
    sym = True

    def __init__(self, E, loader, rec, opts):
        self.E = E
        self.L = loader
        self.rg = loader.load("rigeo")
        self.np = loader.np
        self.cp = loader.cp
        self.rec = rec
        self.opts = opts
        self.ms = opts.get("ms", 8000)
        self.rots = opts.get("rots")  # fallback: concrete rotations
        self.inputs = []
        self.nchecks = 0
        self.solver = None

    def mod(self, name):
        return self.L.load(name)

    # -- inputs
    def arr(self, x):
        return arr.A(x)

    def const(self, x):
        return Sym.const(x)

    def real(self, name, sign=None, lo=None, hi=None):
        v = self.E.real(name, sign)
        self.inputs.append(name)
        if lo is not None:
            self.E.add_hyp(v >= lo)
        if hi is not None:
            self.E.add_hyp(v <= hi)
        return v

    def pos(self, name, lo=None, **k):
        return self.real(name, "+", lo=lo, **k)

    def nonneg(self, name):
        return self.real(name, ">=0")

    def integer(self, name, lo=None, hi=None):
        v = self.E.real(name, kind="int")
        self.inputs.append(name)
        if lo is not None:
            self.E.add_hyp(v >= lo)
        if hi is not None:
            self.E.add_hyp(v <= hi)
        return v

    def rot(self, name):
        if self.rots is not None:
            q = self.rots[len(self.E.__dict__.setdefault("rot_used", [])) % len(self.rots)]
            self.E.rot_used.append((name, q))
            return arr.A(_quat(q))
        self.inputs += ["%s.%s" % (name, x) for x in "wxyz"]
        return stubs.quat_rotation(name)

    def quat(self, name):
        if self.rots is not None:
            q = self.rots[len(self.E.__dict__.setdefault("rot_used", [])) % len(self.rots)]
            self.E.rot_used.append((name, q))
            s = math.isqrt(sum(x * x for x in q))
            if s * s != sum(x * x for x in q):
                q, s = (1, 2, 2, 4), 5
            return [Sym.const(Fraction(x, s)) for x in q]
        self.inputs += ["%s.%s" % (name, x) for x in "wxyz"]
        return stubs.unit_quat(name)

    def eig(self, M, w, V):
        arr.register_eig(M, w, V)

    def eig_direction(self, z):
        self.E.__dict__.setdefault("eig_dirs", []).append([Sym.const(x) for x in z])
        self.E.eig_light = True

    def eig_factor(self, U, d):
        self.E.__dict__.setdefault("eig_factors", []).append((arr.A(U), [Sym.const(x) for x in d]))
        self.E.eig_light = True

    def frame(self, F, r):
        self.E.__dict__.setdefault("frames", []).append((arr.A(F), r))

    def rot2(self, name):
        self.inputs += [name + ".c", name + ".s"]
        return stubs.rot2(name)

    def rng(self, stream, counts=None):
        g = stubs.Rng(stream)
        g.counts = counts
        return g

    # -- logic
    def assume(self, b):
        if isinstance(b, np.ndarray):
            b = self._all(b)
        self.E.assume_(b)

    def _all(self, b):
        if isinstance(b, np.ndarray):
            return And([mkbool(arr.cv(x)) for x in b.view(np.ndarray).ravel()])
        if isinstance(b, (list, tuple)):
            return And([self._all(x) for x in b])
        return mkbool(b)

    def cond(self, b):
        return bool(self._all(b))

    def land(self, *xs):
        return And([self._all(x) for x in xs])

    def lor(self, *xs):
        return Or([self._all(x) for x in xs])

    def lnot(self, x):
        return Not(self._all(x))

    def le(self, a, b):
        return mkbool(Sym.const(_sc(a)) <= _sc(b))

    def lt(self, a, b):
        return mkbool(Sym.const(_sc(a)) < _sc(b))

    def same(self, a, b):
        return mkbool(Sym.const(_sc(a)) == _sc(b))

    def allsame(self, a, b):
        a, b = arr.A(a), arr.A(b)
        if a.shape != b.shape:
            return core.FALSE
        return And([self.same(x, y) for x, y in zip(a.view(np.ndarray).ravel(), b.view(np.ndarray).ravel())])

    def sqrt(self, x):
        return self.E.sqrt(x)

    @property
    def pi(self):
        return self.E.pi()

    def absv(self, x):
        return abs(Sym.const(_sc(x)))

    # -- obligations
    def check(self, label, b, ms=None):
        self.rec.obligation(self, label, self._all(b), ms or self.ms)

    def eq(self, label, a, b, tol=None, atol=None):
        a = arr.A(a) if not isinstance(a, Sym) else a
        b = arr.A(b) if not isinstance(b, Sym) else b
        if isinstance(a, Sym):
            a = arr.A(a)
        if isinstance(b, Sym):
            b = arr.A(b)
        if a.shape != b.shape:
            self.rec.obligation(self, label + ".shape%s!=%s" % (a.shape, b.shape), core.FALSE, self.ms)
            return
        for ix in np.ndindex(*a.shape):
            x, y = arr.cv(a.view(np.ndarray)[ix]), arr.cv(b.view(np.ndarray)[ix])
            if core.is_special(x) or core.is_special(y):
                ok = core.is_special(x) and core.is_special(y) and (x == y)
                self.rec.obligation(self, "%s%s special %r vs %r" % (label, list(ix), x, y), mkbool(ok), self.ms)
                continue
            if isinstance(x, (SymBool, bool)) or isinstance(y, (SymBool, bool)):
                self.rec.obligation(self, "%s%s" % (label, list(ix)), Iff(x, y), self.ms)
                continue
            self.rec.obligation(self, "%s%s" % (label, list(ix) if ix else ""), mkbool(x == y), self.ms)

    def iff(self, label, a, b, ms=None):
        a, b = self._all(a), self._all(b)
        self.rec.obligation(self, label + " =>", Implies(a, b), ms or self.ms)
        self.rec.obligation(self, label + " <=", Implies(b, a), ms or self.ms)

    def implies(self, label, a, b, ms=None):
        self.rec.obligation(self, label, Implies(self._all(a), self._all(b)), ms or self.ms)

    def lemma(self, b, ms=None):
        """Proof hint: used only if it is itself proved."""
        b = self._all(b)
        if self.E.prove(b, ms or 3000) == "proved":
            self.E.add_hyp(b)
            return True
        return False

    def product(self, *fs, ms=None):
        """Proof hint: the product of factors that are proved nonnegative is nonnegative."""
        p = core.ONE
        for f in fs:
            f = Sym.const(_sc(f))
            if self.E.prove(f >= 0, ms or 3000) != "proved":
                return False
            p = p * f
        self.E.add_hyp(mkbool(p >= 0))
        return True

    def raises(self, label, f, *exc):
        try:
            f()
        except core.Unsupported:
            raise
        except exc:
            self.rec.obligation(self, label, core.TRUE, self.ms)
            return True
        except Exception as e:
            self.rec.obligation(self, label + ": raised %s" % type(e).__name__, core.FALSE, self.ms)
            return False
        self.rec.obligation(self, label + ": accepted", core.FALSE, self.ms)
        return False

    # -- sets given by cvxpy constraints
    def cset(self, builder, *values):
        from . import cset

        return cset.SymSet(self, builder, values)

    def solved(self):
        from . import cset

        return cset.Solved(self)

    def solver_infeasible(self):
        """from here on the solver finds its problems infeasible"""
        from . import cpshim

        cpshim._reg().solver = lambda p: False

    def eigmode(self, lo=None, hi=None):
        """solver variables declared PSD are V diag(w) V^T, V orthogonal (and lo <= w <= hi if the objective has their log-determinant)"""
        from . import cpshim

        cpshim._reg().eigmode = True
        cpshim._reg().eig_lo = None if lo is None else Sym.const(lo)
        cpshim._reg().eig_hi = None if hi is None else Sym.const(hi)

    def bases(self):
        """what the range-basis contract has returned so far"""
        return list(self.E.__dict__.get("bases", []))

    def solver_used(self):
        """the solver the last problem was given to"""
        from . import cpshim

        return cpshim._reg().last_solver

    def accepted(self, K, zs=None, ws=None, solve_for=()):
        """assume that the constraints are satisfiable at K's values"""
        fs = K.assume(zs, ws, solve_for)

        def f(x):
            if isinstance(x, np.ndarray):
                o = np.empty(x.shape, dtype=object)
                for ix in np.ndindex(*x.shape):
                    o[ix] = fs(Sym.const(x.view(np.ndarray)[ix]))
                return arr.A(o)
            return fs(Sym.const(x))

        return f

    def admitted(self, label, K, hints=None, decs=None, ms=None):
        """obligation: the constraints are satisfiable at K's values"""
        K.admit(label, hints, decs, ms)

    def iff_admitted(self, label, K, cond, decs=None):
        """obligation: a constraint set without auxiliary variables accepts exactly cond"""
        if K.vars:
            raise core.Inconclusive("auxiliary variables")
        from .cset import psd_formula

        fs = list(K.eqs) + list(K.rest)
        for M in K.psds:
            f = psd_formula(M)
            if f is None:
                raise core.Unsupported("semidefinite constraint too large")
            fs.append(f)
        self.iff(label, And(fs), cond)

    def note(self, **k):
        pass

    def array_eq_exact(self, label, a, b):
        self.eq(label, a, b)

    def shape(self, label, a, shp):
        s = tuple(getattr(a, "shape", ()))
        if s != tuple(shp):
            self.rec.obligation(self, "%s shape %s, expected %s" % (label, s, tuple(shp)), core.FALSE, self.ms)
        else:
            self.rec.obligation(self, label + " shape", core.TRUE, self.ms)


def _sc(x):
    if isinstance(x, np.ndarray):
        return arr.cv(x.item() if x.size == 1 else x)
    return x


def _quat(q):
    w, x, y, z = [Fraction(t) for t in q]
    n = w * w + x * x + y * y + z * z
    s = 2 / n
    return [
        [1 - s * (y * y + z * z), s * (x * y - w * z), s * (x * z + w * y)],
        [s * (x * y + w * z), 1 - s * (x * x + z * z), s * (y * z - w * x)],
        [s * (x * z - w * y), s * (y * z + w * x), 1 - s * (x * x + y * y)],
    ]


# --------------------------------------------------------------------------
class Tri:
    """True / False / None (too close to a boundary to tell in floats)."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        if self.v is None:
            raise Skip("boundary")
        return bool(self.v)

    def __and__(self, o):
        return tand(self, o)

    def __or__(self, o):
        return tor(self, o)

    __rand__ = __and__
    __ror__ = __or__

    def __invert__(self):
        return Tri(None if self.v is None else not self.v)


def _t(x):
    if isinstance(x, Tri):
        return x.v
    if isinstance(x, np.ndarray):
        return bool(np.all(x))
    if isinstance(x, (list, tuple)):
        return tand(*x).v
    return bool(x)


def tand(*xs):
    vs = [_t(x) for x in xs]
    if any(v is False for v in vs):
        return Tri(False)
    return Tri(None) if any(v is None for v in vs) else Tri(True)


def tor(*xs):
    vs = [_t(x) for x in xs]
    if any(v is True for v in vs):
        return Tri(True)
    return Tri(None) if any(v is None for v in vs) else Tri(False)


class FakeGen(np.random.Generator):
    """A numpy Generator whose draws are the values of a solver model."""

    def __init__(self, stream, vals):
        super().__init__(np.random.PCG64(12345))
        self._s = stream
        self._v = vals
        self._k = 0
        self._py = _pyrandom.Random(7)
        self.counts_ = None
        self.used = False

    def _take(self, size, dflt):
        if size is None:
            shape = ()
        elif np.isscalar(size):
            shape = (int(size),)
        else:
            shape = tuple(int(s) for s in size)
        k = self._k
        self._k += 1
        n = int(np.prod(shape)) if shape else 1
        out = []
        for i in range(n):
            nm = "%s.%d.%d" % (self._s, k, i)
            v = self._v.get(nm)
            out.append(float(v) if v is not None else dflt())
        return out[0] if shape == () else np.array(out).reshape(shape)

    def random(self, size=None, dtype=float, out=None):
        r = self._take(size, self._py.random)
        return np.clip(r, 0.0, np.nextafter(1.0, 0)) if not np.isscalar(r) else min(max(r, 0.0), 1 - 1e-16)

    def uniform(self, low=0.0, high=1.0, size=None):
        if np.ndim(low) or np.ndim(high):
            if size is None:
                size = np.broadcast(low, high).shape
            return np.asarray(low) + self.random(size) * (np.asarray(high) - np.asarray(low))
        # constant bounds: the model gives the drawn value itself
        r = self._take(size, lambda: self._py.uniform(float(low), float(high)))
        lo, hi = float(low), float(high)
        if np.isscalar(r):
            return r if lo <= r <= hi else lo + r * (hi - lo)
        ok = (r >= min(lo, hi)) & (r <= max(lo, hi))
        return r if ok.all() else lo + r * (hi - lo)

    def normal(self, loc=0.0, scale=1.0, size=None):
        r = self._take(size, lambda: self._py.gauss(0, 1))
        return loc + scale * (np.asarray(r) if not np.isscalar(r) else r)

    def standard_normal(self, size=None, dtype=float, out=None):
        return self.normal(size=size)

    def multivariate_normal(self, mean, cov, size=None, **k):
        n = len(mean)
        shape = (n,) if size is None else ((size, n) if np.isscalar(size) else tuple(size) + (n,))
        return self._take(shape, lambda: self._py.gauss(0, 1))

    def exponential(self, scale=1.0, size=None):
        return scale * self._take(size, lambda: self._py.expovariate(1))

    def _pick(self, nm, n):
        v = self._v.get(nm)
        if v is None:
            return self._py.randrange(n)
        v = int(round(float(v)))
        return min(max(v, 0), n - 1)

    def multinomial(self, n, pvals, size=None):
        n = int(n)
        k = self._k
        self._k += 1
        if self.counts_ is not None and len(self.counts_) == len(pvals) and sum(self.counts_) == n:
            self.used = True
            return np.array(self.counts_, dtype=int)
        counts = np.zeros(len(pvals), dtype=int)
        last = 0
        for i in range(n):
            nm = "%s.%d.%d" % (self._s, k, i)
            c = last + self._pick(nm, len(pvals) - last) if nm in self._v else self._pick("?", len(pvals))
            last = min(c, len(pvals) - 1)
            while pvals[last] <= 0 and last < len(pvals) - 1:
                last += 1
            counts[last] += 1
        return counts

    def shuffle(self, x, axis=0):
        nm = "%s.%d.perm" % (self._s, self._k)
        self._k += 1
        if len(x) == 2 and float(self._v.get(nm, 0)) >= 0.5:
            x[:] = np.array(x)[[1, 0]] if isinstance(x, np.ndarray) else [x[1], x[0]]

    def permutation(self, x, axis=0):
        nm = "%s.%d.perm" % (self._s, self._k)
        self._k += 1
        n = int(x) if np.isscalar(x) else len(x)
        p = list(range(n))
        if n == 2 and float(self._v.get(nm, 0)) >= 0.5:
            p = [1, 0]
        return np.array(p) if np.isscalar(x) else x[p]

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high += 1
        r = self._take(size, lambda: self._py.randrange(int(high) - int(low)))
        r = np.clip(np.rint(r).astype(int) if not np.isscalar(r) else int(round(r)), 0, int(high) - int(low) - 1) + int(low)
        return r

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if np.isscalar(a) else len(a)
        r = self._take(size, lambda: self._py.randrange(n))
        idx = np.clip(np.rint(np.asarray(r)).astype(int), 0, n - 1)
        if p is not None:
            ok = [i for i in range(n) if p[i] > 0]
            idx = np.asarray(ok)[np.clip(idx, 0, len(ok) - 1)]
        return idx if np.isscalar(a) else np.asarray(a)[idx]


class ConcCtx(Ctx):
    sym = False
    RTOL = 1e-7
    MARGIN = 1e-9

    def __init__(self, rg, values, opts=None):
        import cvxpy

        self.rg = rg
        self.np = np
        self.cp = cvxpy
        self.values = values
        self.opts = opts or {}
        self.used = {}
        self.solver = cvxpy.CLARABEL
        self.nchecks = 0
        self.rtol = self.opts.get("ctol", self.RTOL)
        self.margin = self.opts.get("cmargin", self.MARGIN)
        self.rots = self.opts.get("rots")
        # whole-number inputs held in integer arrays
        self.ints = self.opts.get("ints")
        self._array = False
        self._rotn = 0

    def mod(self, name):
        import importlib

        return importlib.import_module(name)

    def arr(self, x):
        if self.ints is not None and self.opts.get("int_arrays", True):
            r = np.array(x, order="F")
            if r.dtype.kind == "i":
                return r
        return np.array(x, dtype=float)

    def const(self, x):
        if self.ints is not None and self.opts.get("int_arrays", True) and x == int(x):
            return int(x)
        return float(x)

    def _whole(self, f, name, a, k):
        old = self._array
        # kinds of mixture: all whole; arrays only; every other array
        self._array = self.ints is not None and (self.ints % 4 < 2 or hash_name(name) % 2 == self.ints % 2)
        try:
            return f(name, *a, **k)
        finally:
            self._array = old

    def vec(self, name, *a, **k):
        return self._whole(super().vec, name, a, k)

    def mat(self, name, *a, **k):
        return self._whole(super().mat, name, a, k)

    def symmat(self, name, *a, **k):
        return self._whole(super().symmat, name, a, k)

    def _val(self, name, dflt):
        v = self.values.get(name)
        v = dflt if v is None else float(v)
        self.used[name] = v
        return v

    def real(self, name, sign=None, lo=None, hi=None):
        if self.ints is not None:
            low = 1 if sign == "+" else 0 if sign == ">=0" else -4
            low = max(low, math.ceil(lo)) if lo is not None else low
            high = max(low, 0) + 4
            high = min(high, math.floor(hi)) if hi is not None else high
            if low <= high:
                g = _pyrandom.Random("%d/%s" % (self.ints, name))
                v = g.randint(low, high)
                if self.ints % 4 and low < high and not self._array and (self.ints < 4 or hash_name(name.rstrip("0123456789") * 3) // 7 % 2 == self.ints // 4 % 2):
                    v = min(v, high - 1) + 0.375
                self.used[name] = v
                return v if self.opts.get("int_arrays", True) else float(v)
        h = (hash_name(name) % 97) / 97.0 + 0.3
        if lo is not None:
            h += float(lo)
        v = self._val(name, h)
        if sign in ("+", ">=0"):
            v = max(v, 0.0)
        return v

    def pos(self, name, lo=None, **k):
        return self.real(name, "+", lo=lo)

    def nonneg(self, name):
        return self.real(name, ">=0")

    def integer(self, name, lo=None, hi=None):
        v = self.values.get(name)
        v = int(v) if v is not None else int(lo or 0)
        self.used[name] = v
        return v

    def rot(self, name):
        if self.ints is not None and self.ints % 4:
            # a quarter turn
            i = _pyrandom.Random("%d/%s" % (self.ints, name)).randrange(3)
            M = np.eye(3, dtype=int if self.opts.get("int_arrays", True) else float)
            a, b = [k for k in range(3) if k != i]
            M[[a, b]] = M[[b, a]]
            M[a] *= -1
            return M
        if self.rots is not None:
            q = self.rots[self._rotn % len(self.rots)]
            self._rotn += 1
            return np.array([[float(x) for x in r] for r in _quat(q)])
        q = np.array([self._val("%s.%s" % (name, x), d) for x, d in zip("wxyz", (1, 0, 0, 0))])
        n = np.linalg.norm(q)
        if n < 1e-9:
            q, n = np.array([1.0, 0, 0, 0]), 1.0
        w, x, y, z = q / n
        return np.array(
            [
                [1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)],
            ]
        )

    def quat(self, name):
        if self.rots is not None:
            q = self.rots[self._rotn % len(self.rots)]
            self._rotn += 1
            s = math.isqrt(sum(x * x for x in q))
            if s * s != sum(x * x for x in q):
                q, s = (1, 2, 2, 4), 5
            return [x / s for x in q]
        q = np.array([self._val("%s.%s" % (name, x), d) for x, d in zip("wxyz", (1, 0, 0, 0))])
        n = np.linalg.norm(q)
        return list(q / n) if n > 1e-9 else [1.0, 0.0, 0.0, 0.0]

    def rot2(self, name):
        c, s = self._val(name + ".c", 1), self._val(name + ".s", 0)
        n = math.hypot(c, s)
        if n < 1e-9:
            c, s, n = 1.0, 0.0, 1.0
        c, s = c / n, s / n
        return np.array([[c, -s], [s, c]])

    def rng(self, stream, counts=None):
        g = FakeGen(stream, self.values)
        g.counts_ = counts
        return g

    def assume(self, b):
        if isinstance(b, np.ndarray):
            b = bool(np.all(b))
        if _t(b) is False:
            raise Skip("assumption")

    def cond(self, b):
        if isinstance(b, Tri):
            return bool(b)
        return bool(np.all(b))

    def land(self, *xs):
        return tand(*xs)

    def lor(self, *xs):
        return tor(*xs)

    def lnot(self, x):
        return ~Tri(_t(x))

    def _scale(self, a, b):
        return max(1.0, abs(float(_f(a))), abs(float(_f(b))))

    def le(self, a, b):
        a, b = float(_f(a)), float(_f(b))
        d = b - a
        if not math.isfinite(a) or not math.isfinite(b):
            return Tri(a <= b)
        if abs(d) <= self.margin * self._scale(a, b):
            return Tri(None)
        return Tri(d > 0)

    lt = le

    def same(self, a, b):
        a, b = float(_f(a)), float(_f(b))
        if a == b:
            return Tri(True)
        d = abs(a - b)
        if d <= self.rtol * self._scale(a, b):
            return Tri(None)
        return Tri(False)

    def allsame(self, a, b):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if a.shape != b.shape:
            return Tri(False)
        return tand(*[self.same(x, y) for x, y in zip(a.ravel(), b.ravel())]) if a.size else Tri(True)

    def sqrt(self, x):
        return math.sqrt(max(float(x), 0.0))

    pi = math.pi

    def absv(self, x):
        return abs(float(_f(x)))

    def check(self, label, b, ms=None):
        self.nchecks += 1
        if _t(b) is False:
            raise Failed(label, "condition is false")

    def eq(self, label, a, b, tol=None, atol=None):
        self.nchecks += 1
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Failed(label, "shape %s != %s" % (a.shape, b.shape))
        if a.size == 0:
            return
        if a.dtype == bool or b.dtype == bool:
            if not (a.astype(bool) == b.astype(bool)).all():
                raise Failed(label, "%s != %s" % (a.tolist(), b.tolist()))
            return
        a, b = a.astype(float), b.astype(float)
        fin = np.isfinite(a) & np.isfinite(b)
        if not ((a == b) | fin).all():
            raise Failed(label, "%s != %s" % (a.tolist(), b.tolist()))
        t = tol or self.rtol
        sc = max(1.0, np.max(np.abs(a[fin]), initial=0), np.max(np.abs(b[fin]), initial=0))
        d = np.abs(np.where(fin, a, 0) - np.where(fin, b, 0))
        if (d > t * sc + (atol or 0)).any():
            raise Failed(label, "%s != %s" % (a.tolist(), b.tolist()))

    def iff(self, label, a, b, ms=None):
        self.nchecks += 1
        a, b = _t(a), _t(b)
        if a is None or b is None:
            return
        if a != b:
            raise Failed(label, "%s is not equivalent to %s" % (a, b))

    def implies(self, label, a, b, ms=None):
        self.nchecks += 1
        if _t(a) is True and _t(b) is False:
            raise Failed(label, "implication fails")

    def lemma(self, b, ms=None):
        return True

    def product(self, *fs, ms=None):
        return True

    def cset(self, builder, *values):
        from . import cset

        return cset.ConcSet(self, builder, values)

    def solver_infeasible(self):
        pass

    def solved(self):
        from . import cset

        return cset.ConcSolved()

    def accepted(self, K, zs=None, ws=None, solve_for=()):
        if K.tri() is not True:
            raise Skip("not accepted")
        return lambda x: x

    def admitted(self, label, K, hints=None, decs=None, ms=None):
        self.nchecks += 1
        if K.tri() is False:
            raise Failed(label, "the constraints are not satisfiable (distance %s)" % K.dist())

    def iff_admitted(self, label, K, cond, decs=None):
        self.nchecks += 1
        k, b = K.tri(), _t(cond)
        if k is None or b is None:
            return
        if k != b:
            raise Failed(label, "accepted: %s, expected %s (distance %s)" % (k, b, K.dist()))

    def raises(self, label, f, *exc):
        self.nchecks += 1
        try:
            f()
        except exc:
            return True
        except Exception as e:
            raise Failed(label, "raised %r" % e)
        raise Failed(label, "accepted")

    def note(self, **k):
        pass

    def shape(self, label, a, shp):
        self.nchecks += 1
        s = tuple(np.shape(a))
        if s != tuple(shp):
            raise Failed(label, "shape %s, expected %s" % (s, tuple(shp)))


def _f(x):
    if isinstance(x, np.ndarray):
        return x.item()
    return x


def hash_name(s):
    h = 0
    for ch in s:
        h = (h * 131 + ord(ch)) % 1000003
    return h
