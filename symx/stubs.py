"""Contract stubs for the environment of rigeo: random generator, math, scipy.linalg."""
import builtins
import itertools
import math
import types
from fractions import Fraction

import numpy as np

from . import core, arr
from .core import Sym, SymBool, Unsupported, ZERO, ONE
from .arr import A, SArr, base, cv, _filled


# --------------------------------------------------------------------------
class Rng:
    """Random draws are symbolic values in the documented range of the method.

    Draw k of a stream is identified by (stream, k, entry); a seed names a
    stream, so equal seeds give equal draws; `None` is a fresh stream that
    nobody controls.
    """

    # number of samples per outcome, for a named case of `multinomial`
    counts = None
    used = False

    def __init__(self, stream):
        self.stream = stream
        self.k = 0
        # methods called, for sequence-identity checks
        core._E.__dict__.setdefault("rng_log", []).append(self)

    def _names(self, size):
        scal = size is None
        if scal:
            shape = ()
        elif isinstance(size, (int, np.integer)):
            shape = (int(size),)
        elif isinstance(size, Sym):
            shape = (int(size),)
        else:
            shape = tuple(int(s) for s in size)
        k = self.k
        self.k += 1
        draws = core._E.__dict__.setdefault("draws", [])
        draws.append((self.stream, k))
        if len(draws) > core._E.max_draws:
            core._E.notes.append("cut: more than %d calls of the generator" % core._E.max_draws)
            raise core.PathAbort()
        n = int(np.prod(shape)) if shape else 1
        return shape, ["%s.%d.%d" % (self.stream, k, i) for i in range(n)]

    def _mk(self, shape, vals):
        if shape == ():
            return vals[0]
        o = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            o[i] = v
        return o.reshape(shape).view(SArr)

    def _var(self, name, lo=None, hi=None, sign=None):
        E = core._E
        if name in E.names:
            return E.varsym(E.names[name])
        v = E.real(name, sign, kind="draw")
        if lo is not None:
            E.add_hyp(v >= lo)
        if hi is not None:
            E.add_hyp(v < hi if lo is None or bool(core.mkbool(Sym.const(lo) != hi)) else v <= hi)
        return v

    def random(self, size=None, dtype=float, out=None):
        shape, names = self._names(size)
        vals = [self._var(n, 0, 1, ">=0") for n in names]
        # all entries of a vector of draws being zero has probability zero
        if shape and shape[-1]:
            last = shape[-1]
            for i in range(0, len(vals), last):
                core._E.add_hyp(builtins.sum(vals[i : i + last], ZERO) > 0)
        return self._mk(shape, vals)

    def uniform(self, low=0.0, high=1.0, size=None):
        if isinstance(low, (np.ndarray, list)) or isinstance(high, (np.ndarray, list)):
            low, high = base(low), base(high)
            shp = np.broadcast(low, high).shape if size is None else size
            u = self.random(shp)
            return A(low) + u * (A(high) - A(low))
        lo, hi = Sym.const(low), Sym.const(high)
        shape, names = self._names(size)
        if lo.isconst() and hi.isconst():
            return self._mk(shape, [self._var(n, lo, hi) for n in names])
        return self._mk(shape, [lo + self._var(n, 0, 1, ">=0") * (hi - lo) for n in names])

    def normal(self, loc=0.0, scale=1.0, size=None):
        shape, names = self._names(size)
        vals = [self._var(n) for n in names]
        core._E.__dict__.setdefault("normals", []).append(vals)
        if len(vals) and core._E.__dict__.get("normal_generic", True):
            # zero has probability zero, entrywise per last-axis vector
            last = shape[-1] if shape else 1
            for i in range(0, len(vals), last):
                E = core._E
                s = ZERO
                for v in vals[i : i + last]:
                    s = s + v * v
                E.add_hyp(s > 0)
        r = self._mk(shape, vals)
        if loc == 0 and scale == 1:
            return r
        return loc + scale * r

    def standard_normal(self, size=None, dtype=float, out=None):
        return self.normal(size=size)

    def multivariate_normal(self, mean, cov, size=None, **k):
        n = len(mean)
        shape = (n,) if size is None else ((size, n) if np.isscalar(size) else tuple(size) + (n,))
        shape, names = self._names(shape)
        return self._mk(shape, [self._var(x) for x in names])

    def exponential(self, scale=1.0, size=None):
        shape, names = self._names(size)
        return self._mk(shape, [scale * self._var(n, 0, None, ">=0") for n in names])

    standard_exponential = lambda self, size=None, **k: self.exponential(size=size)

    def dirichlet(self, alpha, size=None):
        n = len(alpha)
        shape = (n,) if size is None else ((size, n) if np.isscalar(size) else tuple(size) + (n,))
        shape, names = self._names(shape)
        vals = [self._var(x, 0, None, ">=0") for x in names]
        out = []
        for i in range(0, len(vals), n):
            vs = vals[i : i + n - 1]
            rest = ONE
            for v in vs:
                rest = rest - v
            core._E.add_hyp(rest >= 0)
            out += vs + [rest]
        return self._mk(shape, out)

    def _choose(self, name, n):
        """an arbitrary integer in [0, n), forked."""
        E = core._E
        if n <= 1:
            return 0
        v = E.varsym(E.names[name]) if name in E.names else E.real(name, kind="draw")
        for k in range(n - 1):
            if bool(v == k):
                return k
        E.add_hyp(v == n - 1)
        return n - 1

    def integers(self, low, high=None, size=None, dtype=int, endpoint=False):
        if high is None:
            low, high = 0, low
        if endpoint:
            high = high + 1
        shape, names = self._names(size)
        vals = [int(low) + self._choose(n, int(high) - int(low)) for n in names]
        return vals[0] if shape == () else np.array(vals).reshape(shape)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        n = int(a) if np.isscalar(a) else len(a)
        shape, names = self._names(size)
        ids = []
        for nm in names:
            opts = [i for i in range(n) if replace or i not in ids]
            if p is not None:
                opts = [i for i in opts if bool(core.mkbool(cv(p[i]) > 0))]
            ids.append(opts[self._choose(nm, len(opts))])
        if np.isscalar(a):
            return ids[0] if shape == () else np.array(ids).reshape(shape)
        a = arr.n_asarray(a)
        return a[ids[0]] if shape == () else a[np.array(ids).reshape(shape)]

    def multinomial(self, n, pvals, size=None):
        if size is not None:
            raise Unsupported("multinomial size")
        n = int(n)
        pv = [cv(p) for p in (pvals if isinstance(pvals, np.ndarray) else A(pvals))]
        shape, names = self._names(n)
        if self.counts is not None and len(self.counts) == len(pv) and builtins.sum(self.counts) == n:
            self.used = True
            for k, p in zip(self.counts, pv):
                if k:
                    core._E.add_hyp(p > 0)
            return np.array(self.counts, dtype=int)
        counts = np.zeros(len(pv), dtype=int)
        opts = list(range(len(pv)))
        last = 0
        for nm in names:
            # counts only depend on the multiset: nondecreasing choices
            k = last + self._choose(nm, len(opts) - last)
            last = k
            core._E.add_hyp(pv[k] > 0)
            if core._E.prove(core.FALSE, 300) == "proved":
                raise core.PathAbort()
            counts[k] += 1
        return counts

    def _perm(self, n):
        nm = "%s.%d.perm" % (self.stream, self.k)
        self.k += 1
        core._E.__dict__.setdefault("draws", []).append((self.stream, self.k - 1))
        if n > 2:
            return list(range(n))  # stated bound: order of more than two points not explored
        if n == 2 and self._choose(nm, 2) == 1:
            return [1, 0]
        return list(range(n))

    def shuffle(self, x, axis=0):
        if axis != 0:
            raise Unsupported("shuffle axis")
        p = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[:] = x.copy()[p]
        else:
            x[:] = [x[i] for i in p]

    def permutation(self, x, axis=0):
        if isinstance(x, (int, np.integer)):
            return np.array(self._perm(int(x)))
        return x[self._perm(len(x))]

    def spawn(self, n):
        raise Unsupported("spawn")


class Legacy(Rng):
    """np.random.* global functions."""

    def rand(self, *shape):
        return self.random(shape if shape else None)

    def randn(self, *shape):
        return self.normal(size=shape if shape else None)

    random_sample = Rng.random


class RngFactory:
    Generator = Rng

    @staticmethod
    def default_rng(seed=None):
        if isinstance(seed, Rng):
            return seed
        E = core._E
        if seed is None:
            c = E.__dict__.setdefault("fresh_rng", itertools.count())
            return Rng("fresh%d" % next(c))
        if isinstance(seed, Sym):
            seed = seed.value()
        return Rng("seed%s" % (seed,))

    @staticmethod
    def unsupported(*a, **k):
        raise Unsupported("legacy numpy random")


# --------------------------------------------------------------------------
def _int(x):
    return x if core._E.symint else int(x)


def make_math():
    m = types.ModuleType("math")
    m.__dict__.update({k: v for k, v in math.__dict__.items() if not k.startswith("__")})

    def wrap1(name, f):
        real = getattr(math, name)

        def g(x, *a):
            if isinstance(x, (Sym, SymBool)) or isinstance(x, SArr):
                return f(arr.scalar(x) if isinstance(x, SArr) else x)
            return real(x, *a)

        return g

    m.sqrt = lambda x: core._E.fsqrt(Sym.const(arr.scalar(x)) if not isinstance(x, SArr) else x.item())
    m.fabs = wrap1("fabs", lambda x: core._E.abs(x))
    m.floor = wrap1("floor", lambda x: _int(core._E.floor(x)))
    m.ceil = wrap1("ceil", lambda x: _int(core._E.ceil(x)))
    m.trunc = wrap1("trunc", lambda x: _int(core._E.trunc(x)))
    m.isfinite = wrap1("isfinite", lambda x: True)
    m.isnan = wrap1("isnan", lambda x: False)
    m.isinf = wrap1("isinf", lambda x: False)
    m.isqrt = wrap1("isqrt", lambda x: core._E.floor(core._E.sqrt(x)))
    m.pow = lambda a, b: a ** b
    m.hypot = lambda *a: core._E.sqrt(builtins.sum([Sym.const(x) * x for x in a], ZERO))
    m.dist = lambda p, q: core._E.sqrt(builtins.sum([(Sym.const(cv(x)) - cv(y)) ** 2 for x, y in zip(p, q)], ZERO))
    m.prod = lambda xs, start=1: arr.n_prod(list(xs)) * start
    m.fsum = lambda xs: arr.n_sum(list(xs))
    m.isclose = lambda a, b, rel_tol=1e-9, abs_tol=0.0: arr._close1(cv(a), cv(b), cv(rel_tol), cv(abs_tol))

    def un(name):
        real = getattr(math, name)

        def g(*a):
            if any(isinstance(x, (Sym, SArr)) and not (isinstance(x, Sym) and x.isconst()) for x in a):
                raise Unsupported("math." + name)
            return real(*[float(x) if isinstance(x, Sym) else x for x in a])

        return g

    for n in ("sin", "cos", "tan", "exp", "log", "atan2", "acos", "asin", "gamma", "lgamma", "atan", "log2", "log10"):
        setattr(m, n, un(n))

    class MM(types.ModuleType):
        def __getattr__(self, n):
            if n == "pi":
                return core._E.pi()
            return getattr(m, n)

    return MM("math")


# --------------------------------------------------------------------------
def sign_var(name="sigma"):
    E = core._E
    i = E.newvar(name, None, invertible=True, kind="def")
    E.add_rule(i, 2, {0: 1})
    v = E.varsym(i)
    E.add_hyp(core.Or([v == 1, v == -1]))
    return v


def unit_quat(name, kind="input"):
    E = core._E
    ids = [E.newvar("%s.%s" % (name, c), kind=kind) for c in "wxyz"]
    a, b, c, d = [E.varsym(i) for i in ids]
    e = ONE - b * b - c * c - d * d
    E.add_rule(ids[0], 2, e.num)
    # kept as a hypothesis in raw form
    raw = {2 << (core.BITS * i): 1 for i in ids}
    raw[0] = -1
    E.add_hyp(SymBool("==", raw))
    return [a, b, c, d]


def quat_rotation(name, kind="input"):
    a, b, c, d = unit_quat(name, kind)
    R = [
        [ONE - 2 * (c * c + d * d), 2 * (b * c - a * d), 2 * (b * d + a * c)],
        [2 * (b * c + a * d), ONE - 2 * (b * b + d * d), 2 * (c * d - a * b)],
        [2 * (b * d - a * c), 2 * (c * d + a * b), ONE - 2 * (b * b + c * c)],
    ]
    return A(R)


def rot2(name, kind="input"):
    E = core._E
    i = E.newvar(name + ".c", kind=kind)
    j = E.newvar(name + ".s", kind=kind)
    c, s = E.varsym(i), E.varsym(j)
    E.add_rule(i, 2, (ONE - s * s).num)
    raw = {2 << (core.BITS * i): 1, 2 << (core.BITS * j): 1, 0: -1}
    E.add_hyp(SymBool("==", raw))
    return A([[c, -s], [s, c]])


def orthogonal(n, name):
    """an arbitrary orthogonal matrix."""
    if n == 0:
        return _filled((0, 0), float, 0)
    mode = core._E.__dict__.get("orth_mode", "any")
    if mode == "identity":
        return A(np.eye(n))
    sg = sign_var(name + ".sg")
    if n == 1:
        return A([[sg]])
    if n == 2:
        R = rot2(name, "def")
    elif n == 3:
        R = quat_rotation(name, "def")
    else:
        raise Unsupported("orthogonal %d" % n)
    if mode == "rotation":
        return R
    R = R.copy()
    R[:, 0] = R[:, 0] * sg
    return R


def _rank_full_rows(M):
    """True if M (d x n) has rank d (forks on minors)."""
    d, n = M.shape
    if n < d:
        return False
    G = arr._raw_matmul(M, M.T)
    if all(not (cv(G[i, j]) - (1 if i == j else 0)).num for i in range(d) for j in range(d)):
        return True
    for c in itertools.combinations(range(n), d):
        dd = arr.det(M[:, list(c)])
        if not dd.num:
            continue
        if bool(dd != 0):
            return True
    return False


def s_orth(M, rcond=None):
    R = _orth(M, rcond)
    core._E.__dict__.setdefault("bases", []).append(R)
    return R


def _orth(M, rcond=None):
    """orthonormal basis of the column space (contract)."""
    M = base(M)
    d, n = M.shape
    E = core._E
    k = E.__dict__.setdefault("orth_n", itertools.count())
    tag = "orth%d" % next(k)
    frames = [(F, r) for F, r in E.__dict__.get("frames", []) if F.shape[0] == d]
    for F, r in sorted(frames, key=lambda t: t[1]):
        F = base(F)
        perp = arr._raw_matmul(F[:, r:].T, M) if r < d else np.zeros((0, n), dtype=object)
        if all(not cv(x).num for x in perp.ravel()):
            inn = arr._raw_matmul(F[:, :r].T, M)
            if r == 0 or _rank_full_rows(inn):
                if r == 0:
                    return _filled((d, 0), float, 0)
                return A(F[:, :r]) @ orthogonal(r, tag)
    if all(not x.num for x in M.ravel()):
        return _filled((d, 0), float, 0)
    if _rank_full_rows(M):
        return orthogonal(d, tag)
    raise Unsupported("orth of a rank-deficient matrix without a registered frame")


def s_null_space(M, rcond=None):
    M = base(M)
    r, d = M.shape
    if r == 0:
        return orthogonal(d, "nul_all")
    if r >= d:
        if _rank_full_rows(M.T):
            return _filled((d, 0), float, 0)
    E = core._E
    k = E.__dict__.setdefault("null_n", itertools.count())
    for F, q in sorted([f for f in E.__dict__.get("frames", []) if f[0].shape[0] == d], key=lambda t: -t[1]):
        F = base(F)
        if q == r and all(not cv(x).num for x in arr._raw_matmul(M, F[:, q:]).ravel()):
            if _rank_full_rows(M):
                return A(F[:, q:]) @ orthogonal(d - q, "null%d" % next(k))
    raise Unsupported("null_space without a registered frame")


def make_scipy():
    sp = types.ModuleType("scipy")
    la = arr.NPProxy("scipy.linalg", __import__("scipy.linalg").linalg, {})
    t = la._table
    t.update(
        orth=s_orth, null_space=s_null_space, inv=arr.l_inv, det=arr.l_det, norm=arr.l_norm, solve=arr.l_solve,
        eigh=arr.l_eigh, eigvalsh=arr.l_eigvalsh, lstsq=arr.l_lstsq, cholesky=lambda M, lower=False: arr.l_cholesky(M) if lower else arr.l_cholesky(M).T,
        block_diag=_block_diag, sqrtm=arr._unsup("sqrtm"), svd=arr._unsup("svd"), qr=arr._unsup("qr"),
    )
    sp.linalg = la
    return sp, la


def _block_diag(*ms):
    ms = [base(m) for m in ms]
    R = _filled((sum(m.shape[0] for m in ms), sum(m.shape[1] for m in ms)), float, 0)
    i = j = 0
    for m in ms:
        R[i : i + m.shape[0], j : j + m.shape[1]] = m.view(SArr)
        i += m.shape[0]
        j += m.shape[1]
    return R
