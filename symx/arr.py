"""Arrays of symbolic reals and the proxy numpy module seen by the code under test."""
import functools
import itertools
import math
import numbers
import types
from fractions import Fraction

import numpy as np

from . import core
from .core import Sym, SymBool, And, Or, Not, mkbool, is_special, Unsupported, ZERO, ONE


def cv(x):
    t = type(x)
    if t is Sym or t is SymBool:
        return x
    if t is int or t is float or t is Fraction:
        return Sym.const(x)
    if t is bool:
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.generic):
        return Sym.const(x.item())
    return x


_cvv = np.frompyfunc(cv, 1, 1)


def base(x):
    """plain object ndarray with converted elements."""
    if isinstance(x, np.ndarray):
        a = x.view(np.ndarray)
    else:
        a = np.empty((), dtype=object)
        if isinstance(x, (list, tuple)):
            a = _mk(x)
        else:
            a[()] = x
    if a.dtype != object or True:
        r = _cvv(a)
        if not isinstance(r, np.ndarray):
            o = np.empty((), dtype=object)
            o[()] = r
            return o
        return r


def has_sym(x):
    if isinstance(x, (Sym, SymBool, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return isinstance(x, np.ndarray) and x.dtype == object


def _mk(x):
    """list -> ndarray (object if symbolic)."""
    if has_sym(x):
        return np.array(_unwrap(x), dtype=object)
    return np.array(x)


def _unwrap(x):
    if isinstance(x, (list, tuple)):
        return [_unwrap(y) for y in x]
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return x.item() if x.dtype != object else x[()]
        return x.view(np.ndarray).tolist()
    return x


def A(x, dtype=None):
    """Symbolic array from anything array-like."""
    if isinstance(x, CArr):
        return x
    return base(x).view(SArr)


def wrap(r):
    """Convert results of real numpy to symbolic land."""
    if isinstance(r, SArr):
        if r.dtype != object:
            return r.view(np.ndarray) if r.dtype.kind in "bi" else A(r.view(np.ndarray))
        return r
    if isinstance(r, np.ndarray):
        if r.dtype == object:
            return r.view(SArr)
        if r.dtype.kind == "f":
            return A(r)
        if r.dtype.kind == "c":
            raise Unsupported("complex array")
        return r
    if isinstance(r, (float, np.floating)):
        return Sym.const(r)
    if isinstance(r, tuple):
        return tuple(wrap(x) for x in r) if type(r) is tuple else r
    if type(r) is list:
        return [wrap(x) for x in r]
    return r


def scalar(x):
    """0-d -> element."""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return cv(x[()]) if not isinstance(x, SArr) else cv(x.view(np.ndarray)[()])
    return x


def cbool(m):
    """Concretise a boolean array (forks)."""
    if isinstance(m, np.ndarray):
        if m.dtype == bool:
            return m.view(np.ndarray)
        out = np.zeros(m.shape, dtype=bool)
        b = m.view(np.ndarray)
        for i in np.ndindex(*m.shape):
            e = b[i]
            out[i] = bool(mkbool(cv(e)))
        return out
    return bool(m)


def is_boolarr(a):
    if not isinstance(a, np.ndarray):
        return False
    if a.dtype == bool:
        return True
    if a.dtype != object or a.size == 0:
        return False
    f = a.view(np.ndarray).flat
    return all(isinstance(e, (bool, SymBool, np.bool_)) for e in f)


def fix_index(ix):
    def one(i):
        if isinstance(i, SymBool):
            return bool(i)
        if isinstance(i, Sym):
            return int(i)
        if isinstance(i, np.ndarray) and i.dtype == object:
            if is_boolarr(i):
                return cbool(i)
            return np.array([int(e) for e in i.view(np.ndarray).ravel()], dtype=int).reshape(i.shape)
        if isinstance(i, SArr):
            return i.view(np.ndarray)
        if isinstance(i, list) and has_sym(i):
            a = _mk(i)
            return one(a)
        if isinstance(i, slice):
            return slice(*[int(e) if isinstance(e, Sym) else e for e in (i.start, i.stop, i.step)])
        return i

    if isinstance(ix, tuple):
        return tuple(one(i) for i in ix)
    return one(ix)


# -- elementwise ---------------------------------------------------------
def _b(x):
    return mkbool(x)


def _num(x):
    if isinstance(x, SymBool):
        return x.as_sym()
    if isinstance(x, bool):
        return ONE if x else ZERO
    return x


def _sqrt(x):
    return core._E.fsqrt(_num(x))


def _abs(x):
    return core._E.abs(_num(x))


def _div(a, b):
    a, b = _num(a), _num(b)
    if is_special(b) and is_special(a):
        return a / b if not (math.isinf(a) and math.isinf(b)) else float("nan")
    return Sym.const(a) / b if not is_special(a) else (a if math.isnan(a) else _inf_div(a, b))


def _inf_div(a, b):
    if bool(b >= 0):
        return a
    return -a


def _mul(a, b):
    return _num(a) * _num(b)


def _add(a, b):
    return _num(a) + _num(b)


def _cmpop(op):
    def f(a, b):
        a, b = _num(a), _num(b)
        if type(a) is Sym:
            return a._cmp(b, op)
        if type(b) is Sym:
            rev = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
            return b._cmp(a, rev)
        import operator

        r = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}[op](a, b)
        return mkbool(r) if isinstance(r, (bool, np.bool_)) else r

    return f


def _eq(a, b):
    if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
        return core.Iff(mkbool(a), mkbool(b))
    return _cmpop("==")(a, b)


def _ne(a, b):
    return Not(_eq(a, b))


def _mx(a, b):
    return core._E.extremum([a, b], "max")


def _mn(a, b):
    return core._E.extremum([a, b], "min")


def _isfinite(x):
    return not is_special(x)


def _sign(x):
    if bool(x > 0):
        return ONE
    return ZERO if bool(x == 0) else -ONE


def _pow(a, b):
    a = _num(a)
    if is_special(a):
        return a ** float(b.value() if isinstance(b, Sym) else b)
    return a ** b


UF = {
    "add": _add,
    "subtract": lambda a, b: _num(a) - _num(b),
    "multiply": _mul,
    "true_divide": _div,
    "divide": _div,
    "floor_divide": lambda a, b: core._E.floor(_div(a, b)),
    "negative": lambda a: -_num(a),
    "positive": lambda a: a,
    "power": _pow,
    "float_power": _pow,
    "square": lambda a: a * a,
    "sqrt": _sqrt,
    "cbrt": lambda a: core._E.root(a, 3),
    "absolute": _abs,
    "fabs": _abs,
    "reciprocal": lambda a: _div(ONE, a),
    "conjugate": lambda a: a,
    "less": _cmpop("<"),
    "less_equal": _cmpop("<="),
    "greater": _cmpop(">"),
    "greater_equal": _cmpop(">="),
    "equal": _eq,
    "not_equal": _ne,
    "logical_and": lambda a, b: And([a, b]),
    "logical_or": lambda a, b: Or([a, b]),
    "logical_xor": lambda a, b: mkbool(a) ^ mkbool(b),
    "logical_not": lambda a: Not(a),
    "bitwise_and": lambda a, b: And([a, b]),
    "bitwise_or": lambda a, b: Or([a, b]),
    "bitwise_xor": lambda a, b: mkbool(a) ^ mkbool(b),
    "invert": lambda a: Not(a),
    "maximum": _mx,
    "minimum": _mn,
    "fmax": _mx,
    "fmin": _mn,
    "sign": _sign,
    "floor": lambda a: core._E.floor(a),
    "ceil": lambda a: core._E.ceil(a),
    "trunc": lambda a: core._E.trunc(a),
    "rint": lambda a: core._E.rint(a),
    "isfinite": _isfinite,
    "isnan": lambda a: is_special(a) and math.isnan(a),
    "isinf": lambda a: is_special(a) and math.isinf(a),
    "hypot": lambda a, b: _sqrt(a * a + b * b),
    "isnat": lambda a: False,
    "remainder": lambda a, b: a - core._E.floor(_div(a, b)) * b,
    "fmod": lambda a, b: a - core._E.trunc(_div(a, b)) * b,
    "copysign": lambda a, b: _abs(a) if bool(mkbool(Sym.const(b) >= 0)) else -_abs(a),
    "heaviside": lambda a, h: ONE if bool(a > 0) else (Sym.const(h) if bool(a == 0) else ZERO),
    "deg2rad": lambda a: a * core._E.pi() / 180,
    "radians": lambda a: a * core._E.pi() / 180,
    "rad2deg": lambda a: a * 180 / core._E.pi(),
}
UFV = {}


def ufv(name):
    f = UFV.get(name)
    if f is None:
        g = UF.get(name)
        if g is None:
            raise Unsupported("ufunc " + name)
        import inspect

        n = len(inspect.signature(g).parameters)
        f = UFV[name] = np.frompyfunc(g, n, 1)
    return f


def _raw_matmul(a, b):
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    k1 = a.shape[-1]
    k2 = b.shape[-2] if b.ndim > 1 else b.shape[0]
    if k1 != k2:
        raise ValueError("matmul: mismatch %s %s" % (a.shape, b.shape))
    if k1 == 0:
        shp = np.matmul(np.zeros(a.shape), np.zeros(b.shape)).shape
        o = np.empty(shp, dtype=object)
        o[...] = ZERO
        return o
    return np.matmul(a, b)


def ufunc_handler(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    if name.endswith("(vectorized)") and method == "__call__":
        return _fin(ufunc(*[base(x) for x in inputs]))
    kwargs = dict(kwargs)
    if any(isinstance(x, CArr) for x in inputs):
        return CArr._ufunc(ufunc, method, inputs, kwargs)
    out = kwargs.pop("out", None)
    if out is not None:
        out = out[0] if isinstance(out, tuple) else out
    where = kwargs.pop("where", True)
    if method == "__call__":
        for junk in ("dtype", "casting", "subok", "order"):
            kwargs.pop(junk, None)
        args = [base(x) for x in inputs]
        if name == "matmul":
            r = _raw_matmul(*args)
        elif where is not True:
            w = cbool(np.broadcast_to(base(where), np.broadcast(*args, base(where)).shape)) if not isinstance(where, bool) else where
            shp = np.broadcast(*args).shape
            args = [np.broadcast_to(a, shp) for a in args]
            w = np.broadcast_to(w, shp)
            r = np.empty(shp, dtype=object)
            f = UF[name]
            for i in np.ndindex(*shp):
                if w[i]:
                    r[i] = f(*[a[i] for a in args])
                else:
                    r[i] = out[i] if out is not None else float("nan")
        else:
            r = ufv(name)(*args)
    elif method == "reduce":
        return _reduce(name, inputs[0], out=out, **kwargs)
    elif method == "accumulate":
        a = base(inputs[0])
        ax = kwargs.get("axis", 0)
        a = np.moveaxis(a, ax, 0).copy()
        f = ufv(name)
        for i in range(1, a.shape[0]):
            a[i] = f(a[i - 1], a[i])
        r = np.moveaxis(a, 0, ax)
    elif method == "outer":
        a, b = base(inputs[0]), base(inputs[1])
        r = ufv(name)(a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == "at":
        a = inputs[0]
        f = UF[name]
        idx = fix_index(inputs[1])
        vals = np.broadcast_to(base(inputs[2]), np.shape(np.asarray(a)[idx]))
        ids = np.arange(np.size(a)).reshape(np.shape(a))[idx]
        fl = a.reshape(-1)
        for j, v in zip(np.ravel(ids), np.ravel(vals)):
            fl[j] = f(cv(fl[j]), v)
        return None
    else:
        raise Unsupported("ufunc method " + method)
    if out is not None:
        if isinstance(out, np.ndarray) and out.dtype != object:
            vals = np.empty(np.shape(r), dtype=out.dtype)
            for ix in np.ndindex(*np.shape(r)):
                v = cv(np.asarray(r, dtype=object)[ix])
                if isinstance(v, SymBool) and out.dtype == bool:
                    # a real boolean array: one path per value
                    vals[ix] = bool(v)
                    continue
                if isinstance(v, Sym) and not v.isconst() or isinstance(v, SymBool) and v.k not in ("true", "false"):
                    raise Unsupported("symbolic result into a typed out array")
                vals[ix] = (v.k == "true") if isinstance(v, SymBool) else v
            np.asarray(out)[...] = vals
            return out
        out.view(np.ndarray)[...] = r
        return out
    return _fin(r)


def _fin(r):
    if not isinstance(r, np.ndarray):
        return cv(r)
    if r.ndim == 0:
        return cv(r[()])
    return r.view(SArr)


def _reduce(name, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True, **kw):
    if name in ("add", "multiply") and is_boolarr(a):
        a = np.asarray(cbool(a)).astype(int)
        r = getattr(np, name).reduce(a, axis=axis, keepdims=bool(keepdims))
        return r
    a = base(a)
    if initial is np._NoValue:
        initial = None
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(int(x) % a.ndim for x in axis)
    else:
        axes = (int(axis) % a.ndim,) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in axes]
    shp = tuple(a.shape[i] for i in rest)
    b = np.transpose(a, rest + list(axes)).reshape(shp + (int(np.prod([a.shape[i] for i in axes])) if axes else 1,))
    r = np.empty(shp, dtype=object)
    for i in np.ndindex(*shp):
        r[i] = _red1(name, [x for x in b[i]], initial)
    if keepdims and keepdims is not np._NoValue:
        r = r.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    if out is not None:
        out.view(np.ndarray)[...] = r
        return out
    return _fin(r)


def _red1(name, xs, initial=None):
    if initial is not None:
        xs = xs + [cv(initial)]
    if name == "add":
        r = ZERO
        if xs and not isinstance(xs[0], (Sym, SymBool, bool, float)):
            return functools.reduce(lambda p, q: p + q, xs)
        for x in xs:
            r = r + _num(x)
        return r
    if name == "multiply":
        r = ONE
        for x in xs:
            r = r * _num(x)
        return r
    if name in ("logical_and", "bitwise_and"):
        return And(xs)
    if name in ("logical_or", "bitwise_or"):
        return Or(xs)
    if name in ("maximum", "fmax"):
        if not xs:
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
        if all(isinstance(x, (bool, SymBool)) for x in xs):
            return Or(xs)
        return core._E.extremum(xs, "max") if len(xs) > 1 else xs[0]
    if name in ("minimum", "fmin"):
        if not xs:
            raise ValueError("zero-size array to reduction operation minimum which has no identity")
        if all(isinstance(x, (bool, SymBool)) for x in xs):
            return And(xs)
        return core._E.extremum(xs, "min") if len(xs) > 1 else xs[0]
    raise Unsupported("reduce " + name)


def _sym_array_ufunc(self, ufunc, method, *inputs, **kwargs):
    return ufunc_handler(ufunc, method, inputs, kwargs)


Sym.__array_ufunc__ = _sym_array_ufunc
SymBool.__array_ufunc__ = _sym_array_ufunc


OVERRIDES = {}


class SArr(np.ndarray):
    __array_priority__ = 20.0

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return ufunc_handler(ufunc, method, inputs, kwargs)

    def __array_function__(self, func, types_, args, kwargs):
        f = OVERRIDES.get(func)
        if f is not None:
            return f(*args, **kwargs)
        r = super().__array_function__(func, types_, args, kwargs)
        return wrap(r)

    def __getitem__(self, ix):
        r = self.view(np.ndarray)[fix_index(ix)]
        if isinstance(r, np.ndarray):
            if self.dtype == object and r.dtype == object and r.ndim == 0:
                return r.view(type(self))
            return r.view(type(self))
        return cv(r)

    def __setitem__(self, ix, v):
        if isinstance(v, SArr):
            v = v.view(np.ndarray)
        elif isinstance(v, (list, tuple)):
            v = _mk(v)
        self.view(np.ndarray)[fix_index(ix)] = v

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        for i in range(self.shape[0]):
            yield self[i]

    def __bool__(self):
        if self.size == 1:
            return bool(mkbool(cv(self.view(np.ndarray).ravel()[0])))
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return self.item()

    def item(self, *a):
        return cv(self.view(np.ndarray).item(*a))

    def tolist(self):
        return [x.tolist() if isinstance(x, SArr) else x for x in self]

    def astype(self, t, *a, **k):
        if t in (bool, np.bool_):
            r = np.empty(self.shape, dtype=object)
            b = self.view(np.ndarray)
            for i in np.ndindex(*self.shape):
                r[i] = mkbool(cv(b[i]))
            return r.view(SArr)
        if t in (int, np.int64, np.int32, "int", np.intp):
            return np.array([int(cv(e)) for e in self.view(np.ndarray).ravel()], dtype=int).reshape(self.shape)
        return self.copy()

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _reduce("logical_and", self, axis=axis, keepdims=keepdims)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _reduce("logical_or", self, axis=axis, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce("add", self, axis=axis, keepdims=keepdims)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _reduce("multiply", self, axis=axis, keepdims=keepdims)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _reduce("maximum", self, axis=axis, keepdims=keepdims)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return _reduce("minimum", self, axis=axis, keepdims=keepdims)

    def ptp(self, axis=None, **k):
        return self.max(axis=axis) - self.min(axis=axis)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = _reduce("add", self, axis=axis, keepdims=keepdims)
        if axis is None:
            n = self.size
        elif isinstance(axis, tuple):
            n = int(np.prod([self.shape[i] for i in axis]))
        else:
            n = self.shape[axis]
        return s / n

    def dot(self, o, out=None):
        return n_dot(self, o)

    def var(self, axis=None, **k):
        return n_var(self, axis=axis, **k)

    def std(self, axis=None, **k):
        return n_std(self, axis=axis, **k)

    def trace(self, *a, **k):
        return n_trace(self, *a, **k)

    def cumsum(self, axis=None, **k):
        return n_cumsum(self, axis=axis)

    def argmax(self, axis=None, **k):
        return n_argmax(self, axis)

    def argmin(self, axis=None, **k):
        return n_argmin(self, axis)

    def nonzero(self):
        return np.nonzero(cbool(self != 0) if not is_boolarr(self) else cbool(self))

    def conj(self):
        return self

    conjugate = conj

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return self * 0

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = np.maximum(r, A(lo))
        if hi is not None:
            r = np.minimum(r, A(hi))
        return r

    def round(self, decimals=0, out=None):
        if out is not None or not isinstance(decimals, (int, np.integer)):
            raise Unsupported("round")
        k = Fraction(10) ** int(decimals)
        return np.rint(self * k) / k if decimals else np.rint(self)

    def repeat(self, *a, **k):
        return self.view(np.ndarray).repeat(*a, **k).view(SArr)

    def fill(self, v):
        self.view(np.ndarray).fill(v)

    def tofile(self, *a):
        raise Unsupported("tofile")

    def __repr__(self):
        return "SArr(%s)" % (self.view(np.ndarray).tolist(),)

    __str__ = __repr__

    def __format__(self, s):
        return "<symarr>"

    def __deepcopy__(self, memo):
        return self.copy()

    def __pow__(self, n):
        return ufunc_handler(np.power, "__call__", (self, n), {})

    def __contains__(self, x):
        return bool((self == x).any())


class CArr(SArr):
    """cvxpy expression (see cpshim)."""

    @staticmethod
    def _ufunc(ufunc, method, inputs, kwargs):
        raise Unsupported("cvxpy shim not loaded")


# -- overridden numpy functions --------------------------------------------
def ov(*fs):
    def deco(g):
        for f in fs:
            OVERRIDES[f] = g
        return g

    return deco


def _kd(k):
    return False if k is np._NoValue else k


@ov(np.sum)
def n_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if isinstance(a, CArr):
        return a.sum(axis=axis)
    if isinstance(a, types.GeneratorType):
        a = list(a)
    if not has_sym(a) and isinstance(a, (np.ndarray, list)) and np.asarray(a).dtype.kind in "bi":
        return np.sum(a, axis=axis, keepdims=_kd(keepdims))
    return _reduce("add", A(a) if not isinstance(a, SArr) else a, axis=axis, keepdims=_kd(keepdims))


@ov(np.prod, np.product if hasattr(np, "product") else np.prod)
def n_prod(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if not has_sym(a):
        r = np.prod(a, axis=axis, keepdims=_kd(keepdims))
        if np.asarray(a).dtype.kind in "bi":
            return r
        if np.size(a) == 0:
            return float(r) if np.ndim(r) == 0 else r
        return wrap(r)
    return _reduce("multiply", A(a), axis=axis, keepdims=_kd(keepdims))


def _mk_ext(name, kind):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True):
        if not has_sym(a) and np.asarray(a).dtype.kind in "bi":
            return getattr(np, kind)(a, axis=axis)
        return _reduce(name, A(a), axis=axis, keepdims=_kd(keepdims), initial=None if initial is np._NoValue else initial)

    return f


n_max = ov(np.max, np.amax, np.nanmax)(_mk_ext("maximum", "max"))
n_min = ov(np.min, np.amin, np.nanmin)(_mk_ext("minimum", "min"))


@ov(np.mean, np.average)
def n_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True, weights=None):
    a = A(a)
    if weights is not None and weights is not np._NoValue:
        w = A(weights)
        if axis is not None and w.ndim == 1 and a.ndim > 1:
            shp = [1] * a.ndim
            shp[axis] = w.shape[0]
            w = w.reshape(shp)
        return (a * w).sum(axis=axis) / w.sum()
    return a.mean(axis=axis, keepdims=_kd(keepdims))


@ov(np.all, np.alltrue if hasattr(np, "alltrue") else np.all)
def n_all(a, axis=None, out=None, keepdims=False, where=True):
    return _reduce("logical_and", _mk(a) if isinstance(a, (list, tuple)) else a, axis=axis, keepdims=_kd(keepdims))


@ov(np.any, np.sometrue if hasattr(np, "sometrue") else np.any)
def n_any(a, axis=None, out=None, keepdims=False, where=True):
    return _reduce("logical_or", _mk(a) if isinstance(a, (list, tuple)) else a, axis=axis, keepdims=_kd(keepdims))


@ov(np.trace)
def n_trace(a, offset=0, axis1=0, axis2=1, dtype=None, out=None):
    a = A(a)
    if a.ndim != 2:
        raise Unsupported("trace of %d dims" % a.ndim)
    return _reduce("add", np.diagonal(a.view(np.ndarray), offset), axis=None)


@ov(np.cumsum)
def n_cumsum(a, axis=None, dtype=None, out=None):
    if not has_sym(a):
        return np.cumsum(a, axis=axis)
    a = A(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return ufunc_handler(np.add, "accumulate", (a,), {"axis": axis})


@ov(np.cumprod)
def n_cumprod(a, axis=None, dtype=None, out=None):
    a = A(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return ufunc_handler(np.multiply, "accumulate", (a,), {"axis": axis})


@ov(np.argmax)
def n_argmax(a, axis=None, out=None, keepdims=False):
    a = a if isinstance(a, np.ndarray) else _mk(a)
    if is_boolarr(a):
        return np.argmax(np.asarray(cbool(a)), axis=axis)
    if a.dtype != object:
        return np.argmax(a.view(np.ndarray), axis=axis)
    return np.argmax(base(a), axis=axis)


@ov(np.argmin)
def n_argmin(a, axis=None, out=None, keepdims=False):
    a = a if isinstance(a, np.ndarray) else _mk(a)
    if is_boolarr(a):
        return np.argmin(np.asarray(cbool(a)), axis=axis)
    if a.dtype != object:
        return np.argmin(a.view(np.ndarray), axis=axis)
    return np.argmin(base(a), axis=axis)


@ov(np.dot, np.matmul)
def n_dot(a, b, out=None):
    if isinstance(a, CArr) or isinstance(b, CArr):
        return a @ b
    a, b = base(a), base(b)
    if a.ndim == 0 or b.ndim == 0:
        return _fin(ufv("multiply")(a, b))
    if b.ndim > 2:
        raise Unsupported("dot ndim>2")
    return _fin(np.asarray(_raw_matmul(a, b), dtype=object)) if not (a.ndim == 1 and b.ndim == 1) else cv(_raw_matmul(a, b)[()] if isinstance(_raw_matmul(a, b), np.ndarray) else _raw_matmul(a, b))


@ov(np.inner, np.vdot)
def n_inner(a, b):
    a, b = base(a), base(b)
    if a.ndim == 0 or b.ndim == 0:
        return _fin(ufv("multiply")(a, b))
    return n_dot(a, b.T)


@ov(np.outer)
def n_outer(a, b, out=None):
    a = a if isinstance(a, np.ndarray) else _mk_any(a)
    b = b if isinstance(b, np.ndarray) else _mk_any(b)
    a, b = base(a).ravel(), base(b).ravel()
    r = np.empty((a.size, b.size), dtype=object)
    for i in range(a.size):
        for j in range(b.size):
            r[i, j] = a[i] * b[j]
    return r.view(SArr)


def _mk_any(x):
    try:
        x = list(x)
    except TypeError:
        x = [x]
    o = np.empty(len(x), dtype=object)
    if all(np.ndim(e) == 0 for e in x):
        for i, e in enumerate(x):
            o[i] = e
        return o
    return _mk(x)


@ov(np.kron)
def n_kron(a, b):
    a, b = base(a), base(b)
    if a.ndim != 2 or b.ndim != 2:
        raise Unsupported("kron")
    return np.block([[a[i, j] * b.view(SArr) for j in range(a.shape[1])] for i in range(a.shape[0])])


@ov(np.einsum)
def n_einsum(spec, *ops, **kw):
    ops = [base(o) for o in ops]
    spec = spec.replace(" ", "")
    explicit = "->" in spec
    ins, _, outs = spec.partition("->")
    ins = ins.split(",")
    ell = ""
    if "..." in spec:
        free = [ch for ch in "ZYXWVUTSRQPONMLKJIHGFEDCBA" if ch not in spec]
        ns = [o.ndim - len(s) + 3 if "..." in s else 0 for s, o in zip(ins, ops)]
        if min(ns) < 0:
            raise ValueError("einsum: operand has too few dimensions")
        ell = "".join(free[: max(ns)])
        ins = [s.replace("...", ell[len(ell) - n :]) for s, n in zip(ins, ns)]
        outs = outs.replace("...", ell)
    if not explicit:
        cnt = {}
        for s in ins:
            for c in s:
                cnt[c] = cnt.get(c, 0) + 1
        outs = ell + "".join(sorted(c for c in cnt if cnt[c] == 1 and c not in ell))
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim:
            raise ValueError("einsum: operand dims mismatch")
        for c, d in zip(s, o.shape):
            if dims.get(c, 1) == 1:
                dims[c] = d
            elif d not in (1, dims[c]):
                raise ValueError("einsum dims")
    summed = [c for c in dims if c not in outs]
    r = np.empty(tuple(dims[c] for c in outs), dtype=object)
    for oi in np.ndindex(*r.shape):
        env = dict(zip(outs, oi))
        acc = ZERO
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            t = ONE
            for s, o in zip(ins, ops):
                t = t * o[tuple(env[c] if d != 1 else 0 for c, d in zip(s, o.shape))]
                if not isinstance(t, float) and not t.num:
                    break
            acc = acc + t
        r[oi] = acc
    return _fin(r)


@ov(np.tensordot)
def n_tensordot(a, b, axes=2):
    a, b = base(a), base(b)
    if axes == 0:
        return ufunc_handler(np.multiply, "outer", (a, b), {})
    if isinstance(axes, int):
        ax, bx = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        ax, bx = [[x] if isinstance(x, int) else list(x) for x in axes]
    ax = [x % a.ndim for x in ax]
    bx = [x % b.ndim for x in bx]
    ar = [i for i in range(a.ndim) if i not in ax]
    br = [i for i in range(b.ndim) if i not in bx]
    k = int(np.prod([a.shape[i] for i in ax]))
    a2 = a.transpose(ar + ax).reshape(-1, k)
    b2 = b.transpose(bx + br).reshape(k, -1)
    return _fin(_raw_matmul(a2, b2).reshape([a.shape[i] for i in ar] + [b.shape[i] for i in br]))


@ov(np.cross)
def n_cross(a, b, *args, **k):
    a, b = A(a), A(b)
    r = [a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1], a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2], a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]]
    if a.ndim == 1 and b.ndim == 1:
        return A(r)
    return np.stack(r, axis=-1)


def _close1(a, b, rtol, atol):
    a, b = _num(a), _num(b)
    if is_special(a) or is_special(b):
        if is_special(a) and is_special(b):
            return mkbool(a == b)
        return core.FALSE
    d = a - b
    if is_special(atol) or is_special(rtol):
        raise Unsupported("special tolerance")
    atol, rtol = Sym.const(atol), Sym.const(rtol)
    if not rtol.num or b.isconst():
        t = atol + rtol * abs(b) if rtol.num else atol
        return And([d <= t, -d <= t])
    tp = atol + rtol * b
    tn = atol - rtol * b
    return Or([And([b >= 0, d <= tp, -d <= tp]), And([b < 0, d <= tn, -d <= tn])])


_closev = np.frompyfunc(_close1, 4, 1)
_RT, _AT = Fraction(1, 10**5), Fraction(1, 10**8)


@ov(np.isclose)
def n_isclose(a, b, rtol=_RT, atol=_AT, equal_nan=False):
    if isinstance(rtol, float) and rtol == 1e-5:
        rtol = _RT
    if all(isinstance(x, (np.ndarray, numbers.Number)) and not isinstance(x, SArr) and not has_sym(x) for x in (a, b)) and (isinstance(a, np.ndarray) or isinstance(b, np.ndarray)):
        r = _closev(base(a), base(b), base(rtol), base(atol))
        return r if not isinstance(r, np.ndarray) else cbool(r)
    r = _closev(base(a), base(b), base(rtol), base(atol))
    return _fin(r) if isinstance(r, np.ndarray) else mkbool(r)


@ov(np.allclose)
def n_allclose(a, b, rtol=_RT, atol=_AT, equal_nan=False):
    r = n_isclose(a, b, rtol, atol)
    if isinstance(r, np.ndarray):
        r = _reduce("logical_and", r, axis=None)
    return mkbool(r)


@ov(np.array_equal)
def n_array_equal(a, b, equal_nan=False):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return False
    return _reduce("logical_and", ufv("equal")(base(a), base(b)) if a.size else a, axis=None)


@ov(np.where)
def n_where(c, *xy):
    c = c if isinstance(c, (np.ndarray, bool, SymBool)) else A(c)
    c = np.asarray(cbool(c)) if not isinstance(c, np.ndarray) or c.dtype == bool or is_boolarr(c) else np.asarray(cbool(c != 0))
    if not xy:
        return np.nonzero(c)
    return wrap(np.where(c, base(xy[0]), base(xy[1])))


@ov(np.nonzero, np.flatnonzero, np.argwhere)
def n_nonzero(a):
    return A(a).nonzero()


OVERRIDES[np.flatnonzero] = lambda a: A(a).ravel().nonzero()[0]
OVERRIDES[np.argwhere] = lambda a: np.stack(A(a).nonzero(), axis=-1)


@ov(np.count_nonzero)
def n_count_nonzero(a, axis=None, keepdims=False):
    a = a if isinstance(a, np.ndarray) else _mk(a)
    m = cbool(a) if is_boolarr(a) else cbool(A(a) != 0)
    r = np.count_nonzero(m, axis=axis)
    return int(r) if np.ndim(r) == 0 else r


@ov(np.diff)
def n_diff(a, n=1, axis=-1, **k):
    a = A(a)
    for _ in range(n):
        a = np.moveaxis(a, axis, -1)
        a = np.moveaxis(a[..., 1:] - a[..., :-1], -1, axis)
    return a


@ov(np.clip)
def n_clip(a, lo=None, hi=None, out=None, **k):
    r = A(a).clip(lo, hi)
    return scalar(r)


@ov(np.ptp)
def n_ptp(a, axis=None, **k):
    return A(a).ptp(axis=axis)


@ov(np.linspace)
def n_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    a, b = base(a), base(b)
    if num < 0:
        raise ValueError("Number of samples, %s, must be non-negative." % num)
    div = (num - 1) if endpoint else num
    rows = []
    for k in range(num):
        if div <= 0 or k == 0:
            rows.append(a)
        else:
            rows.append(ufv("add")(a, ufv("multiply")(ufv("subtract")(b, a), base(Fraction(k, div)))))
    if a.ndim == 0 and b.ndim == 0:
        return A([scalar(np.asarray(r, dtype=object)) for r in rows])
    return np.stack([np.broadcast_arrays(r, b)[0] for r in rows], axis=axis).view(SArr)


@ov(np.median)
def n_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    a = n_asarray(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    a = np.moveaxis(base(a), axis, 0)
    n = a.shape[0]
    out_ = np.empty(a.shape[1:], dtype=object)
    for ix in np.ndindex(*a.shape[1:]):
        v = list(n_asarray(np.sort(A([a[(k,) + ix] for k in range(n)]))))
        out_[ix] = v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2
    return scalar(out_)


@ov(np.var)
def n_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = n_asarray(a)
    n = a.size if axis is None else a.shape[axis]
    m = n_sum(a, axis=axis, keepdims=True) / n
    return n_sum((a - m) * (a - m), axis=axis, keepdims=_kd(keepdims)) / (n - ddof)


@ov(np.std)
def n_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    v = n_var(a, axis=axis, ddof=ddof, keepdims=keepdims)
    return ufunc_handler(np.sqrt, "__call__", (v,), {})


@ov(np.select)
def n_select(condlist, choicelist, default=0):
    r = default
    for k, v in zip(reversed(list(condlist)), reversed(list(choicelist))):
        r = n_where(k, v, r)
    return r


@ov(np.unique)
def n_unique(a, *args, **k):
    b = np.asarray(base(A(a)))
    if any(isinstance(x, Sym) and not x.isconst() or isinstance(x, SymBool) for x in b.ravel()):
        raise Unsupported("numpy function")
    return np.unique(np.array([float(x.value()) if isinstance(x, Sym) else x for x in b.ravel()]).reshape(b.shape), *args, **k)


@ov(np.lexsort, np.percentile, np.interp, np.histogram)
def n_unsup(*a, **k):
    raise Unsupported("numpy function")


@ov(np.result_type, np.can_cast)
def n_rt(*a, **k):
    return np.dtype(float)


@ov(np.iscomplexobj)
def n_icx(x):
    return False


@ov(np.zeros_like)
def n_zeros_like(a, dtype=None, order=None, subok=True, shape=None, **k):
    return _filled(np.shape(a) if shape is None else shape, dtype if dtype is not None else _dt(a), 0)


@ov(np.ones_like)
def n_ones_like(a, dtype=None, order=None, subok=True, shape=None, **k):
    return _filled(np.shape(a) if shape is None else shape, dtype if dtype is not None else _dt(a), 1)


@ov(np.full_like)
def n_full_like(a, fill_value, dtype=None, order=None, subok=True, shape=None, **k):
    v = fill_value
    return _filled(np.shape(a) if shape is None else shape, dtype if dtype is not None else _dt(a), v)


@ov(np.empty_like)
def n_empty_like(a, dtype=None, order=None, subok=True, shape=None, **k):
    return _filled(np.shape(a) if shape is None else shape, dtype if dtype is not None else _dt(a), float("nan"))


def _dt(a):
    if isinstance(a, np.ndarray) and a.dtype.kind in "bi" and not isinstance(a, SArr):
        return a.dtype
    return float


def _filled(shape, dtype, v):
    if isinstance(shape, (Sym, SymBool)):
        shape = int(shape)
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s) for s in shape)
    if dtype is not None and np.dtype(dtype).kind in "biu":
        if isinstance(v, float):
            v = 0
        return np.full(shape, v, dtype=dtype)
    o = np.empty(shape, dtype=object)
    e = cv(v) if not isinstance(v, (np.ndarray, list)) else base(v)
    if isinstance(e, bool):
        e = cv(int(e))
    o[...] = e
    return o.view(SArr)


def n_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if isinstance(x, CArr):
        return x.view(SArr)
    if isinstance(x, SArr):
        r = x.copy() if copy else x
    else:
        if isinstance(x, (map, filter, types.GeneratorType)):
            r = np.empty((), dtype=object)
            r[()] = x
            return r
        if has_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object):
            u = x if isinstance(x, np.ndarray) else _unwrap(x)
            r = np.array(u, dtype=object)
            r = base(r).view(SArr)
        else:
            r = np.array(x, copy=copy) if dtype is None else np.array(x, dtype=dtype, copy=copy)
            r = wrap(r)
            if isinstance(r, Sym):
                o = np.empty((), dtype=object)
                o[()] = r
                r = o.view(SArr)
    if dtype is not None and dtype is not object:
        k = np.dtype(dtype).kind
        if isinstance(r, SArr):
            if k in "iu":
                r = r.astype(int)
            elif k == "b":
                r = r.astype(bool)
        elif k == "f":
            r = A(r)
    while r.ndim < ndmin:
        r = r[None]
    return r


def n_asarray(x, dtype=None, **k):
    return n_array(x, dtype=dtype, copy=False)


def _atleast(n, *xs):
    out = []
    for x in xs:
        x = n_asarray(x)
        if x.ndim == 0 and n >= 1:
            x = x.reshape(1)
        if x.ndim == 1 and n >= 2:
            x = x[None, :]
        out.append(x)
    return out[0] if len(out) == 1 else out


def n_arange(*a, **k):
    if any(isinstance(x, Sym) for x in a):
        a = [x if not isinstance(x, Sym) else x for x in a]
        if len(a) == 1:
            lo, hi, st = ZERO, a[0], ONE
        else:
            lo, hi = Sym.const(a[0]), Sym.const(a[1])
            st = Sym.const(a[2]) if len(a) > 2 else ONE
        n = int(core._E.ceil((hi - lo) / st))
        return A([lo + st * i for i in range(max(n, 0))]) if n > 0 else _filled((0,), float, 0)
    return wrap(np.arange(*[float(x) if isinstance(x, Fraction) else x for x in a], **k))


# -- linear algebra ----------------------------------------------------------
def det(M):
    n = M.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return M[0, 0]
    if n == 2:
        return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
    r = ZERO
    # expand along the sparsest row
    best = max(range(n), key=lambda i: sum(1 for j in range(n) if isinstance(M[i, j], Sym) and not M[i, j].num))
    for j in range(n):
        e = M[best, j]
        if not e.num:
            continue
        m = np.delete(np.delete(M, best, 0), j, 1)
        t = e * det(m)
        r = r + t if (best + j) % 2 == 0 else r - t
    return r


def adjugate(M):
    n = M.shape[0]
    R = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(M, i, 0), j, 1)
            c = det(m)
            R[j, i] = c if (i + j) % 2 == 0 else -c
    return R


class LinAlgError(ValueError):
    pass


LinAlgError = np.linalg.LinAlgError


def l_det(M):
    return det(base(M))


def l_inv(M):
    M = base(M)
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    if M.shape[0] == 0:
        return M.view(SArr)
    for K, w, V in core._E.__dict__.get("eigreg", []):
        if M.shape[0] > 1 and _same(K, M) and all(bool(x != 0) for x in w):
            return n_dot(n_dot(V, l_diag_([ONE / x for x in w])), V.T)
    d = det(M)
    if not bool(d != 0):
        raise LinAlgError("Singular matrix")
    di = ONE / d
    return (adjugate(M).view(SArr)) * di


def l_solve(M, b):
    return n_dot(l_inv(M), b)


def l_norm(x, ord=None, axis=None, keepdims=False):
    x = A(x)
    if ord not in (None, 2, "fro", 1, np.inf):
        raise Unsupported("norm ord")
    if axis is None:
        if x.ndim == 2 and ord in (2, 1, np.inf):
            raise Unsupported("matrix norm")
        if ord == 1:
            return np.abs(x).sum()
        if ord == np.inf:
            return np.abs(x).max()
        x = x.ravel()
        return _sqrt(_reduce("add", x * x, axis=None))
    if isinstance(axis, tuple) and len(axis) > 1:
        raise Unsupported("norm axis")
    if ord == 1:
        return np.abs(x).sum(axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return np.abs(x).max(axis=axis, keepdims=keepdims)
    return np.sqrt(_reduce("add", x * x, axis=axis, keepdims=keepdims))


def l_lstsq(M, b, rcond=None):
    """Square nonsingular systems only (the contract: a least-squares solution)."""
    M = base(M)
    if M.shape[0] == 0 or M.shape[1] == 0:
        return (_filled((M.shape[1],), float, 0), None, 0, None)
    if M.shape[0] != M.shape[1]:
        raise Unsupported("lstsq of a non-square matrix")
    d = det(M)
    if bool(d != 0):
        return (l_solve(M, b), A([]), M.shape[0], None)
    # diagonal singular systems: minimum-norm solution
    n = M.shape[0]
    if all((not M[i, j].num) for i in range(n) for j in range(n) if i != j):
        b = A(b)
        r = [b[i] / M[i, i] if bool(M[i, i] != 0) else ZERO for i in range(n)]
        return (A(r), A([]), None, None)
    # symmetric with a known eigendecomposition
    ed = core._E.__dict__.setdefault("eigreg", [])
    for (K, w, V) in ed:
        if _same(K, M):
            y = n_dot(V.T, b)
            z = A([y[i] / w[i] if bool(w[i] != 0) else ZERO for i in range(n)])
            return (n_dot(V, z), A([]), None, None)
    raise Unsupported("lstsq of a singular matrix")


def _same(K, M):
    if K.shape != M.shape:
        return False
    for x, y in zip(base(K).ravel(), base(M).ravel()):
        d = x - y
        if is_special(d) or d.num:
            return False
    return True


def is_symmetric(M):
    n = M.shape[0]
    return all(not (M[i, j] - M[j, i]).num for i in range(n) for j in range(i))


def is_diagonal(M):
    n = M.shape[0]
    return all(not M[i, j].num for i in range(n) for j in range(n) if i != j)


def charpoly_sums(M):
    """e_1..e_n of the eigenvalues = sums of principal minors."""
    n = M.shape[0]
    out = []
    for k in range(1, n + 1):
        s = ZERO
        for c in itertools.combinations(range(n), k):
            s = s + det(M[np.ix_(c, c)])
        out.append(s)
    return out


def register_eig(M, w, V):
    """Declare M == V diag(w) V^T with V orthogonal (used by contract stubs)."""
    core._E.__dict__.setdefault("eigreg", []).append((base(M), list(w), A(V)))


def sort_syms(ws, vs=None):
    """Ascending sort by forking comparisons (insertion)."""
    out = []
    for k, w in enumerate(ws):
        item = (w, None if vs is None else vs[k])
        i = len(out)
        while i > 0 and not bool(out[i - 1][0] <= w):
            i -= 1
        out.insert(i, item)
    return out


def l_diag_(d):
    n = len(d)
    o = np.empty((n, n), dtype=object)
    o[...] = ZERO
    for i in range(n):
        o[i, i] = Sym.const(d[i])
    return A(o)


def eigen_contract(M, want_vectors):
    """Eigenvalues (ascending) and eigenvectors of a symmetric matrix."""
    E = core._E
    M = base(M)
    n = M.shape[0]
    if n == 0:
        return [], M
    if not is_symmetric(M):
        raise Unsupported("eigenvalues of a nonsymmetric matrix")
    key = ("eig", tuple((core.pkey(x.num), x.D, x.den) for x in M.ravel()))
    hit = E.sqrt_cache.get(key)
    if hit is not None and (hit[1] is not None or not want_vectors):
        return hit
    reg = E.__dict__.setdefault("eigreg", [])
    found = None
    if n == 1:
        found = ([M[0, 0]], A([[1]]))
    elif is_diagonal(M):
        found = ([M[i, i] for i in range(n)], A(np.eye(n)))
    else:
        for K, w, V in reg:
            if _same(K, M):
                found = (w, V)
                break
        else:
            # diagonal in a known basis
            for K, w, V in reg:
                if V.shape == M.shape:
                    D = n_dot(n_dot(V.T, A(M)), V)
                    if is_diagonal(base(D)):
                        found = ([D[i, i] for i in range(n)], V)
                        break
    if found is not None:
        w, V = found
        its = sort_syms(w, [V[:, i] for i in range(n)])
        ws = [w for w, _ in its]
        Vs = np.stack([v for _, v in its], axis=1)
        E.sqrt_cache[key] = (ws, Vs)
        return ws, Vs
    if want_vectors:
        raise Unsupported("eigenvectors of an unregistered matrix")
    ws = [E.real("eig%d_%d" % (len(E.sqrt_cache), i), kind="def") for i in range(n)]
    for a, b in zip(ws, ws[1:]):
        E.add_hyp(a <= b)
    light = E.__dict__.get("eig_light", False)
    es = () if light else charpoly_sums(M)
    for k in range(1, n + 1) if not light else ():
        s = ZERO
        for c in itertools.combinations(ws, k):
            t = ONE
            for x in c:
                t = t * x
            s = s + t
        E.add_hyp(s == es[k - 1])
    # Rayleigh bounds on coordinate directions and pairs
    for i in range(n):
        E.add_hyp(ws[0] <= M[i, i])
        E.add_hyp(ws[-1] >= M[i, i])
    # Rayleigh quotients of named directions
    for z in E.__dict__.get("eig_dirs", ()):
        if len(z) == n:
            q = ZERO
            zz = ZERO
            for i in range(n):
                zz = zz + z[i] * z[i]
                for j in range(n):
                    q = q + z[i] * M[i, j] * z[j]
            E.add_hyp(ws[0] * zz <= q)
            E.add_hyp(ws[-1] * zz >= q)
    # M == U diag(d) U^T: a unit eigenvector v has w = sum d_i (U_i . v)^2
    for U, d in E.__dict__.get("eig_factors", ()):
        U = base(U)
        if U.shape[0] == n and _same(n_dot(n_dot(A(U), l_diag_(d)), A(U).T), M):
            for w in (ws[0], ws[-1]):
                s = ZERO
                for k, x in enumerate(d):
                    y = E.real("eigy%d_%d_%d" % (len(E.sqrt_cache), len(E.vars), k), kind="def")
                    s = s + x * y * y
                E.add_hyp(w == s)
    E.__dict__.setdefault("eigmats", []).append((M, ws))
    E.sqrt_cache[key] = (ws, None)
    return ws, None


def _eig_check(M):
    M = base(M)
    if M.ndim != 2 or M.shape[0] != M.shape[1]:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    for x in M.ravel():
        if is_special(x):
            raise LinAlgError("Array must not contain infs or NaNs")
    return M


def l_eigvals(M):
    return A(eigen_contract(_eig_check(M), False)[0])


def l_eigvalsh(M, UPLO="L"):
    M = _eig_check(M)
    L = M.copy()
    n = M.shape[0]
    for i in range(n):
        for j in range(i):
            if UPLO == "L":
                L[j, i] = L[i, j]
            else:
                L[i, j] = L[j, i]
    return A(eigen_contract(L, False)[0])


def l_eigh(M, UPLO="L"):
    M = _eig_check(M)
    L = M.copy()
    n = M.shape[0]
    for i in range(n):
        for j in range(i):
            if UPLO == "L":
                L[j, i] = L[i, j]
            else:
                L[i, j] = L[j, i]
    w, V = eigen_contract(L, True)
    from collections import namedtuple

    return namedtuple("EighResult", "eigenvalues eigenvectors")(A(w), V.copy())


def l_eig(M):
    M = _eig_check(M)
    if not is_symmetric(M):
        raise Unsupported("eig of nonsymmetric")
    w, V = eigen_contract(M, True)
    return A(w), V.copy()


def l_matrix_rank(M, *a, **k):
    """exact rank, deciding one pivot after another"""
    M = [[Sym.const(x) for x in r] for r in np.atleast_2d(base(M))]
    r = 0
    for j in range(len(M[0]) if M else 0):
        p = next((i for i in range(r, len(M)) if bool(M[i][j] != 0)), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            f = M[i][j] / M[r][j]
            M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        r += 1
    return r


def l_pinv(M, *a, **k):
    M = base(M)
    if M.shape[0] == M.shape[1] and bool(det(M) != 0):
        return l_inv(M)
    raise Unsupported("pinv")


def l_multi_dot(ms, out=None):
    return functools.reduce(n_dot, ms)


def l_matrix_power(M, n):
    r = A(np.eye(np.shape(M)[0]))
    if n < 0:
        M = l_inv(M)
        n = -n
    for _ in range(n):
        r = n_dot(r, M)
    return r


def l_cholesky(M):
    M = base(M)
    n = M.shape[0]
    L = _filled((n, n), float, 0)
    for i in range(n):
        for j in range(i + 1):
            s = M[i, j]
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            if i == j:
                if not bool(s > 0):
                    raise LinAlgError("Matrix is not positive definite")
                L[i, i] = _sqrt(s)
            else:
                L[i, j] = s / L[j, j]
    return L


for _n, _f in dict(det=l_det, inv=l_inv, solve=l_solve, norm=l_norm, lstsq=l_lstsq, eigvals=l_eigvals, eigvalsh=l_eigvalsh, eigh=l_eigh, eig=l_eig, matrix_rank=l_matrix_rank, pinv=l_pinv, multi_dot=l_multi_dot, matrix_power=l_matrix_power, cholesky=l_cholesky).items():
    OVERRIDES[getattr(np.linalg, _n)] = _f


def _unsup(name):
    def f(*a, **k):
        raise Unsupported("numpy." + name)

    return f


for _n in ("svd", "qr", "cond", "slogdet", "tensorinv", "tensorsolve"):
    OVERRIDES[getattr(np.linalg, _n)] = _unsup("linalg." + _n)


# -- the proxy module -------------------------------------------------------
def conv_arg(x):
    if isinstance(x, (list, tuple)) and has_sym(x):
        if any(isinstance(e, (np.ndarray, list, tuple)) for e in x):
            return type(x)([conv_arg(e) for e in x]) if type(x) in (list, tuple) else x
        return A(list(x))
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype == object:
        return x.view(SArr)
    if isinstance(x, Sym) or isinstance(x, Fraction):
        return x
    return x


class _Fn:
    """Wrapped numpy function."""

    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, "__name__", "fn")

    def __call__(self, *a, **k):
        a = [conv_arg(x) for x in a]
        k = {n: conv_arg(x) for n, x in k.items()}
        a = [int(x) if isinstance(x, Sym) and x.isconst() and not isinstance(self.f, np.ufunc) and x.value().denominator == 1 else x for x in a]
        return wrap(self.f(*a, **k))


class _UFn:
    def __init__(self, f):
        self.f = f
        self.__name__ = f.__name__

    def __call__(self, *a, **k):
        out = k.get("out")
        if isinstance(out, np.ndarray) and not isinstance(out, SArr) and out.dtype == object:
            k["out"] = out.view(SArr)
        a = [n_asarray(x) if isinstance(x, (list, tuple)) else x for x in a]
        if any(isinstance(x, CArr) for x in a):
            return CArr._ufunc(self.f, "__call__", a, k)
        if any(isinstance(x, (Sym, SymBool, SArr, float, Fraction)) for x in a) or has_sym(list(a)) or self.f.__name__ in ("sqrt", "true_divide", "divide", "cbrt", "hypot"):
            return ufunc_handler(self.f, "__call__", tuple(a), k)
        if any(isinstance(x, np.ndarray) and x.dtype.kind == "f" for x in a):
            return ufunc_handler(self.f, "__call__", tuple(a), k)
        return wrap(self.f(*a, **k))

    def reduce(self, a, axis=0, **k):
        return _reduce(self.f.__name__, a if isinstance(a, np.ndarray) else _mk(a), axis=axis, **k)

    def outer(self, a, b, **k):
        return ufunc_handler(self.f, "outer", (a, b), k)

    def accumulate(self, a, axis=0, **k):
        return ufunc_handler(self.f, "accumulate", (a,), {"axis": axis})

    def at(self, a, i, b=None):
        return ufunc_handler(self.f, "at", (a, i, b), {})

    def __getattr__(self, n):
        return getattr(self.f, n)


class NPProxy(types.ModuleType):
    def __init__(self, name, real, table):
        super().__init__(name)
        self.__dict__["_real"] = real
        self.__dict__["_table"] = table

    def __getattr__(self, n):
        t = self._table
        if n in t:
            v = t[n]
            return v() if isinstance(v, _Lazy) else v
        r = getattr(self._real, n)
        if isinstance(r, type) or not callable(r):
            if isinstance(r, types.ModuleType):
                return NPProxy(self.__name__ + "." + n, r, {})
            return r
        if isinstance(r, np.ufunc):
            return _UFn(r)
        f = OVERRIDES.get(r)
        if f is not None:
            return f
        return _Fn(r)


class _Lazy:
    def __init__(self, f):
        self.f = f

    def __call__(self):
        return self.f()


def s_float(x=0.0):
    if isinstance(x, Sym):
        return x
    if isinstance(x, SArr):
        return x.item()
    if isinstance(x, SymBool):
        return x.as_sym()
    if isinstance(x, str):
        return float(x)
    return Sym.const(x)


class Float64(float):
    """np.float64 stand-in: a constructor and a dtype."""

    dtype = np.dtype(float)

    def __new__(cls, x=0.0):
        if isinstance(x, (np.ndarray, list)):
            return n_array(x)
        return s_float(x)


TABLE = {
    "array": n_array,
    "asarray": n_asarray,
    "asanyarray": n_asarray,
    "ascontiguousarray": n_asarray,
    "asfortranarray": n_asarray,
    "asfarray": lambda x, **k: A(x),
    "copy": lambda x, **k: n_array(x),
    "zeros": lambda shape, dtype=float, **k: _filled(shape, dtype, 0),
    "ones": lambda shape, dtype=float, **k: _filled(shape, dtype, 1),
    "empty": lambda shape, dtype=float, **k: _filled(shape, dtype, float("nan")),
    "full": lambda shape, v, dtype=None, **k: _filled(shape, dtype if dtype is not None else (bool if isinstance(v, (bool,)) else int if isinstance(v, int) else float), v),
    "eye": lambda N, M=None, k=0, dtype=float, **kw: A(np.eye(int(N), None if M is None else int(M), k=int(k))) if np.dtype(dtype).kind == "f" else np.eye(int(N), M, k=k, dtype=dtype),
    "identity": lambda N, dtype=float, **kw: A(np.eye(int(N))) if np.dtype(dtype).kind == "f" else np.eye(int(N), dtype=dtype),
    "fromiter": lambda it, dtype=float, count=-1, **k: A(list(it) if count < 0 else [x for _, x in zip(range(count), it)]),
    "tri": lambda *a, **k: A(np.tri(*a, **k)) if "dtype" not in k else np.tri(*a, **k),
    "zeros_like": n_zeros_like,
    "ones_like": n_ones_like,
    "full_like": n_full_like,
    "empty_like": n_empty_like,
    "atleast_1d": lambda *x: _atleast(1, *x),
    "atleast_2d": lambda *x: _atleast(2, *x),
    "arange": n_arange,
    "pi": _Lazy(lambda: core._E.pi()),
    "inf": float("inf"),
    "nan": float("nan"),
    "Inf": float("inf"),
    "newaxis": None,
    "float64": Float64,
    "float_": Float64,
    "double": Float64,
    "e": 2.718281828459045,
}


def make_numpy(rng_factory):
    t = dict(TABLE)
    lin = NPProxy("numpy.linalg", np.linalg, {"LinAlgError": np.linalg.LinAlgError})
    rnd = types.ModuleType("numpy.random")
    rnd.default_rng = rng_factory.default_rng
    rnd.Generator = rng_factory.Generator
    rnd.RandomState = rng_factory.unsupported
    t["linalg"] = lin
    t["random"] = rnd
    p = NPProxy("numpy", np, t)
    return p, lin, rnd
