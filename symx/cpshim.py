"""A model of the part of cvxpy that rigeo uses.

Expressions are arrays of symbolic reals (variables are fresh symbols);
constraints are recorded as formulas; `Problem.solve` returns arbitrary values
satisfying the recorded constraints (its contract), and the optimality
condition can be instantiated by a harness for any competitor it names.
"""
import builtins
import itertools
import types

import numpy as np

from . import core, arr
from .core import Sym, SymBool, And, Or, Unsupported, ZERO, ONE, mkbool
from .arr import A, SArr, CArr, base, cv


class Con:
    """kind: 'rel' (formula: list of SymBool), 'psd' (matrix >= 0)."""

    def __init__(self, kind, data, op=None, diff=None):
        self.kind = kind
        self.data = data
        self.op = op
        self.diff = diff  # of an equation: the matrix that vanishes

    def __bool__(self):
        if self.kind == "rel" and len(self.data) == 1:
            # cvxpy evaluates `a == b` for scalars only by identity
            raise Unsupported("truth value of a constraint")
        raise Unsupported("truth value of a constraint")

    def formula(self):
        return And(self.data)

    shape = ()
    size = 1

    @property
    def dual_value(self):
        raise Unsupported("dual value")


def _shape_ok(a, b):
    return True


def c_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    if method != "__call__":
        raise Unsupported("cvxpy ufunc method")
    args = [x.view(SArr) if isinstance(x, CArr) else x for x in inputs]
    if name in ("equal", "less_equal", "greater_equal", "less", "greater", "not_equal"):
        if name in ("less", "greater", "not_equal"):
            raise NotImplementedError("Strict inequalities are not allowed.")
        r = arr.ufunc_handler(ufunc, "__call__", tuple(args), {})
        lst = list(r.view(np.ndarray).ravel()) if isinstance(r, np.ndarray) else [r]
        diff = None
        if name == "equal" and isinstance(r, np.ndarray) and r.ndim == 2:
            diff = base(arr.ufunc_handler(np.subtract, "__call__", tuple(args), {}))
        return Con("rel", [unsqrt(mkbool(x)) for x in lst], name, diff)
    r = arr.ufunc_handler(ufunc, "__call__", tuple(args), {})
    return C(r)


def unsqrt(b):
    """a sqrt(q) + r <= 0, a > 0, without the root: r <= 0 and a^2 q <= r^2"""
    E = core._E
    if b.k != "<=":
        return b
    p = b.a
    roots = [i for i in core.pvars(p) if E.vars[i].name.startswith("sqrt") and i in E.rules and E.rules[i][0] == 2]
    if len(roots) != 1:
        return b
    i = roots[0]
    ms = [m for m in p if any(j == i for j, _ in core.mono_items(m))]
    if len(ms) != 1 or core.mono_items(ms[0]) != [(i, 1)] or p[ms[0]] <= 0:
        return b
    r = Sym({m: c for m, c in p.items() if m != ms[0]})
    a = Sym({0: p[ms[0]]})
    return And([r <= 0, a * a * Sym(E.rules[i][1]) <= r * r])


CArr._ufunc = staticmethod(c_ufunc)


def C(x):
    """to expression."""
    if isinstance(x, CArr):
        return x
    if isinstance(x, np.ndarray):
        return base(x).view(CArr)
    if isinstance(x, (list, tuple)):
        return base(arr._mk(x)).view(CArr)
    return x if isinstance(x, Sym) else Sym.const(x)


def _psd(diff):
    return Con("psd", base(diff))


def _rshift(self, o):
    d = self - o
    return _psd(_sq(d))


def _lshift(self, o):
    d = o - self if isinstance(o, np.ndarray) else -(self - o)
    return _psd(_sq(d))


def _sq(d):
    if isinstance(d, Sym):
        return A([[d]])
    if d.ndim == 0:
        return d.reshape(1, 1)
    if d.ndim != 2 or d.shape[0] != d.shape[1]:
        raise ValueError("Non-square matrix in positive definite constraint.")
    return d


CArr.__rshift__ = _rshift
CArr.__lshift__ = _lshift
# an element of an expression times a plain array is an expression too
SArr.__rshift__ = _rshift
SArr.__lshift__ = _lshift
CArr.__rrshift__ = lambda self, o: _psd(_sq(o - self))
CArr.__rlshift__ = lambda self, o: _psd(_sq(self - o))
Sym.__rshift__ = lambda self, o: _psd(_sq(self - o)) if not isinstance(o, CArr) else NotImplemented
Sym.__lshift__ = lambda self, o: _psd(_sq(o - self)) if not isinstance(o, CArr) else NotImplemented


def _cvalue(self):
    s = in_eig(self)
    return s.view(SArr) if self.ndim else s.item()


def eig_fn():
    m = _reg().eigmap
    return subst_fn(m) if m else None


def in_eig(a):
    """the array in terms of the spectral form of the semidefinite variables"""
    fs = eig_fn()
    if fs is None:
        return a
    o = np.empty(a.shape, dtype=object)
    b = base(a)
    for ix in np.ndindex(*a.shape):
        o[ix] = fs(Sym.const(b[ix]))
    return o.view(CArr)


def _set_value(self, v):
    raise Unsupported("setting the value of an expression")


CArr.value = property(_cvalue, _set_value)
CArr.is_scalar = lambda self: self.size == 1
Sym.value_expr = property(lambda self: self)


def _cmul(self, o):
    if isinstance(o, np.ndarray) and o.ndim == 2 and self.ndim == 2 and o.size > 1 and self.size > 1:
        return arr.n_dot(self.view(SArr), o).view(CArr)  # cvxpy: * between matrices is matrix multiplication
    return c_ufunc(np.multiply, "__call__", (self, o), {})


def _rcmul(self, o):
    if isinstance(o, np.ndarray) and o.ndim == 2 and self.ndim == 2 and o.size > 1 and self.size > 1:
        return arr.n_dot(o, self.view(SArr)).view(CArr)
    return c_ufunc(np.multiply, "__call__", (o, self), {})


CArr.__mul__ = _cmul
CArr.__rmul__ = _rcmul
CArr.__hash__ = lambda self: id(self)


class VarInfo:
    def __init__(self, arr_, shape, attrs, names):
        self.arr = arr_
        self.shape = shape
        self.attrs = attrs
        self.names = names
        self.assumed = False


def _reg():
    E = core._E
    if "cvx" not in E.__dict__:
        E.__dict__["cvx"] = types.SimpleNamespace(vars=[], problems=[], eigmode=False, eig_lo=None, eig_hi=None, eigmap={}, user=False, solver=None, n=itertools.count())
    return E.__dict__["cvx"]


def Variable(shape=(), name=None, **attrs):
    E = core._E
    R = _reg()
    if isinstance(shape, (int, np.integer)):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    tag = "v%d" % next(R.n)
    kind = "def"
    psd = attrs.get("PSD")
    sym = psd or attrs.get("symmetric") or attrs.get("NSD")
    for k in attrs:
        if k not in ("PSD", "symmetric", "nonneg", "NSD", "pos", "nonpos", "diag") or (attrs[k] and k in ("diag", "nonpos", "pos", "NSD")):
            raise Unsupported("cvxpy variable attribute " + k)
    names = []
    o = np.empty(shape, dtype=object)
    for ix in np.ndindex(*shape):
        if sym and ix[0] > ix[1]:
            o[ix] = o[ix[1], ix[0]]
            continue
        nm = "%s[%s]" % (tag, ",".join(map(str, ix)))
        names.append(nm)
        o[ix] = E.real(nm, kind=kind)
    info = VarInfo(o.view(CArr), shape, attrs, names)
    if psd and R.eigmode and shape[0] <= 3:
        from . import stubs

        n = shape[0]
        w = [E.real("%s.w%d" % (tag, i), ">=0", kind=kind) for i in range(n)]
        for x, y in zip(w, w[1:]):
            E.add_hyp(x <= y)
        V = stubs.orthogonal(n, tag + ".V") if n > 1 else A([[1]])
        M = V @ A(np.diag(np.array(w, dtype=object))) @ V.T
        arr.register_eig(M, w, V)
        info.eig = (w, V, base(M))
        for ix in np.ndindex(*shape):
            R.eigmap[core.pvars(o[ix].num)[0]] = Sym.const(base(M)[ix])
    R.vars.append(info)
    return info.arr


def Parameter(shape=(), name=None, value=None, **attrs):
    raise Unsupported("cvxpy parameter")


def Constant(x):
    return C(arr.n_asarray(x) if isinstance(x, (list, np.ndarray)) else x)


def c_sum(expr, axis=None, keepdims=False):
    if isinstance(expr, list):
        return C(builtins.sum(expr))
    if isinstance(expr, Sym):
        return expr
    return C(arr._reduce("add", C(expr).view(SArr), axis=axis, keepdims=keepdims))


def c_trace(x):
    return arr.n_trace(C(x).view(SArr))


def c_reshape(x, shape, order="F"):
    if isinstance(shape, int):
        shape = (shape,)
    b = base(x)
    return b.reshape(shape, order=order).view(CArr)


def c_vec(x, order="F"):
    return base(x).ravel(order=order).view(CArr)


def c_bmat(rows):
    def blk(x):
        b = base(x)
        return b.reshape(1, 1) if b.ndim == 0 else (b.reshape(-1, 1) if b.ndim == 1 else b)

    return np.vstack([np.hstack([blk(x) for x in r]) for r in rows]).view(CArr)


def c_stack(f, at):
    def g(xs):
        return f([at(base(x)) for x in xs]).view(CArr)

    return g


def c_upper_tri(x):
    b = base(x)
    return b[np.triu_indices(b.shape[0], k=1)].view(CArr)


def c_diag(x, k=0):
    b = base(x)
    if b.ndim == 1 or 1 in b.shape:
        n = b.size
        o = np.empty((n, n), dtype=object)
        o[...] = ZERO
        for i, e in enumerate(b.ravel()):
            o[i, i] = e
        return o.view(CArr)
    return np.array([b[i, i] for i in range(b.shape[0])], dtype=object).view(CArr)


def c_norm(x, p=2, axis=None, keepdims=False):
    b = base(x)
    if axis is not None:
        if keepdims or b.ndim != 2:
            raise Unsupported("norm axis")
        return np.array([c_norm(r, p) for r in (b.T if axis == 0 else b)], dtype=object).view(CArr)
    if b.ndim == 2 and 1 not in b.shape and p != "fro":
        raise Unsupported("norm of a matrix")
    b = b.ravel()
    if p in (2, "fro", None):
        return core._E.sqrt(arr._red1("add", [e * e for e in b]))
    if p == 1:
        return arr._red1("add", [abs(e) for e in b])
    if p in ("inf", "Inf", np.inf):
        return core._E.extremum([abs(e) for e in b], "max")
    raise Unsupported("norm p")


def c_pnorm(x, p=2, axis=None, keepdims=False):
    return c_norm(x if axis is not None else base(x).ravel(), p, axis, keepdims)


def c_ext(kind):
    def f(x, axis=None, keepdims=False):
        b = base(x)
        if axis is None:
            return core._E.extremum([cv(e) for e in b.ravel()], kind)
        return np.array([core._E.extremum([cv(e) for e in r], kind) for r in (b.T if axis == 0 else b)], dtype=object).view(CArr)

    return f


def c_inner(a, b):
    return arr._red1("add", [x * y for x, y in zip(base(a).ravel(), base(b).ravel())])


def c_rel(op):
    def f(x):
        x = C(x)
        x = np.array([x], dtype=object).view(CArr) if isinstance(x, Sym) else x
        return x >= 0 if op == ">=" else (x <= 0 if op == "<=" else x == 0)

    return f


def c_sumsq_over(x, y):
    return c_sum_squares(x) / (base(y).item() if isinstance(y, np.ndarray) else y)


def c_soc(t, x):
    t = Sym.const(base(t).item() if isinstance(t, np.ndarray) else t)
    return Con("rel", [t >= 0, c_sum_squares(C(x)) <= t * t])


def c_sum_squares(x):
    return arr._red1("add", [e * e for e in base(x).ravel()])


class Opaque:
    """linear combination of log-determinants and other opaque terms + Sym."""

    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, terms, const=ZERO):
        self.terms = terms  # list of (coef Fraction/Sym, kind, matrix)
        self.const = const

    def __neg__(self):
        return Opaque([(-c, k, m) for c, k, m in self.terms], -self.const)

    def __mul__(self, o):
        o = Sym.const(o)
        return Opaque([(c * o, k, m) for c, k, m in self.terms], self.const * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (ONE / Sym.const(o))

    def __add__(self, o):
        if isinstance(o, Opaque):
            return Opaque(self.terms + o.terms, self.const + o.const)
        return Opaque(self.terms, self.const + o)

    __radd__ = __add__

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    @property
    def value(self):
        raise Unsupported("value of log_det")


def c_log_det(x):
    return Opaque([(ONE, "logdet", base(x))])


def _objexpr(e):
    if isinstance(e, (list, tuple)):
        e = e[0] if len(e) == 1 else builtins.sum(e)
    if isinstance(e, np.ndarray):
        e = e.item()
    return e if isinstance(e, Opaque) else Sym.const(e)


class Minimize:
    sense = 1

    def __init__(self, expr):
        self.expr = _objexpr(expr)

    @property
    def value(self):
        if isinstance(self.expr, Opaque):
            return self.expr
        return self.expr


class Maximize(Minimize):
    sense = -1


class SolverError(Exception):
    pass


class Problem:
    def __init__(self, objective, constraints=None):
        self.objective = objective
        cs = []
        for c in constraints or []:
            if isinstance(c, (bool, np.bool_)):
                c = Con("rel", [mkbool(c)])
            elif isinstance(c, SymBool):
                c = Con("rel", [unsqrt(c)])
            elif isinstance(c, np.ndarray) and arr.is_boolarr(c):
                c = Con("rel", [unsqrt(mkbool(cv(x))) for x in c.view(np.ndarray).ravel()])
            elif not isinstance(c, Con):
                raise Unsupported("constraint of type %s" % type(c))
            cs.append(c)
        self.constraints = cs
        self.status = None
        self.value = None
        self.variables_snapshot = list(_reg().vars)

    def variables(self):
        return [v.arr for v in self.variables_snapshot]

    def solve(self, solver=None, **kw):
        R = _reg()
        E = core._E
        R.problems.append(self)
        R.last_solver = solver
        hook = R.solver
        if hook is not None and hook(self) is False:
            self.status = "infeasible"
            self.value = float("inf") * self.objective.sense
            return self.value
        self.status = "optimal"
        for v in self.variables_snapshot:
            if not v.assumed:
                v.assumed = True
                if v.attrs.get("nonneg"):
                    for e in v.arr.view(np.ndarray).ravel():
                        E.add_hyp(e >= 0)
        fs = eig_fn()
        for c in self.constraints:
            if c.kind == "rel":
                if fs is not None and c.diff is not None and c.diff.shape[0] == c.diff.shape[1]:
                    # an equation of matrices, in the eigenbasis of the variable in it
                    for v in self.variables_snapshot:
                        if getattr(v, "eig", None) and v.shape == c.diff.shape and v.shape[0] > 1:
                            V = v.eig[1]
                            for x in base(arr.n_dot(arr.n_dot(V.T, in_eig(c.diff).view(SArr)), V)).ravel():
                                E.assume_(Sym.const(x) == ZERO)
                            break
                    else:
                        for b in c.data:
                            E.assume_(fs.b(b))
                    continue
                for b in c.data:
                    E.assume_(b if fs is None else fs.b(b))
        # a finite log-determinant: its matrix is positive definite
        ob = self.objective.expr
        for co, kind, M in ob.terms if isinstance(ob, Opaque) else ():
            for v in self.variables_snapshot:
                if getattr(v, "eig", None) and v.shape == M.shape and arr._same(base(v.arr), M):
                    for w in v.eig[0]:
                        E.assume_(w > 0 if R.eig_lo is None else w >= R.eig_lo)
                        if R.eig_hi is not None:
                            E.assume_(w <= R.eig_hi)
                    break
            else:
                E.assume_(arr.det(base(in_eig(M))) > 0)
        self.value = self.objective.value
        return self.value


class _ExprMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (CArr,)) or (isinstance(o, Sym) and not o.isconst())


class Expression(metaclass=_ExprMeta):
    pass


class _VarMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, CArr) and any(v.arr is o for v in _reg().vars)

    def __call__(cls, *a, **k):
        return Variable(*a, **k)


class VariableT(metaclass=_VarMeta):
    pass


# -- substitution ---------------------------------------------------------
def subst_fn(m):
    """m: {var index: Sym}; returns f(Sym)->Sym following definitions."""
    E = core._E
    cache = {}

    def sv(i):
        if i in m:
            return m[i]
        if i in cache:
            return cache[i]
        v = E.vars[i]
        r = E.varsym(i)
        rule = E.rules.get(i)
        if rule is not None and (v.name.startswith("sqrt") or v.name.startswith("root")):
            p = rule[1]
            if any(j in m for j in core.pvars(p)) or any(E.vars[j].kind == "def" and j != i for j in core.pvars(p)):
                q = fs(Sym(p))
                r = E.sqrt(q) if rule[0] == 2 else E.root(q, rule[0])
        elif rule is not None and v.name.startswith("abs"):
            for k, idx in list(E.abs_cache.items()):
                if idx == i:
                    r = E.abs(fs(Sym(dict(k))))
        cache[i] = r
        return r

    def fp(p):
        r = ZERO
        for mono, c in p.items():
            t = Sym({0: c})
            for i, e in core.mono_items(mono):
                t = t * sv(i) ** e
            r = r + t
        return r

    def fs(s):
        if core.is_special(s):
            return s
        r = fp(s.num) * (ONE / s.D)
        for a, e in s.den:
            r = r / fp(E.atoms[a]) ** e
        return r

    def fb(b):
        if b.k in ("true", "false"):
            return b
        if b.k == "not":
            return ~fb(b.a)
        if b.k == "and":
            return And([fb(x) for x in b.a])
        if b.k == "or":
            return Or([fb(x) for x in b.a])
        return core.cmp0(fp(b.a), b.k)

    fs.b = fb
    return fs


def make_cvxpy():
    m = types.ModuleType("cvxpy")

    def un(n):
        def f(*a, **k):
            raise Unsupported("cvxpy." + n)

        return f

    class CP(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            if n.isupper():
                return n
            return un(n)

    m = CP("cvxpy")
    m.Variable = VariableT
    m.Parameter = Parameter
    m.Constant = Constant
    m.Expression = Expression
    m.Minimize = Minimize
    m.Maximize = Maximize
    m.Problem = Problem
    m.SolverError = SolverError
    m.OPTIMAL, m.OPTIMAL_INACCURATE, m.INFEASIBLE = "optimal", "optimal_inaccurate", "infeasible"
    m.sum = c_sum
    m.trace = c_trace
    m.reshape = c_reshape
    m.vec = c_vec
    m.bmat = c_bmat
    m.vstack = c_stack(np.vstack, lambda b: b.reshape(1, 1) if b.ndim == 0 else b)
    m.hstack = c_stack(np.hstack, lambda b: b.reshape(1) if b.ndim == 0 else b)
    m.upper_tri = c_upper_tri
    m.diag = c_diag
    m.norm = c_norm
    m.norm2 = lambda x, axis=None: c_norm(x, 2, axis)
    m.pnorm = c_pnorm
    m.norm1 = lambda x, axis=None: c_pnorm(x, 1, axis)
    m.norm_inf = lambda x, axis=None: c_pnorm(x, "inf", axis)
    m.NonNeg, m.NonPos, m.Zero = c_rel(">="), c_rel("<="), c_rel("==")
    m.vdot = m.scalar_product = c_inner
    m.quad_over_lin = c_sumsq_over
    m.pos = lambda x: C(np.maximum(base(x).view(SArr), 0))
    m.neg = lambda x: C(np.maximum(-base(x).view(SArr), 0))
    m.maximum = lambda a, b: C(np.maximum(base(a).view(SArr), base(b).view(SArr)))
    m.minimum = lambda a, b: C(np.minimum(base(a).view(SArr), base(b).view(SArr)))
    m.PSD = lambda x: _psd(_sq(C(x)))
    m.SOC = c_soc
    m.max, m.min = c_ext("max"), c_ext("min")
    m.sum_squares = c_sum_squares
    m.square = lambda x: x * x if isinstance(x, Sym) else np.multiply(x, x)
    m.multiply = lambda a, b: C(arr.ufunc_handler(np.multiply, "__call__", (base(a), base(b)), {}))
    m.matmul = lambda a, b: C(a) @ C(b)
    m.outer = lambda a, b: C(arr.n_outer(base(a), base(b)))
    m.transpose = lambda a: a.T
    m.quad_form = lambda x, P: arr.n_dot(arr.n_dot(base(x), base(P)), base(x))
    m.log_det = c_log_det
    m.abs = lambda x: C(np.abs(x))
    m.kron = lambda a, b: C(arr.n_kron(base(a), base(b)))
    return m
