"""Symbolic reals (rational functions in normal form), symbolic booleans and
the path engine that executes a harness once per feasible path.

Values are exact reals.  A `Sym` is num/den where `num` is an integer
polynomial (dict: packed monomial -> int) and `den` is a positive integer times
a product of interned denominator polynomials.  Polynomials are kept in normal
form modulo rewriting rules `v^k -> poly` (unit quaternions, square roots,
absolute values, n-th roots), so that two expressions that are equal because of
those definitions become syntactically equal before they reach the solver.
"""
import math
import sys
import numbers
import os
import time
from fractions import Fraction

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

sys.path.pop()

BITS = 8
FULL = (1 << BITS) - 1


class Unsupported(Exception):
    """The code used something the encoding does not cover."""


class PathAbort(BaseException):
    """The current path is infeasible or cut by an assumption."""


class Inconclusive(Exception):
    pass


_E = None  # the current engine


def engine():
    return _E


def set_engine(e):
    global _E
    _E = e


# --------------------------------------------------------------------------
# polynomials: dict packed-monomial -> int
# --------------------------------------------------------------------------
def mono_items(m):
    i = 0
    out = []
    while m:
        e = m & FULL
        if e:
            out.append((i, e))
        m >>= BITS
        i += 1
    return out


def mono_divides(b, a):
    """True if monomial b divides monomial a."""
    while b:
        if (b & FULL) > (a & FULL):
            return False
        a >>= BITS
        b >>= BITS
    return True


def padd(p, q):
    if not p:
        return q
    if not q:
        return p
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def pscale(p, k):
    if k == 0:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}


def pmul_raw(p, q):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m1 + m2
            s = r.get(m, 0) + c1 * c2
            r[m] = s
    return {m: c for m, c in r.items() if c}


def pmul(p, q):
    if len(q) == 1 and 0 in q:
        return pscale(p, q[0])
    if len(p) == 1 and 0 in p:
        return pscale(q, p[0])
    return _E.reduce(pmul_raw(p, q))


def ppow(p, n):
    r = {0: 1}
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def pcontent(p):
    g = 0
    for c in p.values():
        g = math.gcd(g, c)
        if g == 1:
            return 1
    return g


def pkey(p):
    return frozenset(p.items())


def pvars(p):
    acc = 0
    for m in p:
        acc |= m
    return [i for i, _ in mono_items(acc)]


def pdivexact(p, q):
    """Exact division in the free polynomial ring, or None."""
    lq = max(q)
    cq = q[lq]
    out = {}
    p = dict(p)
    steps = 0
    while p:
        steps += 1
        if steps > 4000:
            return None
        lp = max(p)
        cp_ = p[lp]
        if cp_ % cq or not mono_divides(lq, lp):
            return None
        k = cp_ // cq
        d = lp - lq
        out[d] = k
        for m, c in q.items():
            mm = m + d
            s = p.get(mm, 0) - k * c
            if s:
                p[mm] = s
            else:
                p.pop(mm, None)
    return out


# --------------------------------------------------------------------------
# numbers
# --------------------------------------------------------------------------
_FR = {}


def to_number(x):
    """Concrete number -> int/Fraction, or ('sqrt', Fraction) / ('pi', Fraction)."""
    if isinstance(x, (int, Fraction)):
        return x
    x = float(x)
    if x.is_integer() and abs(x) < 1e15:
        return int(x)
    r = _FR.get(x)
    if r is not None:
        return r
    f1 = Fraction(repr(x))
    nd = len(repr(x).split("e")[0].replace("-", "").replace(".", "").strip("0"))
    if nd <= 12:
        r = f1
    else:
        f2 = Fraction(x).limit_denominator(100000)
        if float(f2) == x or abs(float(f2) - x) <= 2e-16 * abs(x):
            r = f2
        else:
            f3 = Fraction(x * x).limit_denominator(2000)
            f4 = Fraction(x / math.pi).limit_denominator(1000)
            if f3 > 0 and abs(math.sqrt(f3) - abs(x)) <= 4e-16 * abs(x):
                r = ("sqrt", f3 if x > 0 else f3, 1 if x > 0 else -1)
            elif f4 != 0 and abs(float(f4) * math.pi - x) <= 4e-16 * abs(x):
                r = ("pi", f4)
            else:
                r = f1
    _FR[x] = r
    return r


def is_special(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def isnum(x):
    return isinstance(x, numbers.Real) and not isinstance(x, Sym)


class Sym:
    """num / (D * prod(atom^e)); always a finite real."""

    __slots__ = ("num", "D", "den", "nn")
    __array_priority__ = 10.0

    def __init__(self, num, D=1, den=()):
        self.nn = False  # built as a sum of squares
        self.num = num
        self.D = D
        self.den = den

    # -- construction ------------------------------------------------------
    @staticmethod
    def const(x):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return x.as_sym()
        if isinstance(x, complex):
            raise Unsupported("complex number")
        if hasattr(x, "item") and not isinstance(x, (int, float)):
            x = x.item()
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, float) and is_special(x):
            return x
        r = to_number(x)
        if isinstance(r, tuple):
            if r[0] == "sqrt":
                return _E.sqrt(Sym.const(r[1])) * r[2]
            return _E.pi() * r[1]
        if isinstance(r, int):
            return Sym({0: r} if r else {})
        return Sym({0: r.numerator} if r.numerator else {}, r.denominator)

    def isconst(self):
        return not self.den and (not self.num or (len(self.num) == 1 and 0 in self.num))

    def value(self):
        """Fraction for constants."""
        return Fraction(self.num.get(0, 0), self.D)

    # -- arithmetic --------------------------------------------------------
    def _norm(self):
        num, D = self.num, self.D
        if not num:
            return ZERO
        if D != 1:
            g = D
            for c in num.values():
                g = math.gcd(g, c)
                if g == 1:
                    break
            if g != 1:
                num = {m: c // g for m, c in num.items()}
                D //= g
        den = self.den
        if den:
            out = []
            for a, e in den:
                ap = _E.atoms[a]
                if len(ap) == 1:  # single variable
                    am = next(iter(ap))
                    sh = am.bit_length() - 1
                    while e and all((m >> sh) & FULL for m in num):
                        num = {m - am: c for m, c in num.items()}
                        e -= 1
                elif len(num) >= 2 and len(num) < 3000:
                    while e and _E.vanishes(num, a):
                        q = pdivexact(num, ap)
                        if q is None:
                            break
                        num = q
                        e -= 1
                if e:
                    out.append((a, e))
            den = tuple(out)
        return Sym(num, D, den)

    def __add__(self, o):
        if type(o) is not Sym:
            if is_special(o):
                return o
            if not isinstance(o, (numbers.Real, SymBool)):
                return NotImplemented
            o = Sym.const(o)
        if not o.num:
            return self
        if not self.num:
            return o
        r = self._add(o)
        if (self.nn or self.isconst() and self.num[0] > 0) and (o.nn or o.isconst() and o.num[0] > 0):
            if r.num and not r.isconst():
                r.nn = True
        return r

    def _add(self, o):
        if self.D == 1 and o.D == 1 and not self.den and not o.den:
            return Sym(padd(self.num, o.num))
        if self.den == o.den:
            D = self.D * o.D // math.gcd(self.D, o.D)
            return Sym(
                padd(pscale(self.num, D // self.D), pscale(o.num, D // o.D)), D, self.den
            )._norm()
        d1, d2 = dict(self.den), dict(o.den)
        L = {}
        for a in set(d1) | set(d2):
            L[a] = max(d1.get(a, 0), d2.get(a, 0))
        D = self.D * o.D // math.gcd(self.D, o.D)
        n1 = pscale(self.num, D // self.D)
        n2 = pscale(o.num, D // o.D)
        for a, e in sorted(L.items()):
            for _ in range(e - d1.get(a, 0)):
                n1 = pmul(n1, _E.atoms[a])
            for _ in range(e - d2.get(a, 0)):
                n2 = pmul(n2, _E.atoms[a])
        return Sym(padd(n1, n2), D, tuple(sorted(L.items())))._norm()

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.num.items()}, self.D, self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is not Sym:
            if is_special(o):
                return -o
            if not isinstance(o, (numbers.Real, SymBool)):
                return NotImplemented
            o = Sym.const(o)
        return self + (-o)

    def __rsub__(self, o):
        if is_special(o):
            return o
        return (-self) + o

    def __mul__(self, o):
        if type(o) is not Sym:
            if is_special(o):
                return _special_mul(self, o)
            if not isinstance(o, (numbers.Real, SymBool)):
                return NotImplemented
            o = Sym.const(o)
        if not self.num or not o.num:
            return ZERO
        r = self._mul(o)
        if self is o or (self.nn or self.isconst() and self.num[0] > 0) and (o.nn or o.isconst() and o.num[0] > 0) or (self.num == o.num and self.D == o.D and self.den == o.den):
            if r.num and not r.isconst():
                if r is self or r is o:
                    r = Sym(r.num, r.D, r.den)
                r.nn = True
        return r

    def _mul(self, o):
        num = pmul(self.num, o.num)
        if self.D == 1 and o.D == 1 and not self.den and not o.den:
            return Sym(num)
        if not self.den:
            den = o.den
        elif not o.den:
            den = self.den
        else:
            d = dict(self.den)
            for a, e in o.den:
                d[a] = d.get(a, 0) + e
            den = tuple(sorted(d.items()))
        return Sym(num, self.D * o.D, den)._norm()

    __rmul__ = __mul__

    def inverse(self):
        """1/self, assuming self != 0."""
        E = _E
        num = self.num
        assert num
        top = {0: self.D}
        # rationalise square-root style variables out of a monomial
        if len(num) == 1:
            (m, c), = num.items()
            r = Sym(top, abs(c))
            if c < 0:
                r = -r
            for i, e in mono_items(m):
                rule = E.rules.get(i)
                if rule is not None and rule[0] == 2 and E.vars[i].invertible:
                    # 1/s = s/e
                    v = E.varsym(i)
                    inv = v * Sym(rule[1]).inverse()
                    for _ in range(e):
                        r = r * inv
                else:
                    a = E.atom({1 << (BITS * i): 1})
                    r = r * Sym({0: 1}, 1, ((a, e),))
        else:
            # common monomial factor
            items = list(num)
            common = items[0]
            for m in items[1:]:
                common = _mono_gcd(common, m)
                if not common:
                    break
            r = None
            if common:
                p = {m - common: c for m, c in num.items()}
                r = Sym({common: 1}).inverse()
                num = p
            g = pcontent(num)
            lead = num[max(num)]
            sgn = 1 if lead > 0 else -1
            p = {m: c // g * sgn for m, c in num.items()}
            a = E.atom(p)
            s = Sym({0: self.D * sgn}, g, ((a, 1),))
            r = s if r is None else r * s
        for a, e in self.den:
            ap = E.atoms[a]
            for _ in range(e):
                r = r * Sym(ap)
        return r._norm()

    def __truediv__(self, o):
        if type(o) is not Sym:
            if is_special(o):
                return ZERO if math.isinf(o) else o
            if not isinstance(o, (numbers.Real, SymBool)):
                return NotImplemented
            o = Sym.const(o)
        if o.isconst():
            v = o.value()
            if v == 0:
                return _div_zero(self)
            return self * Sym.const(1 / v)
        if not _E.nonzero(o):
            return _div_zero(self)
        return self * o.inverse()

    def __rtruediv__(self, o):
        if is_special(o):
            if math.isnan(o):
                return o
            return o if (self >= 0) else -o
        return Sym.const(o) / self

    def __pow__(self, n):
        if isinstance(n, Sym):
            if not n.isconst():
                raise Unsupported("symbolic exponent")
            n = n.value()
        n = to_number(n)
        if isinstance(n, tuple):
            raise Unsupported("irrational exponent")
        n = Fraction(n)
        if n.denominator == 1:
            k = n.numerator
            if k > 0 and k % 2 == 0 and self.num and not self.isconst():
                r = self * self
                s = r
                for _ in range(k // 2 - 1):
                    r = r * s
                return r
            if k >= 0:
                if self.D == 1 and not self.den:
                    return Sym(ppow(self.num, k))
                r = ONE
                for _ in range(k):
                    r = r * self
                return r
            return ONE / (self ** (-k))
        r = _E.root(self, n.denominator)
        return r ** n.numerator

    def __rpow__(self, b):
        if self.isconst():
            return Sym.const(b) ** self.value()
        raise Unsupported("symbolic exponent")

    def __abs__(self):
        return _E.abs(self)

    def __mod__(self, o):
        q = self // o
        return self - q * o

    def __rmod__(self, o):
        return Sym.const(o) % self

    def __floordiv__(self, o):
        q = self / o
        if isinstance(q, Sym) and q.isconst() and not isinstance(q.value(), tuple):
            return Sym.const(math.floor(q.value()))
        return _E.floor(q)

    def __rfloordiv__(self, o):
        return Sym.const(o) // self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __float__(self):
        if self.isconst():
            return float(self.value())
        raise Unsupported("float() of a symbolic value")

    def __int__(self):
        return _E.concrete_int(_E.trunc(self))

    def __index__(self):
        if self.isconst() and self.D == 1:
            return self.num.get(0, 0)
        raise TypeError("symbolic value cannot be interpreted as an integer")

    def __trunc__(self):
        return _E.concrete_int(_E.trunc(self))

    def __floor__(self):
        return _E.floor(self)

    def __ceil__(self):
        return _E.ceil(self)

    def __round__(self, n=None):
        if n is None:
            return _E.concrete_int(_E.rint(self))
        k = Fraction(10) ** n
        return _E.rint(self * k) / k

    def rint(self):
        return _E.rint(self)

    def round(self, decimals=0, out=None):
        k = Fraction(10) ** int(decimals)
        return _E.rint(self * k) / k

    # -- comparison --------------------------------------------------------
    def _cmp(self, o, op):
        if type(o) is not Sym:
            if isinstance(o, SymBool):
                o = o.as_sym()
            elif is_special(o):
                if math.isnan(o):
                    return TRUE if op == "!=" else FALSE
                big = o > 0
                r = {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}
                return TRUE if r[op] else FALSE
            elif isinstance(o, numbers.Real) or hasattr(o, "item"):
                o = Sym.const(o)
            else:
                return NotImplemented
        return cmp0(self - o, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __bool__(self):
        return bool(cmp0(self, "!="))

    def __hash__(self):
        if self.isconst():
            return hash(self.value())
        return hash((pkey(self.num), self.D, self.den))

    # -- numpy scalar look -------------------------------------------------
    shape = ()
    ndim = 0
    size = 1
    T = property(lambda s: s)
    real = property(lambda s: s)
    imag = property(lambda s: ZERO)

    @property
    def dtype(self):
        import numpy

        return numpy.dtype(float)

    def item(self):
        return self

    def conjugate(self):
        return self

    conj = conjugate

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def astype(self, t, **kw):
        if t in (int,) or str(t).startswith("int"):
            return int(self)
        if t is bool:
            return self != 0
        return self

    def is_integer(self):
        if self.isconst():
            return self.value().denominator == 1
        return _E.is_integer(self)

    def all(self, **kw):
        return self != 0

    any = all

    def sum(self, **kw):
        return self

    max = min = sum

    def flatten(self):
        from . import arr

        return arr.A([self])

    ravel = flatten

    def __len__(self):
        raise TypeError("object of type 'numpy.float64' has no len()")

    def __repr__(self):
        return _E.show(self) if _E is not None else "Sym(?)"

    def __format__(self, spec):
        return "<sym>"


numbers.Real.register(Sym)

ZERO = Sym({})
ONE = Sym({0: 1})


def _mono_gcd(a, b):
    r = 0
    sh = 0
    while a and b:
        r |= min(a & FULL, b & FULL) << sh
        a >>= BITS
        b >>= BITS
        sh += BITS
    return r


def _div_zero(num):
    if bool(num == 0):
        return float("nan")
    return float("inf") if bool(num > 0) else float("-inf")


def _special_mul(s, o):
    if math.isnan(o):
        return o
    if bool(s == 0):
        return float("nan")
    return o if bool(s > 0) else -o


# --------------------------------------------------------------------------
# booleans
# --------------------------------------------------------------------------
class SymBool:
    """Tree over polynomial atoms `p op 0`, op in <,<=,==."""

    __slots__ = ("k", "a")
    __array_priority__ = 10.0

    def __init__(self, k, a):
        self.k = k
        self.a = a

    def __invert__(self):
        k = self.k
        if k == "true":
            return FALSE
        if k == "false":
            return TRUE
        if k == "not":
            return self.a
        if k == "<":  # not p<0  -> -p <= 0
            return SymBool("<=", {m: -c for m, c in self.a.items()})
        if k == "<=":
            return SymBool("<", {m: -c for m, c in self.a.items()})
        if k == "and":
            return Or([~x for x in self.a])
        if k == "or":
            return And([~x for x in self.a])
        return SymBool("not", self)

    def __and__(self, o):
        return And([self, o])

    __rand__ = __and__

    def __or__(self, o):
        return Or([self, o])

    __ror__ = __or__

    def __xor__(self, o):
        o = mkbool(o)
        return Or([And([self, ~o]), And([~self, o])])

    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or str(type(o)) == "<class 'numpy.bool_'>":
            o = mkbool(o)
            return Or([And([self, o]), And([~self, ~o])])
        if isinstance(o, (int, Sym)):
            return self.as_sym() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    def __hash__(self):
        return id(self)

    def __bool__(self):
        if self.k == "true":
            return True
        if self.k == "false":
            return False
        return _E.decide(self)

    # numeric use (sum of booleans): concretise
    def as_sym(self):
        return ONE if bool(self) else ZERO

    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    shape = ()
    ndim = 0
    size = 1

    def all(self, **kw):
        return self

    any = all

    def item(self):
        return self

    def astype(self, t, **kw):
        if t is bool:
            return self
        return t(bool(self))

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "SymBool(%s)" % self.k

    def atoms(self):
        if self.k in ("true", "false"):
            return
        if self.k == "not":
            yield from self.a.atoms()
        elif self.k in ("and", "or"):
            for x in self.a:
                yield from x.atoms()
        else:
            yield self

    def varmask(self):
        acc = 0
        for at in self.atoms():
            for m in at.a:
                acc |= m
        return acc


TRUE = SymBool("true", None)
FALSE = SymBool("false", None)


def mkbool(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return TRUE if bool(x) else FALSE


def And(xs):
    out = []
    for x in xs:
        x = mkbool(x)
        if x.k == "false":
            return FALSE
        if x.k == "true":
            continue
        if x.k == "and":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return SymBool("and", out)


def Or(xs):
    out = []
    for x in xs:
        x = mkbool(x)
        if x.k == "true":
            return TRUE
        if x.k == "false":
            continue
        if x.k == "or":
            out.extend(x.a)
        else:
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return SymBool("or", out)


def Not(x):
    return ~mkbool(x)


def Implies(a, b):
    return Or([Not(a), b])


def Iff(a, b):
    a, b = mkbool(a), mkbool(b)
    return Or([And([a, b]), And([~a, ~b])])


def atom(op, p):
    """p op 0 with op in < <= ==, normalised and constant-folded."""
    if not p:
        return FALSE if op == "<" else TRUE
    if len(p) == 1 and 0 in p:
        c = p[0]
        r = {"<": c < 0, "<=": c <= 0, "==": False}[op]
        return TRUE if r else FALSE
    g = pcontent(p)
    if g != 1:
        p = {m: c // g for m, c in p.items()}
    if op == "==":
        if p[max(p)] < 0:
            p = {m: -c for m, c in p.items()}
    s = _E.quick_sign(p)
    if s is not None:
        if op == "<":
            if s == "-":
                return TRUE
            if s in ("+", ">=0"):
                return FALSE
        elif op == "<=":
            if s in ("-", "<=0"):
                return TRUE
            if s == "+":
                return FALSE
        elif s in ("+", "-"):
            return FALSE
    return SymBool(op, p)


def cmp0(s, op):
    """s op 0 for a Sym s."""
    if is_special(s):
        return TRUE if {"<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0, "==": s == 0, "!=": s != 0}[op] else FALSE
    num = s.num
    if op == "==":
        return atom("==", num)
    if op == "!=":
        return ~atom("==", num)
    # odd part of the denominator
    extra = []
    for a, e in s.den:
        if e % 2:
            sg = _E.atom_sign(a)
            if sg == 0:
                extra.append(a)
            elif sg < 0:
                num = {m: -c for m, c in num.items()}
    for a in extra:
        num = pmul(num, _E.atoms[a])
    if op in (">", ">="):
        num = {m: -c for m, c in num.items()}
        op = "<" if op == ">" else "<="
    return atom(op, num)


# --------------------------------------------------------------------------
class Var:
    __slots__ = ("name", "sign", "invertible", "z", "kind")

    def __init__(self, name, sign=None, invertible=False, kind="input"):
        self.name = name
        self.sign = sign  # '+', '>=0' or None
        self.invertible = invertible
        self.kind = kind


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.proved = 0
        self.lra = 0
        self.nra = 0
        self.syntactic = 0
        self.unknown = 0


STATS = Stats()
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def _mk_solver(timeout_ms, logic=None):
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set("timeout", int(timeout_ms))
    try:
        s.set("random_seed", SEED)
    except z3.Z3Exception:
        pass
    return s


class Engine:
    """State of one path."""

    def __init__(self, prefix=(), decide_ms=1500, max_int=6):
        self.vars = []
        self.names = {}
        self.rules = {}  # var -> (k, poly)
        self.ge2mask = 0
        self.kmask = []  # (var, k) for k != 2
        self.atoms = []
        self.atom_ix = {}
        self.atom_sgn = {}
        self.hyps = []
        self.hypmask = []
        self.prefix = list(prefix)
        self.trace = []  # decisions taken: (value, forked)
        self.pending = []  # alternative prefixes
        self.cache = {}
        self.decide_ms = decide_ms
        self.max_int = max_int
        self.sqrt_cache = {}
        self.abs_cache = {}
        self._zv = []
        self._zm = {}
        self._lz = {}
        self.defs = {}  # var -> Sym/lambda for concretisation of defined vars
        self.notes = []
        self.poly_cut = True
        self.round_sqrt = False
        self.symint = False
        self.max_draws = 60
        self.cuts = 0

    # -- variables ---------------------------------------------------------
    def newvar(self, name, sign=None, invertible=False, kind="input"):
        base = name
        k = 1
        while name in self.names:
            k += 1
            name = "%s~%d" % (base, k)
        i = len(self.vars)
        self.vars.append(Var(name, sign, invertible, kind))
        self.names[name] = i
        return i

    def varsym(self, i):
        return Sym({1 << (BITS * i): 1})

    def real(self, name, sign=None, kind="input", invertible=False):
        i = self.newvar(name, sign, kind=kind, invertible=invertible)
        v = self.varsym(i)
        if sign == "+":
            self.add_hyp(SymBool("<", {1 << (BITS * i): -1}))
        elif sign == ">=0":
            self.add_hyp(SymBool("<=", {1 << (BITS * i): -1}))
        return v

    def add_rule(self, i, k, poly):
        self.rules[i] = (k, poly)
        if k == 2:
            self.ge2mask |= (FULL - 1) << (BITS * i)
        else:
            self.kmask.append((i, k))

    def reduce(self, p):
        if not self.rules:
            return p
        g = self.ge2mask
        km = self.kmask
        bad = None
        for m in p:
            if m & g:
                bad = True
                break
            for i, k in km:
                if ((m >> (BITS * i)) & FULL) >= k:
                    bad = True
                    break
            if bad:
                break
        if not bad:
            return p
        out = {}
        work = dict(p)
        while work:
            nxt = {}
            for m, c in work.items():
                t = m & g
                hit = None
                if t:
                    # highest ruled variable first
                    i = (t.bit_length() - 1) // BITS
                    hit = (i, 2)
                else:
                    for i, k in km:
                        if ((m >> (BITS * i)) & FULL) >= k:
                            hit = (i, k)
                            break
                if hit is None:
                    s = out.get(m, 0) + c
                    if s:
                        out[m] = s
                    else:
                        out.pop(m, None)
                    continue
                i, k = hit
                base = m - (k << (BITS * i))
                for mm, cc in self.rules[i][1].items():
                    q = base + mm
                    s = nxt.get(q, 0) + c * cc
                    nxt[q] = s
            work = {m: c for m, c in nxt.items() if c}
        return out

    def atom(self, p):
        k = pkey(p)
        i = self.atom_ix.get(k)
        if i is None:
            i = len(self.atoms)
            self.atoms.append(p)
            self.atom_ix[k] = i
        return i

    def vanishes(self, num, a):
        return len(num) >= len(self.atoms[a])

    def atom_sign(self, a):
        s = self.atom_sgn.get(a)
        if s:
            return s
        p = self.atoms[a]
        q = self.quick_sign(p)
        if q == "+" or q == ">=0":
            s = 1  # nonzero is guaranteed where we divided
        elif q in ("-", "<=0"):
            s = -1
        else:
            if self.prove(SymBool("<=", {m: -c for m, c in p.items()}), self.decide_ms) == "proved":
                s = 1
            elif self.prove(SymBool("<=", p), self.decide_ms) == "proved":
                s = -1
            else:
                s = 0
        self.atom_sgn[a] = s
        return s

    def mono_sign(self, m):
        """'+', '>=0' or None for the monomial."""
        strict = True
        i = 0
        while m:
            e = m & FULL
            if e:
                sg = self.vars[i].sign
                if sg == "+":
                    pass
                elif sg == ">=0" or e % 2 == 0:
                    strict = False
                else:
                    return None
            m >>= BITS
            i += 1
        return "+" if strict else ">=0"

    def quick_sign(self, p):
        pos = neg = strict = False
        for m, c in p.items():
            s = self.mono_sign(m)
            if s is None:
                return None
            if c > 0:
                pos = True
            else:
                neg = True
            if pos and neg:
                return None
            if s == "+":
                strict = True
        if pos:
            return "+" if strict else ">=0"
        return "-" if strict else "<=0"

    # -- special functions -------------------------------------------------
    def pi(self):
        if "pi" not in self.names:
            v = self.real("pi", "+", kind="const")
            self.assume_(v > Fraction(314159265, 10**8))
            self.assume_(v < Fraction(314159266, 10**8))
        return self.varsym(self.names["pi"])

    def sign_of(self, s, what="sign"):
        """Decide s >= 0 (forking if needed); returns bool."""
        return bool(s >= 0)

    def sqrt(self, s):
        s = Sym.const(s)
        if is_special(s):
            return s if s > 0 or math.isnan(s) else float("nan")
        if s.isconst():
            v = s.value()
            if v < 0:
                return float("nan")
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return Sym.const(Fraction(a, b))
            n = v.numerator * v.denominator
            k = 1
            f = 2
            while f * f <= n and f < 2000:
                while n % (f * f) == 0:
                    n //= f * f
                    k *= f
                f += 1
            return self._sqrt_atom({0: n}) * Fraction(k, v.denominator)
        # even part of the denominator comes out
        nn = s.nn
        num, D = s.num, s.D
        outer = ONE
        odd = {0: 1}
        for a, e in s.den:
            h = (e + 1) // 2
            # 1/sqrt(a^e): = sqrt(a^(e mod 2)) / |a|^h
            ap = Sym(self.atoms[a])
            av = ap
            if h % 2 or True:
                sg = self.atom_sign(a)
                if sg == 0:
                    av = self.abs(ap)
                elif sg < 0:
                    av = -ap
            for _ in range(h):
                outer = outer / av
            if e % 2:
                odd = pmul(odd, self.atoms[a] if self.atom_sign(a) >= 0 else pscale(self.atoms[a], -1))
                if self.atom_sign(a) < 0:
                    num = pscale(num, -1)
        num = pmul(num, odd)
        # sqrt(num/D) = sqrt(num*D)/D
        num = pscale(num, D)
        outer = outer * Fraction(1, D)
        # pull out integer squares and even monomials
        g = pcontent(num)
        k = 1
        f = 2
        gg = g
        while f * f <= gg and f < 3000:
            while gg % (f * f) == 0:
                gg //= f * f
                k *= f
            f += 1
        if k > 1:
            num = {m: c // (k * k) for m, c in num.items()}
            outer = outer * k
        items = list(num)
        common = items[0]
        for m in items[1:]:
            common = _mono_gcd(common, m)
        pull = 0
        for i, e in mono_items(common):
            if e >= 2:
                h = e // 2
                v = self.varsym(i)
                av = self.abs(v)
                outer = outer * av**h
                pull += (2 * h) << (BITS * i)
        if pull:
            num = {m - pull: c for m, c in num.items()}
        if len(num) == 1 and 0 in num:
            return outer * self.sqrt(Sym(num))
        r = self._poly_sqrt(num)
        if r is not None:
            return outer * self.abs(Sym(r))
        return outer * self._sqrt_atom(num, nn)

    def _poly_sqrt(self, p):
        """q with q*q == p in the free ring (lex order), or None."""
        if len(p) > 60:
            return None
        rem = dict(p)
        q = {}
        lead = max(rem)
        if any(e % 2 for _, e in mono_items(lead)):
            return None
        c = rem[lead]
        if c < 0:
            return None
        r = math.isqrt(c)
        if r * r != c:
            return None
        lm = sum((e // 2) << (BITS * i) for i, e in mono_items(lead))
        q[lm] = r
        rem = padd(rem, {lead: -c})
        for _ in range(40):
            if not rem:
                return q
            m = max(rem)
            if not mono_divides(lm, m) or rem[m] % (2 * r):
                return None
            t = {m - lm: rem[m] // (2 * r)}
            if next(iter(t)) in q:
                return None
            # (q+t)^2 - q^2 = 2qt + t^2
            rem = padd(rem, pscale(pmul_raw(q, t), -2))
            rem = padd(rem, pscale(pmul_raw(t, t), -1))
            q.update(t)
        return None

    def _sqrt_atom(self, p, nn=False):
        k = pkey(p)
        i = self.sqrt_cache.get(k)
        if i is None:
            e = Sym(p)
            if not (p.keys() == {0}):
                qs = self.quick_sign(p)
                if qs not in ("+", ">=0") and not nn:
                    if not bool(e >= 0):
                        return float("nan")
            qs = self.quick_sign(p)
            strict = qs == "+"
            i = self.newvar("sqrt%d" % len(self.sqrt_cache), "+" if strict else ">=0", invertible=True, kind="def")
            self.sqrt_cache[k] = i
            self.add_rule(i, 2, p)
            v = 1 << (BITS * i)
            self.add_hyp(SymBool("<" if strict else "<=", {v: -1}))
            self.add_hyp(SymBool("==", padd({2 * v: 1}, pscale(p, -1))))
        return self.varsym(i)

    def root(self, s, k):
        if k == 2:
            return self.sqrt(s)
        if is_special(s):
            return s
        if not bool(s >= 0):
            return float("nan")
        key = (k, pkey(s.num), s.D, s.den)
        i = self.sqrt_cache.get(key)
        if i is None:
            i = self.newvar("root%d_%d" % (k, len(self.sqrt_cache)), ">=0", kind="def")
            self.sqrt_cache[key] = i
            v = self.varsym(i)
            self.add_hyp(SymBool("<=", {1 << (BITS * i): -1}))
            if s.D == 1 and not s.den:
                self.add_hyp(SymBool("==", padd({k << (BITS * i): 1}, pscale(s.num, -1))))
                self.add_rule(i, k, s.num)
            else:
                d = Sym(s.num)  # v^k * den == num
                dd = s.inverse() if s.num else None
                lhs = v
                for _ in range(k - 1):
                    lhs = lhs * v
                self.add_hyp(lhs == s)
            # monotone facts about [0,1]
            self.add_hyp(Implies(s <= 1, v <= 1))
            self.add_hyp(Implies(s <= 1, v >= s))
        return self.varsym(i)

    def abs(self, s):
        s = Sym.const(s)
        if is_special(s):
            return abs(s)
        if s.isconst():
            return Sym.const(abs(s.value()))
        c = cmp0(s, ">=")
        if c.k == "true":
            return s
        c2 = cmp0(s, "<=")
        if c2.k == "true":
            return -s
        if self.prove(c, self.decide_ms) == "proved":
            return s
        if self.prove(c2, self.decide_ms) == "proved":
            return -s
        if s.den:
            # |n/d| = |n|/|d|
            r = self.abs(Sym(s.num)) * Fraction(1, s.D)
            for a, e in s.den:
                d = self.abs(Sym(self.atoms[a]))
                for _ in range(e):
                    r = r / d
            return r
        g = pcontent(s.num)
        p = {m: x // g for m, x in s.num.items()}
        if p[max(p)] < 0:
            p = pscale(p, -1)
        if len(p) == 1:
            (m, cc), = p.items()
            its = mono_items(m)
            if len(its) > 1 or its[0][1] > 1:
                r = ONE
                for i, e in its:
                    v = self.varsym(i)
                    r = r * (v ** (e - e % 2))
                    if e % 2:
                        r = r * self.abs(v)
                return r * Fraction(g, s.D)
        k = pkey(p)
        i = self.abs_cache.get(k)
        if i is None:
            i = self.newvar("abs%d" % len(self.abs_cache), ">=0", invertible=True, kind="def")
            self.abs_cache[k] = i
            self.add_rule(i, 2, pmul(p, p))
            v = 1 << (BITS * i)
            self.add_hyp(SymBool("<=", {v: -1}))
            self.add_hyp(Or([SymBool("==", padd({v: 1}, pscale(p, -1))), SymBool("==", padd({v: 1}, p))]))
            self.add_hyp(SymBool("<=", padd({v: -1}, p)))
            self.add_hyp(SymBool("<=", padd({v: -1}, pscale(p, -1))))
        return self.varsym(i) * Fraction(g, s.D)

    def extremum(self, xs, which):
        """max / min of a list, by definition variable unless decided."""
        xs = [Sym.const(x) for x in xs]
        if any(is_special(x) and math.isnan(x) for x in xs):
            return float("nan")
        inf = [x for x in xs if is_special(x)]
        fin = [x for x in xs if not is_special(x)]
        if inf:
            if which == "max" and any(x > 0 for x in inf):
                return float("inf")
            if which == "min" and any(x < 0 for x in inf):
                return float("-inf")
            if not fin:
                return inf[0]
        # dedupe
        uniq = []
        for x in fin:
            if not any((x - u).num == {} for u in uniq):
                uniq.append(x)
        def dom(x, y):  # y makes x superfluous
            c = (x <= y) if which == "max" else (x >= y)
            return c.k == "true" or (c.k != "false" and len(uniq) <= 4 and self.prove(c, self.decide_ms) == "proved")

        keep = []
        for x in uniq:
            if any(dom(x, y) for y in keep):
                continue
            keep = [y for y in keep if not dom(y, x)]
            keep.append(x)
        if len(keep) == 1:
            return keep[0]
        key = (which, frozenset((pkey(x.num), x.D, x.den) for x in keep))
        v = self.sqrt_cache.get(key)
        if v is None:
            # the common positive shift: max(a+c, b+c) keeps as is
            v = self.real("%s%d" % (which, len(self.sqrt_cache)), kind="def")
            for x in keep:
                self.add_hyp((x <= v) if which == "max" else (x >= v))
            self.add_hyp(Or([x == v for x in keep]))
            self.sqrt_cache[key] = v
        return v

    def fsqrt(self, s):
        """np.sqrt / math.sqrt; with the option "fsqrt" the result carries a relative rounding error of up to 2^-53."""
        r = self.sqrt(s)
        if not self.round_sqrt or not isinstance(r, Sym) or r.isconst():
            return r
        key = ("fsqrt", pkey(r.num), r.D, r.den)
        d = self.sqrt_cache.get(key)
        if d is None:
            i = self.newvar("rnd%d" % len(self.sqrt_cache), kind="rnd")
            d = self.varsym(i)
            u = Fraction(1, 2**53)
            self.add_hyp(d <= u)
            self.add_hyp(-d <= u)
            self.sqrt_cache[key] = d
        return r * (ONE + d)

    def floor(self, s):
        s = Sym.const(s)
        if is_special(s):
            return s
        if s.isconst():
            return Sym.const(math.floor(s.value()))
        if self.is_int_sym(s):
            return s
        key = ("floor", pkey(s.num), s.D, s.den)
        v = self.sqrt_cache.get(key)
        if v is None:
            i = self.newvar("int%d" % len(self.sqrt_cache), kind="intdef")
            v = self.varsym(i)
            self.add_hyp(v <= s)
            if not s.den and all(self.vars[j].kind in ("int", "intdef") for j in pvars(s.num)):
                # D v <= num <= D v + D - 1
                self.add_hyp(s * s.D <= v * s.D + (s.D - 1))
            else:
                self.add_hyp(s < v + 1)
                r = s * s
                if self.is_int_sym(r) and not self.is_int_sym(s) and self.prove(s >= 0, self.decide_ms) == "proved":
                    # integer square root: v^2 <= x < (v + 1)^2
                    self.add_hyp(v >= 0)
                    self.add_hyp(v * v <= r)
                    self.add_hyp(r < (v + 1) * (v + 1))
            self.sqrt_cache[key] = v
        return v

    def ceil(self, s):
        s = Sym.const(s)
        if is_special(s):
            return s
        if s.isconst():
            return Sym.const(math.ceil(s.value()))
        return -self.floor(-s)

    def rint(self, s):
        """nearest integer, halves to even"""
        s = Sym.const(s)
        if is_special(s):
            return s
        if s.isconst():
            return Sym.const(round(s.value()))
        f = self.floor(s + Fraction(1, 2))
        if bool(f == s + Fraction(1, 2)):
            return 2 * self.floor(f / 2)
        return f

    def trunc(self, s):
        if self.is_int_sym(s):
            return s
        return self.floor(s) if bool(s >= 0) else self.ceil(s)

    def is_int_sym(self, s):
        if s.D != 1 or s.den:
            return False
        return all(self.vars[i].kind in ("int", "intdef") for i in pvars(s.num))

    def is_integer(self, s):
        if self.is_int_sym(s):
            return TRUE
        return s == self.floor(s)

    def concrete_int(self, s):
        """An actual Python int for a symbolic integer, forking up to max_int."""
        if s.isconst():
            return int(s.value())
        for k in range(self.max_int + 1):
            if bool(s == k):
                return k
        self.notes.append("cut: integer above %d" % self.max_int)
        raise PathAbort()

    def nonzero(self, s):
        """Fork on s != 0."""
        c = ~cmp0(s, "==")
        if c.k == "true":
            return True
        # monomials: decide factor by factor
        return bool(c)

    # -- hypotheses and decisions -----------------------------------------
    def add_hyp(self, b):
        b = mkbool(b)
        if b.k == "true":
            return
        if b.k == "and":
            for x in b.a:
                self.add_hyp(x)
            return
        self.hyps.append(b)
        self.hypmask.append(b.varmask())
        # record simple signs
        if b.k in ("<", "<=") and len(b.a) == 1:
            (m, c), = b.a.items()
            its = mono_items(m)
            if len(its) == 1 and its[0][1] == 1 and c < 0:
                v = self.vars[its[0][0]]
                if b.k == "<":
                    v.sign = "+"
                elif v.sign is None:
                    v.sign = ">=0"
        elif b.k in ("<", "<=") and len(b.a) == 2 and 0 in b.a:
            # c0 - k v <(=) 0 with c0 > 0  => v > 0
            (m, c), = [(m, c) for m, c in b.a.items() if m]
            its = mono_items(m)
            if len(its) == 1 and its[0][1] == 1 and c < 0 and b.a[0] > 0:
                self.vars[its[0][0]].sign = "+"
        elif b.k == "not" and b.a.k == "==":
            p = b.a.a
            if len(p) == 1:
                (m, c), = p.items()
                for i, e in mono_items(m):
                    if self.vars[i].sign == ">=0":
                        self.vars[i].sign = "+"
        if b.k == "==" and len(b.a) == 1:
            pass

    def assume_(self, b):
        b = mkbool(b)
        if b.k == "false":
            raise PathAbort()
        self.add_hyp(b)

    def decide(self, b):
        n = len(self.trace)
        if n < len(self.prefix):
            v, forked = self.prefix[n]
            self.trace.append((v, forked))
            if forked:
                self.add_hyp(b if v else ~b)
            return v
        if self.poly_cut and _in_poly_init():
            # dropping or keeping a zero coefficient denotes the same polynomial
            v = self.generic(b)
            self.trace.append((v, False))
            self.cuts += 1
            return v
        nb = ~b
        if self.prove(b, self.decide_ms) == "proved":
            self.trace.append((True, False))
            return True
        if self.prove(nb, self.decide_ms) == "proved":
            self.trace.append((False, False))
            return False
        alt = self.trace + [(False, True)]
        self.pending.append(alt)
        self.trace.append((True, True))
        self.add_hyp(b)
        if len(self.trace) > 4000:
            raise Unsupported("too many decisions on one path")
        return True

    def generic(self, b):
        """Truth of b at a generic point (used only for the coefficient cut)."""
        if b.k == "not":
            return not self.generic(b.a)
        if b.k == "and":
            return all(self.generic(x) for x in b.a)
        if b.k == "or":
            return any(self.generic(x) for x in b.a)
        if b.k in ("true", "false"):
            return b.k == "true"
        v = 0
        for m, c in b.a.items():
            t = Fraction(c)
            for i, e in mono_items(m):
                t *= Fraction(7919 + 104729 * (i + 1) % 1000003, 1009 + 13 * i) ** e
            v += t
        return {"<": v < 0, "<=": v <= 0, "==": v == 0}[b.k]

    # -- z3 ----------------------------------------------------------------
    def zvar(self, i):
        while len(self._zv) <= i:
            v = self.vars[len(self._zv)]
            nm = v.name
            self._zv.append(z3.ToReal(z3.Int(nm)) if v.kind in ("int", "intdef") else z3.Real(nm))
        return self._zv[i]

    def zmono(self, m):
        r = self._zm.get(m)
        if r is None:
            fs = []
            for i, e in mono_items(m):
                fs.extend([self.zvar(i)] * e)
            r = fs[0] if len(fs) == 1 else z3.Product(*fs)
            self._zm[m] = r
        return r

    def zpoly(self, p):
        ts = []
        for m, c in p.items():
            if m == 0:
                ts.append(z3.RealVal(c))
            elif c == 1:
                ts.append(self.zmono(m))
            else:
                ts.append(z3.RealVal(c) * self.zmono(m))
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def lmono(self, m, seen):
        r = self._lz.get(m)
        if r is None:
            r = z3.Real("m%x" % m)
            self._lz[m] = r
        seen.add(m)
        return r

    def lpoly(self, p, seen):
        ts = []
        for m, c in p.items():
            if m == 0:
                ts.append(z3.RealVal(c))
            else:
                ts.append(z3.RealVal(c) * self.lmono(m, seen))
        return ts[0] if len(ts) == 1 else z3.Sum(*ts)

    def zbool(self, b, lin=None):
        k = b.k
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "not":
            return z3.Not(self.zbool(b.a, lin))
        if k == "and":
            return z3.And(*[self.zbool(x, lin) for x in b.a])
        if k == "or":
            return z3.Or(*[self.zbool(x, lin) for x in b.a])
        e = self.zpoly(b.a) if lin is None else self.lpoly(b.a, lin)
        if k == "<":
            return e < 0
        if k == "<=":
            return e <= 0
        return e == 0

    def relevant(self, goal, depth=99):
        if goal.k in ("true", "false"):
            return list(range(len(self.hyps)))
        mask = _varset(goal.varmask())
        idx = set()
        for _ in range(depth):
            grew = False
            for i, hm in enumerate(self.hypmask):
                if i in idx:
                    continue
                hv = _varset(hm)
                if hv & mask:
                    idx.add(i)
                    if hv & ~mask:
                        mask |= hv
                        grew = True
            if not grew:
                break
        return sorted(idx)

    def sub_hyps(self, goal):
        """hypotheses only over the goal's variables."""
        mask = _varset(goal.varmask())
        return [i for i, hm in enumerate(self.hypmask) if not (_varset(hm) & ~mask)]

    def prove(self, goal, ms=10000, full=False):
        """'proved' / 'cex' / 'unknown' for hyps |= goal."""
        goal = mkbool(goal)
        if goal.k == "true":
            STATS.syntactic += 1
            return "proved"
        if goal.k == "and" and not full:
            r = "proved"
            for g in goal.a:
                x = self.prove(g, ms)
                if x == "cex":
                    return x
                if x != "proved":
                    r = x
            return r
        key = (len(self.hyps), _bkey(goal))
        hit = self.cache.get(key)
        if hit is not None and (hit[0] != "unknown" or hit[1] >= ms):
            return hit[0]
        t0 = time.time()
        neg = ~goal
        r = self._prove(neg, ms)
        STATS.solver_s += time.time() - t0
        if r == "proved":
            STATS.proved += 1
        elif r == "unknown":
            STATS.unknown += 1
        self.cache[key] = (r, ms)
        return r

    def _prove(self, neg, ms):
        rel = self.relevant(neg)
        sub = self.sub_hyps(neg)
        # stage 1: linear abstraction with all connected hypotheses
        if self._lra(neg, rel, min(ms, 4000)):
            STATS.lra += 1
            return "proved"
        # stage 2: nonlinear, few hypotheses
        tried = None
        if len(sub) < len(rel):
            r = self._nra(neg, sub, max(500, ms // 4))
            if r == z3.unsat:
                return "proved"
            if len(rel) > 40:
                near = self.relevant(neg, depth=1)
                if len(near) < len(rel):
                    r = self._nra(neg, near, max(500, ms // 4))
                    if r == z3.unsat:
                        return "proved"
        r = self._nra(neg, rel, ms)
        if r == z3.unsat:
            return "proved"
        if r == z3.sat:
            return "cex"
        return "unknown"

    def _lra(self, neg, rel, ms):
        s = _mk_solver(ms, "QF_LRA")
        seen = set()
        s.add(self.zbool(neg, seen))
        for i in rel:
            s.add(self.zbool(self.hyps[i], seen))
        for m in seen:
            sg = self.mono_sign(m)
            if sg == "+":
                s.add(self._lz[m] > 0)
            elif sg == ">=0":
                s.add(self._lz[m] >= 0)
        STATS.queries += 1
        return s.check() == z3.unsat

    def _nra(self, neg, rel, ms):
        STATS.queries += 1
        STATS.nra += 1
        isint = any(self.vars[i].kind in ("int", "intdef") for i in range(len(self.vars)))
        s = _mk_solver(ms, None if isint else None)
        s.add(self.zbool(neg))
        for i in rel:
            s.add(self.zbool(self.hyps[i]))
        r = s.check()
        if r == z3.unknown and not isint:
            t = z3.TryFor(z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat"), int(ms))
            s = t.solver()
            s.add(self.zbool(neg))
            for i in rel:
                s.add(self.zbool(self.hyps[i]))
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
        return r

    # -- models ------------------------------------------------------------
    def model(self, extra=(), ms=10000, bounds=None, fixed=None):
        """A full model of hyps + extra as {name: float/Fraction}, or 'unsat'/None."""
        STATS.queries += 1
        t0 = time.time()
        forms = [self.zbool(h) for h in self.hyps] + [self.zbool(mkbool(x)) for x in extra]
        inp = [i for i, v in enumerate(self.vars) if v.kind not in ("def", "intdef", "const")]
        if bounds is not None:
            for i in inp:
                zv = self.zvar(i)
                forms.append(z3.And(zv <= bounds, zv >= -bounds))
        sub = []
        if fixed:
            for nm, val in fixed.items():
                i = self.names.get(nm)
                if i is not None:
                    sub.append((z3.Real(nm) if self.vars[i].kind not in ("int", "intdef") else z3.Int(nm), z3.RealVal(str(val)) if self.vars[i].kind not in ("int", "intdef") else z3.IntVal(int(val))))
            forms = [z3.simplify(z3.substitute(f, *sub)) for f in forms]
        res = None
        isint = any(v.kind in ("int", "intdef") for v in self.vars)
        for attempt in range(2):
            if attempt == 0:
                s = _mk_solver(ms)
            else:
                if isint:
                    break
                s = z3.TryFor(z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat"), int(ms)).solver()
            for f in forms:
                s.add(f)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                res = "unsat"
                break
            if r == z3.sat:
                m = s.model()
                res = {}
                for i in range(len(self.vars)):
                    v = self.vars[i]
                    if fixed and v.name in fixed:
                        res[v.name] = fixed[v.name]
                        continue
                    zc = z3.Int(v.name) if v.kind in ("int", "intdef") else z3.Real(v.name)
                    val = m.eval(zc, model_completion=True)
                    res[v.name] = _zval(val)
                break
        STATS.solver_s += time.time() - t0
        return res

    def show(self, s):
        def mono(m):
            return "*".join(self.vars[i].name + ("^%d" % e if e > 1 else "") for i, e in mono_items(m)) or "1"

        def poly(p):
            return " + ".join("%s*%s" % (c, mono(m)) if m else str(c) for m, c in list(p.items())[:12]) + (" + ..(%d)" % len(p) if len(p) > 12 else "") or "0"

        t = poly(s.num) or "0"
        if s.D != 1 or s.den:
            t = "(%s)/(%s)" % (t, "*".join([str(s.D)] + ["(%s)^%d" % (poly(self.atoms[a]), e) for a, e in s.den]))
        return t


def _in_poly_init():
    f = sys._getframe(2)
    n = 0
    while f is not None and n < 14:
        co = f.f_code
        if co.co_name == "__init__" and co.co_filename.endswith("moment.py"):
            return True
        f = f.f_back
        n += 1
    return False


_VS = {}


def _varset(mask):
    """packed exponents -> bitset of variables."""
    r = _VS.get(mask)
    if r is None:
        r = 0
        i = 0
        m = mask
        while m:
            if m & FULL:
                r |= 1 << i
            m >>= BITS
            i += 1
        if len(_VS) > 200000:
            _VS.clear()
        _VS[mask] = r
    return r


def _bkey(b):
    if b.k in ("true", "false"):
        return b.k
    if b.k == "not":
        return ("not", _bkey(b.a))
    if b.k in ("and", "or"):
        return (b.k, tuple(_bkey(x) for x in b.a))
    return (b.k, pkey(b.a))


def _zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return v.as_fraction()
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    try:
        return float(v.as_decimal(20).rstrip("?"))
    except Exception:
        return 0
