"""C35 Half-vectorisation is invertible and triangular numbers exact."""
from symx.run import Suite

suite = Suite("C35", bounds="matrices up to 6x6 with arbitrary entries, diagonal offsets -2..3, vector lengths up to 28; all integers and reals up to 2^120 for the triangular test",
              assumes=["exact real arithmetic, except that a floating-point square root is the root times (1 + d), |d| <= 2^-53, in the fsqrt instances"])


def tri(c):
    return c.mod("rigeo.util").is_triangular_number


@suite.inst(params=[1, 2, 3, 4, 5, 6])
def round_trip(c, n):
    A = c.symmat("A", n)
    v = c.rg.vech(A)
    c.shape("length", v, (n * (n + 1) // 2,))
    c.eq("vech", v, c.arr([A[i, j] for i in range(n) for j in range(i, n)]))
    B = c.rg.unvech(v)
    c.eq("unvech vech", B, A)
    c.eq("vech unvech", c.rg.vech(B), v)


@suite.inst(params=[1, 2, 3, 4, 5, 6])
def from_vector(c, n):
    v = c.vec("v", n * (n + 1) // 2)
    w = [x for x in v]
    A = c.rg.unvech(v)
    c.shape("square", A, (n, n))
    k = 0
    for i in range(n):
        for j in range(i, n):
            c.eq("entry", A[i, j], w[k])
            c.eq("mirror", A[j, i], w[k])
            k += 1
    c.eq("list", c.rg.unvech(w), A)
    c.eq("argument kept", v, c.arr(w))
    A[0, 0] = A[0, 0] + 1
    c.eq("no aliasing", v, c.arr(w))


@suite.inst(params=[(n, k) for n in (1, 2, 3, 4) for k in (-2, -1, 0, 1, 2, 3)])
def offsets(c, p):
    n, k = p
    A = c.mat("A", n, n)
    v = c.rg.vech(A, k=k)
    want = [A[i, j] for i in range(n) for j in range(n) if j >= i + k]
    c.shape("length", v, (len(want),))
    if want:
        c.eq("entries", v, c.arr(want))
        c.eq("positional", c.rg.vech(A, k), c.arr(want))


@suite.inst(params=[2, 3])
def not_square(c, n):
    A = c.mat("A", n, n + 1)
    c.raises("vech", lambda: c.rg.vech(A), AssertionError, ValueError)
    c.raises("unvech of a matrix", lambda: c.rg.unvech(c.mat("B", n, n)), AssertionError, ValueError)


@suite.inst(params=[n for n in range(1, 29) if n not in (1, 3, 6, 10, 15, 21, 28)])
def wrong_length(c, n):
    v = c.vec("v", n)
    c.raises("rejected", lambda: c.rg.unvech(v), AssertionError, ValueError)


BITS = [0, 20, 50, 63, 90, 119]


def triangle(c, e, odd):
    """(k, k (k + 1) / 2) for every k of a parity, 2^(e/2) <= k <= 2^(e/2 + 1)"""
    lo = 2 ** (e // 2)
    q = c.integer("q", lo=(lo - odd + 1) // 2, hi=(2 * lo - odd) // 2)
    return (2 * q + 1, (2 * q + 1) * (q + 1)) if odd else (2 * q, q * (2 * q + 1))


def reject(c, label, k, j, x):
    """x = k (k + 1) / 2 + j is not recognised: a root would lie strictly between k and k + 1"""
    ok, n = tri(c)(x)
    if c.cond(ok):
        c.lemma(c.le(0, n))
        c.lemma(c.same(n * (n + 1), 2 * x))
        c.lemma(c.lt(k, n))
        c.lemma(c.lt(n, k + 1))
        c.check(label, c.le(1, 0))
    else:
        c.check(label, c.le(0, 1))


@suite.inst(params=[(e, o) for e in BITS for o in (0, 1)], symint=True, wit_ms=20000)
def triangular(c, p):
    k, x = triangle(c, *p)
    ok, n = tri(c)(x)
    c.check("recognised", ok)
    c.check("right n", c.same(n, k))


@suite.inst(params=[dict(p=(e, o), _o=dict(nowit=e > 80)) for e in BITS for o in (0, 1)], symint=True, wit_ms=10000)
def not_triangular(c, p):
    """strictly between consecutive triangular numbers"""
    k, x = triangle(c, *p)
    j = c.integer("j", lo=1)
    c.assume(c.le(j, k))
    reject(c, "rejected", k, j, x + j)


@suite.inst(params=[(e, o) for e in (90, 119) for o in (0, 1)], fsqrt=True, symint=True, wit_ms=20000)
def rounded_root(c, p):
    """next to a triangular number, with rounded floating-point square roots"""
    k, x = triangle(c, *p)
    c.check("itself", tri(c)(x)[0])
    reject(c, "above", k, 1, x + 1)
    reject(c, "below", k - 1, k - 1, x - 1)


@suite.inst()
def not_positive(c):
    x = c.integer("x", hi=0)
    ok, n = tri(c)(x)
    c.check("rejected", c.lnot(ok))


@suite.inst()
def fractions(c):
    """a number strictly between two integers"""
    k = c.integer("k", lo=-1000, hi=1000)
    f = c.real("f", lo=c.const(1) / 1000, hi=c.const(999) / 1000)
    ok, n = tri(c)(k + f)
    c.check("rejected", c.lnot(ok))


@suite.inst()
def small(c):
    for x in range(0, 200):
        ns = [n for n in range(1, 20) if n * (n + 1) == 2 * x]
        for y in (x, float(x)):
            ok, n = tri(c)(y)
            c.check("recognised iff triangular", bool(ok) == bool(ns))
            if ns:
                c.check("n", int(n) == ns[0])
