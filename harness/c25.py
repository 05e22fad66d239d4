"""C25 Polynomial arithmetic agrees with evaluation."""
import itertools
import math
from symx.run import Suite

suite = Suite("C25", bounds="polynomials in 1 to 4 variables of degree up to 3 (up to 10 terms; named pairs of monomials of degree up to 21), every real coefficient and point; bases with n <= 4, d <= 4",
              assumes=["exact real arithmetic"], poly_cut=False)


def monos(n, d):
    return sorted([e for e in itertools.product(range(d + 1), repeat=n) if sum(e) <= d], key=sum)


def value(c, coefs, x):
    s = c.const(0)
    for e, a in coefs.items():
        t = a
        for xi, k in zip(x, e):
            for _ in range(k):
                t = t * xi
        s = s + t
    return s


def terms(c, n, d, tag="a", nz=True):
    """coefficients of all monomials, nonzero (nz) or arbitrary"""
    co = {}
    for i, e in enumerate(monos(n, d)):
        v = c.real("%s%d" % (tag, i))
        if nz:
            c.assume(c.lnot(c.same(v, 0)))
        co[e] = v
    return co


def key(e, style):
    return "".join(map(str, e)) if style == "str" else e


def val(c, e):
    return e if c.sym or not hasattr(e, "value") else float(e.value)


GRID = [(1, 3), (2, 2), (3, 2), (4, 1), (3, 1), (1, 0)]


@suite.inst(params=GRID)
def evaluate(c, p):
    n, d = p
    co = terms(c, n, d)
    x = c.vec("x", n)
    P = c.rg.Polynomial(co)
    c.eq("tuples", P.evaluate(x), value(c, co, x))
    c.eq("strings", c.rg.Polynomial({key(e, "str"): a for e, a in co.items()}).evaluate(x), value(c, co, x))
    c.eq("indices", c.rg.Polynomial({c.rg.MomentIndex(e): a for e, a in co.items()}).evaluate(x), value(c, co, x))
    c.eq("list point", P.evaluate([e for e in x]), value(c, co, x))
    c.check("degree", P.degree == d)


@suite.inst(params=[(1, 2), (2, 1), (3, 1)], max_paths=3000)
def evaluate_any(c, p):
    """coefficients may vanish"""
    n, d = p
    co = terms(c, n, d, nz=False)
    x = c.vec("x", n)
    P = c.rg.Polynomial(co)
    nz = [e for e, a in co.items() if c.cond(c.lnot(c.same(a, 0)))]
    c.check("keeps exactly the nonzero terms", {tuple(k.value) for k in P.coefficients} == set(nz))
    if nz:
        c.eq("value", P.evaluate(x), value(c, co, x))
        c.check("degree", P.degree == max(sum(e) for e in nz))


@suite.inst(params=[(1, 2), (2, 1), (2, 2), (3, 1)], max_paths=3000)
def add(c, p):
    n, d = p
    a = terms(c, n, d, "a")
    b = terms(c, n, d, "b")
    if d > 1 and n > 1:
        # two of the sums may cancel, the others do not
        for e in list(a)[2:]:
            c.assume(c.lnot(c.same(a[e] + b[e], 0)))
    x = c.vec("x", n)
    P, Q = c.rg.Polynomial(a), c.rg.Polynomial(b)
    S = P + Q
    left = [e for e in a if c.cond(c.lnot(c.same(a[e] + b[e], 0)))]
    c.check("cancelled terms vanish", {tuple(k.value) for k in S.coefficients} == set(left))
    if left:
        c.eq("sum", S.evaluate(x), value(c, a, x) + value(c, b, x))
        c.check("degree", S.degree == max(sum(e) for e in left))
        c.eq("commutes", (Q + P).evaluate(x), S.evaluate(x))
    c.eq("operand kept", P.evaluate(x), value(c, a, x))
    c.eq("other operand kept", Q.evaluate(x), value(c, b, x))


@suite.inst()
def add_disjoint(c):
    """terms of one polynomial absent from the other"""
    a, b, d = c.pos("a"), c.pos("b"), c.pos("d")
    x = c.vec("x", 2)
    P, Q = c.rg.Polynomial({"10": a, "00": d}), c.rg.Polynomial({"02": b, "00": d})
    c.eq("sum", (P + Q).evaluate(x), a * x[0] + b * x[1] * x[1] + 2 * d)
    c.eq("P", P.evaluate(x), a * x[0] + d)
    c.eq("Q", Q.evaluate(x), b * x[1] * x[1] + d)
    Z = c.rg.Polynomial.zeros()
    c.eq("zero is neutral", (P + Z).evaluate(x), P.evaluate(x))
    c.eq("zero is neutral 2", (Z + P).evaluate(x), P.evaluate(x))
    c.check("zero has no terms", len(Z.coefficients) == 0)


@suite.inst(params=[((1, 2), (3,)), ((2, 2), (1, 2)), ((2, 1), (0, 0)), ((3, 1), (1, 0, 2))])
def localize(c, p):
    (n, d), e = p
    co = terms(c, n, d)
    x = c.vec("x", n)
    P = c.rg.Polynomial(co)
    L = P.localize(c.rg.MomentIndex(e))
    mono = value(c, {tuple(e): c.const(1)}, x)
    c.eq("localised", L.evaluate(x), mono * value(c, co, x))
    c.check("degree", L.degree == d + sum(e))
    c.eq("original kept", P.evaluate(x), value(c, co, x))


@suite.inst(params=[1, 2, 3, 4])
def affine(c, p):
    a, b = c.vec("a", p), c.real("b")
    for v in a:
        c.assume(c.lnot(c.same(v, 0)))
    c.assume(c.lnot(c.same(b, 0)))
    x = c.vec("x", p)
    P = c.rg.Polynomial.affine(a, b)
    s = b
    for u, v in zip(a, x):
        s = s - u * v
    c.eq("value", P.evaluate(x), s)
    c.check("degree", P.degree == 1)


@suite.inst(max_paths=3000)
def affine_any(c):
    a, b = c.vec("a", 3), c.real("b")
    c.assume(c.lor(*[c.lnot(c.same(v, 0)) for v in list(a) + [b]]))
    x = c.vec("x", 3)
    P = c.rg.Polynomial.affine(a, b)
    c.eq("value", P.evaluate(x), b - a[0] * x[0] - a[1] * x[1] - a[2] * x[2])
    lin = c.cond(c.lor(*[c.lnot(c.same(v, 0)) for v in a]))
    c.check("degree", P.degree == (1 if lin else 0))


@suite.inst(params=[(1, 3), (2, 2), (3, 1)])
def substitute(c, p):
    n, d = p
    co = terms(c, n, d)
    x = c.vec("x", n)
    P = c.rg.Polynomial(co)
    vals = {c.rg.MomentIndex(e): c.real("y%d" % i) for i, e in enumerate(monos(n, d))}
    s = c.const(0)
    for e, a in co.items():
        s = s + a * vals[c.rg.MomentIndex(e)]
    got = P.substitute(vals)
    c.eq("free values", val(c, got), s)
    true = {c.rg.MomentIndex(e): value(c, {e: c.const(1)}, x) for e in monos(n, d)}
    got = P.substitute(true)
    c.eq("monomial values", val(c, got), value(c, co, x))


@suite.inst(params=[(1, 0), (1, 3), (2, 0), (2, 2), (3, 1), (3, 2), (2, 3)])
def ones(c, p):
    n, d = p
    x = c.vec("x", n)
    P = c.rg.Polynomial.ones(n, d)
    c.eq("value", P.evaluate(x), value(c, {e: c.const(1) for e in monos(n, d)}, x))


@suite.inst(params=[(n, d) for n in (1, 2, 3, 4) for d in (0, 1, 2, 3, 4) if n + d <= 7])
def basis(c, p):
    """the basis determines a generic polynomial: every monomial once"""
    n, d = p
    B = c.rg.Polynomial.basis(n, d)
    want = monos(n, d)
    c.check("dimension", c.rg.Polynomial.dim(n, d) == len(want) == math.comb(n + d, n))
    c.check("size", len(B) == len(want))
    got = [tuple(b.value) for b in B]
    c.check("every monomial once", sorted(got) == sorted(want))
    c.check("lower degrees first", [sum(g) for g in got] == sorted(sum(g) for g in got))
    # evaluated at a point: the values are the monomials of the point
    x = c.vec("x", n)
    ys = {b: value(c, {tuple(b.value): c.const(1)}, x) for b in B}
    P = c.rg.Polynomial({b: 1 for b in B})
    got = P.substitute(ys)
    c.eq("sum", val(c, got), value(c, {e: c.const(1) for e in want}, x))


@suite.inst()
def moment_index(c):
    M = c.rg.MomentIndex
    x = c.vec("x", 3)
    a, b = M("120"), M((0, 1, 3))
    v = lambda i: value(c, {tuple(i.value): c.const(1)}, x)
    c.eq("product", v(a + b), v(a) * v(b))
    c.eq("product, times", v(a * b), v(a) * v(b))
    c.check("equal", a == M((1, 2, 0)) and hash(a) == hash(M((1, 2, 0))) and not (a == b))
    c.check("sum", tuple(sum([a, b]).value) == (1, 3, 3))


@suite.inst(params=[((1, 11), (11, 1)), ((12, 0), (1, 20)), ((10, 0, 1), (1, 0, 10)), ((0, 16), (16, 0))])
def high_degree(c, p):
    """exponents of ten and more are not confused"""
    e, f = p
    n = len(e)
    a, b = c.pos("a"), c.pos("b")
    x = c.vec("x", n)
    for v in x:
        c.assume(c.land(c.le(v, 2), c.le(-2, v)))
    P, Q = c.rg.Polynomial({e: a}), c.rg.Polynomial({f: b})
    want = value(c, {e: a}, x) + value(c, {f: b}, x)
    c.eq("both", c.rg.Polynomial({e: a, f: b}).evaluate(x), want)
    c.eq("sum", (P + Q).evaluate(x), want)
    c.check("degree", (P + Q).degree == max(sum(e), sum(f)))
    z = [0] * n
    z[0] = 9
    L = P.localize(c.rg.MomentIndex(z))
    c.check("localised", {tuple(k.value) for k in L.coefficients} == {tuple(i + j for i, j in zip(e, z))})
    i, j = c.rg.MomentIndex(e), c.rg.MomentIndex(f)
    c.check("distinct", not (i == j))
    c.check("equal", i == c.rg.MomentIndex(e) and hash(i) == hash(c.rg.MomentIndex(e)))
