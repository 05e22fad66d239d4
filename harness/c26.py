"""C26 Moment and localizing matrices represent measures."""
import itertools
import math
from symx.run import Suite
from .c25 import monos, value, terms

suite = Suite("C26", bounds="1 to 3 variables, relaxation orders up to 2 (3 in one variable), polynomials of degree up to 2 (4 in one variable), all points and coefficients; measures of up to 2 atoms",
              assumes=["exact real arithmetic", "cvxpy expressions denote their values (symx/cpshim)"], poly_cut=False)

ND = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1), (3, 2)]


def bvec(c, n, d, x):
    """the code's own basis order, evaluated"""
    return [value(c, {tuple(b.value): c.const(1)}, x) for b in c.rg.Polynomial.basis(n, d)]


def mom(c, n, d, atoms):
    """moment matrix of sum w delta_x"""
    r = math.comb(n + d, d)
    M = [[c.const(0)] * r for _ in range(r)]
    for w, x in atoms:
        b = bvec(c, n, d, x)
        M = [[M[i][j] + w * b[i] * b[j] for j in range(r)] for i in range(r)]
    return c.arr(M)


@suite.inst(params=ND)
def entries(c, p):
    n, d = p
    x = c.vec("x", n)
    m = c.rg.MomentMatrix(n, d)
    r = math.comb(n + d, d)
    c.check("size", m.r == r and tuple(m.shape) == (r, r) and m.n == n and m.d == d)
    b = bvec(c, n, d, x)
    for i in range(r):
        for j in range(r):
            c.eq("entry", value(c, {tuple(m.indices[i, j].value): c.const(1)}, x), b[i] * b[j])


@suite.inst(params=ND)
def moment_constraints_accept(c, p):
    n, d = p
    atoms = [(c.pos("w0"), c.vec("x", n)), (c.nonneg("w1"), c.vec("y", n))]
    M = mom(c, n, d, atoms)
    m = c.rg.MomentMatrix(n, d)
    K = c.cset(lambda V: m.moment_constraints(V), M)
    c.admitted("measures", K)


@suite.inst(params=ND)
def moment_constraints_exact(c, p):
    """a symmetric matrix is accepted iff entries of equal monomials agree"""
    n, d = p
    r = math.comb(n + d, d)
    m = c.rg.MomentMatrix(n, d)
    M = c.symmat("M", r)
    b = [tuple(e.value) for e in c.rg.Polynomial.basis(n, d)]
    idx = {}
    for i in range(r):
        for j in range(i, r):
            idx.setdefault(tuple(u + v for u, v in zip(b[i], b[j])), []).append((i, j))
    want = c.land(*[c.same(M[g[0]], M[e]) for g in idx.values() for e in g[1:]])
    if not c.sym:
        # numbers: constraints on constants
        class V:
            pass
    K = c.cset(lambda V: m.moment_constraints(V), M)
    c.iff_admitted("accepts exactly", K, want)


@suite.inst(params=ND)
def moment_constraints_generic(c, p):
    """each single disagreement is rejected"""
    n, d = p
    r = math.comb(n + d, d)
    m = c.rg.MomentMatrix(n, d)
    x = c.vec("x", n)
    b = [tuple(e.value) for e in c.rg.Polynomial.basis(n, d)]
    e = c.pos("e", lo=c.const(1) / 2)
    done = 0
    for i in range(r):
        for j in range(i, r):
            s = tuple(u + v for u, v in zip(b[i], b[j]))
            if any((k, l) != (i, j) and tuple(u + v for u, v in zip(b[k], b[l])) == s for k in range(r) for l in range(k, r)):
                M = mom(c, n, d, [(1, x)])
                M[i, j] = M[i, j] + e
                if i != j:
                    M[j, i] = M[j, i] + e
                K = c.cset(lambda V: m.moment_constraints(V), M)
                c.iff_admitted("perturbed %d %d" % (i, j), K, c.le(1, 0))
                done += 1
    c.check("order one has nothing to perturb", done > 0 or d == 1)


LOC = [(1, 1, 0), (1, 1, 1), (1, 2, 1), (1, 2, 2), (1, 2, 3), (1, 2, 4), (2, 1, 1), (2, 2, 1), (2, 2, 2), (3, 1, 1), (3, 2, 1), (3, 2, 2)]


def rr(n, d, deg):
    """order reduced by half the degree, rounded up"""
    return d - (deg + 1) // 2


@suite.inst(params=LOC)
def localizing_matrix(c, p):
    n, d, deg = p
    x = c.vec("x", n)
    co = terms(c, n, deg, "g")
    g = c.rg.Polynomial(co)
    m = c.rg.MomentMatrix(n, d)
    k = rr(n, d, deg)
    b = bvec(c, n, k, x)
    gx = value(c, co, x)
    L = m.localizing_matrix(k, g)
    c.shape("size", L, (len(b), len(b)))
    for i in range(len(b)):
        for j in range(len(b)):
            c.eq("symbolic", L[i, j].evaluate(x), gx * b[i] * b[j])


@suite.inst(params=LOC)
def localize(c, p):
    n, d, deg = p
    atoms = [(c.pos("w0"), c.vec("x", n)), (c.nonneg("w1"), c.vec("y", n))]
    co = terms(c, n, deg, "g")
    g = c.rg.Polynomial(co)
    m = c.rg.MomentMatrix(n, d)
    M = mom(c, n, d, atoms)
    L = m.localize(M, g)
    k = rr(n, d, deg)
    r = math.comb(n + k, k)
    want = [[c.const(0)] * r for _ in range(r)]
    for w, x in atoms:
        b = bvec(c, n, k, x)
        gx = value(c, co, x)
        want = [[want[i][j] + w * gx * b[i] * b[j] for j in range(r)] for i in range(r)]
    c.eq("value", L, c.arr(want))
    c.raises("wrong size", lambda: m.localize(M[:-1, :-1], g), AssertionError, ValueError)


@suite.inst(params=[(1, 1, 1), (1, 2, 2), (1, 2, 3), (1, 2, 4), (1, 3, 3), (2, 1, 1), (2, 2, 1), (2, 2, 2), (2, 2, 3), (3, 2, 1), (3, 2, 2)])
def localizing_constraints_accept(c, p):
    """accepted whenever the polynomials are nonnegative on the atoms"""
    n, d, deg = p
    x = c.vec("x", n)
    w = c.pos("w")
    co, c2 = terms(c, n, deg, "g"), terms(c, n, 1, "f")
    c.assume(c.le(0, value(c, co, x)))
    c.assume(c.le(0, value(c, c2, x)))
    polys = [c.rg.Polynomial(co), c.rg.Polynomial(c2)]
    m = c.rg.MomentMatrix(n, d)
    M = mom(c, n, d, [(w, x)])
    K = c.cset(lambda V: m.localizing_constraints(V, polys), M)

    def decs(N):
        out = []
        for q in (co, c2):
            k = rr(n, d, max(sum(e) for e in q))
            b = bvec(c, n, k, x)
            if len(b) == N:
                out.append([(w * value(c, q, x), b)])
        return out

    c.admitted("accepts", K, decs=decs)


@suite.inst(params=[(1, 1, 1), (1, 2, 2), (1, 2, 3), (1, 2, 4), (1, 3, 3), (2, 1, 1), (2, 2, 1), (2, 2, 2), (2, 2, 3), (3, 2, 1), (3, 2, 2)])
def localizing_constraints_sound(c, p):
    """z^T L z >= 0 for the localizing matrix of whatever symmetric moment matrix is accepted"""
    n, d, deg = p
    m = c.rg.MomentMatrix(n, d)
    r = math.comb(n + d, d)
    co, c2 = terms(c, n, deg, "g"), terms(c, n, 1, "f")
    polys = [c.rg.Polynomial(co), c.rg.Polynomial(c2)]
    # one value per monomial
    y = {e: c.real("y%d" % i) for i, e in enumerate(monos(n, 2 * d))}
    b = [tuple(e.value) for e in c.rg.Polynomial.basis(n, d)]
    M = c.arr([[y[tuple(u + v for u, v in zip(b[i], b[j]))] for j in range(r)] for i in range(r)])
    zs = {}
    for q, nm in ((co, "z"), (c2, "s")):
        k = rr(n, d, max(sum(e) for e in q))
        zs[nm] = (q, k, c.vec(nm, math.comb(n + k, k)))
    K = c.cset(lambda V: m.localizing_constraints(V, polys), M)
    c.accepted(K, zs=lambda N: [z for q, k, z in zs.values() if len(z) == N.shape[0]])
    for nm, (q, k, z) in zs.items():
        bb = [tuple(e.value) for e in c.rg.Polynomial.basis(n, k)]
        s = 0
        for i in range(len(bb)):
            for j in range(len(bb)):
                for e, a in q.items():
                    s = s + z[i] * z[j] * a * y[tuple(u + v + t for u, v, t in zip(bb[i], bb[j], e))]
        c.check("form %s" % nm, c.lor(c.le(0, s), c.same(0, s)))


@suite.inst()
def point_outside_rejected(c):
    """a point where a polynomial is negative is not accepted"""
    x = c.vec("x", 2)
    a, b = c.vec("a", 2), c.real("b")
    for v in a:
        c.assume(c.lnot(c.same(v, 0)))
    g = c.rg.Polynomial.affine(a, b)
    m = c.rg.MomentMatrix(2, 1)
    M = mom(c, 2, 1, [(1, x)])
    K = c.cset(lambda V: m.localizing_constraints(V, [g]), M)
    c.accepted(K)
    s = a[0] * x[0] + a[1] * x[1]
    c.check("inside", c.lor(c.le(s, b), c.same(s, b)))
