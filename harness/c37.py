"""C37 Unordered comparison is matching up to row order."""
import itertools
from symx.run import Suite

suite = Suite("C37", bounds="matrices of up to 3 rows and 3 columns with arbitrary entries and tolerances; up to 8 rows that lie apart from each other",
              assumes=["exact real arithmetic"], max_paths=4000)


def f(c):
    return c.mod("rigeo.test_util").allclose_unordered


def close(c, A, B, rtol, atol):
    """n x n conditions: row i of A is close to row j of B"""
    n = len(A)
    ab = lambda x: c.absv(x)
    return [[c.land(*[c.le(ab(x - y), atol + rtol * ab(y)) for x, y in zip(A[i], B[j])]) for j in range(n)] for i in range(n)]


def matching(c, M):
    n = len(M)
    return c.lor(*[c.land(*[M[i][q[i]] for i in range(n)]) for q in itertools.permutations(range(n))])


def unambiguous(c, M):
    """the rows close to two rows of A are the same or share nothing"""
    n = len(M)
    cs = []
    for i in range(n):
        for j in range(i):
            share = c.lor(*[c.land(M[i][k], M[j][k]) for k in range(n)])
            same = c.land(*[c.land(c.lor(c.lnot(M[i][k]), M[j][k]), c.lor(c.lnot(M[j][k]), M[i][k])) for k in range(n)])
            cs.append(c.lor(c.lnot(share), same))
    return c.land(*cs)


SIZES = [(1, 1), (1, 3), (2, 1), (2, 2), (3, 1), dict(p=(3, 2), _o=dict(tier="thorough"))]


def setup(c, p):
    n, m = p
    t = c.pos("t", lo=c.const(1) / 100, hi=10)
    return c.mat("A", n, m), c.mat("B", n, m), t


@suite.inst(params=SIZES)
def sound(c, p):
    """reported close: the rows can be paired"""
    A, B, t = setup(c, p)
    M = close(c, A, B, 0, t)
    if c.cond(f(c)(A, B, rtol=0, atol=t)):
        c.check("pairing", matching(c, M))
    else:
        c.check("no pairing, or an ambiguous one", c.lnot(c.land(matching(c, M), unambiguous(c, M))))


@suite.inst(params=[(1, 1), (1, 2), (2, 1)], ms=15000)
def relative(c, p):
    A, B, t = setup(c, p)
    u = c.real("u", lo=c.const(1) / 100, hi=1)
    M = close(c, A, B, u, t)
    if c.cond(f(c)(A, B, rtol=u, atol=t)):
        c.check("pairing", matching(c, M))
    else:
        c.check("no pairing, or an ambiguous one", c.lnot(c.land(matching(c, M), unambiguous(c, M))))


@suite.inst(params=[(1, 1), (2, 1)])
def default_tolerance(c, p):
    A, B, t = setup(c, p)
    M = close(c, A, B, c.const(1) / 10**5, c.const(1) / 10**8)
    if c.cond(f(c)(A, B)):
        c.check("pairing", matching(c, M))
    else:
        c.check("no pairing, or an ambiguous one", c.lnot(c.land(matching(c, M), unambiguous(c, M))))


@suite.inst(params=[(2, 1), (2, 2)])
def two_rows(c, p):
    """two rows: complete in all cases but the one known finding"""
    A, B, t = setup(c, p)
    M = close(c, A, B, 0, t)
    c.assume(c.lnot(c.land(M[0][0], M[0][1], M[1][0], c.lnot(M[1][1]))))
    c.iff("close iff paired", f(c)(A, B, rtol=0, atol=t), matching(c, M))


@suite.inst()
def first_row_ambiguous(c):
    """the first row is close to both, the second only to the first row of the other"""
    A, B, t = setup(c, (2, 1))
    M = close(c, A, B, 0, t)
    c.assume(c.land(M[0][0], M[0][1], M[1][0], c.lnot(M[1][1])))
    c.check("paired", f(c)(A, B, rtol=0, atol=t))


@suite.inst(params=[(q, m) for n in (1, 2, 3) for q in itertools.permutations(range(n)) for m in (1, 2) if n * m <= 4])
def permuted(c, p):
    """permuted rows, repeated rows allowed, always compare as equal"""
    q, m = p
    n = len(q)
    A = c.mat("A", n, m, lo=-1000, hi=1000)
    for i in range(n):
        for j in range(i):
            # rows are equal or clearly different
            c.assume(c.lor(c.allsame(A[i], A[j]), *[c.le(1, c.absv(A[i, k] - A[j, k])) for k in range(m)]))
    c.check("equal", f(c)(A, c.arr([A[i] for i in q])))


@suite.inst()
def multiplicity(c):
    """rows are paired one to one"""
    a, b = c.vec("a", 2), c.vec("b", 2)
    c.assume(c.le(1, c.absv(a[0] - b[0])))
    ok = f(c)(c.arr([a, a, b]), c.arr([a, b, b]), rtol=0, atol=c.const(1) / 2)
    c.check("different", c.lnot(ok))
    ok = f(c)(c.arr([a, b, b]), c.arr([b, a, b]), rtol=0, atol=c.const(1) / 2)
    c.check("same", ok)


@suite.inst()
def shapes(c):
    c.raises("rows", lambda: f(c)(c.mat("A", 2, 2), c.mat("B", 3, 2)), AssertionError, ValueError)
    c.raises("columns", lambda: f(c)(c.mat("A", 2, 2), c.mat("B", 2, 3)), AssertionError, ValueError)


@suite.inst()
def operands(c):
    A, B = c.mat("A", 2, 2), c.mat("B", 2, 2)
    A0, B0 = c.arr([[e for e in r] for r in A]), c.arr([[e for e in r] for r in B])
    f(c)(A, B)
    c.eq("A", A, A0)
    c.eq("B", B, B0)


@suite.inst(params=[(1, 0), (2, 1, 0), (1, 2, 3, 4, 0), (3, 1, 4, 0, 5, 2), (7, 5, 0, 2, 6, 1, 3, 4)])
def apart(c, p):
    """rows far from each other, permuted; one of them moved"""
    n = len(p)
    A = c.mat("a", n, 2)
    for i in range(n):
        for j in range(2):
            c.assume(c.land(c.le(A[i, j], 1), c.le(-1, A[i, j])))
        A[i, 0] = A[i, 0] + 10 * i
    t = c.pos("t", lo=c.const(1) / 100, hi=1)
    e = c.vec("e", 2)
    for x in e:
        c.assume(c.land(c.le(x, 3), c.le(-3, x)))
    for k in range(n):
        B = c.np.zeros((n, 2)) * c.const(1)
        for i in range(n):
            B[p[i]] = A[i]
        B[p[k]] = A[k] + e
        c.iff("row %d moved" % k, f(c)(A, B, rtol=0, atol=t), c.land(*[c.le(c.absv(x), t) for x in e]))
    # a row twice instead of another one
    B = A.copy()
    B[0] = A[n - 1]
    c.check("a row twice", c.lnot(f(c)(A, B, rtol=0, atol=t)))
    c.check("a row twice, other side", c.lnot(f(c)(B, A, rtol=0, atol=t)))
