"""C32 Surface tests recognise exactly the boundary."""
from symx.run import Suite
from .common import mk, place, half_extents, sumsq, lo

suite = Suite("C32", bounds="positive half extents (ellipsoids: >= 1e-6 or exactly 0), all rotations, centres, points and tolerances; batches of up to 7 points (1100 of which two are different); ellipsoid dimensions 1 to 4",
              assumes=["exact real arithmetic"])


def face(c, h, q, tol=0):
    near = [c.land(c.le(c.absv(q[i]) - h[i], tol), c.le(h[i] - c.absv(q[i]), tol)) for i in range(3)]
    inn = [c.le(c.absv(q[i]), h[i] + tol) for i in range(3)]
    return c.land(c.lor(*near), *inn)


def face0(c, h, q):
    near = [c.lor(c.same(q[i], h[i]), c.same(q[i], -h[i])) for i in range(3)]
    inn = [c.land(c.le(q[i], h[i]), c.le(-h[i], q[i])) for i in range(3)]
    return c.land(c.lor(*near), *inn)


@suite.inst(params=["point", "batch", "one", "list"])
def box(c, p):
    S = mk(c, "box")
    tol = c.nonneg("tol")
    q, w = c.vec("q", 3), c.vec("w", 3)
    if p == "point":
        c.iff("tol", S.s.on_surface(S.world(q), tol=tol), face(c, S.size, q, tol))
        c.iff("exact", S.s.on_surface(S.world(q), tol=0), face0(c, S.size, q))
        c.iff("default", S.s.on_surface(S.world(q)), face(c, S.size, q, c.const(1) / 10**8))
    elif p == "one":
        r = S.s.on_surface(c.arr([S.world(q)]), tol=tol)
        c.shape("shape", r, (1,))
        c.iff("tol", r[0], face(c, S.size, q, tol))
    else:
        P = [S.world(q), S.world(w)]
        r = S.s.on_surface(P if p == "list" else c.arr(P), tol=tol)
        c.shape("shape", r, (2,))
        c.iff("first", r[0], face(c, S.size, q, tol))
        c.iff("second", r[1], face(c, S.size, w, tol))


@suite.inst()
def box_special(c):
    S = mk(c, "box")
    h = S.size
    for v in S.s.vertices:
        c.check("vertex", S.s.on_surface(v, tol=0))
    u, v = c.real("u", lo=-1, hi=1), c.real("v", lo=-1, hi=1)
    for i in range(3):
        for sg in (1, -1):
            q = [u * h[0], v * h[1], u * h[2]]
            j, k = [x for x in range(3) if x != i]
            q[j], q[k] = u * h[j], v * h[k]
            q[i] = sg * h[i]
            c.check("face %d %d" % (i, sg), S.s.on_surface(S.world(c.arr(q)), tol=0))
            q[j] = sg * h[j]
            c.check("edge %d %d" % (i, sg), S.s.on_surface(S.world(c.arr(q)), tol=0))
    c.check("centre", c.lnot(S.s.on_surface(S.t, tol=0)))
    c.raises("shape", lambda: S.s.on_surface(c.np.zeros((2, 2, 3))), AssertionError, ValueError)


def norm2(q, a, zero=()):
    return sumsq([q[i] / a[i] for i in range(len(q)) if i not in zero])


def near1(c, f, tol):
    return c.land(c.le(f - 1, tol), c.le(1 - f, tol))


def ell(c, n, zero=()):
    R, t = c.rotn("R", n), c.vec("t", n)
    a = half_extents(c, "a", zero, n, lo=lo(c))
    return c.rg.Ellipsoid(half_extents=a, rotation=R, center=t), R, t, a


@suite.inst(params=["point", "batch", "one", "list"])
def ellipsoid(c, p):
    s, R, t, a = ell(c, 3)
    tol = c.nonneg("tol")
    q, w = c.vec("q", 3), c.vec("w", 3)
    W = lambda x: R @ x + t
    if p == "point":
        c.iff("tol", s.on_surface(W(q), tol=tol), near1(c, norm2(q, a), tol))
        c.iff("exact", s.on_surface(W(q), tol=0), c.same(norm2(q, a), 1))
        c.iff("default", s.on_surface(W(q)), near1(c, norm2(q, a), c.const(1) / 10**8))
    elif p == "one":
        r = s.on_surface(c.arr([W(q)]), tol=tol)
        c.shape("shape", r, (1,))
        c.iff("tol", r[0], near1(c, norm2(q, a), tol))
    else:
        P = [W(q), W(w)]
        r = s.on_surface(P if p == "list" else c.arr(P), tol=tol)
        c.shape("shape", r, (2,))
        c.iff("first", r[0], near1(c, norm2(q, a), tol))
        c.iff("second", r[1], near1(c, norm2(w, a), tol))


@suite.inst(params=[1, 2, 3, 4])
def ellipsoid_dim(c, p):
    n = p
    s, R, t, a = ell(c, n)
    tol = c.nonneg("tol")
    q = c.vec("q", n)
    r = s.on_surface(c.arr([R @ q + t, t]), tol=tol)
    c.iff("point", r[0], near1(c, norm2(q, a), tol))
    c.iff("centre", r[1], c.le(1, tol))
    c.check("centre is not on the surface", c.lnot(s.on_surface(c.arr([t]))[0]))
    for i in range(n):
        e = c.np.zeros(n)
        e[i] = a[i]
        c.check("tip %d" % i, s.on_surface(c.arr([R @ e + t]), tol=0)[0])


@suite.inst(params=[(3, (0,)), (3, (2,)), (3, (0, 1)), (3, (0, 1, 2)), (2, (1,)), (2, (0,)), (4, (1,))])
def flat(c, p):
    """every point of a flat ellipsoid is on its surface, no other point is"""
    n, zero = p
    s, R, t, a = ell(c, n, zero)
    tol = c.nonneg("tol")
    q = c.vec("q", n)
    inside = c.land(c.le(norm2(q, a, zero), 1 + tol), *[c.land(c.le(q[i], tol), c.le(-tol, q[i])) for i in zero])
    c.iff("point", s.on_surface(R @ q + t, tol=tol), inside)
    r = s.on_surface(c.arr([R @ q + t, t]), tol=tol)
    c.shape("shape", r, (2,))
    c.iff("batch", r[0], inside)
    c.check("centre", r[1])


@suite.inst(params=[("box", 3), ("box", 7), ("ellipsoid", 3), ("ellipsoid", 7)])
def many(c, p):
    """long batches; every row is judged by itself"""
    k, n = p
    S = mk(c, k)
    q = [c.vec("q%d_" % i, 3) for i in range(n)]
    tol = c.nonneg("tol")
    r = S.s.on_surface(c.arr([S.world(x) for x in q]), tol=tol)
    c.shape("batch", r, (n,))
    for i in range(n):
        c.iff("row %d" % i, r[i], face(c, S.size, q[i], tol) if k == "box" else near1(c, norm2(q[i], S.size), tol))


@suite.inst(params=["box", "ellipsoid"])
def thousand(c, k):
    """a batch of 1100 rows, the last unlike the others"""
    S = mk(c, k)
    q, r = c.vec("q", 3), c.vec("r", 3)
    tol = c.nonneg("tol")
    res = S.s.on_surface(c.arr([S.world(q)] * 1099 + [S.world(r)]), tol=tol)
    c.shape("batch", res, (1100,))
    for nm, x, y in (("first", res[0], q), ("last", res[1099], r)):
        c.iff(nm, x, face(c, S.size, y, tol) if k == "box" else near1(c, norm2(y, S.size), tol))
    for i in range(1, 1099):
        c.iff("row %d" % i, res[i], res[0])
