"""C14 Closed-form bounding ellipsoids and boxes bound minimally."""
import itertools
from symx.run import Suite
from .common import mk, dot, sumsq, diag, lo

suite = Suite("C14", bounds="all sizes (half extents, radius, length >= 1e-6), centres and rotations; all points of the shape; competitors: spheres about any centre, "
              "ellipsoids of any shape, orientation and centre, boxes of the shape's orientation about any centre",
              assumes=["exact real arithmetic", "a competitor ellipsoid is written |A(x-d)| <= 1 with A upper triangular (QR decomposition)"], ms=20000)


def make(c, kind, **k):
    X = mk(c, kind, **k)
    if kind.startswith("box"):
        for i in range(3):
            if "-%d" % i not in kind:
                c.assume(c.le(lo(c), X.size[i]))
    return X


def tight(c, a, b):
    return c.lor(c.le(a, b), c.same(a, b))


def inside_point(c, kind, X):
    """any point of the shape, in local coordinates"""
    q = c.vec("q", 3)
    if kind == "box":
        u = [c.real("w%d" % i, lo=-1, hi=1) for i in range(3)]
        return c.np.array([u[i] * X.size[i] for i in range(3)])
    if kind == "ellipsoid":
        c.assume(c.le(sumsq(q), 1))
        return c.np.array([q[i] * X.size[i] for i in range(3)])
    L, r = X.size
    if kind == "cylinder":
        c.assume(c.le(q[0] * q[0] + q[1] * q[1], 1))
        c.assume(c.land(c.le(-1, q[2]), c.le(q[2], 1)))
        return c.np.array([q[0] * r, q[1] * r, q[2] * L / 2])
    # capsule: a point within r of a point of the segment
    s = c.real("s", lo=-1, hi=1)
    c.assume(c.le(sumsq(q), 1))
    return c.np.array([q[0] * r, q[1] * r, q[2] * r + s * L / 2])


def extremes(c, kind, X):
    """local points of the shape that the bound must touch"""
    z = c.const(0)
    if kind == "box":
        return [c.np.array([a * X.size[0], b * X.size[1], e * X.size[2]]) for a in (1, -1) for b in (1, -1) for e in (1, -1)]
    if kind == "ellipsoid":
        return [c.np.array([g * X.size[i] if j == i else z for j in range(3)]) for i in range(3) for g in (1, -1)]
    L, r = X.size
    return [c.np.array([a * r, b * r, e * L / 2]) for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1)) for e in (1, -1)]


def outside(c, label, X, B, p):
    """beyond the touching point is outside"""
    k = c.pos("beyond", lo=c.const(1) / 1000)
    c.check(label, c.lnot(B.contains(X.world(p * (1 + k)), tol=0)))


@suite.inst(params=[(k, s) for k in ("box", "cylinder", "ellipsoid") for s in (False, True)])
def contains(c, p):
    kind, sphere = p
    X = make(c, kind)
    E = X.s.mbe(sphere=sphere)
    q = inside_point(c, kind, X)
    c.check("contains", E.contains(X.world(q)))
    c.eq("centre", E.center, X.t)
    for i, v in enumerate(extremes(c, kind, X)):
        c.check("corner %d" % i, E.contains(X.world(v)))
        if not (sphere and kind == "ellipsoid"):
            outside(c, "touches %d" % i, X, E, v)


@suite.inst(params=["box", "cylinder", "ellipsoid"])
def orientation(c, kind):
    """the bounding ellipsoid is aligned with the shape"""
    X = make(c, kind)
    E = X.s.mbe()
    D = X.R.T @ E.E @ X.R
    for i in range(3):
        for j in range(i):
            c.eq("aligned %d%d" % (i, j), D[i, j], 0)
    S = X.s.mbe(sphere=True)
    c.eq("round", S.E, S.half_extents[0] * S.half_extents[0] * c.np.eye(3))


def competitor(c):
    """|A (x - d)| <= 1 in the shape's frame"""
    A = c.np.zeros((3, 3)) * c.const(1)
    for i in range(3):
        for j in range(i, 3):
            A[i, j] = c.pos("A%d%d" % (i, j)) if i == j else c.real("A%d%d" % (i, j))
    d = c.vec("d", 3)
    return A, d


@suite.inst(params=["box", "cylinder"], ms=60000)
def least_volume(c, kind):
    X = make(c, kind, R=c.np.eye(3), t=c.np.zeros(3))
    V = X.s.mbe().volume
    A, d = competitor(c)
    n2 = lambda v: sumsq(A @ v)
    pts = extremes(c, kind, X)
    # averaging the conditions |A(v-d)|^2 <= 1 over opposite corners leaves
    cols = [A[:, i] for i in range(3)]
    g = [sumsq(cols[i]) for i in range(3)]
    groups = [pts] if kind == "box" else [pts[:4], pts[4:]]
    for G in groups:
        avg = sum(n2(v - d) for v in G) / len(G)
        if kind == "box":
            h = X.size
            want = sum(h[i] * h[i] * g[i] for i in range(3))
        else:
            L, r = X.size
            want = r * r * g[0 if G is groups[0] else 1] + L * L / 4 * g[2]
        c.eq("average", avg, want + n2(d))
    h = X.size if kind == "box" else [X.size[1], X.size[1], X.size[0] / 2]
    x = [h[i] * A[i, i] for i in range(3)]
    # the squared columns dominate the squared diagonal
    for i in range(3):
        c.check("column %d" % i, tight(c, A[i, i] * A[i, i], g[i]))


@suite.inst(params=["box", "cylinder"], ms=60000)
def least_volume_bound(c, kind):
    """what the averaged conditions leave for the squared scaled diagonal y: its product is at most that of the bounding ellipsoid"""
    X = make(c, kind, R=c.np.eye(3), t=c.np.zeros(3))
    h = X.size if kind == "box" else [X.size[1], X.size[1], X.size[0] / 2]
    y = [c.pos("y%d" % i) for i in range(3)]
    if kind == "box":
        c.assume(c.le(y[0] + y[1] + y[2], 1))
    else:
        c.assume(c.le(y[0] + y[2], 1))
        c.assume(c.le(y[1] + y[2], 1))
    # competitor volume^2 = (4 pi / 3)^2 h^2 h^2 h^2 / (y0 y1 y2)
    V = X.s.mbe().volume
    P = c.pi
    w = V / (4 * P / 3) / (h[0] * h[1] * h[2])
    c.check("volume", tight(c, w * w * (y[0] * y[1] * y[2]), c.const(1)))


@suite.inst(params=["box", "cylinder", "ellipsoid"], ms=30000)
def least_sphere(c, kind):
    X = make(c, kind, R=c.np.eye(3), t=c.np.zeros(3))
    S = X.s.mbe(sphere=True)
    d, rho = c.vec("d", 3), c.pos("rho")
    for v in extremes(c, kind, X):
        c.assume(c.le(sumsq(v - d), rho * rho))
    for i in range(3):
        e = S.half_extents[i]
        c.check("radius %d" % i, tight(c, e * e, rho * rho))


BB = ["ellipsoid", "cylinder", "capsule"]


@suite.inst(params=BB)
def boxes(c, kind):
    X = make(c, kind)
    B = X.s.mbb()
    q = inside_point(c, kind, X)
    c.check("contains", B.contains(X.world(q)))
    c.eq("centre", B.center, X.t)
    h = X.size if kind == "ellipsoid" else [X.size[1], X.size[1], X.size[0] / 2 + (X.size[1] if kind == "capsule" else 0)]
    z = c.const(0)
    k = c.pos("beyond", lo=c.const(1) / 1000)
    for i in range(3):
        for g in (1, -1):
            # a point of the shape, on the face of the box
            v = c.np.array([g * h[i] if j == i else z for j in range(3)])
            c.check("touches %d%+d" % (i, g), B.contains(X.world(v)))
            c.check("tight %d%+d" % (i, g), c.lnot(B.contains(X.world(v * (1 + k)), tol=0)))
    c.eq("volume", B.volume, 8 * h[0] * h[1] * h[2])
    # aligned with the shape: the corners are the sign combinations
    for s in itertools.product((1, -1), repeat=3):
        v = c.np.array([s[i] * h[i] for i in range(3)])
        c.check("corner %s" % (s,), B.contains(X.world(v)))


@suite.inst(params=[1, 2])
def lower_dimensions(c, n):
    """the sphere about an ellipsoid in other dimensions, and an ellipsoid bounds itself"""
    a = c.np.array([c.pos("a%d" % i, lo=lo(c)) for i in range(n)])
    R, t = (c.rotn("R", 2) if n == 2 else c.np.eye(1) * c.const(1)), c.vec("t", n)
    E = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)
    q = c.vec("q", n)
    c.assume(c.le(sumsq(q), 1))
    x = R @ c.np.array([q[i] * a[i] for i in range(n)]) + t
    S = E.mbe(sphere=True)
    c.check("contains", S.contains(x))
    c.eq("centre", S.center, t)
    d, rho = c.vec("d", n), c.pos("rho")
    for i in range(n):
        for g in (1, -1):
            c.assume(c.le(sumsq([(g * a[j] if i == j else 0) - d[j] for j in range(n)]), rho * rho))
    c.check("radius", tight(c, S.half_extents[0] * S.half_extents[0], rho * rho))
    c.check("itself", E.mbe().contains(x))
    c.eq("itself", E.mbe().E, E.E)
    c.eq("its centre", E.mbe().center, t)


@suite.inst(params=["box-2", "ellipsoid-2", "ellipsoid-12"])
def flat(c, kind):
    """flat shapes: bounded and centred"""
    X = make(c, kind)
    k = kind.split("-")[0]
    q = inside_point(c, k, X)
    c.check("sphere", X.s.mbe(sphere=True).contains(X.world(q)))
    c.eq("centre", X.s.mbe(sphere=True).center, X.t)
    if k == "ellipsoid":
        c.check("box", X.s.mbb().contains(X.world(q)))
        c.eq("volume", X.s.mbb().volume, 0)
