"""C27 Random points of a shape lie in the shape."""
from symx.run import Suite
from .common import mk, sumsq, half_extents, lo, place

suite = Suite("C27", bounds="all sizes and placements (capsules: unit proportions for two samples), every draw the generator can yield; sample shapes of up to 12 points",
              assumes=["exact real arithmetic", "a vector of draws is not identically zero (probability zero)"])

SHAPES = [1, (1,), 2, (2,), (2, 2), (1, 2), (2, 1), (1, 1), 5, (2, 3), (3, 2, 2), (1, 1, 1)]


def check_shape(c, x, p, d=3):
    if p == 1:
        ok = [(d,)]
    elif p == (1,):
        ok = [(d,), (1, d)]
    else:
        ok = [((p,) if isinstance(p, int) else tuple(p)) + (d,)]
    c.check("shape %s" % (ok[0],), tuple(x.shape) in ok)


def local(y, p):
    return y.R.T @ (p - y.t)


def member(c, y, x, d=3):
    """every sample is in the shape, by definition"""
    for p in x.reshape((-1, d)):
        c.check("in the shape", y.inside(local(y, p), 0) if not c.sym else _tight(c, y, p))


def _tight(c, y, p):
    return y.inside(local(y, p), 0)


@suite.inst(params=[(k, s) for k in ("box", "simplex", "ellipsoid", "cylinder") for s in SHAPES] + [("pyramid", 1), ("pyramid", 2), ("octahedron", 3)], ms=12000)
def points(c, p):
    k, s = p
    y = mk(c, k)
    x = y.s.random_points(s, rng=c.rng("g"))
    check_shape(c, x, s)
    member(c, y, x)


@suite.inst(params=["box", "simplex", "ellipsoid", "cylinder"])
def default(c, k):
    y = mk(c, k)
    x = y.s.random_points(rng=c.rng("g"))
    c.shape("shape", x, (3,))
    member(c, y, x)
    z = y.s.random_points(shape=2, rng=c.rng("h"))
    c.shape("keyword", z, (2, 3))
    member(c, y, z)


@suite.inst(params=["0", "12", "2", "01"])
def flat(c, k):
    """flat ellipsoids"""
    y = mk(c, "ellipsoid-" + k)
    for s in (1, 2):
        x = y.s.random_points(s, rng=c.rng("g%d" % s))
        check_shape(c, x, s)
        B = c.mod("rigeo.random").random_points_in_ball(s, dim=3, rng=c.rng("g%d" % s)).reshape((-1, 3))
        for p, b in zip(x.reshape((-1, 3)), B):
            q, w = local(y, p), y.R.T @ b
            for i in range(3):
                if str(i) in k:
                    c.eq("flat", q[i], 0)
            v = sumsq([q[i] / y.size[i] for i in range(3) if str(i) not in k])
            c.check_sos("inside", 1 - v, [[(1 - sumsq(b), 1)] + [(1, w[int(i)]) for i in k]])


@suite.inst()
def planar_ellipsoid(c):
    """an ellipse in the plane"""
    a = half_extents(c, "a", n=2, lo=lo(c))
    R, t = c.rot2("R"), c.vec("t", 2)
    s = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)
    for n in (1, 2):
        x = s.random_points(n, rng=c.rng("g%d" % n))
        check_shape(c, x, n, 2)
        for p in x.reshape((-1, 2)):
            q = R.T @ (p - t)
            v = q[0] * q[0] / (a[0] * a[0]) + q[1] * q[1] / (a[1] * a[1])
            c.check("in", c.lor(c.le(v, 1), c.same(v, 1)))


@suite.inst(params=[1, 2])
def polyhedron(c, n):
    """five vertices, one of them possibly redundant: samples are convex combinations"""
    h = half_extents(c, "h")
    u = c.vec("u", 3)
    V = c.arr([[h[0], 0, 0], [-h[0], 0, 0], [0, h[1], 0], [0, -h[1], 0], [0, 0, h[2]]]) + u
    s = c.rg.ConvexPolyhedron.from_vertices(V)
    x = s.random_points(n, rng=c.rng("g"))
    check_shape(c, x, n)
    for p in x.reshape((-1, 3)):
        q = p - u
        c.check("above the base", c.lor(c.le(0, q[2]), c.same(q[2], 0)))
        for a in (1, -1):
            for b in (1, -1):
                v = a * q[0] / h[0] + b * q[1] / h[1] + q[2] / h[2]
                c.check("below a side", c.lor(c.le(v, 1), c.same(v, 1)))


@suite.inst()
def capsule_one(c):
    """the first or the second candidate is accepted"""
    R, t = place(c)
    y = mk(c, "capsule", R, t)
    box = y.s.mbb()
    g = c.rng("g")
    q1, q2 = box.random_points(1, rng=g), box.random_points(1, rng=g)
    c.assume(c.lor(y.inside(local(y, q1)), y.inside(local(y, q2))))
    x = y.s.random_points(rng=c.rng("g"))
    c.shape("shape", x, (3,))
    for p in x.reshape((-1, 3)):
        c.check("in the shape", y.inside(local(y, p), c.const(1) / 10**7))


@suite.inst(params=[2, (2,), (1, 2)], max_paths=3000)
def capsule_two(c, s):
    """both candidates of the first batch are accepted"""
    y = mk(c, "capsule", c.np.eye(3), c.vec("t", 3))
    box = y.s.mbb()
    for q in box.random_points(2, rng=c.rng("g")):
        c.assume(y.inside(local(y, q)))
    x = y.s.random_points(s, rng=c.rng("g"))
    check_shape(c, x, s)
    for p in x.reshape((-1, 3)):
        c.check("in the shape", y.inside(local(y, p), c.const(1) / 10**7))
