"""C28 Random surface and edge points lie on the surface and edges."""
from symx.run import Suite
from .common import half_extents, lo, place, sumsq, dot

suite = Suite("C28", bounds="all sizes and placements; up to 2 samples (3 for an axis-aligned box, 12 for named numbers of samples per face or edge), and one sample for each face or edge of an axis-aligned box, every draw the generator can yield; up to 2 rounds of the ellipsoid's rejection loop",
              assumes=["exact real arithmetic", "a vector of draws is not identically zero (probability zero)", "order of more than two shuffled points is not explored"], max_paths=6000)


def check_shape(c, x, p, d=3):
    if p == 1:
        ok = [(d,)]
    elif p == (1,):
        ok = [(d,), (1, d)]
    else:
        ok = [((p,) if isinstance(p, int) else tuple(p)) + (d,)]
    c.check("shape %s" % (ok[0],), tuple(x.shape) in ok)


def box(c, aligned=False):
    h = half_extents(c, "h")
    if aligned:
        R, t = c.np.eye(3), c.vec("t", 3)
    else:
        R, t = place(c)
    return c.rg.Box(half_extents=h, rotation=R, center=t), h, R, t


def tight(c, a, b):
    return c.lor(c.le(a, b), c.same(a, b))


def on_faces(c, q, h):
    """per coordinate: on one of the two face planes"""
    return [c.lor(c.same(q[i], h[i]), c.same(q[i], -h[i])) for i in range(3)]


def in_box(c, q, h):
    return c.land(*[c.land(tight(c, q[i], h[i]), tight(c, -h[i], q[i])) for i in range(3)])


def surface(c, x, h, R, t):
    for p in x.reshape((-1, 3)):
        q = R.T @ (p - t)
        c.check("in the box", in_box(c, q, h))
        c.check("on a face", c.lor(*on_faces(c, q, h)))


def edges(c, x, h, R, t):
    for p in x.reshape((-1, 3)):
        q = R.T @ (p - t)
        c.check("in the box", in_box(c, q, h))
        f = on_faces(c, q, h)
        c.check("on an edge", c.lor(c.land(f[0], f[1]), c.land(f[0], f[2]), c.land(f[1], f[2])))


KINDS = {"surface": ("random_points_on_surface", surface), "edges": ("random_points_on_edges", edges)}
GRID = [(k, s) for k in KINDS for s in (1, (1,), 2, (1, 2), (2, 1), (1, 1))]


@suite.inst(params=GRID)
def box_samples(c, p):
    k, s = p
    b, h, R, t = box(c)
    name, spec = KINDS[k]
    x = getattr(b, name)(s, rng=c.rng("g"))
    check_shape(c, x, s)
    spec(c, x, h, R, t)


@suite.inst(params=list(KINDS))
def box_default(c, k):
    b, h, R, t = box(c)
    name, spec = KINDS[k]
    x = getattr(b, name)(rng=c.rng("g"))
    check_shape(c, x, 1)
    spec(c, x, h, R, t)
    x = getattr(b, name)(shape=1, rng=5)
    check_shape(c, x, 1)
    spec(c, x, h, R, t)


@suite.inst(params=["surface"], max_paths=4000, cost=5)
def box_three(c, k):
    b, h, R, t = box(c, True)
    name, spec = KINDS[k]
    x = getattr(b, name)(3, rng=c.rng("g"))
    check_shape(c, x, 3)
    spec(c, x, h, R, t)


@suite.inst(params=list(KINDS), max_paths=3000)
def box_on_surface(c, k):
    """the sampler and the surface test agree"""
    b, h, R, t = box(c)
    x = getattr(b, KINDS[k][0])(1, rng=c.rng("g"))
    c.check("reported on the surface", b.on_surface(x, tol=c.const(1) / 10**6))


def on_ellipsoid(c, x, a, R, t):
    d = len(a)
    for p in x.reshape((-1, d)):
        q = R.T @ (p - t)
        c.eq("on the surface", sumsq([u / v for u, v in zip(q, a)]), 1)


@suite.inst(params=[1, (1,), 2, (1, 2), (2, 1), (1, 1)], max_draws=4, cost=3)
def ellipsoid(c, s):
    a = half_extents(c, "a", lo=lo(c))
    R, t = place(c)
    e = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)
    x = e.random_points_on_surface(s, rng=c.rng("g"))
    check_shape(c, x, s)
    on_ellipsoid(c, x, a, R, t)


@suite.inst(params=[1, 2], max_draws=4)
def ellipse(c, s):
    a = half_extents(c, "a", n=2, lo=lo(c))
    R, t = c.rot2("R"), c.vec("t", 2)
    e = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)
    x = e.random_points_on_surface(s, rng=c.rng("g"))
    check_shape(c, x, s, 2)
    on_ellipsoid(c, x, a, R, t)


@suite.inst(params=["2", "01", "012"])
def flat_rejected(c, k):
    """flat ellipsoids are not supported"""
    a = half_extents(c, "a", zero=tuple(int(i) for i in k))
    R, t = place(c)
    e = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)
    c.raises("rejected", lambda: e.random_points_on_surface(1, rng=c.rng("g")), AssertionError, ValueError)


COUNTS = {"surface": [[1, 2, 0, 1, 1, 2], [0, 0, 3, 0, 2, 0], [2, 1, 1, 2, 1, 1], [5, 0, 0, 0, 0, 1]],
          "edges": [[1, 0, 2, 1, 0, 1, 1, 2, 1, 1, 0, 1], [0, 0, 0, 3, 2, 0, 0, 0, 0, 0, 0, 1], [0, 1, 0, 0, 0, 2, 0, 0, 0, 0, 4, 0], [1] * 12]}


@suite.inst(params=[(k, i, f) for k in KINDS for i in range(4) for f in (False, True)])
def box_many(c, p):
    """more samples: one distribution over the faces or edges"""
    k, i, f = p
    b, h, R, t = box(c)
    name, spec = KINDS[k]
    n = sum(COUNTS[k][i])
    s = (1, n) if f else n
    x = getattr(b, name)(s, rng=c.rng("g", COUNTS[k][i]))
    check_shape(c, x, s)
    spec(c, x, h, R, t)


@suite.inst(params=[("surface", 6), ("edges", 12)])
def every_one(c, p):
    """with one sample for each face or edge, every face or edge has one"""
    k, n = p
    b, h, R, t = box(c, True)
    g = c.rng("g", [1] * n)
    x = getattr(b, KINDS[k][0])(n, rng=g)
    if not g.used:
        return  # drawn in some other way
    check_shape(c, x, n)
    q = x - t
    if k == "surface":
        want = [((i, s),) for i in range(3) for s in (1, -1)]
    else:
        want = [((i, s), (j, u)) for i, j in ((0, 1), (0, 2), (1, 2)) for s in (1, -1) for u in (1, -1)]
    for w in want:
        c.check("a sample on %s" % (w,), c.lor(*[c.land(*[c.same(r[i], s * h[i]) for i, s in w]) for r in q]))
