"""C18 Containment constraints accept exactly the points of the shape."""
from symx.run import Suite
from .common import mk, place, axis_rot, sumsq, dot, lo, half_extents

suite = Suite(
    "C18",
    bounds="boxes, simplices, pyramids and octahedra (faces as generated), ellipsoids of dimension 1 to 3 and rank 0 to 3, cylinders, capsules; every placement, point and scale > 0; one point and batches of two",
    assumes=["exact real arithmetic", "cvxpy expressions denote their values; a semidefinite constraint holds iff all principal minors are nonnegative", "half extents are 0 or at least 1e-6"],
)

KINDS = ["box", "box-2", "simplex", "ellipsoid", "ellipsoid-2", "ellipsoid-02", "ellipsoid-012", "cylinder"]


def spot(c, s, name="q"):
    q = c.vec(name, 3)
    return q, s.world(q)


@suite.inst(params=KINDS + ["pyramid", "octahedron"])
def point(c, kind):
    s = mk(c, kind)
    q, p = spot(c, s)
    K = c.cset(lambda x: s.s.must_contain(x), p)
    c.iff_admitted("accepts", K, s.inside(q))


@suite.inst(params=KINDS)
def scaled(c, kind):
    s = mk(c, kind)
    q, p = spot(c, s)
    k = c.pos("k")
    K = c.cset(lambda x: s.s.must_contain(x, scale=k), k * p)
    c.iff_admitted("accepts", K, s.inside(q))


@suite.inst(params=KINDS)
def scale_keyword(c, kind):
    """the scale is positional or by name"""
    s = mk(c, kind, c.np.eye(3), c.vec("t", 3))
    q, p = spot(c, s)
    K = c.cset(lambda x: s.s.must_contain(x, 2), 2 * p)
    c.iff_admitted("accepts", K, s.inside(q))


@suite.inst(params=KINDS)
def batch(c, kind):
    s = mk(c, kind, axis_rot(c, "R"), c.vec("t", 3))
    q, p = spot(c, s)
    q2, p2 = spot(c, s, "w")
    K = c.cset(lambda x: s.s.must_contain(x), c.arr([p, p2]))
    c.iff_admitted("accepts", K, c.land(s.inside(q), s.inside(q2)))


@suite.inst(params=[1, 2])
def ellipsoid_low(c, n):
    a = half_extents(c, "a", n=n, lo=lo(c))
    R = c.rotn("R", n)
    t = c.vec("t", n)
    e = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)
    q = c.vec("q", n)
    k = c.pos("k")
    K = c.cset(lambda x: e.must_contain(x, scale=k), k * (R @ q + t))
    c.iff_admitted("accepts", K, c.le(sumsq([q[i] / a[i] for i in range(n)]), 1))


@suite.inst()
def polygon(c):
    """a triangle in the plane"""
    x, y, h = c.pos("x"), c.real("y"), c.pos("h")
    t = c.vec("t", 2)
    vs = c.arr([[0, 0], [x, 0], [y, h]]) + t
    P = c.rg.ConvexPolyhedron.from_vertices(vs)
    w = c.vec("w", 2)
    p = t + w[0] * c.arr([x, 0]) + w[1] * c.arr([y, h])
    K = c.cset(lambda v: P.must_contain(v), p)
    c.iff_admitted("accepts", K, c.land(c.le(0, w[0]), c.le(0, w[1]), c.le(w[0] + w[1], 1)))


# -- capsules: two spheres joined by a convex combination ---------------------
def caps(c, scaled, R=None, t=None):
    s = mk(c, "capsule", R, t)
    k = c.pos("k") if scaled else c.const(1)
    return s, k


@suite.inst(params=[0, 1])
def capsule_admits(c, scaled):
    """every point (convex combinations of points of the two end balls)"""
    s, k = caps(c, scaled)
    L, r = s.size
    sig = c.real("sig", ">=0", hi=1)
    u = c.vec("u", 3)
    c.assume(c.le(sumsq(u), 1))
    R, t0 = s.R, s.t
    ez = R[:, 2]
    c1, c2 = t0 + L / 2 * ez, t0 - L / 2 * ez
    d = r * (R @ u)
    p = sig * c1 + (1 - sig) * c2 + d
    K = c.cset((lambda x: s.s.must_contain(x, scale=k)) if scaled else (lambda x: s.s.must_contain(x)), k * p)

    def hints(aux):
        out = []
        for a, e, f in ((sig, c1, c2), (1 - sig, c2, c1)):
            p1, p2 = k * a * (e + d), k * (1 - a) * (f + d)
            vecs = [p1, p2]
            h, j = [], 0
            for info in aux:
                if info.shape == (3,):
                    h.append(vecs[j])
                    j += 1
                else:
                    h.append(c.arr([k * a]))
            out.append(h)
        return out

    def decs(n):
        if n != 4:
            return []
        out = []
        rows = [[0, -d[2], d[1]], [d[2], 0, -d[0]], [-d[1], d[0], 0]]
        for a in (sig, 1 - sig):
            w = k * a
            o = [(w, [d[0], d[1], d[2], 1])] + [(w, row + [0]) for row in rows]
            o += [(w * (r * r - sumsq(d)), [1 if j == i else 0 for j in range(4)]) for i in range(3)]
            out.append(o)
        return out

    if c.sym:
        c.lemma(c.le(sumsq(d), r * r))
    c.admitted("accepts", K, hints=hints, decs=decs)


@suite.inst(params=[(a, b) for a in (0, 1) for b in (1, -1)])
def capsule_tips(c, p):
    """the extreme points along the axis, where the split is unique"""
    scaled, side = p
    s, k = caps(c, scaled, axis_rot(c, "R", 0), c.vec("t", 3))
    L, r = s.size
    ez = s.R[:, 2]
    e = s.t + side * L / 2 * ez
    d = side * r * ez
    K = c.cset((lambda x: s.s.must_contain(x, scale=k)) if scaled else (lambda x: s.s.must_contain(x)), k * (e + d))

    def hints(aux):
        out = []
        for v in ([k * (e + d), c.np.zeros(3)], [c.np.zeros(3), k * (e + d)]):
            for t in (k, c.const(0)):
                vs = list(v)
                out.append([vs.pop(0) if tuple(x.shape) == (3,) else c.arr([t]) for x in aux])
        return out

    c.admitted("accepts", K, hints=hints, decs=lambda n: [[(k, [d[0], d[1], d[2], 1])] + [(k, row + [0]) for row in [[0, -d[2], d[1]], [d[2], 0, -d[0]], [-d[1], d[0], 0]]]] if n == 4 else [])


@suite.inst(params=[0, 1])
def capsule_sound(c, scaled):
    """whatever is accepted lies within r of the segment between the end points

    The point is written w + (0, 0, zeta) with zeta the height of the point of
    the segment that the accepted split t refers to (no loss of generality)."""
    s, k = caps(c, scaled)
    L, r = s.size
    w, sig = c.vec("w", 3), c.real("sig")
    q = c.arr([w[0], w[1], w[2] + L / 2 * (2 * sig - 1)])
    p = s.world(q)
    K = c.cset((lambda x: s.s.must_contain(x, scale=k)) if scaled else (lambda x: s.s.must_contain(x)), k * p)
    if c.sym:
        split = [x for x in K.aux if tuple(x.shape) != (3,)][0].arr.ravel()[0]
        K.eqs.append(c.same(split, k * sig))
    e = s.R @ w
    c.accepted(K, zs=lambda M: [[e[0], e[1], e[2], -sumsq(w)]] if M.shape[0] == 4 else [])
    if c.sym:
        c.lemma(c.le(0, k * (r * r - sumsq(w)) * sumsq(w)))
        c.lemma(c.le(sumsq(w) * sumsq(w), r * r * sumsq(w)))
        c.lemma(c.le(sumsq(w), r * r))
        c.lemma(c.land(c.le(0, sig), c.le(sig, 1)))
    c.check("inside", s.inside(q))


@suite.inst(params=["box", "ellipsoid", "cylinder", "simplex"])
def many(c, kind):
    """five points: four corners of the constraint set's centre and one arbitrary point, in every position"""
    s = mk(c, kind, c.np.eye(3), c.vec("t", 3))
    q, p = spot(c, s)
    o = s.world(c.arr([x / 8 for x in s.size]) if kind != "cylinder" else c.np.zeros(3))
    for k in range(5):
        P = [o] * 5
        P[k] = p
        K = c.cset(lambda x: s.s.must_contain(x), c.arr(P))
        c.iff_admitted("accepts %d" % k, K, s.inside(q))
