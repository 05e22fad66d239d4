"""C15 Closed-form inscribed boxes and ellipsoids fit and are maximal."""
import itertools
from symx.run import Suite
from .common import sumsq, lo
from .c14 import make, tight, competitor

suite = Suite("C15", bounds="all sizes (half extents, radius, length >= 1e-6), centres and rotations; all points of the inscribed shape; competitors: boxes of the same "
              "orientation about any centre, ellipsoids of any shape, orientation and centre, spheres about any centre",
              assumes=["exact real arithmetic", "a competitor ellipsoid is written {L u + d, |u| <= 1} with L lower triangular (LQ decomposition)"], ms=20000)


@suite.inst(params=[("ellipsoid", "mib"), ("cylinder", "mib"), ("box", "mie"), ("box", "sphere")])
def fits(c, p):
    kind, what = p
    X = make(c, kind)
    I = X.s.mie(sphere=True) if what == "sphere" else getattr(X.s, what)()
    q = c.vec("q", 3)
    # any point of the world that the inscribed shape claims
    if what == "mib":
        vs = [X.R.T @ (v - X.t) for v in I.vertices]
        for i, v in enumerate(vs):
            c.check("corner %d inside" % i, X.s.contains(I.vertices[i]))
            c.check("corner %d inside exactly" % i, X.inside(v))
        # the inscribed box's points are the convex combinations of its corners, all in a convex set; its aligned size:
        D = X.R.T @ I.rotation
        h = [sumsq([D[i, j] * I.half_extents[j] for j in range(3)]) for i in range(3)]
        u = [c.real("w%d" % i, lo=-1, hi=1) for i in range(3)]
        x = I.rotation @ c.np.array([u[i] * I.half_extents[i] for i in range(3)]) + I.center
        c.check("inside", X.s.contains(x))
    else:
        c.assume(c.le(sumsq(q), 1))
        # (a sphere has no axes of its own: it is checked to be round below)
        Q = X.R if what == "sphere" else I.rotation
        x = Q @ c.np.array([q[i] * I.half_extents[i] for i in range(3)]) + I.center
        c.check("inside", X.s.contains(x))
        c.check("inside exactly", X.inside(X.R.T @ (x - X.t)))
    c.eq("centre", I.center, X.t)


@suite.inst(params=["ellipsoid", "cylinder"])
def touches(c, kind):
    """every corner of the inscribed box is on the boundary"""
    X = make(c, kind)
    I = X.s.mib()
    k = c.pos("beyond", lo=c.const(1) / 1000)
    for i, v in enumerate(I.vertices):
        c.check("corner %d" % i, c.lnot(X.inside((1 + k) * (X.R.T @ (v - X.t)))))
    c.check("eight corners", len(I.vertices) == 8)
    if kind == "cylinder":
        # nothing is left along the axis either
        z = X.size[0] / 2
        c.check("full length", I.contains(X.world(c.np.array([0, 0, z]))))


@suite.inst(params=[False, True])
def touches_faces(c, sphere):
    X = make(c, "box")
    I = X.s.mie(sphere=sphere)
    k = c.pos("beyond", lo=c.const(1) / 1000)
    for i in range(3):
        for g in (1, -1):
            v = c.np.array([g * X.size[i] if j == i else c.const(0) for j in range(3)])
            if not sphere:
                c.check("face %d%+d" % (i, g), I.contains(X.world(v)))
            c.check("not beyond %d%+d" % (i, g), c.lnot(I.contains(X.world(v * (1 + k)), tol=0)))


@suite.inst(ms=60000)
def largest_box_in_ellipsoid(c):
    X = make(c, "ellipsoid", R=c.np.eye(3), t=c.np.zeros(3))
    B = X.s.mib()
    y, d = [c.pos("y%d" % i) for i in range(3)], c.vec("d", 3)
    # competitor: half extents a_i y_i, centre a_i d_i
    for s in itertools.product((1, -1), repeat=3):
        c.assume(c.le(sum((s[i] * y[i] + d[i]) ** 2 for i in range(3)), 1))
    c.lemma(tight(c, y[0] * y[0] + y[1] * y[1] + y[2] * y[2], c.const(1)))
    a = X.size
    v = B.volume / (8 * a[0] * a[1] * a[2])
    c.check("volume", tight(c, (y[0] * y[1] * y[2]) ** 2, v * v))


@suite.inst(ms=60000)
def largest_box_in_cylinder(c):
    X = make(c, "cylinder", R=c.np.eye(3), t=c.np.zeros(3))
    B = X.s.mib()
    L, r = X.size
    y, d = [c.pos("y%d" % i) for i in range(3)], c.vec("d", 3)
    for s in itertools.product((1, -1), repeat=2):
        c.assume(c.le(sum((s[i] * y[i] + d[i]) ** 2 for i in range(2)), 1))
    for g in (1, -1):
        c.assume(c.land(c.le(y[2] + g * d[2], 1), c.le(-1, g * d[2] - y[2])))
    c.lemma(tight(c, y[0] * y[0] + y[1] * y[1], c.const(1)))
    c.lemma(tight(c, y[2], c.const(1)))
    c.lemma(tight(c, 2 * y[0] * y[1], c.const(1)))
    v = B.volume / (8 * r * r * L / 2)
    c.check("volume", tight(c, y[0] * y[1] * y[2], v))


def lower(c):
    M = c.np.zeros((3, 3)) * c.const(1)
    for i in range(3):
        for j in range(i + 1):
            M[i, j] = c.pos("L%d%d" % (i, j)) if i == j else c.real("L%d%d" % (i, j))
    return M


@suite.inst(ms=60000)
def largest_ellipsoid_in_box(c):
    X = make(c, "box", R=c.np.eye(3), t=c.np.zeros(3))
    E = X.s.mie()
    M, d = lower(c), c.vec("d", 3)
    h = X.size
    # competitor {diag(h)(M u + d)}: support along axis i is |row_i| + |d_i|
    for i in range(3):
        n = c.pos("n%d" % i)
        c.assume(c.same(n * n, sumsq(M[i])))
        for g in (1, -1):
            c.assume(c.le(n + g * d[i], 1))
    for i in range(3):
        c.lemma(tight(c, M[i, i], c.const(1)))
    v = E.volume / (4 * c.pi / 3) / (h[0] * h[1] * h[2])
    c.lemma(tight(c, M[0, 0] * M[1, 1], c.const(1)))
    c.check("volume", tight(c, M[0, 0] * M[1, 1] * M[2, 2], v))


@suite.inst()
def largest_sphere_in_box(c):
    X = make(c, "box", R=c.np.eye(3), t=c.np.zeros(3))
    E = X.s.mie(sphere=True)
    d, rho = c.vec("d", 3), c.pos("rho")
    for i in range(3):
        c.assume(c.land(c.le(d[i] + rho, X.size[i]), c.le(-X.size[i], d[i] - rho)))
    for i in range(3):
        c.check("radius", tight(c, rho, E.half_extents[i]))


@suite.inst(params=["ellipsoid", "cylinder", "box"])
def orientation(c, kind):
    X = make(c, kind)
    if kind == "box":
        D = X.R.T @ X.s.mie().E @ X.R
        for i in range(3):
            for j in range(i):
                c.eq("aligned", D[i, j], 0)
        S = X.s.mie(sphere=True)
        c.eq("round", S.E, S.half_extents[0] * S.half_extents[0] * c.np.eye(3))
    else:
        B = X.s.mib()
        # each axis of the box is an axis of the shape
        h = sorted
        u = [sumsq([(X.R.T @ (v - X.t))[i] for v in B.vertices]) for i in range(3)]
        for i in range(3):
            for j in range(i):
                c.eq("aligned", sum((X.R.T @ (v - X.t))[i] * (X.R.T @ (v - X.t))[j] for v in B.vertices), 0)


@suite.inst(params=["ellipsoid-2", "ellipsoid-12", "box-2"])
def flat(c, kind):
    X = make(c, kind)
    if kind.startswith("box"):
        E = X.s.mie()
        q = c.vec("q", 3)
        c.assume(c.le(sumsq(q), 1))
        x = E.rotation @ c.np.array([q[i] * E.half_extents[i] for i in range(3)]) + E.center
        c.check("inside", X.s.contains(x))
        c.eq("centre", E.center, X.t)
    else:
        B = X.s.mib()
        for i, v in enumerate(B.vertices):
            c.check("corner %d" % i, X.s.contains(v))
        c.eq("centre", B.center, X.t)
