"""C13 Axis-aligned bounding boxes are tight bounds.

The smallest axis-aligned box of a set has, along every coordinate axis, the
set's support values as its faces.  For a polytope these are the extreme
vertices, for a disk or ball of radius r they are centre +- r |e_i projected|.
"""
import itertools
from symx.run import Suite
from .common import mk, place, half_extents, lo, POLYHEDRA

suite = Suite("C13", bounds="all shape kinds (polyhedra: tetrahedra with any 4 affinely independent vertices), positive sizes, all rotations and centres; from_points_to_bound with up to 8 points (1100 of which three are different)",
              assumes=["exact real arithmetic", "polyhedra: exact double description (symx/cddshim)"])


def bounds_are(c, B, cands_hi, cands_lo, lab=""):
    """box B spans exactly [min cands_lo, max cands_hi] per axis and is axis aligned"""
    c.eq(lab + "axis aligned", B.rotation, c.np.eye(3))
    c.check(lab + "type", type(B).__name__ == "Box")
    for i in range(3):
        hi, lw = B.center[i] + B.half_extents[i], B.center[i] - B.half_extents[i]
        for k, v in enumerate(cands_hi[i]):
            c.check("%sbounds +%d (%d)" % (lab, i, k), c.lor(c.le(v, hi), c.same(v, hi)))
        for k, v in enumerate(cands_lo[i]):
            c.check("%sbounds -%d (%d)" % (lab, i, k), c.lor(c.le(lw, v), c.same(lw, v)))
        c.check("%stouches +%d" % (lab, i), c.lor(*[c.same(v, hi) for v in cands_hi[i]]))
        c.check("%stouches -%d" % (lab, i), c.lor(*[c.same(v, lw) for v in cands_lo[i]]))


def support(c, S, kind):
    """candidate extreme coordinates of the shape along every axis"""
    R, t = S.R, S.t
    if kind == "box":
        vs = [S.world(c.arr([s * h for s, h in zip(sg, S.size)])) for sg in itertools.product((1, -1), repeat=3)]
    elif kind == "simplex":
        e = S.size
        vs = [S.world(c.arr(v)) for v in ([0, 0, 0], [e[0], 0, 0], [0, e[1], 0], [0, 0, e[2]])]
    elif kind in POLYHEDRA:
        vs = [S.world(c.arr([a * b for a, b in zip(v, S.size)])) for v in POLYHEDRA[kind][0]]
    else:
        vs = None
    if vs is not None:
        xs = [[v[i] for v in vs] for i in range(3)]
        return xs, xs
    hi, lw = [], []
    for i in range(3):
        if kind == "ellipsoid":
            rho = c.sqrt(sum((R[i, j] * S.size[j]) * (R[i, j] * S.size[j]) for j in range(3)))
            ends = [t[i]]
        else:
            L, r = S.size
            ends = [t[i] + R[i, 2] * L / 2, t[i] - R[i, 2] * L / 2]
            rho = r if kind == "capsule" else r * c.sqrt(R[i, 0] * R[i, 0] + R[i, 1] * R[i, 1])
        hi.append([e + rho for e in ends])
        lw.append([e - rho for e in ends])
    return hi, lw


@suite.inst(params=["box", "ellipsoid", "ellipsoid-2", "ellipsoid-02", "ellipsoid-012", "cylinder", "capsule", "simplex", "pyramid", "octahedron"])
def tight(c, p):
    S = mk(c, p)
    hi, lw = support(c, S, p.split("-")[0])
    bounds_are(c, S.s.aabb(), hi, lw)


@suite.inst()
def tetrahedron(c):
    """any four points in general position"""
    V = c.mat("v", 4, 3)
    d = [[V[k, i] - V[0, i] for i in range(3)] for k in (1, 2, 3)]
    det = (d[0][0] * (d[1][1] * d[2][2] - d[1][2] * d[2][1]) - d[0][1] * (d[1][0] * d[2][2] - d[1][2] * d[2][0])
           + d[0][2] * (d[1][0] * d[2][1] - d[1][1] * d[2][0]))
    c.assume(c.lt(0, det))
    s = c.rg.ConvexPolyhedron.from_vertices(V)
    xs = [[V[k, i] for k in range(4)] for i in range(3)]
    bounds_are(c, s.aabb(), xs, xs)


@suite.inst(params=[1, 2, 3, 4, 5, 8])
def points(c, p):
    P = c.mat("p", p, 3)
    xs = [[P[k, i] for k in range(p)] for i in range(3)]
    bounds_are(c, c.rg.Box.from_points_to_bound(P), xs, xs)


@suite.inst(params=["ellipsoid", "cylinder", "box"])
def contains_points(c, p):
    """independent of the support formula, in the plane of the first two axes: points of the shape are points of its box"""
    a, t = c.rot2("a"), c.vec("t", 3)
    R = c.np.eye(3)
    R[0, 0], R[0, 2], R[2, 0], R[2, 2] = a[0, 0], a[0, 1], a[1, 0], a[1, 1]
    S = mk(c, p, R, t)
    q = c.arr([c.real("qx"), 0, c.real("qz")])
    c.assume(S.inside(q))
    B = S.s.aabb()
    x = S.world(q)
    if p == "box":
        for i in range(3):
            c.check("in the box %d" % i, c.land(c.le(x[i], B.center[i] + B.half_extents[i]), c.le(B.center[i] - B.half_extents[i], x[i])))
        return
    for i in (0, 2):
        for sg in (1, -1):
            d = sg * (x[i] - t[i])
            bound = B.half_extents[i]
            if p == "ellipsoid":
                # Lagrange: (u.v)^2 <= |u|^2 |v|^2
                u, v = [R[i, 0] * S.size[0], R[i, 2] * S.size[2]], [q[0] / S.size[0], q[2] / S.size[2]]
                c.lemma(c.le(d * d, (u[0] * u[0] + u[1] * u[1]) * 1))
            c.check("extent %d %d" % (i, sg), c.lor(c.le(d, bound), c.same(d, bound)))


@suite.inst()
def thousand(c):
    """1100 points, of which three are different"""
    P = c.mat("p", 3, 3)
    xs = [[P[k, i] for k in range(3)] for i in range(3)]
    bounds_are(c, c.rg.Box.from_points_to_bound(c.arr([P[0]] * 700 + [P[1]] * 399 + [P[2]])), xs, xs)
