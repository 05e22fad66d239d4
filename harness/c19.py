"""C19 Closest points belong to the shapes and realise the distance."""
from symx.run import Suite
from .common import POLYHEDRA, mk, axis_rot, sumsq

suite = Suite(
    "C19",
    bounds="pairs of box, simplex, pyramid, octahedron, ellipsoid (also flat), cylinder, capsule; sizes, placements and competitor pairs symbolic (one shape at a general placement, the other turned about one axis, or both)",
    assumes=["exact real arithmetic", "the solver returns a feasible answer that is no worse than any feasible point", "cvxpy expressions denote their values"],
    ctol=2e-4,
    cmargin=2e-4,
)

KINDS = ["box", "simplex", "ellipsoid", "ellipsoid-2", "cylinder", "capsule"]
PAIRS = [(a, "box") for a in KINDS] + [("box", a) for a in KINDS[1:]] + [("ellipsoid", "ellipsoid"), ("cylinder", "ellipsoid"), ("capsule", "capsule"), ("simplex", "cylinder"), ("pyramid", "box"), ("box", "octahedron")]


def local(s, p):
    return s.R.T @ (p - s.t)


def query(c, a, b):
    info = c.rg.closest_points(a, b, solver=c.solver)
    c.check("there is an answer", all(x is not None for x in (info.p1, info.p2, info.dist)))
    return info


def inner(c, s, kind, tag):
    """a point of the shape: (local coordinates, how a capsule splits it)"""
    if kind != "capsule":
        q = c.vec(tag, 3)
        c.assume(s.inside(q))
        return q, None
    L, r = s.size
    sig = c.real(tag + "s", ">=0", hi=1)
    u = c.vec(tag + "u", 3)
    c.assume(c.le(sumsq(u), 1))
    d = r * u
    return c.arr([d[0], d[1], d[2] + L / 2 * (2 * sig - 1)]), (sig, d)


def setup(c, kinds):
    a, b = kinds
    s1 = mk(c, a, axis_rot(c, "R", 0), c.vec("t", 3), "a")
    s2 = mk(c, b, axis_rot(c, "Q", 2), c.vec("w", 3), "b")
    return s1, s2


def compete(c, K, info, shapes, label):
    (s1, k1, q1, sp1), (s2, k2, q2, sp2) = shapes
    caps = [(s, sp) for s, k, q, sp in shapes if k == "capsule"]

    def hints(aux):
        mains = [id(K.info(info.p1)), id(K.info(info.p2))]
        opts = []
        for s, (sig, d) in caps:
            L, r = s.size
            e = s.R @ d
            up, dn = s.t + L / 2 * s.R[:, 2], s.t - L / 2 * s.R[:, 2]
            opts.append([sig * (up + e), (1 - sig) * (dn + e), sig])
        out = []
        for flip in (0, 1):
            vecs, nums = [], []
            for o in opts:
                v1, v2, t = o if not flip else (o[1], o[0], 1 - o[2])
                vecs += [v1, v2]
                nums.append(t)
            h = []
            for v in aux:
                if id(v) in mains:
                    h.append(None)
                elif tuple(v.shape) == (3,) and vecs:
                    h.append(vecs.pop(0))
                elif tuple(v.shape) in ((1,), ()) and nums:
                    h.append(c.arr([nums.pop(0)]) if v.shape else nums.pop(0))
                else:
                    h.append(None)
            out.append(h)
        return out

    def decs(n):
        out = []
        if n == 4:
            for s, (sig, d0) in caps:
                d = s.R @ d0
                rows = [[0, -d[2], d[1]], [d[2], 0, -d[0]], [-d[1], d[0], 0]]
                for w in (sig, 1 - sig):
                    o = [(w, [d[0], d[1], d[2], 1])] + [(w, row + [0]) for row in rows]
                    o += [(w * (s.size[1] ** 2 - sumsq(d)), [1 if j == i else 0 for j in range(4)]) for i in range(3)]
                    out.append(o)
        return out

    if c.sym:
        for s, (sig, d0) in caps:
            c.lemma(c.le(sumsq(s.R @ d0), s.size[1] ** 2))
    K.compete(label, [(info.p1, s1.world(q1)), (info.p2, s2.world(q2))], hints=hints, decs=decs)


def set_of(cp, kind, s, q):
    """the point set of a shape as constraints on local coordinates, from its definition"""
    kind, _, zero = kind.partition("-")
    a = s.size
    if kind == "box":
        return [q <= a, q >= -a]
    if kind == "simplex":
        return [q >= 0, sum(q[i] / a[i] for i in range(3)) <= 1]
    if kind in POLYHEDRA:
        return [sum(r[i] * q[i] / a[i] for i in range(3)) <= b for r, b in POLYHEDRA[kind][1]]
    if kind == "ellipsoid":
        z = [int(x) for x in zero]
        return [cp.norm(cp.hstack([q[i] / a[i] for i in range(3) if i not in z])) <= 1] + [q[i] == 0 for i in z]
    L, r = a
    if kind == "cylinder":
        return [cp.norm(q[:2]) <= r, q[2] <= L / 2, q[2] >= -L / 2]
    k = cp.Variable()
    return [cp.norm(q - cp.hstack([0, 0, k])) <= r, k <= L / 2, k >= -L / 2]


def least_distance(kinds, shapes):
    """(replay on concrete values) the distance by an independent formulation"""
    import cvxpy as cp

    pts, cons = [], []
    for k, s in zip(kinds, shapes):
        q = cp.Variable(3)
        cons += set_of(cp, k, s, q)
        pts.append(s.R @ q + s.t)
    pr = cp.Problem(cp.Minimize(cp.norm(pts[0] - pts[1])), cons)
    pr.solve(solver="CLARABEL")
    return pr.value if pr.status == "optimal" else None


@suite.inst(params=PAIRS)
def optimal(c, p):
    """no pair of points is closer"""
    s1, s2 = setup(c, p)
    q1, sp1 = inner(c, s1, p[0], "q")
    q2, sp2 = inner(c, s2, p[1], "z")
    info = query(c, s1.s, s2.s)
    K = c.solved()
    compete(c, K, info, [(s1, p[0], q1, sp1), (s2, p[1], q2, sp2)], "competitor is feasible")
    d = s1.world(q1) - s2.world(q2)
    c.check("no closer pair", c.lor(c.le(info.dist, c.sqrt(sumsq(d))), c.same(info.dist, c.sqrt(sumsq(d)))))
    if not c.sym:
        least = least_distance(p, (s1, s2))
        if least is not None:
            c.check("the least distance", c.lor(c.le(info.dist, least), c.same(info.dist, least)))


@suite.inst(params=PAIRS)
def distance(c, p):
    """the distance is that of the two points"""
    s1, s2 = setup(c, p)
    info = query(c, s1.s, s2.s)
    c.shape("p1", info.p1, (3,))
    c.shape("p2", info.p2, (3,))
    c.eq("distance", info.dist, c.sqrt(sumsq(info.p1 - info.p2)))


@suite.inst(params=[x for x in PAIRS if x[1] != "capsule"])
def intersecting(c, p):
    """shapes with a common point have distance zero and equal closest points"""
    s1 = mk(c, p[0], axis_rot(c, "R", 0), c.vec("t", 3), "a")
    q1, sp1 = inner(c, s1, p[0], "q")
    q2 = c.vec("z", 3)
    Q = axis_rot(c, "Q", 2)
    s2 = mk(c, p[1], Q, s1.world(q1) - Q @ q2, "b")
    c.assume(s2.inside(q2))
    info = query(c, s1.s, s2.s)
    K = c.solved()
    compete(c, K, info, [(s1, p[0], q1, sp1), (s2, p[1], q2, None)], "common point is feasible")
    c.eq("distance", info.dist, 0)
    c.eq("points", info.p1, info.p2)


@suite.inst(params=[(a, i) for a in KINDS + list(POLYHEDRA) for i in (0, 1)])
def member(c, p):
    """the closest points are points of their shapes"""
    kind, i = p
    if kind in ("capsule", "pyramid"):
        s = mk(c, kind, c.np.eye(3), c.np.zeros(3), "a")
    else:
        s = mk(c, kind, axis_rot(c, "R", 0), c.vec("t", 3), "a")
    o = mk(c, "box", c.np.eye(3), c.vec("w", 3), "b")
    info = query(c, *((s.s, o.s) if i == 0 else (o.s, s.s)))
    p1, p2 = (info.p1, info.p2) if i == 0 else (info.p2, info.p1)
    K = c.solved()
    if kind == "capsule":
        L, r = s.size
        if c.sym:
            tt = [x for x in K.aux if x.arr.size == 1][0].arr.ravel()[0]
            e = [p1[0], p1[1], p1[2] - L / 2 * (2 * tt - 1)]
            e2 = sumsq(e)
            K.feasible(zs=lambda M: [[e[0], e[1], e[2], -e2]] if M.shape[0] == 4 else [])
            c.lemma(c.le(e2 * e2, r * r * e2))
            c.lemma(c.le(e2, r * r))
            c.lemma(c.land(c.le(0, tt), c.le(tt, 1)))
    else:
        K.feasible()
    c.check("first", s.inside(local(s, p1)))
    c.check("other", o.inside(local(o, p2)))


@suite.inst()
def solver_is_used(c):
    """the requested solver is the one that is used"""
    s, o = mk(c, "box", c.np.eye(3), c.vec("t", 3), "a"), mk(c, "box", c.np.eye(3), c.vec("w", 3), "b")
    if c.sym:
        c.rg.closest_points(s.s, o.s, solver="XYZ")
        c.check("passed on", c.solver_used() == "XYZ")
    else:
        import cvxpy

        c.raises("unknown solver", lambda: c.rg.closest_points(s.s, o.s, solver="XYZ"), cvxpy.SolverError)


@suite.inst(params=[(a, i, side) for a in KINDS for i in (0, 1) for side in (1, -1)])
def separated(c, p):
    """a box over the topmost or under the lowest point is as far away as the gap is wide"""
    kind, i, side = p
    s = mk(c, kind, c.np.eye(3), c.vec("t", 3), "a")
    g = c.pos("g")
    b = [c.pos("b%d" % k) for k in range(3)]
    sp = None
    if kind == "capsule":
        L, r = s.size
        sp = (c.const(1) if side > 0 else c.const(0), c.arr([0, 0, side * r]))
        z = side * (L / 2 + r)
    elif kind == "cylinder":
        z = side * s.size[0] / 2
    elif kind == "simplex":
        z = s.size[2] if side > 0 else c.const(0)
    else:
        z = side * s.size[2]
    tip = c.arr([0, 0, z])
    o = c.rg.Box(half_extents=b, center=s.t + c.arr([0, 0, z + side * (g + b[2])]))
    info = query(c, *((s.s, o) if i == 0 else (o, s.s)))
    K = c.solved()
    from .common import Shp

    ob = Shp(o, c.np.eye(3), s.t + c.arr([0, 0, z + side * (g + b[2])]), None, b)
    w = c.arr([0, 0, -side * b[2]])
    ab = [(s, kind, tip, sp), (ob, "box", w, None)]
    compete(c, K, info, ab if i == 0 else ab[::-1], "nearest points are feasible")
    c.check("distance is at most the gap", c.lor(c.le(info.dist, g), c.same(info.dist, g)))


@suite.inst()
def corners(c):
    """two boxes that are nearest to each other at opposite vertices"""
    from .common import Shp

    a = c.arr([c.pos("a%d" % k) for k in range(3)])
    b = c.arr([c.pos("b%d" % k) for k in range(3)])
    g = c.arr([c.pos("g%d" % k) for k in range(3)])
    t = c.vec("t", 3)
    I = c.np.eye(3)
    s = c.rg.Box(half_extents=a, center=t)
    o = c.rg.Box(half_extents=b, center=t + a + g + b)
    info = query(c, s, o)
    K = c.solved()
    compete(c, K, info, [(Shp(s, I, t, None, a), "box", a, None), (Shp(o, I, t + a + g + b, None, b), "box", -b, None)], "vertices are feasible")
    d = c.sqrt(sumsq(g))
    c.check("distance is at most that of the vertices", c.lor(c.le(info.dist, d), c.same(info.dist, d)))
