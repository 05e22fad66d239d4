"""C12 Rigidly moving a shape or body moves its point set."""
from symx.run import Suite
from .common import mk, place, params, tj, half_extents, same_rows, sumsq, lo

suite = Suite("C12", bounds="all shape kinds (polyhedra: tetrahedra, pyramids, octahedra and triangles), positive sizes, all rotations, translations, points; bodies of up to 5 shapes",
              assumes=["exact real arithmetic", "polyhedra: exact double description (symx/cddshim)"])

KINDS = ["box", "ellipsoid", "ellipsoid-2", "ellipsoid-02", "ellipsoid-012", "cylinder", "capsule", "simplex"]


@suite.inst(params=KINDS + ["pyramid", "octahedron"])
def membership(c, p):
    S = mk(c, p)
    Q, u = place(c, "s")
    q = c.vec("q", 3)
    x = S.world(q)
    T = S.s.transform(rotation=Q, translation=u)
    c.iff("moved point", T.contains(Q @ x + u, tol=0), S.inside(q))
    c.check("type", type(T).__name__ == type(S.s).__name__)
    b = S.s.contains(c.arr([x, x]), tol=0)
    c.iff("original kept", b[1], S.inside(q))


def center(c, p, S, T, Q, u):
    if hasattr(S.s, "center"):
        c.eq("center", T.center, Q @ S.s.center + u)


def size(c, S, T):
    s = S.s
    for nm in ("half_extents", "length", "radius", "inner_length", "volume", "full_length", "rank", "nv", "nf", "dim", "side_lengths"):
        if hasattr(s, nm) and not (nm == "volume" and not hasattr(T, nm)):
            a = getattr(s, nm)
            c.eq(nm, getattr(T, nm), a)


@suite.inst(params=KINDS, np_pi=True)
def sizes(c, p):
    S = mk(c, p)
    Q, u = place(c, "s")
    T = S.s.transform(rotation=Q, translation=u)
    size(c, S, T)
    center(c, p, S, T, Q, u)
    if hasattr(S.s, "vertices"):
        # same vertices, moved, up to order
        vs = [Q @ v + u for v in S.s.vertices]
        c.check("as many vertices", len(T.vertices) == len(vs))
        for i, v in enumerate(vs):
            c.check("vertex %d" % i, c.lor(*[c.allsame(v, w) for w in T.vertices]))


@suite.inst(params=[k + ":" + m for k in KINDS for m in ("none", "R", "t", "identity")])
def missing(c, p):
    kind, m = p.split(":")
    S = mk(c, kind)
    Q, u = place(c, "s")
    I, z = c.np.eye(3), c.np.zeros(3)
    q = c.vec("q", 3)
    x = S.world(q)
    if m == "none":
        T, y = S.s.transform(), x
    elif m == "R":
        T, y = S.s.transform(rotation=Q), Q @ x
    elif m == "t":
        T, y = S.s.transform(translation=u), x + u
    else:
        T, y = S.s.transform(rotation=I, translation=z), x
    c.iff("membership", T.contains(y, tol=0), S.inside(q))


@suite.inst(params=KINDS)
def compose(c, p):
    S = mk(c, p)
    Q, u = place(c, "s")
    P, v = place(c, "p")
    q = c.vec("q", 3)
    T = S.s.transform(rotation=Q, translation=u).transform(rotation=P, translation=v)
    D = S.s.transform(rotation=P @ Q, translation=P @ u + v)
    if p == "simplex":
        same_rows(c, "vertices", T.vertices, D.vertices)
        return
    y = P @ (Q @ S.world(q) + u) + v
    c.iff("moved twice", T.contains(y, tol=0), S.inside(q))
    c.iff("moved once", D.contains(y, tol=0), S.inside(q))
    c.eq("center", T.center, D.center)
    c.eq("rotation", T.rotation, D.rotation)


@suite.inst(params=KINDS)
def inverse(c, p):
    S = mk(c, p)
    Q, u = place(c, "s")
    q = c.vec("q", 3)
    T = S.s.transform(rotation=Q, translation=u).transform(rotation=Q.T, translation=-Q.T @ u)
    if p == "simplex":
        same_rows(c, "vertices", T.vertices, S.s.vertices)
        return
    c.iff("back again", T.contains(S.world(q), tol=0), S.inside(q))


@suite.inst(params=["box", "ellipsoid", "ellipsoid-2", "ellipsoid-02"])
def about_center(c, p):
    S = mk(c, p)
    Q = c.rot("Q")
    q = c.vec("q", 3)
    T = S.s.rotate_about_center(Q)
    c.eq("center", T.center, S.t)
    c.eq("half extents", T.half_extents, S.size)
    c.iff("membership", T.contains(Q @ (S.R @ q) + S.t, tol=0), S.inside(q))


@suite.inst(params=[2, 4])
def ellipsoid_dim(c, p):
    n = p
    R, t = c.rotn("R", n), c.vec("t", n)
    a = half_extents(c, "a", (), n, lo=lo(c))
    s = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)
    u = c.vec("u", n)
    Q = c.rot2("Q") if n == 2 else c.np.eye(n)[[1, 2, 3, 0]] * c.arr([[1], [1], [1], [-1]])
    T = s.transform(rotation=Q, translation=u)
    q = c.vec("q", n)
    f = c.le(sumsq([x / y for x, y in zip(q, a)]), 1)
    c.iff("moved", T.contains(Q @ (R @ q + t) + u, tol=0), f)
    c.iff("translated only", s.transform(translation=u).contains(R @ q + t + u, tol=0), f)


@suite.inst(params=["", "12"])
def triangle(c, p):
    """a triangle in the plane (polyhedra of dimension other than 3)"""
    a, b = c.pos("a"), c.pos("b")
    t = c.vec("t", 2)
    s = c.rg.ConvexPolyhedron.from_vertices(c.arr([[0, 0], [a, 0], [0, b]]) + t)
    Q = c.rot2("Q") if p == "" else c.arr([[0, -1], [1, 0]])
    u = c.vec("u", 2)
    T = s.transform(rotation=Q, translation=u)
    q = c.vec("q", 2)
    c.iff("moved", T.contains(Q @ (q + t) + u, tol=0), c.land(c.le(0, q[0]), c.le(0, q[1]), c.le(q[0] / a + q[1] / b, 1)))
    V = s.transform(translation=u)
    c.iff("translated only", V.contains(q + t + u, tol=0), c.land(c.le(0, q[0]), c.le(0, q[1]), c.le(q[0] / a + q[1] / b, 1)))


@suite.inst(params=["box", "ellipsoid", "cylinder", "capsule", "simplex", "box+ellipsoid", "cylinder+capsule+simplex", "box+cylinder+ellipsoid+box+ellipsoid-2", "pyramid"])
def body(c, p):
    kinds = p.split("+")
    SS = [mk(c, k, tag="b%d" % i) for i, k in enumerate(kinds)]
    m, com, H = params(c)
    par = c.rg.InertialParameters(mass=m, com=com, H=H)
    body = c.rg.RigidBody([S.s for S in SS] if len(SS) > 1 else SS[0].s, par)
    Q, u = place(c, "s")
    T = body.transform(rotation=Q, translation=u)
    c.check("as many shapes", len(T.shapes) == len(SS))
    c.eq("params", T.params.J, tj(c, Q, u, par.J))
    for i, S in enumerate(SS):
        q = c.vec("q%d" % i, 3)
        c.iff("shape %d" % i, T.shapes[i].contains(Q @ S.world(q) + u, tol=0), S.inside(q))


@suite.inst(params=["none", "R", "t"])
def body_missing(c, p):
    S = mk(c, "box")
    m, com, H = params(c)
    body = c.rg.RigidBody([S.s], c.rg.InertialParameters(mass=m, com=com, H=H))
    Q, u = place(c, "s")
    q = c.vec("q", 3)
    x = S.world(q)
    if p == "none":
        T, A, b = body.transform(), c.np.eye(3), c.np.zeros(3)
    elif p == "R":
        T, A, b = body.transform(rotation=Q), Q, c.np.zeros(3)
    else:
        T, A, b = body.transform(translation=u), c.np.eye(3), u
    c.iff("shape", T.shapes[0].contains(A @ x + b, tol=0), S.inside(q))
    c.eq("params", T.params.J, tj(c, A, b, body.params.J))


@suite.inst()
def massless_body(c):
    S = mk(c, "ellipsoid")
    body = c.rg.RigidBody(S.s)
    Q, u = place(c, "s")
    q = c.vec("q", 3)
    T = body.transform(rotation=Q, translation=u)
    c.eq("massless", T.params.J, c.np.zeros((4, 4)))
    c.iff("shape", T.shapes[0].contains(Q @ S.world(q) + u, tol=0), S.inside(q))
