"""C23 A rigid body is the union of its shapes and sum of its masses."""
from symx.run import Suite
from .common import mk, axis_rot, sumsq, dot, diag, pim, tj, mass_pim, covector, unit, form, outer, extremes, params
from .c26 import bvec
from .c21 import sides_of, witness

suite = Suite(
    "C23",
    bounds="bodies of one to three shapes (sums of up to six); constraints: ellipsoids, boxes, simplices and cylinders (capsules have no constraints), relaxation degrees 2 and 3, positions of all sizes along rotations about a coordinate axis, one point mass in each shape; every eps >= 0",
    assumes=["exact real arithmetic", "cvxpy expressions denote their values; semidefinite constraints are instantiated at named directions, or shown by explicit decompositions"],
    ctol=1e-4,
    cmargin=1e-4,
)


def body_params(c, tag):
    m, com, H = params(c, tag)
    return c.rg.InertialParameters(mass=m, com=com, H=H)


def group(c, kinds):
    """shapes of the given kinds, each with its own place"""
    out = []
    for k, kind in enumerate(kinds):
        R = axis_rot(c, "R%d" % k, 2) if k == 0 else c.np.eye(3)
        out.append(mk(c, kind, R, c.vec("t%d" % k, 3), "s%d" % k))
    return out


def is_list(c, label, got, want):
    got = list(got)
    c.check(label, len(got) == len(want) and all(a is b for a, b in zip(got, want)))


# -- combination ----------------------------------------------------------------
@suite.inst(params=["box", "ellipsoid", "ellipsoid-2", "cylinder", "capsule", "simplex"])
def construct(c, kind):
    s = mk(c, kind, c.np.eye(3), c.vec("t", 3))
    p = body_params(c, "p")
    for shapes in (s.s, [s.s]):
        b = c.rg.RigidBody(shapes, p)
        is_list(c, "shapes", b.shapes, [s.s])
        c.eq("parameters", b.params.J, p.J)
        z = c.rg.RigidBody(shapes)
        is_list(c, "massless shapes", z.shapes, [s.s])
        c.eq("massless", z.params.J, c.np.zeros((4, 4)))
        c.eq("massless centre of mass", z.params.com, c.np.zeros(3))


@suite.inst(params=[(("box",), ("ellipsoid",)), (("cylinder", "box"), ("capsule",)), (("simplex",), ("box", "ellipsoid"))])
def add(c, p):
    ka, kb = p
    A = [mk(c, k, c.np.eye(3), c.vec("ta%d" % i, 3), "a%d" % i).s for i, k in enumerate(ka)]
    B = [mk(c, k, c.np.eye(3), c.vec("tb%d" % i, 3), "b%d" % i).s for i, k in enumerate(kb)]
    pa, pb = body_params(c, "p"), body_params(c, "q")
    a, b = c.rg.RigidBody(A, pa), c.rg.RigidBody(B, pb)
    s = a + b
    is_list(c, "shapes", s.shapes, A + B)
    c.eq("parameters", s.params.J, pa.J + pb.J)
    is_list(c, "first kept", a.shapes, A)
    is_list(c, "second kept", b.shapes, B)
    c.eq("first parameters kept", a.params.J, pa.J)
    t = b + a
    c.eq("commutes", t.params.J, s.params.J)
    z = c.rg.RigidBody(B)
    for x, y, shapes, J in ((a, z, A + B, pa.J), (z, a, B + A, pa.J), (z, z, B + B, 0 * pa.J)):
        s = x + y
        is_list(c, "massless shapes", s.shapes, shapes)
        c.eq("massless parameters", s.params.J, J)


@suite.inst(params=[1, 2, 3, 6])
def total(c, n):
    S = [mk(c, k, c.np.eye(3), c.vec("t%d" % i, 3), "s%d" % i).s for i, k in enumerate(("box", "cylinder", "ellipsoid", "capsule", "simplex", "box")[:n])]
    P = [body_params(c, "p%d" % i) for i in range(n)]
    bodies = [c.rg.RigidBody(x, q) for x, q in zip(S, P)]
    s = sum(bodies)
    is_list(c, "shapes", s.shapes, S)
    J = P[0].J
    for q in P[1:]:
        J = J + q.J
    c.eq("parameters", s.params.J, J)
    for b, x in zip(bodies, S):
        is_list(c, "summands kept", b.shapes, [x])
    if n == 3:
        u = (bodies[0] + bodies[1]) + bodies[2]
        v = bodies[0] + (bodies[1] + bodies[2])
        c.eq("associative", u.params.J, v.params.J)
        is_list(c, "associative", u.shapes, v.shapes)


# -- constraints ------------------------------------------------------------------
def con(b, eps=0, d=2):
    return lambda x: b.moment_sdp_constraints(x, eps=eps, d=d)


def inside_points(c, S):
    out = []
    for k, (kind, s) in enumerate(S):
        m = c.pos("m%d" % k)
        if kind in ("cylinder", "ellipsoid"):
            q = c.vec("q%d" % k, 3)
            x = s.world(q)
        elif kind.startswith("ellipsoid-"):
            z = [int(i) for i in kind.split("-")[1]]
            q = c.arr([0 if i in z else c.real("q%d%d" % (k, i)) for i in range(3)])
            x = s.world(q)
        else:
            x = c.vec("x%d" % k, 3)
            q = s.R.T @ (x - s.t)
        c.assume(s.inside(q))
        out.append((m, q, x))
    return out


def split(c, S, at, d):
    """auxiliary variables: parts, then what each shape's constraints need"""
    N = {2: 10, 3: 20}[d]
    Ws = [witness(c, s, kind, [a], d) if not kind.startswith("ellipsoid") else None for (kind, s), a in zip(S, at)]

    def hints(aux):
        Js = [mass_pim(c, [m], [x]) for m, q, x in at] if len(S) > 1 else []
        Ms = []
        for (kind, s), (m, q, x) in zip(S, at):
            if not kind.startswith("ellipsoid"):
                v = bvec(c, 3, d, q if kind == "cylinder" else x)
                Ms.append(m * outer(c, v, v))
        flat = []
        for (kind, s), (m, q, x) in zip(S, at):
            if "-" in kind:
                z = [int(i) for i in kind.split("-")[1]]
                v = [q[i] for i in range(3) if i not in z] + [1]
                flat.append(m * outer(c, v, v))
        out = []
        for a in aux:
            n = a.shape[0] if len(a.shape) == 2 else 0
            if n == N and Ms:
                out.append(Ms.pop(0))
            elif n == 4 and Js:
                out.append(Js.pop(0))
            elif n in (2, 3) and flat:
                out.append(flat.pop(0))
            else:
                out.append(None)
        return [out]

    def decs(n):
        out = []
        if n == 4:
            out.append([(m, [x[0], x[1], x[2], 1]) for m, q, x in at])
            out += [[(m, [x[0], x[1], x[2], 1])] for m, q, x in at]
        for W in Ws:
            if W:
                out += W["decs"](n)
        for (kind, s), (m, q, x) in zip(S, at):
            if "-" in kind:
                z = [int(i) for i in kind.split("-")[1]]
                v = [q[i] for i in range(3) if i not in z] + [1]
                if len(v) == n:
                    out.append([(m, v)])
        return out

    return dict(hints=hints, decs=decs)


UN = [("box",), ("ellipsoid",), ("ellipsoid", "box"), ("cylinder", "ellipsoid"), ("ellipsoid", "ellipsoid"), ("box", "simplex"),
      ("cylinder", "box"), ("box", "box", "ellipsoid"), ("cylinder", "ellipsoid", "simplex"), ("ellipsoid-2", "box")]


@suite.inst(params=[(k, 2, f) for k in UN for f in (("J", "v") if len(k) < 3 else ("J",))] + [(("ellipsoid", "cylinder"), 3, "J"), (("box",), 3, "J")])
def union_admitted(c, p):
    """one point mass in each shape"""
    kinds, d, f = p
    S = list(zip(kinds, group(c, kinds)))
    at = inside_points(c, S)
    J = mass_pim(c, [m for m, _, _ in at], [x for _, _, x in at])
    b = c.rg.RigidBody([s.s for _, s in S])
    K = c.cset(con(b, d=d), form(c, J, f))
    c.admitted("admitted", K, **split(c, S, at, d))


@suite.inst(params=[(("ellipsoid", "box"), 2), (("box",), 2), (("cylinder", "ellipsoid"), 2), (("box", "box"), 2)])
def margin_admitted(c, p):
    """the margin is demanded of the whole body, not of the parts: masses along the
    axes of two concentric shapes"""
    kinds, d = p
    S = [(k, mk(c, k, c.np.eye(3), c.np.zeros(3), "s%d" % i)) for i, k in enumerate(kinds)]
    eps = c.nonneg("eps")
    at, owner = [], []
    for i in range(3):
        k = i % len(S)
        kind, s = S[k]
        e = [s.size[1], s.size[1], s.size[0] / 2] if kind == "cylinder" else s.size
        m = c.pos("m%d" % i)
        for sg in (1, -1):
            q = c.arr([sg * e[i] if j == i else 0 for j in range(3)])
            at.append((m, q, q))
            owner.append(k)
    J = mass_pim(c, [m for m, _, _ in at], [x for _, _, x in at])
    for i in range(4):
        c.assume(c.le(eps, J[i, i]))
    b = c.rg.RigidBody([s.s for _, s in S])
    K = c.cset(con(b, eps=eps, d=d), J)
    parts = [[a for a, o in zip(at, owner) if o == k] for k in range(len(S))]

    def hints(aux):
        Js = [mass_pim(c, [m for m, _, _ in P], [x for _, _, x in P]) for P in parts] if len(S) > 1 else []
        Ms = []
        for (kind, s), P in zip(S, parts):
            if not kind.startswith("ellipsoid"):
                M = 0
                for m, q, x in P:
                    v = bvec(c, 3, d, x)
                    M = M + m * outer(c, v, v)
                Ms.append(M)
        out = []
        for a in aux:
            n = a.shape[0]
            out.append(Ms.pop(0) if n == 10 and Ms else Js.pop(0) if n == 4 and Js else None)
        return [out]

    def decs(n):
        out = []
        if n == 4:
            out.append([(J[i, i] - eps, unit(4, i)) for i in range(4)])
        for (kind, s), P in zip(S, parts):
            if n == 4:
                out.append([(m, [x[0], x[1], x[2], 1]) for m, q, x in P])
            if not kind.startswith("ellipsoid"):
                out += witness(c, s, kind, P, d)["decs"](n)
        return out

    c.admitted("admitted", K, hints=hints, decs=decs)


@suite.inst(params=[(k, f) for k in [("box",), ("ellipsoid", "box"), ("cylinder", "ellipsoid"), ("box", "simplex"), ("ellipsoid", "ellipsoid", "box")] for f in ("J", "v")])
def psd_margin(c, p):
    kinds, f = p
    S = group(c, kinds)
    b = c.rg.RigidBody([s.s for s in S])
    J = c.symmat("J", 4)
    eps = c.nonneg("eps")
    z = c.vec("z", 4)
    if not c.sym:
        return extremes(c, con(b, eps), f, S[0].R, S[0].t, lambda m, h, H, J: [("quadratic form", eps * sumsq(z) - z @ J @ z)])
    K = c.cset(con(b, eps), form(c, J, f))
    c.accepted(K, zs=lambda M: [z] if M.shape[0] == 4 else [])
    q = dot(z, J @ z) - eps * sumsq(z)
    c.check("quadratic form", c.lor(c.le(0, q), c.same(0, q)))


def reach(c, kind, s, axis):
    """extent of the shape along a coordinate axis about its centre (axis-aligned)"""
    if kind == "cylinder":
        return [s.size[1], s.size[1], s.size[0] / 2][axis]
    return s.size[axis]


@suite.inst(params=[(k, ax, f) for k in [("ellipsoid",), ("ellipsoid", "box"), ("cylinder", "ellipsoid"), ("box", "box"), ("cylinder", "box"), ("ellipsoid", "ellipsoid", "ellipsoid"), ("ellipsoid-2", "box")]
                    for ax, f in ((0, "J"), (2, "v"))])
def splits(c, p):
    """along an axis: the total is the sum of parts that fit into their shapes, so the
    centre of mass is no further than the furthest shape, nor is the second moment larger"""
    kinds, ax, f = p
    S = [(k, mk(c, k, c.np.eye(3), c.vec("t%d" % i, 3), "s%d" % i)) for i, k in enumerate(kinds)]
    b = c.rg.RigidBody([s.s for _, s in S])
    X = c.pos("X")
    for k, s in S:
        e = reach(c, k, s, ax)
        c.assume(c.le(s.t[ax] + e, X))
        c.assume(c.le(-X, s.t[ax] - e))

    def exprs(m, h, H, J):
        return [("mass", -J[3, 3]), ("centre of mass", J[ax, 3] - X * J[3, 3]), ("centre of mass", -J[ax, 3] - X * J[3, 3]),
                ("second moment", J[ax, ax] - X * X * J[3, 3])]

    if not c.sym:
        return extremes(c, con(b), f, c.np.eye(3), c.np.zeros(3), exprs)
    J = c.symmat("J", 4)
    K = c.cset(con(b), form(c, J, f))
    u = unit(4, ax)
    one = unit(4, 3)
    vs = {}

    def zs(M):
        n = M.shape[0]
        if n != 4:
            return []
        out = []
        for k, s in S:
            # in world coordinates, for matrices of second moments
            e = reach(c, k, s, ax)
            for sg in (1, -1):
                # (sg (x - t) - e)
                out.append([sg * v for v in u[:3]] + [-sg * s.t[ax] - e])
            if k.startswith("ellipsoid"):
                for i in range(3):
                    out.append(unit(3, i) + [-s.t[i]])
        # for localizing matrices: monomials 1, x, y, z
        for k, s in S:
            e = reach(c, k, s, ax)
            t = 0 if k == "cylinder" else s.t[ax]
            for sg in (1, -1):
                out.append([e - sg * t] + [sg * v for v in u[:3]])
        out += [one, unit(4, 0)]
        return out

    fs = c.accepted(K, zs=zs)
    parts = [fs(a.arr) for a in K.aux if tuple(a.shape) == (4, 4)][: len(S)] if len(S) > 1 else [J]
    for (k, s), P in zip(S, parts):
        e, t = reach(c, k, s, ax), s.t[ax]
        m, h = P[3, 3], P[ax, 3] - t * P[3, 3]
        H = P[ax, ax] - 2 * t * P[ax, 3] + t * t * P[3, 3]
        c.lemma(c.le(0, m))
        if k.startswith("ellipsoid"):
            for i in range(3):
                if str(i) not in k:
                    Hi = P[i, i] - 2 * s.t[i] * P[i, 3] + s.t[i] * s.t[i] * P[3, 3]
                    c.lemma(c.le(0, Hi / (s.size[i] * s.size[i])))
        c.lemma(c.le(H, e * e * m))
        for sg in (1, -1):
            c.lemma(c.le(sg * h, e * m))
            c.lemma(c.le(0, (X - sg * t - e) * m))
        c.lemma(c.le(t * h, c.absv(t) * e * m))
        c.lemma(c.le(0, X - c.absv(t) - e))
        c.lemma(c.le(0, (X - c.absv(t) - e) * (X + c.absv(t) + e)))
        c.lemma(c.le(0, (X - c.absv(t) - e) * (X + c.absv(t) + e) * m))
        c.lemma(c.le(P[ax, ax], X * X * m))
    for label, x in exprs(None, None, None, J):
        c.check(label, c.lor(c.le(x, 0), c.same(x, 0)))


@suite.inst()
def unsupported(c):
    """shapes without constraints are refused, not ignored"""
    a = mk(c, "capsule", c.np.eye(3), c.np.zeros(3))
    b = mk(c, "box", c.np.eye(3), c.np.zeros(3), "b")
    for S in ([a.s], [a.s, b.s], [b.s, a.s]):
        c.raises("capsule", lambda: c.rg.RigidBody(S).moment_sdp_constraints(c.cp.Variable((4, 4))), AttributeError, NotImplementedError, TypeError, ValueError)
    for S in ([b.s], [b.s, b.s]):
        c.raises("negative margin", lambda: c.rg.RigidBody(S).moment_sdp_constraints(c.cp.Variable((4, 4)), eps=-1), AssertionError, ValueError)
        c.raises("wrong size", lambda: c.rg.RigidBody(S).moment_sdp_constraints(c.cp.Variable((3, 3))), AssertionError, ValueError)


# -- bounding ellipsoids ------------------------------------------------------------
@suite.inst(params=[(k, sp) for k in ("box", "ellipsoid", "ellipsoid-2", "cylinder") for sp in (False, True)])
def mbes_cover(c, p):
    kind, sphere = p
    R = axis_rot(c, "R")
    s = mk(c, kind, R, c.vec("t", 3))
    o = mk(c, "box", c.np.eye(3), c.vec("u", 3), "o")
    pa = body_params(c, "p")
    B = c.rg.RigidBody([s.s, o.s], pa)
    E = B.mbes(sphere=sphere)
    c.check("one for each shape", len(E.shapes) == 2)
    c.check("ellipsoids", all(type(x).__name__ == "Ellipsoid" for x in E.shapes))
    c.eq("parameters", E.params.J, pa.J)
    is_list(c, "body kept", B.shapes, [s.s, o.s])
    q = c.arr([0 if kind == "ellipsoid-2" and i == 2 else c.real("q%d" % i) for i in range(3)])
    c.assume(s.inside(q))
    c.check("covered", E.shapes[0].contains(s.world(q)))
    if sphere:
        a = E.shapes[0].half_extents
        c.eq("sphere", a, c.arr([a[0]] * 3))
