"""C21 Moment-relaxation constraints admit every realizable body."""
from symx.run import Suite
from .common import mk, axis_rot, sumsq, dot, diag, pim, tj, mass_pim, covector, unit, form, outer, extremes
from .c26 import bvec

suite = Suite(
    "C21",
    bounds="boxes, simplices, pyramids, octahedra and cylinders of every size, rotations about a coordinate axis (and all rotations where stated), every position; point masses at every point inside (sums of them by linearity, two checked); relaxation degrees 2 and 3; every eps >= 0",
    assumes=["exact real arithmetic", "cvxpy expressions denote their values; semidefinite constraints are instantiated at named directions, or shown by explicit decompositions"],
    ctol=1e-4,
    cmargin=1e-4,
)

KINDS = ["box", "simplex", "cylinder"]


def shape(c, kind, r):
    if r == "I":
        R = c.np.eye(3)
    else:
        R = c.rot("R") if r == "full" else axis_rot(c, "R", "xyz".index(r))
    return mk(c, kind, R, c.vec("t", 3))


def sdp(s, eps=0, d=2, problem=False):
    if problem:
        return lambda x: s.s.moment_sdp_feasibility_problem(x, eps=eps, d=d).constraints
    return lambda x: s.s.moment_sdp_constraints(x, eps=eps, d=d)


def atoms(c, s, n, world_free):
    """[(mass, local, world)] of n point masses inside"""
    out = []
    for k in range(n):
        m = c.pos("m%d" % k)
        if world_free:
            p = c.vec("p%d" % k, 3)
            q = s.R.T @ (p - s.t)
        else:
            q = c.vec("q%d" % k, 3)
            p = s.world(q)
        c.assume(s.inside(q))
        out.append((m, q, p))
    return out


def witness(c, s, kind, at, d):
    """moment matrix and localizing decompositions of point masses; coordinates
    as the shape's constraints use them"""
    pts = [(m, q if kind == "cylinder" else p) for m, q, p in at]
    b = {k: [bvec(c, 3, k, x) for m, x in pts] for k in range(d + 1)}
    N = len(b[d][0])
    sides = sides_of(c, s, kind) if c.sym else []

    def hints(aux):
        M = c.np.zeros((N, N)) * c.const(1)
        for (m, x), v in zip(pts, b[d]):
            M = M + m * outer(c, v, v)
        out = [None] * len(aux)
        for i, a in enumerate(aux):
            if tuple(a.shape) == (N, N):
                out[i] = M
                break
        return [out]

    def decs(n):
        out = []
        for k in range(d + 1):
            if len(b[k][0]) == n:
                out.append([(m, v) for (m, x), v in zip(pts, b[k])])
                for g in sides:
                    out.append([(m * g(x), v) for (m, x), v in zip(pts, b[k])])
        if n == 4:
            out.append([(m, [p[0], p[1], p[2], 1]) for m, q, p in at])
        return out

    return dict(hints=hints, decs=decs)


def sides_of(c, s, kind):
    """functions that are nonnegative exactly inside"""
    if kind == "cylinder":
        L, r = s.size
        return [lambda x: L / 2 - x[2], lambda x: L / 2 + x[2], lambda x: r * r - x[0] * x[0] - x[1] * x[1]]
    return [(lambda x, a=a, b=b: b - dot(a, x)) for a, b in zip(s.s.A, s.s.b)]


PT = [dict(p=(k, "I", 2, 1, "J"), _o=dict(poly_cut=False)) for k in KINDS]
PT += [(k, r, d, n, f) for k in KINDS for r, d, n, f in (("z", 2, 1, "v"), ("x", 2, 1, "J"), ("I", 2, 2, "J"))]
PT += [dict(p=(k, "I", 3, 1, "J"), _o=dict(cost=3)) for k in KINDS]
PT += [dict(p=(k, "full", 2, 1, "J"), _o=dict(cost=3)) for k in KINDS]
PT += [("pyramid", "I", 2, 1, "J"), ("octahedron", "I", 2, 1, "v"), ("pyramid", "z", 2, 1, "J")]


@suite.inst(params=PT)
def points_admitted(c, p):
    kind, r, d, n, f = p
    s = shape(c, kind, r)
    at = atoms(c, s, n, kind != "cylinder")
    J = mass_pim(c, [m for m, _, _ in at], [w for _, _, w in at])
    K = c.cset(sdp(s, d=d), form(c, J, f))
    c.admitted("admitted", K, **witness(c, s, kind, at, d))


@suite.inst(params=KINDS)
def problem_admits(c, kind):
    """the feasibility problem is the same question"""
    s = shape(c, kind, "I")
    at = atoms(c, s, 1, kind != "cylinder")
    J = mass_pim(c, [m for m, _, _ in at], [w for _, _, w in at])
    K = c.cset(sdp(s, problem=True), J)
    c.admitted("admitted", K, **witness(c, s, kind, at, 2))


@suite.inst(params=[(k, d) for k in KINDS for d in (2, 3)])
def margin_admitted(c, p):
    """a body whose matrix has the margin is admitted with it: masses on the axes through the centre"""
    kind, d = p
    s = mk(c, kind, c.np.eye(3), c.np.zeros(3))
    e = []
    for i in range(3):
        if kind == "cylinder":
            e.append(s.size[1] if i < 2 else s.size[0] / 2)
        else:
            e.append(s.size[i])
    ms = [c.pos("m%d" % i) for i in range(3)]
    eps = c.nonneg("eps")
    at = []
    for i in range(3):
        for sg in (1, -1) if kind != "simplex" else (1, 0):
            q = c.arr([sg * e[i] if j == i else 0 for j in range(3)])
            at.append((ms[i], q, q))
    J = mass_pim(c, [m for m, _, _ in at], [w for _, _, w in at])
    # J - eps is diagonal, or an arrow
    for i in range(3):
        c.assume(c.lt(eps, J[i, i]))
    w = [J[i, i] - eps for i in range(3)]
    left = J[3, 3] - eps - sum([J[i, 3] * J[i, 3] / w[i] for i in range(3)])
    c.assume(c.le(0, left))
    K = c.cset(sdp(s, eps=eps, d=d), J)
    W = witness(c, s, kind, at, d)
    old = W["decs"]

    def decs(n):
        more = [[(w[i], [1 if j == i else (J[i, 3] / w[i] if j == 3 else 0) for j in range(4)]) for i in range(3)] + [(left, [0, 0, 0, 1])]] if n == 4 else []
        return more + old(n)

    c.admitted("admitted", K, hints=W["hints"], decs=decs)


# -- whatever is admitted ------------------------------------------------------
@suite.inst(params=[(k, f) for k in KINDS for f in ("J", "v", "problem")])
def psd_margin(c, p):
    kind, f = p
    s = shape(c, kind, "I")
    J = c.symmat("J", 4)
    eps = c.nonneg("eps")
    z = c.vec("z", 4)
    if not c.sym:
        return extremes(c, sdp(s, eps=eps, problem=f == "problem"), f, s.R, s.t, lambda m, h, H, J: [("quadratic form", eps * sumsq(z) - z @ J @ z)])
    K = c.cset(sdp(s, eps=eps, problem=f == "problem"), form(c, J, "v" if f == "v" else "J"))
    c.accepted(K, zs=lambda M: [z] if M.shape[0] == 4 and M is K.psds[0] else [])
    q = dot(z, J @ z) - eps * sumsq(z)
    c.check("quadratic form", c.lor(c.le(0, q), c.same(0, q)))


@suite.inst(params=KINDS)
def asymmetric_rejected(c, kind):
    s = mk(c, kind, c.np.eye(3), c.np.zeros(3))
    J = c.mat("J", 4, 4)
    K = c.cset(sdp(s), J)
    c.accepted(K)
    c.check("symmetric", c.allsame(J, J.T))


def world_z(c, s, kind, alpha, q):
    """coefficients of alpha + q . (local coordinates), in the monomials 1, x, y, z
    of the coordinates the shape uses"""
    if kind == "cylinder":
        return [alpha] + list(q)
    w = s.R @ c.arr(list(q))
    return [alpha - dot(s.t, w), w[0], w[1], w[2]]


SD = [dict(p=(k, "I", 2, "J"), _o=dict(poly_cut=k == "simplex")) for k in KINDS]
SD += [(k, r, d, f) for k in KINDS for r, d, f in (("z", 2, "v"), ("x", 2, "J"))]
SD += [dict(p=(k, "I", 3, "J"), _o=dict(cost=3)) for k in KINDS]
SD += [dict(p=(k, "full", 2, "J"), _o=dict(cost=3)) for k in KINDS]


@suite.inst(params=SD)
def sound(c, p):
    """centre of mass inside, second moments within the extremes along the axes"""
    kind, r, d, f = p
    s = shape(c, kind, r)
    if not c.sym:
        from .c22 import worst

        return worst(c, s, kind, sdp(s, d=d), f)
    m, h, H = c.real("m"), c.vec("h", 3), c.symmat("H", 3)
    J = tj(c, s.R, s.t, pim(c, m, h, H))
    K = c.cset(sdp(s, d=d), form(c, J, f))
    if kind == "cylinder":
        e = [s.size[1], s.size[1], s.size[0] / 2]
    else:
        e = [s.size[i] for i in range(3)]
    loc = [(1, [0, 0, 0])]
    for i in range(3):
        loc.append((0, unit(3, i)))
        loc.append((e[i], unit(3, i)))
        loc.append((e[i], unit(3, i, -1)))
        if kind == "simplex":
            loc.append((e[i], [0, 0, 0]))

    def zs(M):
        n = M.shape[0]
        if n < 4 or (n == 10 and d == 2):
            return []
        out = []
        for a, q in loc:
            z = world_z(c, s, kind, a, q)
            out.append(z + [0] * (n - 4))
        return out

    if c.sym:
        # lowest order entries only: the rest is not needed
        K.psds = [M for M in K.psds if M is not K.psds[0]]
    c.accepted(K, zs=zs)
    tight(c, "mass", 0, m)
    if kind == "box":
        for i in range(3):
            tight(c, "centre of mass", h[i], m * e[i])
            tight(c, "centre of mass", -m * e[i], h[i])
    elif kind == "simplex":
        for i in range(3):
            tight(c, "centre of mass", 0, h[i])
        tight(c, "centre of mass", h[0] / e[0] + h[1] / e[1] + h[2] / e[2], m)
    else:
        tight(c, "centre of mass", h[2], m * e[2])
        tight(c, "centre of mass", -m * e[2], h[2])
        tight(c, "second moment", H[0, 0] + H[1, 1], m * e[0] * e[0])
    if r == "full" and kind != "cylinder":
        return
    for i in range(3):
        if c.sym and kind == "simplex":
            c.lemma(c.le(0, e[0] * e[1] * e[2] * (m * e[i] * e[i] - H[i, i])))
        tight(c, "second moment", H[i, i], m * e[i] * e[i])


def tight(c, label, a, b):
    c.check(label, c.lor(c.le(a, b), c.same(a, b)))


@suite.inst()
def refused(c):
    """planar polyhedra, negative margins and malformed variables are refused"""
    P = c.rg.ConvexPolyhedron.from_vertices(c.arr([[0, 0], [c.pos("a"), 0], [0, c.pos("b")]]))
    for name in ("moment_sdp_constraints", "moment_vertex_constraints"):
        c.raises("planar", lambda: getattr(P, name)(c.cp.Variable((4, 4))), AssertionError, ValueError)
    s = mk(c, "box", c.np.eye(3), c.np.zeros(3))
    y = mk(c, "cylinder", c.np.eye(3), c.np.zeros(3), "y")
    for x in (s, y):
        for name in ("moment_sdp_constraints", "moment_custom_vertex_constraints"):
            f = getattr(x.s, name)
            c.raises("negative margin", lambda: f(c.cp.Variable((4, 4)), eps=-1), AssertionError, ValueError)
            c.raises("wrong size", lambda: f(c.cp.Variable((3, 3))), AssertionError, ValueError)
            c.raises("wrong size", lambda: f(c.cp.Variable(9)), AssertionError, ValueError)
