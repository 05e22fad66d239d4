"""C22 Vertex and disk based constraints admit every realizable body."""
from symx.run import Suite
from .common import mk, axis_rot, sumsq, dot, diag, pim, tj, mass_pim, covector, unit, form, outer, extremes
from .c21 import atoms

suite = Suite(
    "C22",
    bounds="boxes, simplices, cylinders, pyramids and octahedra of every size and placement; point masses at every point inside (sums of them by linearity, two checked); every eps >= 0",
    assumes=["exact real arithmetic", "cvxpy expressions denote their values; semidefinite constraints are instantiated at named directions, or shown by explicit decompositions"],
    ctol=1e-4,
    cmargin=1e-4,
)

FORMS = [("box", "vertex"), ("box", "custom"), ("simplex", "vertex"), ("cylinder", "custom")]


def con(s, which, eps=0):
    if which == "vertex":
        return lambda x: s.s.moment_vertex_constraints(x, eps=eps)
    return lambda x: s.s.moment_custom_vertex_constraints(x, eps=eps)


def extents(s, kind):
    if kind == "cylinder":
        return [s.size[1], s.size[1], s.size[0] / 2]
    return [s.size[i] for i in range(3)]


def weights(c, s, kind, q, v):
    """weight of the corner v (local) in the point q"""
    e = extents(s, kind)
    if kind == "box":
        w = c.const(1)
        for i in range(3):
            w = w * (1 + q[i] * v[i] / (e[i] * e[i])) / 2
        return w
    l = [q[i] / e[i] for i in range(3)]
    for i in range(3):
        if c.same(v[i], e[i]) is True or same(v[i], e[i]):
            return l[i]
    return 1 - l[0] - l[1] - l[2]


def same(a, b):
    from symx.cset import iszero

    return iszero(a - b)


def corners(c, s, kind, world):
    """corners in the order of the shape's vertices"""
    out = []
    for v in s.s.vertices:
        out.append(s.R.T @ (v - s.t))
    return out


def masses_hint(c, s, kind, at, which):
    """auxiliary variables: corner masses, or matrices of the two end disks"""
    e = extents(s, kind)

    def hints(aux):
        if kind == "cylinder":
            out = []
            for order in ((1, -1), (-1, 1)):
                Js, Ks = [], []
                for sg in order:
                    J = c.np.zeros((4, 4)) * c.const(1)
                    K = c.np.zeros((3, 3)) * c.const(1)
                    for m, q, p in at:
                        w = m * (1 + sg * q[2] / e[2]) / 2
                        J = J + w * outer(c, [q[0], q[1], sg * e[2], 1], [q[0], q[1], sg * e[2], 1])
                        K = K + w * outer(c, [q[0], q[1], 1], [q[0], q[1], 1])
                    Js.append(J)
                    Ks.append(K)
                h, j, k = [], list(Js), list(Ks)
                for a in aux:
                    n = a.shape[0]
                    h.append(j.pop(0) if n == 4 and j else k.pop(0) if n == 3 and k else None)
                out.append(h)
            return out
        V = corners(c, s, kind, which == "vertex")
        ms = c.arr([sum([m * weights(c, s, kind, q, v) for m, q, p in at]) for v in V])
        out = [[ms if tuple(a.shape) == (len(V),) else None for a in aux]]
        if kind == "box":
            import itertools

            for signs in (itertools.product((1, -1), repeat=3), itertools.product((-1, 1), repeat=3)):
                W = [[sg[i] * e[i] for i in range(3)] for sg in signs]
                ws = c.arr([sum([m * weights(c, s, kind, q, v) for m, q, p in at]) for v in W])
                out.append([ws if tuple(a.shape) == (8,) else None for a in aux])
        return out

    def decs(n):
        out = [[(m, [p[0], p[1], p[2], 1]) for m, q, p in at]] if n == 4 else []
        if kind == "cylinder":
            for sg in (1, -1):
                D = [(m * (1 + sg * q[2] / e[2]) / 2, q) for m, q, p in at]
                if n == 4:
                    out.append([(w, [q[0], q[1], sg * e[2], 1]) for w, q in D])
                if n == 3:
                    out.append([(w, [q[0], q[1], 1]) for w, q in D])
        elif n == 3:
            D = []
            for m, q, p in at:
                for v in corners(c, s, kind, True):
                    D.append((m * weights(c, s, kind, q, v), list(s.R @ c.arr([v[i] - q[i] for i in range(3)]))))
            out.append(D)
        return out

    return dict(hints=hints, decs=decs)


PT = [(k, w, r, n, f) for k, w in FORMS for r, n, f in (("full", 1, "J"), ("z", 1, "v"), ("x", 1, "v"), ("I", 2, "J"))]


def shape(c, kind, r):
    if r == "full":
        return mk(c, kind)
    R = c.np.eye(3) if r == "I" else axis_rot(c, "R", "xyz".index(r))
    return mk(c, kind, R, c.vec("t", 3))


@suite.inst(params=PT)
def points_admitted(c, p):
    kind, which, r, n, f = p
    s = shape(c, kind, r)
    at = atoms(c, s, n, False)
    J = mass_pim(c, [m for m, _, _ in at], [w for _, _, w in at])
    K = c.cset(con(s, which), form(c, J, f))
    c.admitted("admitted", K, **masses_hint(c, s, kind, at, which))


@suite.inst(params=[(k, w, r) for k, w in FORMS for r in ("I", "z")])
def margin_admitted(c, p):
    """a body whose matrix has the margin is admitted with it: masses on the axes through the centre"""
    kind, which, r = p
    R = c.np.eye(3) if r == "I" else axis_rot(c, "R", 2)
    s = mk(c, kind, R, c.np.zeros(3))
    e = extents(s, kind)
    ms = [c.pos("m%d" % i) for i in range(3)]
    eps = c.nonneg("eps")
    at = []
    for i in range(3):
        for sg in (1, -1) if kind != "simplex" else (1, 0):
            q = c.arr([sg * e[i] if j == i else 0 for j in range(3)])
            at.append((ms[i], q, s.world(q)))
    J0 = mass_pim(c, [m for m, _, _ in at], [q for _, q, _ in at])
    J = mass_pim(c, [m for m, _, _ in at], [w for _, _, w in at])
    for i in range(3):
        c.assume(c.lt(eps, J0[i, i]))
    w = [J0[i, i] - eps for i in range(3)]
    left = J0[3, 3] - eps - sum([J0[i, 3] * J0[i, 3] / w[i] for i in range(3)])
    c.assume(c.le(0, left))
    K = c.cset(con(s, which, eps), J)
    W = masses_hint(c, s, kind, at, which)
    old = W["decs"]

    def decs(n):
        more = []
        if n == 4:
            D = []
            for i in range(3):
                u = s.R @ c.arr(unit(3, i))
                D.append((w[i], [u[0], u[1], u[2], J0[i, 3] / w[i]]))
            more.append(D + [(left, [0, 0, 0, 1])])
        return more + old(n)

    c.admitted("admitted", K, hints=W["hints"], decs=decs)


# -- whatever is admitted ------------------------------------------------------
@suite.inst(params=[(k, w, f) for k, w in FORMS for f in ("J", "v")])
def psd_margin(c, p):
    kind, which, f = p
    s = shape(c, kind, "z")
    J = c.symmat("J", 4)
    eps = c.nonneg("eps")
    z = c.vec("z", 4)
    if not c.sym:
        return extremes(c, con(s, which, eps), f, s.R, s.t, lambda m, h, H, J: [("quadratic form", eps * sumsq(z) - z @ J @ z)])
    K = c.cset(con(s, which, eps), form(c, J, f))
    c.accepted(K, zs=lambda M: [z] if M.shape[0] == 4 and M is K.psds[0] else [])
    q = dot(z, J @ z) - eps * sumsq(z)
    c.check("quadratic form", c.lor(c.le(0, q), c.same(0, q)))


@suite.inst(params=FORMS)
def asymmetric_rejected(c, p):
    s = mk(c, p[0], c.np.eye(3), c.np.zeros(3))
    J = c.mat("J", 4, 4)
    K = c.cset(con(s, p[1]), J)
    c.accepted(K)
    c.check("symmetric", c.allsame(J, J.T))


def tight(c, label, a, b):
    c.check(label, c.lor(c.le(a, b), c.same(a, b)))


def bounds(kind, e, m, h, H):
    """[(label, expression that must not be positive)], in the shape's frame"""
    out = [("mass", -m)]
    if kind == "box":
        for i in range(3):
            out += [("centre of mass", h[i] - m * e[i]), ("centre of mass", -h[i] - m * e[i])]
    elif kind == "simplex":
        out += [("centre of mass", -h[i]) for i in range(3)]
        out.append(("centre of mass", h[0] * (e[1] * e[2]) + h[1] * (e[0] * e[2]) + h[2] * (e[0] * e[1]) - m * (e[0] * e[1] * e[2])))
    else:
        out += [("centre of mass", h[2] - m * e[2]), ("centre of mass", -h[2] - m * e[2])]
        out.append(("second moment", H[0, 0] + H[1, 1] - m * (e[0] * e[0])))
    out += [("second moment", H[i, i] - m * (e[i] * e[i])) for i in range(3)]
    return out


def round_bounds(e, m, h):
    """the centre of mass is within the circle: tangents"""
    import math

    n = 16
    return [("centre of mass", math.cos(2 * math.pi * k / n) * h[0] + math.sin(2 * math.pi * k / n) * h[1] - m * e[0]) for k in range(n)]


def worst(c, s, kind, build, f):
    e = extents(s, kind)

    def exprs(m, h, H, J):
        return bounds(kind, e, m, h, H) + (round_bounds(e, m, h) if kind == "cylinder" else [])

    extremes(c, build, f, s.R, s.t, exprs)


def fits(c, s, kind, m, h, H):
    """centre of mass and second moments of local m, h, H"""
    for label, x in bounds(kind, extents(s, kind), m, h, H):
        tight(c, label, x, 0)


@suite.inst(params=[(k, r, f) for k in ("box", "simplex") for r, f in (("full", "J"), ("z", "v"), ("I", "J"))])
def vertex_sound(c, p):
    kind, r, f = p
    s = shape(c, kind, r)
    if not c.sym:
        return worst(c, s, kind, con(s, "vertex"), f)
    m, h, H = c.real("m"), c.vec("h", 3), c.symmat("H", 3)
    K = c.cset(con(s, "vertex"), form(c, pim(c, m, h, H), f))
    axes = [[s.R[j, i] for j in range(3)] for i in range(3)]
    fs = c.accepted(K, zs=lambda M: axes if M.shape[0] == 3 else [], solve_for=[m] + list(h))
    m, h = fs(m), fs(h)
    # in the shape's frame
    h0 = s.R.T @ (h - m * s.t)
    H0 = s.R.T @ (H - outer(c, h, s.t) - outer(c, s.t, h) + m * outer(c, s.t, s.t)) @ s.R
    scaled(c, K, s, kind)
    fits(c, s, kind, m, h0, H0)


def scaled(c, K, s, kind):
    """corner masses times sizes are not negative"""
    if not c.sym:
        return
    e = extents(s, kind)
    for v in K.aux:
        if len(v.shape) == 1:
            for x in v.arr.ravel():
                for i in range(3):
                    c.lemma(c.le(0, x * e[i]))
                    c.lemma(c.le(0, x * e[i] * e[i]))
                if kind == "simplex":
                    c.lemma(c.le(0, x * e[0] * e[1] * e[2]))


@suite.inst(params=[("full", "J"), ("z", "v"), ("I", "J")])
def box_sound(c, p):
    r, f = p
    s = shape(c, "box", r)
    if not c.sym:
        return worst(c, s, "box", con(s, "custom"), f)
    m, h, H = c.real("m"), c.vec("h", 3), c.symmat("H", 3)
    J = tj(c, s.R, s.t, pim(c, m, h, H))
    K = c.cset(con(s, "custom"), form(c, J, f))
    fs = c.accepted(K, zs=lambda M: [], solve_for=[m] + list(h))
    m, h = fs(m), fs(h)
    scaled(c, K, s, "box")
    fits(c, s, "box", m, h, H)


@suite.inst(params=[("full", "J"), ("z", "v"), ("I", "J")])
def cylinder_sound(c, p):
    r, f = p
    s = shape(c, "cylinder", r)
    if not c.sym:
        return worst(c, s, "cylinder", con(s, "custom"), f)
    m, h, H = c.real("m"), c.vec("h", 3), c.symmat("H", 3)
    J = tj(c, s.R, s.t, pim(c, m, h, H))
    K = c.cset(con(s, "custom"), form(c, J, f))
    zs = [[m if j == i else 0 for j in range(3)] + [-h[i]] for i in range(2)]
    zs = [covector(c, s.R, s.t, z) for z in zs]
    c.accepted(K, zs=lambda M: zs if M is K.psds[0] else [unit(M.shape[0], i) for i in range(M.shape[0])])
    fits(c, s, "cylinder", m, h, H)
    e = s.size[1]
    if c.sym:
        for i in range(2):
            c.lemma(c.le(0, m * (m * H[i, i] - h[i] * h[i])))
    c.assume(c.lt(0, m))
    if c.sym:
        for i in range(2):
            c.lemma(c.le(h[i] * h[i], m * H[i, i]))
    tight(c, "centre of mass", h[0] * h[0] + h[1] * h[1], m * m * e * e)


@suite.inst(params=[("pyramid", "I", 1, "J"), ("pyramid", "z", 1, "v"), ("octahedron", "I", 1, "J"), ("octahedron", "I", 1, "v"), ("pyramid", "I", 2, "J"), ("octahedron", "x", 1, "J")])
def polyhedra(c, p):
    """point masses at convex combinations of more than four vertices"""
    kind, r, n, f = p
    s = shape(c, kind, r)
    V = [v for v in s.s.vertices]
    at = []
    for k in range(n):
        m = c.pos("m%d" % k)
        w = [c.nonneg("w%d_%d" % (k, i)) for i in range(len(V) - 1)]
        w.append(1 - sum(w))
        c.assume(c.le(0, w[-1]))
        at.append((m, w, sum(a * v for a, v in zip(w, V))))
    J = mass_pim(c, [m for m, _, _ in at], [x for _, _, x in at])
    K = c.cset(con(s, "vertex"), form(c, J, f))
    ms = c.arr([sum([m * w[i] for m, w, _ in at]) for i in range(len(V))])

    def decs(d):
        if d == 4:
            return [[(m, [x[0], x[1], x[2], 1]) for m, w, x in at]]
        return [[(m * a, list(v - x)) for m, w, x in at for a, v in zip(w, V)]] if d == 3 else []

    c.admitted("admitted", K, hints=lambda aux: [[ms if tuple(a.shape) == (len(V),) else None for a in aux]], decs=decs)
