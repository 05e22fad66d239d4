"""Shared input constructions and specifications."""


def params(c, tag="", mass="+"):
    m = c.real(tag + "m", mass)
    com = c.vec(tag + "c", 3)
    H = c.symmat(tag + "H", 3)
    return m, com, H


def tj(c, R, t, J):
    T = c.np.zeros((4, 4))
    T[:3, :3] = R
    T[:3, 3] = t
    T[3, 3] = 1
    return T @ J @ T.T


def pim(c, m, h, H):
    J = c.np.zeros((4, 4))
    J[:3, :3] = H
    J[:3, 3] = h
    J[3, :3] = h
    J[3, 3] = m
    return J


def outer(c, a, b):
    return c.arr([[x * y for y in b] for x in a])


def mass_pim(c, ms, ps):
    """sum of m [p;1][p;1]^T"""
    J = c.np.zeros((4, 4))
    for m, p in zip(ms, ps):
        v = [p[0], p[1], p[2], 1]
        J = J + m * outer(c, v, v)
    return J


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def half_extents(c, name="a", zero=(), n=3, lo=None):
    """positive (bounded away from the 1e-8 zero mask) half extents; indices in `zero` are exactly 0."""
    return c.arr([0 if i in zero else c.pos("%s%d" % (name, i), lo=lo) for i in range(n)])


def diag(c, d):
    n = len(d)
    M = c.np.zeros((n, n))
    for i in range(n):
        M[i, i] = d[i]
    return M


def det3(M):
    return (
        M[0, 0] * (M[1, 1] * M[2, 2] - M[1, 2] * M[2, 1])
        - M[0, 1] * (M[1, 0] * M[2, 2] - M[1, 2] * M[2, 0])
        + M[0, 2] * (M[1, 0] * M[2, 1] - M[1, 1] * M[2, 0])
    )


def sumsq(xs):
    s = 0
    for x in xs:
        s = s + x * x
    return s


def dot(a, b):
    s = 0
    for x, y in zip(a, b):
        s = s + x * y
    return s


def world(c, R, t, m, Hd):
    """pseudo-inertia of a body with central second moments diag(Hd) placed at (R, t)"""
    return tj(c, R, t, pim(c, m, c.np.zeros(3), diag(c, Hd)))


def place(c, tag=""):
    return c.rot(tag + "R"), c.vec(tag + "t", 3)


def in_unit(c, q, tol=0):
    """u with |u| <= 1"""
    return c.le(sumsq(q), 1)


# -- shapes: constructors and their point sets in local coordinates ----------
LO = 1e-6  # half extents are 0 or at least this (the code's zero mask is 1e-8)


def lo(c):
    return c.const(1) / 10**6


def same_rows(c, label, A, B):
    """A and B have the same rows (B has distinct rows), in some order"""
    c.shape(label, A, (len(B), len(B[0])))
    c.check_all(label + " rows of A", [c.lor(*[c.allsame(a, b) for b in B]) for a in A])
    c.check_all(label + " rows of B", [c.lor(*[c.allsame(a, b) for a in A]) for b in B])


class Shp:
    """a shape, its frame and the definition of its point set"""

    def __init__(self, s, R, t, inside, size):
        self.s, self.R, self.t, self.inside, self.size = s, R, t, inside, size

    def world(self, q):
        return self.R @ q + self.t


def mk_box(c, R, t, tag="", zero=()):
    h = half_extents(c, tag + "a", zero)
    s = c.rg.Box(half_extents=h, rotation=R, center=t)
    return Shp(s, R, t, lambda q, tol=0: c.land(*[c.land(c.le(q[i], h[i] + tol), c.le(-h[i] - tol, q[i])) for i in range(3)]), h)


def mk_ellipsoid(c, R, t, tag="", zero=(), n=3):
    a = half_extents(c, tag + "a", zero, n, lo=lo(c))
    s = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)

    def inside(q, tol=0):
        cs = [c.le(sumsq([q[i] / a[i] for i in range(n) if i not in zero]), 1 + tol)]
        for i in zero:
            cs += [c.le(q[i], tol), c.le(-tol, q[i])]
        return c.land(*cs)

    return Shp(s, R, t, inside, a)


def mk_cylinder(c, R, t, tag=""):
    L, r = c.pos(tag + "L", lo=lo(c)), c.pos(tag + "r", lo=lo(c))
    s = c.rg.Cylinder(length=L, radius=r, rotation=R, center=t)

    def inside(q, tol=0):
        # the tolerance acts on the normalised squared distances
        return c.land(
            c.le((q[0] * q[0] + q[1] * q[1]) / (r * r), 1 + tol),
            c.le(4 * q[2] * q[2] / (L * L), 1 + tol),
        )

    return Shp(s, R, t, inside, (L, r))


def mk_capsule(c, R, t, tag=""):
    y = mk_cylinder(c, R, t, tag)
    L, r = y.size
    s = y.s.capsule()

    def inside(q, tol=0):
        rho = q[0] * q[0] + q[1] * q[1]
        return c.lor(
            y.inside(q, tol),
            c.le((rho + (q[2] - L / 2) * (q[2] - L / 2)) / (r * r), 1 + tol),
            c.le((rho + (q[2] + L / 2) * (q[2] + L / 2)) / (r * r), 1 + tol),
        )

    return Shp(s, R, t, inside, (L, r))


def mk_simplex(c, R, t, tag=""):
    """a simplex placed at (R, t)"""
    e = half_extents(c, tag + "e")
    vs = [[0, 0, 0]] + [[e[i] if j == i else 0 for j in range(3)] for i in range(3)]
    s = c.rg.ConvexPolyhedron.from_vertices(c.arr([R @ c.arr(v) + t for v in vs]))

    def inside(q, tol=0):
        return c.land(*([c.le(0, q[i]) for i in range(3)] + [c.le(q[0] / e[0] + q[1] / e[1] + q[2] / e[2], 1)]))

    return Shp(s, R, t, inside, e)


# vertices, and faces a x <= b, before stretching along the axes
POLYHEDRA = {
    "pyramid": ([[0, 0, 0], [2, 0, 0], [0, 2, 0], [2, 2, 0], [1, 1, 3]],
                [([0, 0, -1], 0), ([3, 0, 1], 6), ([-3, 0, 1], 0), ([0, 3, 1], 6), ([0, -3, 1], 0)]),
    "octahedron": ([[s if i == j else 0 for j in range(3)] for i in range(3) for s in (1, -1)],
                   [([i, j, k], 1) for i in (1, -1) for j in (1, -1) for k in (1, -1)]),
}


def mk_polyhedron(kind):
    vs, rows = POLYHEDRA[kind]

    def make(c, R, t, tag=""):
        e = half_extents(c, tag + "e")
        s = c.rg.ConvexPolyhedron.from_vertices(c.arr([R @ c.arr([e[i] * v[i] for i in range(3)]) + t for v in vs]))

        def inside(q, tol=0):
            return c.land(*[c.le(sum([a[i] * q[i] / e[i] for i in range(3) if a[i]]), b) for a, b in rows])

        return Shp(s, R, t, inside, e)

    return make


MAKERS = {"box": mk_box, "ellipsoid": mk_ellipsoid, "cylinder": mk_cylinder, "capsule": mk_capsule, "simplex": mk_simplex}
MAKERS.update({k: mk_polyhedron(k) for k in POLYHEDRA})


def mk(c, kind, R=None, t=None, tag=""):
    if "-" in kind:
        kind, z = kind.split("-")
        kw = {"zero": tuple(int(x) for x in z)}
    else:
        kw = {}
    if R is None:
        R, t = place(c, tag)
    return MAKERS[kind](c, R, t, tag, **kw)


def axis_rot(c, name, axis=2):
    """all rotations about one coordinate axis"""
    Q = c.rot2(name)
    M = c.np.eye(3) * c.const(1)
    i, j = [k for k in range(3) if k != axis]
    M[i, i], M[i, j], M[j, i], M[j, j] = Q[0, 0], Q[0, 1], Q[1, 0], Q[1, 1]
    return M


def covector(c, R, t, z):
    """y with y^T (T J T^T) y == z^T J z, where T is the motion (R, t)"""
    w = R @ c.arr(list(z[:3]))
    return [w[0], w[1], w[2], z[3] - dot(t, w)]


def unit(n, i, s=1):
    return [s if j == i else 0 for j in range(n)]


def vec10(c, J):
    """parameter vector of a pseudo-inertia matrix"""
    H = J[:3, :3]
    tr = H[0, 0] + H[1, 1] + H[2, 2]
    return c.arr([J[3, 3], J[0, 3], J[1, 3], J[2, 3], tr - H[0, 0], -H[0, 1], -H[0, 2], tr - H[1, 1], -H[1, 2], tr - H[2, 2]])


def form(c, J, f):
    return J if f == "J" else vec10(c, J)


def local_moments(c, R, t, J):
    """m, h, H in the frame (R, t) of a world matrix (numbers or cvxpy)"""
    T = c.np.eye(4)
    T[:3, :3] = R.T
    T[:3, 3] = -(R.T @ t)
    J0 = T @ J @ T.T
    return J0[3, 3], [J0[i, 3] for i in range(3)], J0[:3, :3]


def extremes(c, build, f, R, t, exprs):
    """numbers only: the greatest values of linear functions of the local moments
    (and the world matrix) over everything the real constraints admit; none may
    be positive"""
    cp, np = c.cp, c.np
    if f == "v":
        x = cp.Variable(10)
        B = []
        for k in range(10):
            e = np.zeros(10)
            e[k] = 1.0
            m, h, I = e[0], e[1:4], np.array([[e[4], e[5], e[6]], [e[5], e[7], e[8]], [e[6], e[8], e[9]]])
            J = np.zeros((4, 4))
            J[:3, :3] = 0.5 * np.trace(I) * np.eye(3) - I
            J[:3, 3] = J[3, :3] = h
            J[3, 3] = m
            B.append(J)
        J = sum(x[k] * B[k] for k in range(10))
    else:
        x = cp.Variable((4, 4))
        J = x
    cons = build(x)
    cons = list(cons) if isinstance(cons, (list, tuple)) else [cons]
    m, h, H = local_moments(c, R, t, J)
    sc = max([1.0] + [float(abs(v)) for v in t])
    for label, ex in exprs(m, h, H, J):
        pr = cp.Problem(cp.Maximize(ex), cons + [cp.abs(J) <= 10 * sc * sc])
        try:
            pr.solve(solver=cp.CLARABEL)
        except cp.SolverError:
            continue
        if pr.status in ("optimal", "optimal_inaccurate"):
            c.check(label, bool(pr.value <= 1e-3 * sc * sc))
