"""C20 Ellipsoid realizability never rejects real bodies nor accepts misfits."""
from symx.run import Suite
from .common import mk, place, axis_rot, sumsq, dot, diag, pim, tj, mass_pim, covector, unit, form, outer

suite = Suite(
    "C20",
    bounds="ellipsoids of rank 0 to 3 with every size and placement; systems of one or two point masses (larger ones by additivity); every symmetric matrix or ten-vector; every eps >= 0",
    assumes=["exact real arithmetic", "cvxpy expressions denote their values; semidefinite constraints are instantiated at named directions, or shown by explicit decompositions", "the eigenvalue routine returns the eigenvalues"],
    ctol=1e-5,
)

RANKS = ["ellipsoid", "ellipsoid-2", "ellipsoid-0", "ellipsoid-02", "ellipsoid-12", "ellipsoid-012"]


def zeros(kind):
    return tuple(int(x) for x in kind.split("-")[1]) if "-" in kind else ()


def masses(c, s, n):
    """point masses inside: [(mass, local point, world point)]"""
    out = []
    for k in range(n):
        q = c.vec("q%d" % k, 3)
        z = [i for i in range(3)]
        out.append((c.pos("m%d" % k), q))
    return out


def points(c, s, kind, n):
    out = []
    for k in range(n):
        q = c.arr([0 if i in zeros(kind) else c.real("q%d%d" % (k, i)) for i in range(3)])
        c.assume(s.inside(q))
        out.append((c.pos("m%d" % k), q, s.world(q)))
    return out


def jr_hints(c, kind, ps):
    """moments in the subspace of a flat ellipsoid: axes in the order of the half extents"""
    nz = [i for i in range(3) if i not in zeros(kind)]
    n = len(nz) + 1

    def hints(aux):
        M = c.np.zeros((n, n)) * c.const(1)
        for m, q, _ in ps:
            v = [q[i] for i in nz] + [1]
            M = M + m * outer(c, v, v)
        return [[M if tuple(a.shape) == (n, n) else None for a in aux]]

    def decs(k):
        out = []
        if k == 4:
            out.append([(m, [p[0], p[1], p[2], 1]) for m, q, p in ps])
        if k == n:
            out.append([(m, [q[i] for i in nz] + [1]) for m, q, p in ps])
        return out

    return dict(hints=hints, decs=decs)


@suite.inst(params=[(k, n, f) for k in RANKS for n in (1, 2) for f in ("J", "v")])
def points_admitted(c, p):
    """constraints: any point masses inside"""
    kind, n, f = p
    s = mk(c, kind)
    ps = points(c, s, kind, n)
    J = mass_pim(c, [m for m, _, _ in ps], [w for _, _, w in ps])
    K = c.cset(lambda x: s.s.moment_constraints(x), form(c, J, f))
    c.admitted("admitted", K, **jr_hints(c, kind, ps))


@suite.inst(params=[(k, n) for k in RANKS for n in (1, 2)])
def points_accepted(c, p):
    """test: any point masses inside (consistent up to the eigenvalue routine)"""
    kind, n = p
    s = mk(c, kind)
    ps = points(c, s, kind, n)
    b = c.rg.InertialParameters.from_point_masses(masses=c.arr([m for m, _, _ in ps]), points=c.arr([w for _, _, w in ps]))
    U = c.np.zeros((4, n)) * c.const(1)
    for k, (m, q, w) in enumerate(ps):
        for i in range(3):
            U[i, k] = w[i]
        U[3, k] = 1
    c.eig_factor(U, [m for m, _, _ in ps])
    if c.sym:
        c.check("accepted", s.s.can_realize(b))
    else:
        # numbers: the smallest eigenvalue is zero up to rounding
        c.check("accepted", s.s.can_realize(b, eps=-1e-6))


def local_body(c, kind="ellipsoid"):
    m, h, H = c.real("m"), c.vec("h", 3), c.symmat("H", 3)
    return m, h, H


def zs_for(c, s, dirs, extra=()):
    vs = [covector(c, s.R, s.t, d) for d in dirs] + list(extra)
    return lambda M: vs if M.shape[0] == 4 else []


@suite.inst(params=["J", "v"])
def psd_margin(c, f):
    """whatever the constraints accept is positive semidefinite with the margin"""
    s = mk(c, "ellipsoid")
    J = c.symmat("J", 4)
    eps = c.nonneg("eps")
    K = c.cset(lambda x: s.s.moment_constraints(x, eps=eps), form(c, J, f))
    z = c.vec("z", 4)
    c.accepted(K, zs=lambda M: [z] if M.shape[0] == 4 else [])
    q = dot(z, J @ z) - eps * sumsq(z)
    c.check("quadratic form", c.lor(c.le(0, q), c.same(0, q)))


@suite.inst(params=[k for k in RANKS if "-" in k])
def psd_margin_flat(c, kind):
    s = mk(c, kind, axis_rot(c, "R"), c.vec("t", 3))
    J = c.symmat("J", 4)
    eps = c.nonneg("eps")
    K = c.cset(lambda x: s.s.moment_constraints(x, eps=eps), J)
    z = c.vec("z", 4)
    c.accepted(K, zs=lambda M: [z] if M.shape[0] == 4 and M is K.psds[0] else [], ws=lambda D: [z])
    q = dot(z, J @ z) - eps * sumsq(z)
    c.check("quadratic form", c.lor(c.le(0, q), c.same(0, q)))


@suite.inst()
def asymmetric_rejected(c):
    s = mk(c, "ellipsoid", c.np.eye(3), c.vec("t", 3))
    J = c.mat("J", 4, 4)
    K = c.cset(lambda x: s.s.moment_constraints(x), J)
    c.accepted(K)
    c.check("symmetric", c.allsame(J, J.T))


def bound_check(c, s, kind, m, h, H):
    """centre of mass inside, quadratic moment bounded (in local coordinates, times mass)"""
    nz = [i for i in range(3) if i not in zeros(kind)]
    a = s.size
    tot = sum([H[i, i] / (a[i] * a[i]) for i in nz]) if nz else c.const(0)
    c.check("mass", c.lor(c.le(0, m), c.same(0, m)))
    c.check("quadratic moment", c.lor(c.le(tot, m), c.same(tot, m)))
    com = sum([h[i] * h[i] / (a[i] * a[i]) for i in nz]) if nz else c.const(0)
    c.check("centre of mass", c.lor(c.le(com, m * m), c.same(com, m * m)))


@suite.inst(params=["J", "v"])
def sound(c, f):
    """whatever the constraints accept fits: J is the local matrix seen from the world"""
    s = mk(c, "ellipsoid")
    m, h, H = c.pos("m", lo=c.const(1) / 1000), c.vec("h", 3), c.symmat("H", 3)
    J = tj(c, s.R, s.t, pim(c, m, h, H))
    K = c.cset(lambda x: s.s.moment_constraints(x), form(c, J, f))
    dirs = [[m if j == i else 0 for j in range(3)] + [-h[i]] for i in range(3)]
    c.accepted(K, zs=zs_for(c, s, dirs))
    if c.sym:
        for i in range(3):
            c.lemma(c.le(0, m * (m * H[i, i] - h[i] * h[i])))
        for i in range(3):
            c.lemma(c.le(h[i] * h[i], m * H[i, i]))
            c.lemma(c.le(h[i] * h[i] / (s.size[i] * s.size[i]), m * H[i, i] / (s.size[i] * s.size[i])))
    bound_check(c, s, "ellipsoid", m, h, H)


@suite.inst(params=["J", "v"])
def mass_sign(c, f):
    """no negative mass is accepted; without mass there is neither first nor second moment"""
    s = mk(c, "ellipsoid", axis_rot(c, "R"), c.vec("t", 3))
    m, h, H = c.real("m"), c.vec("h", 3), c.symmat("H", 3)
    c.assume(c.le(m, 0))
    J = tj(c, s.R, s.t, pim(c, m, h, H))
    K = c.cset(lambda x: s.s.moment_constraints(x), form(c, J, f))
    dirs = [unit(4, i) for i in range(4)]
    dirs += [[1 if j == i else 0 for j in range(3)] + [-(H[i, i] + 1) * h[i]] for i in range(3)]
    c.accepted(K, zs=zs_for(c, s, dirs))
    c.check("mass", c.same(m, 0))
    for i in range(3):
        c.check("second moment", c.same(H[i, i], 0))
        c.check("first moment", c.same(h[i], 0))


@suite.inst(params=[k for k in RANKS if "-" in k])
def sound_flat(c, kind):
    """flat: fits in the subspace and has no spread out of it"""
    s = mk(c, kind, axis_rot(c, "R"), c.vec("t", 3))
    m, h, H = c.pos("m", lo=c.const(1) / 1000), c.vec("h", 3), c.symmat("H", 3)
    J = tj(c, s.R, s.t, pim(c, m, h, H))
    K = c.cset(lambda x: s.s.moment_constraints(x), J)
    dirs = [unit(4, 3)] + [[m if j == i else 0 for j in range(3)] + [-h[i]] for i in range(3)]
    es = [covector(c, s.R, s.t, unit(4, i)) for i in range(4)]
    vs = [covector(c, s.R, s.t, d) for d in dirs]
    c.accepted(K, zs=lambda M: vs if M.shape[0] == 4 and M is K.psds[0] else [], ws=lambda D: es)
    z = zeros(kind)
    for k in z:
        c.eq("spread", H[k, k], 0)
        c.eq("offset", h[k], 0)
        for j in range(3):
            c.eq("product", H[k, j], 0)
    if c.sym:
        for i in range(3):
            c.lemma(c.le(0, m * (m * H[i, i] - h[i] * h[i])))
            c.lemma(c.le(h[i] * h[i], m * H[i, i]))
            if i not in z:
                c.lemma(c.le(h[i] * h[i] / (s.size[i] * s.size[i]), m * H[i, i] / (s.size[i] * s.size[i])))
    bound_check(c, s, kind, m, h, H)


# -- the test -----------------------------------------------------------------
@suite.inst()
def test_margin(c):
    """whatever the test accepts is positive semidefinite with the margin"""
    s = mk(c, "ellipsoid", axis_rot(c, "R"), c.vec("t", 3))
    m, h, H = c.pos("m", lo=c.const(1) / 1000), c.vec("h", 3), c.symmat("H", 3)
    eps = c.nonneg("eps")
    y = c.vec("y", 4)
    c.eig_direction(y)
    ok = s.s.can_realize(c.rg.InertialParameters(mass=m, h=h, H=H), eps=eps)
    q = dot(y, pim(c, m, h, H) @ y)
    c.implies("margin", ok, c.lor(c.le(eps * sumsq(y), q), c.same(eps * sumsq(y), q)))


@suite.inst()
def test_sound(c):
    """whatever the test accepts fits"""
    s = mk(c, "ellipsoid", axis_rot(c, "R"), c.vec("t", 3))
    m, com, Hc = c.pos("m", lo=c.const(1) / 1000), c.vec("c", 3), c.symmat("H", 3)
    J0 = pim(c, m, m * com, Hc + m * outer(c, com, com))
    ds = [covector(c, s.R, s.t, unit(3, i) + [-com[i]]) for i in range(3)]
    for d in ds:
        c.eig_direction(d)
    J = tj(c, s.R, s.t, J0)
    ok = s.s.can_realize(c.rg.InertialParameters(mass=m, h=J[:3, 3], H=J[:3, :3]))
    a = s.size
    tot = sum([J0[i, i] / (a[i] * a[i]) for i in range(3)])
    c.implies("quadratic moment", ok, c.lor(c.le(tot, m), c.same(tot, m)))
    if c.sym:
        for i in range(3):
            c.lemma(c.lor(c.lnot(ok), c.le(0, Hc[i, i])))
    com2 = sumsq([com[i] / a[i] for i in range(3)])
    c.implies("centre of mass", ok, c.lor(c.le(com2, 1), c.same(com2, 1)))


@suite.inst()
def test_complete(c):
    """consistent parameters whose quadratic moment is within the bound are accepted"""
    s = mk(c, "ellipsoid")
    m, com = c.pos("m", lo=c.const(1) / 1000), c.vec("c", 3)
    A = c.np.zeros((3, 3)) * c.const(1)
    for i in range(3):
        for j in range(i, 3):
            A[i, j] = c.real("A%d%d" % (i, j))
    H = A @ A.T + m * outer(c, com, com)
    a = s.size
    tot = sum([H[i, i] / (a[i] * a[i]) for i in range(3)])
    c.assume(c.lt(tot, m))
    for i in range(3):
        if not c.sym:
            c.assume(c.le(c.const(1) / 100, c.absv(A[i, i])))
    U = c.np.zeros((4, 4)) * c.const(1)
    U[:3, :3] = s.R @ A
    U[:3, 3] = s.R @ com + s.t
    U[3, 3] = 1
    c.eig_factor(U, [1, 1, 1, m])
    J = tj(c, s.R, s.t, pim(c, m, m * com, H))
    b = c.rg.InertialParameters(mass=m, h=J[:3, 3], H=J[:3, :3])
    c.check("accepted", s.s.can_realize(b))
    K = c.cset(lambda x: s.s.moment_constraints(x), J)
    cols = [(1, [U[i, k] for i in range(4)]) for k in range(3)] + [(m, [U[i, 3] for i in range(4)])]
    c.admitted("admitted", K, decs=lambda n: [cols] if n == 4 else [])


@suite.inst()
def margin_complete(c):
    """parameters with the margin whose quadratic moment is within the bound are admitted with it"""
    s = mk(c, "ellipsoid")
    eps = c.nonneg("eps")
    cols = [c.vec("u%d" % k, 4) for k in range(4)]
    J = eps * c.np.eye(4)
    for u in cols:
        J = J + outer(c, u, u)
    # local second moments
    Ti = c.np.zeros((4, 4)) * c.const(1)
    Ti[:3, :3] = s.R.T
    Ti[:3, 3] = -(s.R.T @ s.t)
    Ti[3, 3] = 1
    J0 = Ti @ J @ Ti.T
    tot = sum([J0[i, i] / (s.size[i] * s.size[i]) for i in range(3)])
    c.assume(c.le(tot, J[3, 3]))
    K = c.cset(lambda x: s.s.moment_constraints(x, eps=eps), J)
    c.admitted("admitted", K, decs=lambda n: [[(1, u) for u in cols]] if n == 4 else [])


@suite.inst(params=[k for k in RANKS if "-" in k])
def test_flat(c, kind):
    """flat: spread out of the subspace is rejected (beyond the tolerance 1e-8), as is too much in it"""
    s = mk(c, kind, axis_rot(c, "R"), c.vec("t", 3))
    m, com = c.pos("m", lo=c.const(1) / 1000), c.vec("c", 3)
    d = c.arr([c.nonneg("d%d" % i) for i in range(3)])
    H = diag(c, d) + m * outer(c, com, com)
    U = c.np.zeros((4, 4)) * c.const(1)
    U[:3, :3] = s.R
    U[:3, 3] = s.R @ com + s.t
    U[3, 3] = 1
    c.eig_factor(U, [d[0], d[1], d[2], m])
    J = tj(c, s.R, s.t, pim(c, m, m * com, H))
    b = c.rg.InertialParameters(mass=m, h=J[:3, 3], H=J[:3, :3])
    z = zeros(kind)
    nz = [i for i in range(3) if i not in z]
    ok = s.s.can_realize(b) if c.sym else s.s.can_realize(b, eps=-1e-6)
    out = sum([H[i, i] for i in z])
    tot = sum([H[i, i] / (s.size[i] * s.size[i]) for i in nz]) if nz else c.const(0)
    c.iff("accepts", ok, c.land(c.le(out, c.const(1) / 10**8), c.le(tot, m)))


@suite.inst()
def inconsistent_rejected(c):
    s = mk(c, "ellipsoid", c.np.eye(3), c.vec("t", 3))
    m, com = c.pos("m"), c.vec("c", 3)
    Hc = c.symmat("H", 3)
    n = c.vec("n", 3)
    c.assume(c.lt(dot(n, Hc @ n), 0))
    c.eig_direction([n[0], n[1], n[2], -dot(n, com)])
    b = c.rg.InertialParameters(mass=m, com=com, H=Hc + m * outer(c, com, com))
    c.check("rejected", c.lnot(s.s.can_realize(b)))


@suite.inst(params=[1, 2])
def wrong_dimension(c, n):
    e = c.rg.Ellipsoid(half_extents=c.arr([c.pos("a%d" % i, lo=c.const(1) / 100) for i in range(n)]))
    b = c.rg.InertialParameters(mass=1, com=c.np.zeros(3), H=c.np.eye(3))
    c.raises("test", lambda: e.can_realize(b), AssertionError, ValueError)
    c.raises("constraints", lambda: e.moment_constraints(c.cp.Variable((4, 4))), AssertionError, ValueError)


@suite.inst()
def negative_margin(c):
    e = mk(c, "ellipsoid", c.np.eye(3), c.vec("t", 3))
    c.raises("negative margin", lambda: e.s.moment_constraints(c.cp.Variable((4, 4)), eps=-1), AssertionError, ValueError)
