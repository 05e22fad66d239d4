"""C06 The physical-consistency test decides eigenvalue positivity."""
from symx.run import Suite
from .common import params, diag, dot, sumsq, outer, place, pim

suite = Suite(
    "C06",
    bounds="every symmetric pseudo-inertia matrix with positive mass (spectrum and orthogonal frame, or triangular factor), every eps; every rigid motion",
    assumes=["exact real arithmetic", "the eigenvalue routine returns the eigenvalues (by decomposition, by Rayleigh quotients of named directions, or by existence of an eigenvector)"],
)


def body(c, J):
    return c.rg.InertialParameters(mass=J[3, 3], h=J[:3, 3], H=J[:3, :3])


def spectral(c):
    """J = V diag(w) V^T with w ascending"""
    w = [c.real("w%d" % i) for i in range(4)]
    for a, b in zip(w, w[1:]):
        c.assume(c.le(a, b))
    V = c.rot4("V")
    J = V @ diag(c, w) @ V.T
    c.assume(c.lt(c.const(1) / 1000, J[3, 3]))
    return w, V, J


def told(c, J, w, V, eps):
    c.eig(J, w, V)
    if c.sym:
        c.eig(J - eps * c.np.eye(4), [x - eps for x in w], V)


@suite.inst()
def decides(c):
    w, V, J = spectral(c)
    eps = c.real("eps")
    told(c, J, w, V, eps)
    c.iff("consistent", body(c, J).consistent(eps=eps), c.le(eps, w[0]))


@suite.inst()
def decides_default(c):
    w, V, J = spectral(c)
    told(c, J, w, V, 0)
    c.iff("consistent", body(c, J).consistent(), c.le(0, w[0]))


@suite.inst()
def from_matrix(c):
    """the same for parameters made from the matrix or from the vector"""
    w, V, J = spectral(c)
    told(c, J, w, V, 0)
    c.iff("matrix", c.rg.InertialParameters.from_pim(J).consistent(), c.le(0, w[0]))
    c.iff("vector", c.rg.InertialParameters.from_vec(body(c, J).vec).consistent(), c.le(0, w[0]))


@suite.inst(params=[(0, 3), (1, 3), (0, 1)])
def decides_plane(c, p):
    """the frame is turned in one coordinate plane only"""
    w = [c.real("w%d" % i) for i in range(4)]
    Q = c.rot2("Q")
    V = c.np.eye(4) * c.const(1)
    i, j = p
    V[i, i], V[i, j], V[j, i], V[j, j] = Q[0, 0], Q[0, 1], Q[1, 0], Q[1, 1]
    J = V @ diag(c, w) @ V.T
    c.assume(c.lt(c.const(1) / 1000, J[3, 3]))
    eps = c.real("eps")
    told(c, J, w, V, eps)
    c.iff("consistent", body(c, J).consistent(eps=eps), c.land(*[c.le(eps, x) for x in w]))


def triangular(c, name):
    A = c.np.zeros((3, 3)) * c.const(1)
    for i in range(3):
        for j in range(i, 3):
            A[i, j] = c.real("%s%d%d" % (name, i, j))
    return A


def physical(c, R=None, t=None):
    """all parameters with positive mass and positive semidefinite central moments,
    and a factor of their pseudo-inertia matrix after the motion (R, t)"""
    m, com = c.pos("m", lo=c.const(1) / 1000), c.vec("c", 3)
    A = triangular(c, "A")
    for i in range(3):
        c.assume(c.le(c.const(1) / 100, A[i, i]))
    p = c.rg.InertialParameters(mass=m, com=com, H=A @ A.T + m * outer(c, com, com))
    U = c.np.zeros((4, 4)) * c.const(1)
    B, x = (A, com) if R is None else (R @ A, R @ com + t)
    U[:3, :3] = B
    U[:3, 3] = x
    U[3, 3] = 1
    c.eig_factor(U, [1, 1, 1, m])
    return p


@suite.inst()
def physical_accepted(c):
    c.check("consistent", physical(c).consistent())


@suite.inst(params=["rt", "r", "t"])
def moved_accepted(c, p):
    R, t = place(c)
    if p == "r":
        t = c.np.zeros(3)
    if p == "t":
        R = c.np.eye(3)
    b = physical(c, R, t)
    b = b.transform(rotation=R if p != "t" else None, translation=t if p != "r" else None)
    c.check("consistent", b.consistent())


@suite.inst()
def sum_accepted(c):
    """sums of physical bodies are physical"""
    m1, m2 = c.pos("m1", lo=c.const(1) / 100), c.pos("m2", lo=c.const(1) / 100)
    c1, c2 = c.vec("c1", 3), c.vec("c2", 3)
    d = [[c.pos("d%d%d" % (k, i), lo=c.const(1) / 100) for i in range(3)] for k in (1, 2)]
    bs = [c.rg.InertialParameters(mass=m, com=x, H=diag(c, h), translate_from_com=True) for m, x, h in ((m1, c1, d[0]), (m2, c2, d[1]))]
    U = c.np.zeros((4, 5)) * c.const(1)
    for i in range(3):
        U[i, i] = 1
        U[i, 3], U[i, 4] = c1[i], c2[i]
    U[3, 3] = U[3, 4] = 1
    c.eig_factor(U, [d[0][i] + d[1][i] for i in range(3)] + [m1, m2])
    c.check("consistent", (bs[0] + bs[1]).consistent())


@suite.inst(params=["axis", "any"])
def negative_rejected(c, p):
    """a negative central second moment along some direction"""
    m, com = c.pos("m"), c.vec("c", 3)
    Hc = c.symmat("H", 3)
    n = c.arr([0, 1, 0]) if p == "axis" else c.vec("n", 3)
    q = dot(n, Hc @ n)
    c.assume(c.lt(q, 0))
    c.eig_direction([n[0], n[1], n[2], -dot(n, com)])
    b = c.rg.InertialParameters(mass=m, com=com, H=Hc + m * outer(c, com, com))
    c.check("rejected", c.lnot(b.consistent()))


@suite.inst()
def triangle_rejected(c):
    """inertia matrices that break the triangle inequality"""
    m, com = c.pos("m"), c.vec("c", 3)
    x, y, z = c.pos("x"), c.pos("y"), c.pos("z")
    c.assume(c.lt(y + z, x))
    c.eig_direction([1, 0, 0, -com[0]])
    b = c.rg.InertialParameters(mass=m, com=com, I=diag(c, [x, y, z]), translate_from_com=True)
    c.check("rejected", c.lnot(b.consistent()))


@suite.inst()
def margin_monotone(c):
    """a larger margin never accepts more"""
    w, V, J = spectral(c)
    e, f = c.real("e"), c.real("f")
    c.assume(c.lt(e, f))
    told(c, J, w, V, e)
    c.eig(J - f * c.np.eye(4), [x - f for x in w], V)
    b = body(c, J)
    c.implies("monotone", b.consistent(eps=f), b.consistent(eps=e))


@suite.inst()
def mass_bounds_margin(c):
    """no body is consistent with a margin above its mass or its second moments"""
    m, com, H = params(c)
    c.eig_direction([0, 0, 0, 1])
    b = c.rg.InertialParameters(mass=m, com=com, H=H)
    eps = c.real("eps")
    ok = b.consistent(eps=eps)
    for x in (m, H[0, 0], H[1, 1], H[2, 2]):
        c.implies("bound", ok, c.lor(c.le(eps, x), c.same(eps, x)))


@suite.inst()
def massless(c):
    """a massless body is consistent without a margin and with none"""
    z = c.rg.InertialParameters.zero()
    c.check("zero", z.consistent())
    eps = c.pos("eps")
    c.check("margin", c.lnot(z.consistent(eps=eps)))
