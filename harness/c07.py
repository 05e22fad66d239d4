"""C07 Uniform-density parameters equal the solid's volume integrals."""
from symx.run import Suite
from .common import world, tj, place, half_extents

suite = Suite("C07", bounds="all sizes > 0 (0 allowed where stated), all rotations, centres, masses >= 0; box, ellipsoid, cylinder",
              assumes=["exact real arithmetic", "integrals of monomials over an interval and over the unit ball (closed form)"])


def i2(h):
    """int_{-h}^{h} x^2 dx, int_{-h}^{h} dx"""
    return 2 * h * h * h / 3, 2 * h


def box_moments(h):
    V = 1
    for x in h:
        V = V * i2(x)[1]
    out = []
    for k in range(3):
        s = 1
        for j in range(3):
            s = s * i2(h[j])[0 if j == k else 1]
        out.append(s / V)
    return V, out


def make(c, kind, R, t):
    rg = c.rg
    if kind == "box":
        h = half_extents(c)
        V, mom = box_moments(h)
        return rg.Box(half_extents=h, rotation=R, center=t), V, mom
    if kind == "ellipsoid":
        h = half_extents(c, lo=c.const(1) / 10**6)
        # x = a u, |u|<=1: int u_k^2 = (4 pi/3) int_0^1 r^4 dr
        return rg.Ellipsoid(half_extents=h, rotation=R, center=t), c.pi * 4 * h[0] * h[1] * h[2] / 3, [x * x / 5 for x in h]
    L, r = c.pos("L"), c.pos("r")
    # disk: int r^2 cos^2 = pi/4 r^4 ; axis: L^3/12
    V = c.pi * r * r * L
    Hxy = (c.pi * r * r * r * r / 4) * L / V
    Hz = (c.pi * r * r) * (L * L * L / 12) / V
    return rg.Cylinder(length=L, radius=r, rotation=R, center=t), V, [Hxy, Hxy, Hz]


KINDS = ["box", "ellipsoid", "cylinder"]


@suite.inst(params=KINDS, np_pi=True)
def integrals(c, p):
    R, t = place(c)
    s, V, mom = make(c, p, R, t)
    m = c.nonneg("m")
    c.eq("J", s.uniform_density_params(m).J, world(c, R, t, m, [m * x for x in mom]))
    c.eq("volume", s.volume, V)


@suite.inst(params=KINDS, np_pi=True)
def linear_in_mass(c, p):
    R, t = place(c)
    s, V, mom = make(c, p, R, t)
    m, k = c.pos("m"), c.pos("k")
    J1 = s.uniform_density_params(m).J
    c.eq("k m", s.uniform_density_params(k * m).J, k * J1)
    c.eq("sum", (s.uniform_density_params(m) + s.uniform_density_params(k)).J, s.uniform_density_params(m + k).J)
    c.eq("zero mass", s.uniform_density_params(0).J, c.np.zeros((4, 4)))
    c.raises("negative mass", lambda: s.uniform_density_params(-m), AssertionError, ValueError)


@suite.inst(params=KINDS, np_pi=True)
def moves(c, p):
    R, t = place(c)
    S, u = place(c, "s")
    s, V, mom = make(c, p, R, t)
    m = c.pos("m")
    q = s.transform(rotation=S, translation=u)
    c.eq("J", q.uniform_density_params(m).J, tj(c, S, u, s.uniform_density_params(m).J))
    c.eq("volume", q.volume, V)


@suite.inst(params=[0, 1, 2])
def partition(c, p):
    """a box cut in two along axis p"""
    h = half_extents(c)
    R, t = place(c)
    lam = c.real("lam", lo=c.const(1) / 100, hi=c.const(99) / 100)
    m = c.pos("m")
    w = c.rg.Box(half_extents=h, rotation=R, center=t).uniform_density_params(m)
    h1, h2 = [x for x in h], [x for x in h]
    h1[p], h2[p] = lam * h[p], (1 - lam) * h[p]
    d1, d2 = [0, 0, 0], [0, 0, 0]
    d1[p], d2[p] = -(1 - lam) * h[p], lam * h[p]
    a = c.rg.Box(half_extents=c.arr(h1), rotation=R, center=t + R @ c.arr(d1))
    b = c.rg.Box(half_extents=c.arr(h2), rotation=R, center=t + R @ c.arr(d2))
    c.eq("sum of parts", (a.uniform_density_params(lam * m) + b.uniform_density_params((1 - lam) * m)).J, w.J)
    c.eq("volume", a.volume + b.volume, c.rg.Box(half_extents=h).volume)


@suite.inst(params=[(0,), (1,), (2,), (0, 1), (0, 1, 2)])
def flat(c, p):
    """flat boxes and ellipsoids have no spread in the flat directions"""
    h = half_extents(c, zero=p, lo=c.const(1) / 10**6)
    R, t = place(c)
    m = c.pos("m")
    c.eq("box", c.rg.Box(half_extents=h, rotation=R, center=t).uniform_density_params(m).J, world(c, R, t, m, [m * x * x / 3 for x in h]))
    c.eq("ellipsoid", c.rg.Ellipsoid(half_extents=h, rotation=R, center=t).uniform_density_params(m).J, world(c, R, t, m, [m * x * x / 5 for x in h]))
