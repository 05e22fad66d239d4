"""C02 Combining bodies superposes their mass distributions."""
from symx.run import Suite
from .common import params, pim, mass_pim

suite = Suite("C02", bounds="up to 12 point masses (1100 of which two are different) / 7 parameter sets, all non-negative masses (total > 0 unless massless), all positions and moments",
              assumes=["exact real arithmetic"])


@suite.inst(params=[1, 2, 3, 4, 7, 12])
def point_masses(c, p):
    ms = [c.pos("m0")] + [c.nonneg("m%d" % i) for i in range(1, p)]
    P = c.mat("p", p, 3)
    q = c.rg.InertialParameters.from_point_masses(c.arr(ms), P)
    c.eq("J", q.J, mass_pim(c, ms, P))


@suite.inst()
def point_masses_lists(c):
    ms = [c.pos("m0"), c.pos("m1")]
    P = [[c.real("p%d%d" % (i, j)) for j in range(3)] for i in range(2)]
    q = c.rg.InertialParameters.from_point_masses(ms, P)
    c.eq("J", q.J, mass_pim(c, ms, P))


@suite.inst()
def point_masses_any(c):
    """masses may all be zero"""
    ms = [c.nonneg("m%d" % i) for i in range(2)]
    P = c.mat("p", 2, 3)
    q = c.rg.InertialParameters.from_point_masses(c.arr(ms), P)
    c.eq("J", q.J, mass_pim(c, ms, P))


def mk(c, tag, mass="+"):
    m, com, H = params(c, tag, mass)
    return c.rg.InertialParameters(mass=m, com=com, H=H), pim(c, m, m * com, H)


@suite.inst()
def addition(c):
    (p, J), (q, K) = mk(c, "a"), mk(c, "b")
    c.eq("sum", (p + q).J, J + K)
    c.eq("commutes", (q + p).J, (p + q).J)
    c.eq("vec", (p + q).vec, p.vec + q.vec)


@suite.inst()
def associative(c):
    (p, J), (q, K), (r, L) = mk(c, "a"), mk(c, "b"), mk(c, "d")
    c.eq("sum3", ((p + q) + r).J, J + K + L)
    c.eq("assoc", (p + (q + r)).J, J + K + L)
    c.eq("builtin sum", sum([p, q, r]).J, J + K + L)


@suite.inst()
def zero_identity(c):
    p, J = mk(c, "a")
    z = c.rg.InertialParameters.zero()
    c.eq("p + 0", (p + z).J, J)
    c.eq("0 + p", (z + p).J, J)
    c.eq("0 + 0", (z + z).J, c.np.zeros((4, 4)))
    c.eq("sum of zeros", sum([z, z, z]).J, c.np.zeros((4, 4)))
    c.eq("zero com finite", (z + z).com * 0, c.np.zeros(3))
    c.eq("sum", sum([p]).J, J)
    c.eq("zero then p", ((z + z) + p).J, J)


@suite.inst()
def maybe_massless(c):
    """one addend may be massless"""
    p, J = mk(c, "a")
    m, com, H = params(c, "b", ">=0")
    q = c.rg.InertialParameters(mass=m, com=com, H=m * H)
    c.eq("sum", (p + q).J, J + pim(c, m, m * com, m * H))


@suite.inst(params=[(1, 2), (2, 1), (2, 2)])
def grouping(c, p):
    n, k = p
    ms = [c.pos("m%d" % i) for i in range(n + k)]
    P = c.mat("p", n + k, 3)
    F = c.rg.InertialParameters.from_point_masses
    a, b = F(c.arr(ms[:n]), P[:n]), F(c.arr(ms[n:]), P[n:])
    w = F(c.arr(ms), P)
    c.eq("grouped", (a + b).J, w.J)
    c.eq("any order", (b + a).J, mass_pim(c, ms, P))


@suite.inst()
def bodies(c):
    (p, J), (q, K) = mk(c, "a"), mk(c, "b")
    RB = c.rg.RigidBody
    b = RB([], p) + RB([], q)
    c.eq("body sum", b.params.J, J + K)
    c.eq("builtin body sum", sum([RB([], p), RB([], q)]).params.J, J + K)
    e = RB([]) + RB([])
    c.eq("massless bodies", e.params.J, c.np.zeros((4, 4)))
    c.eq("massless + body", (e + RB([], q)).params.J, K)


@suite.inst(params=[5, 7])
def many(c, n):
    """long sums, with massless bodies among them"""
    ps, J = [], c.np.zeros((4, 4))
    z = c.rg.InertialParameters.zero()
    for i in range(n):
        p, K = mk(c, "a%d" % i)
        ps.append(p)
        J = J + K
    c.eq("sum", sum(ps).J, J)
    c.eq("zero among them", sum(ps[:2] + [z] + ps[2:] + [z]).J, J)
    c.eq("zero first", sum([z, z] + ps).J, J)
    c.eq("two halves", (sum(ps[: n // 2]) + sum(ps[n // 2 :])).J, J)
    RB = c.rg.RigidBody
    c.eq("bodies", sum([RB([], p) for p in ps]).params.J, J)
    t = ps[0]
    for p in ps[1:]:
        t += p
    c.eq("accumulated", t.J, J)


@suite.inst()
def thousand(c):
    """1100 point masses, the last unlike the others"""
    n = 1100
    m, w = c.pos("m"), c.pos("w")
    p, q = c.vec("p", 3), c.vec("q", 3)
    J = mass_pim(c, [m * (n - 1), w], [p, q])
    c.eq("system", c.rg.InertialParameters.from_point_masses(c.arr([m] * (n - 1) + [w]), c.arr([p] * (n - 1) + [q])).J, J)
