"""C04 Centre-of-mass and origin reference points agree."""
from symx.run import Suite
from .common import params, outer

suite = Suite("C04", bounds="all masses > 0 (>= 0 where stated), all centres of mass and symmetric matrices", assumes=["exact real arithmetic"])


def tr(H):
    return H[0, 0] + H[1, 1] + H[2, 2]


@suite.inst()
def parallel_axis(c):
    m, com, H = params(c, mass=">=0")
    p = c.rg.InertialParameters(mass=m, com=com, H=H)
    E = c.np.eye(3)
    c.eq("Hc", p.Hc, H - m * outer(c, com, com))
    cc = com[0] * com[0] + com[1] * com[1] + com[2] * com[2]
    c.eq("Ic", p.Ic, p.I - m * (cc * E - outer(c, com, com)))
    c.eq("Ic=tr(Hc)1-Hc", p.Ic, tr(p.Hc) * E - p.Hc)
    c.eq("I=tr(H)1-H", p.I, tr(H) * E - H)


@suite.inst(params=["H", "I", "h,H", "h,I", "none"])
def from_com(c, p):
    m, com, G = params(c)
    IP = c.rg.InertialParameters
    E = c.np.eye(3)
    kw = {"mass": m, "translate_from_com": True}
    if "h" in p.split(","):
        kw["h"] = m * com
    else:
        kw["com"] = com
    if p.endswith("H"):
        kw["H"] = G
        Hc = G
    elif p.endswith("I"):
        kw["I"] = G
        Hc = tr(G) / 2 * E - G
    else:
        Hc = c.np.zeros((3, 3))
    q = IP(**kw)
    c.eq("Hc", q.Hc, Hc)
    c.eq("Ic", q.Ic, tr(Hc) * E - Hc)
    c.eq("H", q.H, Hc + m * outer(c, com, com))
    c.eq("h", q.h, m * com)
    c.eq("mass", q.mass, m)
    if p == "I":
        c.eq("Ic given", q.Ic, G)


@suite.inst(params=["H", "I"])
def from_origin(c, p):
    m, com, G = params(c)
    kw = {p: G}
    q = c.rg.InertialParameters(mass=m, com=com, **kw)
    c.eq(p, getattr(q, p), G)
    c.eq("H", q.H, q.Hc + m * outer(c, com, com))


@suite.inst()
def conversions(c):
    G = c.symmat("G", 3)
    E = c.np.eye(3)
    c.eq("H2I", c.rg.H2I(G), tr(G) * E - G)
    c.eq("I2H", c.rg.I2H(G), tr(G) / 2 * E - G)
    c.eq("I2H(H2I)", c.rg.I2H(c.rg.H2I(G)), G)
    c.eq("H2I(I2H)", c.rg.H2I(c.rg.I2H(G)), G)


@suite.inst(params=[1, 2, 3])
def point_masses(c, p):
    """central moments of an actual distribution"""
    ms = [c.pos("m%d" % i) for i in range(p)]
    P = c.mat("p", p, 3)
    q = c.rg.InertialParameters.from_point_masses(c.arr(ms), P)
    M = sum(ms)
    com = sum(m * x for m, x in zip(ms, P)) / M
    Hc = c.np.zeros((3, 3))
    for m, x in zip(ms, P):
        Hc = Hc + m * outer(c, x - com, x - com)
    c.eq("com", q.com, com)
    c.eq("Hc", q.Hc, Hc)
    c.eq("Ic", q.Ic, tr(Hc) * c.np.eye(3) - Hc)
