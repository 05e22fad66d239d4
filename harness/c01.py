"""C01 Inertial parameter representations are interchangeable."""
from symx.run import Suite
from .common import params, pim

suite = Suite("C01", bounds="all masses > 0 (and the all-zero massless parameters), all real first moments and symmetric second moments",
              assumes=["exact real arithmetic"])


def expect(c, label, p, m, h, H):
    tr = H[0, 0] + H[1, 1] + H[2, 2]
    I = c.np.eye(3) * tr - H
    c.eq(label + " mass", p.mass, m)
    c.eq(label + " h", p.h, h)
    c.eq(label + " H", p.H, H)
    c.eq(label + " I", p.I, I)
    c.eq(label + " J", p.J, pim(c, m, h, H))
    c.eq(label + " vec", p.vec, c.arr([m, h[0], h[1], h[2], I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]]))


@suite.inst(params=["com,H", "com,I", "h,H", "h,I", "vec", "pim"])
def build(c, p):
    m, com, H = params(c)
    h = m * com
    I = c.np.eye(3) * (H[0, 0] + H[1, 1] + H[2, 2]) - H
    IP = c.rg.InertialParameters
    if p == "vec":
        q = IP.from_vec(c.arr([m, h[0], h[1], h[2], I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]]))
    elif p == "pim":
        q = IP.from_pim(pim(c, m, h, H))
    else:
        kw = {}
        for k in p.split(","):
            kw[k] = {"com": com, "h": h, "H": H, "I": I}[k]
        q = IP(mass=m, **kw)
    expect(c, p, q, m, h, H)
    c.eq("com", q.com, com)
    if p in ("com,H", "h,I"):
        expect(c, "vec and back", IP.from_vec(q.vec), m, h, H)
        expect(c, "pim and back", IP.from_pim(q.J), m, h, H)
        expect(c, "I and back", IP(mass=q.mass, h=q.h, I=q.I), m, h, H)
        expect(c, "H and back", IP(mass=q.mass, com=q.com, H=q.H), m, h, H)


@suite.inst(params=["default", "com"])
def defaults(c, p):
    """no second moment given: a point mass at the centre of mass"""
    m, com = c.pos("m"), c.vec("c", 3)
    IP = c.rg.InertialParameters
    z = c.np.zeros(3)
    if p == "default":
        expect(c, "at origin", IP(mass=m), m, z, c.np.zeros((3, 3)))
    else:
        H = c.arr([[m * com[i] * com[j] for j in range(3)] for i in range(3)])
        expect(c, "point mass", IP(mass=m, com=com), m, m * com, H)
        expect(c, "point mass h", IP(mass=m, h=m * com), m, m * com, H)
        expect(c, "point mass from com", IP(mass=m, com=com, translate_from_com=True), m, m * com, H)


@suite.inst(params=["zero", "vec", "pim", "h", "vec0", "none"])
def massless(c, p):
    IP = c.rg.InertialParameters
    z3, z33 = c.np.zeros(3), c.np.zeros((3, 3))
    q = {
        "zero": lambda: IP.zero(),
        "vec": lambda: IP.from_vec(IP.zero().vec),
        "pim": lambda: IP.from_pim(IP.zero().J),
        "h": lambda: IP(mass=0, h=z3, H=z33),
        "vec0": lambda: IP.from_vec(c.np.zeros(10)),
        "none": lambda: IP(mass=0),
    }[p]()
    expect(c, p, q, 0, z3, z33)
    expect(c, p + " again", IP.from_pim(q.J), 0, z3, z33)


@suite.inst()
def mass_or_zero(c):
    """mass >= 0 unknown; a massless body has zero moments"""
    m, com, H = params(c, mass=">=0")
    h = m * com
    Hm = m * H
    q = c.rg.InertialParameters.from_pim(pim(c, m, h, Hm))
    expect(c, "pim", q, m, h, Hm)


@suite.inst()
def same(c):
    m, com, H = params(c)
    n, d, G = params(c, "o")
    IP = c.rg.InertialParameters
    p, q = IP(mass=m, com=com, H=H), IP(mass=n, com=d, H=G)
    s = p.is_same(q)
    J, K = pim(c, m, m * com, H), pim(c, n, n * d, G)
    c.implies("equal matrices compare as same", c.allsame(J, K), s)
    near = [c.le(c.absv(J[i, j] - K[i, j]), 0.001 * (1 + c.absv(K[i, j]))) for i in range(4) for j in range(i, 4)]
    for k, x in enumerate(near):
        c.implies("same only if entries agree %d" % k, s, x)


@suite.inst()
def same_reps(c):
    m, com, H = params(c)
    IP = c.rg.InertialParameters
    p = IP(mass=m, com=com, H=H)
    c.check("is_same(vec)", p.is_same(IP.from_vec(p.vec)))
    c.check("is_same(pim)", p.is_same(IP.from_pim(p.J)))
    c.check("massless same", IP.zero().is_same(IP(mass=0, com=c.np.zeros(3), H=c.np.zeros((3, 3)))))


@suite.inst()
def rejects(c):
    IP = c.rg.InertialParameters
    m, com, H = params(c)
    c.raises("both h and com", lambda: IP(mass=m, h=com, com=com), ValueError)
    c.raises("both H and I", lambda: IP(mass=m, com=com, H=H, I=H), ValueError)
    c.raises("negative mass", lambda: IP(mass=-m, com=com, H=H), AssertionError, ValueError)
