"""C03 Moving a body transforms its inertial parameters rigidly."""
from symx.run import Suite
from .common import params, tj

suite = Suite("C03", bounds="all masses > 0, all real first moments and second-moment matrices, all rotations and translations (no further bound)",
              assumes=["exact real arithmetic"])


@suite.inst()
def pseudo_inertia(c):
    m, com, H = params(c)
    R, t = c.rot("R"), c.vec("t", 3)
    p = c.rg.InertialParameters(mass=m, com=com, H=H)
    q = p.transform(rotation=R, translation=t)
    c.eq("T J T^T", q.J, tj(c, R, t, p.J))


@suite.inst(params=["none", "R", "t", "identity"])
def missing(c, p):
    m, com, H = params(c)
    par = c.rg.InertialParameters(mass=m, com=com, H=H)
    R, t = c.rot("R"), c.vec("t", 3)
    I, z = c.np.eye(3), c.np.zeros(3)
    if p == "none":
        q, S, s = par.transform(), I, z
    elif p == "R":
        q, S, s = par.transform(rotation=R), R, z
    elif p == "t":
        q, S, s = par.transform(translation=t), I, t
    else:
        q, S, s = par.transform(rotation=I, translation=z), I, z
    c.eq("J", q.J, tj(c, S, s, par.J))


@suite.inst()
def compose(c):
    m, com, H = params(c)
    R1, t1, R2, t2 = c.rot("R"), c.vec("t", 3), c.rot("S"), c.vec("s", 3)
    p = c.rg.InertialParameters(mass=m, com=com, H=H)
    a = p.transform(rotation=R1, translation=t1).transform(rotation=R2, translation=t2)
    b = p.transform(rotation=R2 @ R1, translation=R2 @ t1 + t2)
    c.eq("compose", a.J, b.J)


@suite.inst()
def inverse(c):
    m, com, H = params(c)
    R, t = c.rot("R"), c.vec("t", 3)
    p = c.rg.InertialParameters(mass=m, com=com, H=H)
    q = p.transform(rotation=R, translation=t).transform(rotation=R.T, translation=-R.T @ t)
    c.eq("inverse", q.J, p.J)


@suite.inst(params=[1, 2, 3])
def point_masses(c, p):
    n = p
    ms = c.arr([c.real("m%d" % i, "+") for i in range(n)])
    P = c.mat("p", n, 3)
    R, t = c.rot("R"), c.vec("t", 3)
    IP = c.rg.InertialParameters
    a = IP.from_point_masses(ms, P).transform(rotation=R, translation=t)
    b = IP.from_point_masses(ms, c.arr([R @ x + t for x in P]))
    c.eq("moved points", a.J, b.J)
    c.eq("vec", a.vec, b.vec)


@suite.inst()
def massless(c):
    R, t = c.rot("R"), c.vec("t", 3)
    z = c.rg.InertialParameters.zero()
    c.eq("zero stays zero", z.transform(rotation=R, translation=t).J, c.np.zeros((4, 4)))
