"""C11 Cylinder and capsule membership is exact and honours tolerance."""
from symx.run import Suite
from .common import mk, place, sumsq, dot, lo

suite = Suite("C11", bounds="lengths and radii >= 1e-6, all rotations, centres, points, tolerances >= 0; batches of up to 7 points (1100 of which two are different)",
              assumes=["exact real arithmetic"])


def in_cyl(c, q, L, r):
    return c.land(c.le(q[2], L / 2), c.le(-L / 2, q[2]), c.le(q[0] * q[0] + q[1] * q[1], r * r))


def in_cap(c, q, L, r):
    """distance to the axis segment at most r"""
    rho = q[0] * q[0] + q[1] * q[1]
    z, h = q[2], L / 2
    return c.lor(
        c.land(c.le(z, h), c.le(-h, z), c.le(rho, r * r)),
        c.land(c.le(h, z), c.le(rho + (z - h) * (z - h), r * r)),
        c.land(c.le(z, -h), c.le(rho + (z + h) * (z + h), r * r)),
    )


@suite.inst(params=["cylinder", "capsule"])
def membership(c, p):
    S = mk(c, p)
    L, r = S.size
    f = in_cyl if p == "cylinder" else in_cap
    q, w, v = c.vec("q", 3), c.vec("w", 3), c.vec("v", 3)
    c.iff("point", S.s.contains(S.world(q), tol=0), f(c, q, L, r))
    res = S.s.contains(c.arr([S.world(w), S.world(v)]), tol=0)
    c.shape("batch", res, (2,))
    c.iff("batch 0", res[0], f(c, w, L, r))
    c.iff("batch 1", res[1], f(c, v, L, r))
    one = S.s.contains(c.arr([S.world(w)]), tol=0)
    c.shape("batch of one", one, (1,))
    c.iff("batch of one", one[0], f(c, w, L, r))


@suite.inst(params=["cylinder", "capsule"])
def tolerance(c, p):
    S = mk(c, p)
    L, r = S.size
    q = c.vec("q", 3)
    tol = c.nonneg("tol")
    x = S.world(q)
    c.iff("contains", S.s.contains(x, tol=tol), S.inside(q, tol))
    f = in_cyl if p == "cylinder" else in_cap
    c.implies("a tolerance only adds points", f(c, q, L, r), S.s.contains(x, tol=tol))
    c.implies("the default tolerance only adds points", f(c, q, L, r), S.s.contains(x))


@suite.inst(params=["cylinder", "capsule"])
def far_points_rejected(c, p):
    S = mk(c, p)
    L, r = S.size
    q = c.vec("q", 3)
    k = c.const(11) / 10
    tol = c.const(1) / 10
    f = in_cyl if p == "cylinder" else in_cap
    if p == "cylinder":
        c.implies("a tenth further out", S.s.contains(S.world(q), tol=tol), f(c, q, k * L, k * r))
    else:
        c.implies("a tenth further out", S.s.contains(S.world(q), tol=tol),
                  c.lor(in_cyl(c, q, k * L, k * r), *[c.le(sumsq([q[0], q[1], q[2] + e]), k * k * r * r) for e in (L / 2, -L / 2)]))
    c.implies("the default tolerance is small", S.s.contains(S.world(q)), S.inside(q, c.const(1) / 10**6))


@suite.inst(np_pi=True)
def cylinder_queries(c):
    S = mk(c, "cylinder")
    L, r = S.size
    s = S.s
    e = s.endpoints()
    c.shape("endpoints", e, (2, 3))
    c.eq("endpoint +", e[0], S.world(c.arr([0, 0, L / 2])))
    c.eq("endpoint -", e[1], S.world(c.arr([0, 0, -L / 2])))
    c.eq("axis", s.longitudinal_axis, S.R[:, 2])
    c.eq("transverse", s.transverse_axes, S.R[:, :2])
    c.eq("volume", s.volume, c.pi * r * r * L)
    c.eq("length", s.length, L)
    c.eq("radius", s.radius, r)
    c.eq("center", s.center, S.t)
    c.eq("rotation", s.rotation, S.R)
    for x in e:
        c.check("endpoint in", s.contains(x, tol=0))
    d = c.rg.Cylinder(L, r)
    q = c.vec("q", 3)
    c.iff("default placement", d.contains(q, tol=0), in_cyl(c, q, L, r))


@suite.inst()
def capsule_queries(c):
    S = mk(c, "capsule")
    L, r = S.size
    s = S.s
    c.eq("inner length", s.inner_length, L)
    c.eq("radius", s.radius, r)
    c.eq("full length", s.full_length, L + 2 * r)
    c.eq("center", s.center, S.t)
    c.eq("rotation", s.rotation, S.R)
    k = L / 2 + r
    for sg in (1, -1):
        tip = c.arr([0, 0, sg * k])
        c.check("tip in", s.contains(S.world(tip), tol=0))
    c.check("twice the tip out", c.lnot(s.contains(S.world(c.arr([0, 0, 2 * k])), tol=c.const(1) / 10)))
    c.check("cylinder is part of it", c.land(c.same(s.cylinder.length, L), c.same(s.cylinder.radius, r)))


@suite.inst(params=["cylinder", "capsule"])
def contains_cylinder(c, p):
    """a capsule contains its cylinder"""
    S = mk(c, p)
    q = c.vec("q", 3)
    cyl = S.s if p == "cylinder" else S.s.cylinder
    c.implies("cylinder in capsule", cyl.contains(S.world(q), tol=0), cyl.capsule().contains(S.world(q), tol=0))


def sized(c, tag=""):
    L, r = c.real(tag + "L", "+", lo=c.const(1) / 10, hi=10), c.real(tag + "r", "+", lo=c.const(1) / 10, hi=10)
    return L, r


@suite.inst(params=["cylinder", "capsule"])
def same(c, p):
    L, r = sized(c)
    R, t = place(c)
    f = (lambda *a, **k: c.rg.Cylinder(*a, **k)) if p == "cylinder" else (lambda *a, **k: c.rg.Cylinder(*a, **k).capsule())
    s = f(L, r, rotation=R, center=t)
    tol = c.const(1) / 10**8
    c.check("itself", s.is_same(s))
    c.check("copy", s.is_same(f(L, r, rotation=R, center=t)))
    F = c.arr([[1, 0, 0], [0, -1, 0], [0, 0, -1]])
    c.check("flipped", s.is_same(f(L, r, rotation=R @ F, center=t)))
    a = c.rot2("spin")
    Z = c.arr([[a[0, 0], a[0, 1], 0], [a[1, 0], a[1, 1], 0], [0, 0, 1]])
    c.check("spun about its axis", s.is_same(f(L, r, rotation=R @ Z, center=t)))
    c.check("longer", c.lnot(s.is_same(f(L * 2, r, rotation=R, center=t))))
    c.check("thicker", c.lnot(s.is_same(f(L, r * 2, rotation=R, center=t))))
    c.check("other type", c.lnot(s.is_same(c.rg.Box(c.arr([1, 1, 1])))))
    for x in t:
        c.assume(c.le(x, 10))
        c.assume(c.le(-10, x))
    d = c.vec("d", 3)
    c.assume(c.lor(*[c.le(c.const(1) / 10, c.absv(x)) for x in d]))
    c.check("moved", c.lnot(s.is_same(f(L, r, rotation=R, center=t + d))))


@suite.inst(params=["cylinder", "capsule"])
def same_tolerance(c, p):
    """the caller's tolerance decides (up to the relative tolerance 1e-5 numpy adds)"""
    L, r = sized(c)
    R, t = place(c)
    tol = c.nonneg("tol")
    f = (lambda *a, **k: c.rg.Cylinder(*a, **k)) if p == "cylinder" else (lambda *a, **k: c.rg.Cylinder(*a, **k).capsule())
    s = f(L, r, rotation=R, center=t)
    d = c.nonneg("d")
    for nm, u in (("length", f(L + d, r, rotation=R, center=t)), ("radius", f(L, r + d, rotation=R, center=t)),
                  ("center", f(L, r, rotation=R, center=t + c.arr([d, 0, 0])))):
        c.implies("within tolerance: " + nm, c.le(d, tol), s.is_same(u, tol=tol))
        if nm != "center":
            c.implies("beyond tolerance: " + nm, s.is_same(u, tol=tol), c.le(d, tol + (20 + d) / 10**4))


@suite.inst(params=[0, 1, 2])
def not_same_axis(c, p):
    """perpendicular cylinders differ"""
    L, r = sized(c)
    a, t = c.rot2("a"), c.vec("t", 3)
    R = c.np.eye(3)
    i, j = [k for k in range(3) if k != p]
    R[i, i], R[i, j], R[j, i], R[j, j] = a[0, 0], a[0, 1], a[1, 0], a[1, 1]
    P = c.arr([[0, 0, 1], [1, 0, 0], [0, 1, 0]])
    s, u = c.rg.Cylinder(L, r, rotation=R, center=t), c.rg.Cylinder(L, r, rotation=R @ P, center=t)
    c.check("perpendicular", c.lnot(s.is_same(u)))
    c.check("perpendicular capsule", c.lnot(s.capsule().is_same(u.capsule())))


@suite.inst()
def rejects(c):
    L, r = c.pos("L"), c.pos("r")
    c.raises("negative length", lambda: c.rg.Cylinder(-L, r), AssertionError, ValueError)
    c.raises("negative radius", lambda: c.rg.Cylinder(L, -r), AssertionError, ValueError)


@suite.inst(params=[(k, n) for k in ("cylinder", "capsule") for n in (3, 7)])
def many(c, p):
    """long batches; every row is judged by itself"""
    k, n = p
    S = mk(c, k)
    q = [c.vec("q%d_" % i, 3) for i in range(n)]
    tol = c.nonneg("tol")
    res = S.s.contains(c.arr([S.world(x) for x in q]), tol=tol)
    c.shape("batch", res, (n,))
    for i in range(n):
        c.iff("row %d" % i, res[i], S.inside(q[i], tol))


@suite.inst(params=["cylinder", "capsule"])
def thousand(c, k):
    """a batch of 1100 rows, the last unlike the others"""
    S = mk(c, k)
    q, r = c.vec("q", 3), c.vec("r", 3)
    tol = c.nonneg("tol")
    res = S.s.contains(c.arr([S.world(q)] * 1099 + [S.world(r)]), tol=tol)
    c.shape("batch", res, (1100,))
    c.iff("first", res[0], S.inside(q, tol))
    c.iff("last", res[1099], S.inside(r, tol))
    for i in range(1, 1099):
        c.iff("row %d" % i, res[i], res[0])
