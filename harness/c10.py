"""C10 An ellipsoid is one set in every representation."""
from symx.run import Suite
from .common import half_extents, place, sumsq, dot, diag, lo

suite = Suite("C10", bounds="dimensions 1 to 4; half extents 0 or >= 1e-6; all rotations (dimension 4: products of two unit quaternions), centres, points, tolerances; batches of up to 7 points (1100 of which two are different)",
              assumes=["exact real arithmetic", "eigh returns the spectral decomposition of its argument (any order, the decomposition it was built from)"])

FULL = [1, 2, 3, 4]
FLAT = [(1, (0,)), (2, (0,)), (2, (1,)), (2, (0, 1)), (3, (0,)), (3, (1,)), (3, (2,)), (3, (0, 2)), (3, (1, 2)), (3, (0, 1, 2)), (4, (1, 3))]


def ell(c, n, zero=(), tag=""):
    R, t = c.rotn(tag + "R", n), c.vec(tag + "t", n)
    a = half_extents(c, tag + "a", zero, n, lo=lo(c))
    return c.rg.Ellipsoid(half_extents=a, rotation=R, center=t), R, t, a


def norm2(q, a, zero=()):
    return sumsq([q[i] / a[i] for i in range(len(q)) if i not in zero])


@suite.inst(params=FULL)
def membership(c, p):
    s, R, t, a = ell(c, p)
    q = c.vec("q", p)
    x = R @ q + t
    tol = c.nonneg("tol")
    c.iff("contains", s.contains(x, tol=tol), c.le(norm2(q, a), 1 + tol))
    c.iff("exact", s.contains(x, tol=0), c.le(norm2(q, a), 1))
    r = c.vec("r", p)
    res = s.contains(c.arr([x, R @ r + t]), tol=0)
    c.shape("batch", res, (2,))
    c.iff("batch 0", res[0], c.le(norm2(q, a), 1))
    c.iff("batch 1", res[1], c.le(norm2(r, a), 1))


@suite.inst(params=FLAT)
def flat_membership(c, p):
    n, zero = p
    s, R, t, a = ell(c, n, zero)
    q = c.vec("q", n)
    x = R @ q + t
    tol = c.nonneg("tol")
    flat = c.land(*[c.land(c.le(q[i], tol), c.le(-tol, q[i])) for i in zero])
    c.iff("contains", s.contains(x, tol=tol), c.land(flat, c.le(norm2(q, a, zero), 1 + tol)))
    on = c.land(*[c.same(q[i], 0) for i in zero])
    c.iff("exact", s.contains(x, tol=0), c.land(on, c.le(norm2(q, a, zero), 1)))
    c.eq("rank", s.rank, n - len(zero))
    c.check("degenerate", s.is_degenerate())
    c.eq("volume", s.volume, 0)
    c.eq("E", s.E, R @ diag(c, [e * e for e in a]) @ R.T)
    c.check("dim", s.dim == n)


@suite.inst(params=FULL, np_pi=True)
def forms(c, p):
    n = p
    s, R, t, a = ell(c, n)
    q = c.vec("q", n)
    x = R @ q + t
    f = norm2(q, a)
    c.eq("S form", (x - t) @ s.S @ (x - t), f)
    c.eq("S symmetric", s.S, s.S.T)
    c.eq("S E", s.S @ s.E, c.np.eye(n))
    c.eq("E", s.E, R @ diag(c, [e * e for e in a]) @ R.T)
    y = s.A @ x + s.b
    c.eq("affine form", y @ y, f)
    xt = c.np.concatenate([x, c.np.ones(1)])
    c.eq("Q form", xt @ s.Q @ xt, 1 - f)
    c.eq("Q symmetric", s.Q, s.Q.T)
    c.eq("rank", s.rank, n)
    c.check("not degenerate", c.lnot(s.is_degenerate()))
    c.check("dim", s.dim == n)
    V = 1
    for e in a:
        V = V * e
    unit = {1: 2, 2: c.pi, 3: c.pi * 4 / 3, 4: c.pi * c.pi / 2}[n]
    c.eq("volume", s.volume, V * unit)


@suite.inst(params=[1, 2, 3])
def from_shape_matrix(c, p):
    n = p
    R, t = c.rotn("R", n), c.vec("t", n)
    a = half_extents(c, "a", (), n, lo=c.const(1) / 1000)
    for x in a:
        c.assume(c.le(x, 1000))
    d = [1 / (x * x) for x in a]
    S = R @ diag(c, d) @ R.T
    c.eig(S, d, R)
    s = c.rg.Ellipsoid.from_shape_matrix(S, center=t)
    q = c.vec("q", n)
    x = R @ q + t
    c.iff("set", s.contains(x, tol=0), c.le(norm2(q, a), 1))
    c.eq("S", s.S, S)
    c.eq("center", s.center, t)
    e = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)
    c.check("same", s.is_same(e))
    z = c.rg.Ellipsoid.from_shape_matrix(S)
    c.eq("default center", z.center, c.np.zeros(n))


@suite.inst(params=[1, 2, 3])
def from_affine(c, p):
    n = p
    R, t = c.rotn("R", n), c.vec("t", n)
    a = half_extents(c, "a", (), n, lo=c.const(1) / 1000)
    for x in a:
        c.assume(c.le(x, 1000))
    A = R @ diag(c, [1 / x for x in a]) @ R.T
    S = A @ A
    c.eig(S, [1 / (x * x) for x in a], R)
    c.eig(A, [1 / x for x in a], R)
    b = -A @ t
    s = c.rg.Ellipsoid.from_affine(A, b)
    q = c.vec("q", n)
    c.eq("center", s.center, t)
    c.iff("set", s.contains(R @ q + t, tol=0), c.le(norm2(q, a), 1))


@suite.inst(params=[2, 3])
def from_affine_nonsymmetric(c, p):
    """x with |B x + b| <= 1 for B = diag(1/a) R^T"""
    n = p
    R, t = c.rotn("R", n), c.vec("t", n)
    a = half_extents(c, "a", (), n, lo=c.const(1) / 1000)
    for x in a:
        c.assume(c.le(x, 1000))
    B = diag(c, [1 / x for x in a]) @ R.T
    c.eig(B.T @ B, [1 / (x * x) for x in a], R)
    s = c.rg.Ellipsoid.from_affine(B, -B @ t)
    q = c.vec("q", n)
    c.eq("center", s.center, t)
    c.iff("set", s.contains(R @ q + t, tol=0), c.le(norm2(q, a), 1))


@suite.inst(params=[1, 2, 3, 4])
def sphere(c, p):
    n = p
    r, t = c.pos("r", lo=lo(c)), c.vec("t", n)
    s = c.rg.Ellipsoid.sphere(radius=r, center=t)
    x = c.vec("x", n)
    c.iff("set", s.contains(x, tol=0), c.le(sumsq(x - t), r * r))
    c.check("dim", s.dim == n)
    d = c.rg.Ellipsoid.sphere(radius=r)
    c.eq("default center", d.center, c.np.zeros(3))


@suite.inst()
def defaults(c):
    a = half_extents(c, "a", (), 3, lo=lo(c))
    s = c.rg.Ellipsoid(half_extents=a)
    q = c.vec("q", 3)
    c.iff("set", s.contains(q, tol=0), c.le(norm2(q, a), 1))
    h, t, x = c.pos("h", lo=lo(c)), c.real("t"), c.real("x")
    e = c.rg.Ellipsoid(half_extents=h, center=t)
    c.check("interval dim", e.dim == 1)
    c.iff("interval", e.contains(c.arr([[x]]), tol=0)[0], c.land(c.le(x, t + h), c.le(t - h, x)))


@suite.inst()
def rejects(c):
    a = c.pos("a")
    c.raises("negative", lambda: c.rg.Ellipsoid(half_extents=c.arr([a, -a, a])), AssertionError, ValueError)
    c.raises("centre size", lambda: c.rg.Ellipsoid(half_extents=c.arr([a, a, a]), center=c.arr([a, a])), AssertionError, ValueError)
    c.raises("infinite", lambda: c.rg.Ellipsoid(half_extents=[1.0, float("inf"), 1.0]), AssertionError, ValueError)


@suite.inst(params=[(3, ()), (3, (0,)), (3, (1, 2)), (2, ()), (2, (1,)), (1, ())])
def same_itself(c, p):
    n, zero = p
    s, R, t, a = ell(c, n, zero)
    c.check("itself", s.is_same(s))
    c.check("copy", s.is_same(c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)))
    if n > 1:
        # permuted axes and flipped axes describe the same set
        pm = list(range(1, n)) + [0]
        Rp = c.arr([[R[i, j] for j in pm] for i in range(n)])
        c.check("permuted axes", s.is_same(c.rg.Ellipsoid(half_extents=c.arr([a[j] for j in pm]), rotation=Rp, center=t)))
        F = c.arr([[-R[i, j] if j < 2 else R[i, j] for j in range(n)] for i in range(n)])
        c.check("flipped axes", s.is_same(c.rg.Ellipsoid(half_extents=a, rotation=F, center=t)))


@suite.inst(params=[(3, ()), (3, (0,)), (2, ()), (2, (1,)), (1, ())])
def different(c, p):
    n, zero = p
    s, R, t, a = ell(c, n, zero)
    k = [i for i in range(n) if i not in zero][-1]
    for x in [a[i] for i in range(n) if i not in zero]:
        c.assume(c.le(c.const(1) / 10, x))
        c.assume(c.le(x, 10))
    b = [x for x in a]
    b[k] = 2 * a[k]
    u = c.rg.Ellipsoid(half_extents=c.arr(b), rotation=R, center=t)
    c.check("twice as long", c.lnot(s.is_same(u)))
    c.check("twice as long, reversed", c.lnot(u.is_same(s)))
    for x in t:
        c.assume(c.le(x, 10))
        c.assume(c.le(-10, x))
    d = c.vec("d", n)
    c.assume(c.lor(*[c.le(c.const(1) / 10, c.absv(x)) for x in d]))
    c.check("moved", c.lnot(s.is_same(c.rg.Ellipsoid(half_extents=a, rotation=R, center=t + d))))
    if zero:
        b = [x if i not in zero else 1 for i, x in enumerate(a)]
        c.check("not flat", c.lnot(s.is_same(c.rg.Ellipsoid(half_extents=c.arr(b), rotation=R, center=t))))
    c.check("other type", c.lnot(s.is_same(c.rg.Box(c.arr([1, 1, 1])))))
    m = {1: 2, 2: 3, 3: 2}[n]
    c.check("other dimension", c.lnot(s.is_same(c.rg.Ellipsoid(half_extents=c.arr([1] * m)))))


@suite.inst()
def different_orientation(c):
    """a swap of two unequal axes is a different set"""
    a = half_extents(c, "a", (), 3, lo=c.const(1) / 10)
    for x in a:
        c.assume(c.le(x, 10))
    c.assume(c.le(2 * a[0], a[1]))
    s = c.rg.Ellipsoid(half_extents=a)
    u = c.rg.Ellipsoid(half_extents=a, rotation=c.arr([[0, -1, 0], [1, 0, 0], [0, 0, 1]]))
    c.check("quarter turn", c.lnot(s.is_same(u)))


@suite.inst(params=[(3, 8), (2, 8), (1, 5), (3, 4)])
def many(c, p):
    """long batches; every row is judged by itself"""
    d, n = p
    s, R, t, a = ell(c, d)
    q = [c.vec("q%d_" % i, d) for i in range(n)]
    tol = c.nonneg("tol")
    res = s.contains(c.arr([R @ x + t for x in q]), tol=tol)
    c.shape("batch", res, (n,))
    for i in range(n):
        c.iff("row %d" % i, res[i], c.le(norm2(q[i], a), 1 + tol))


@suite.inst(params=[(2, ()), (3, ()), (3, (1,))])
def thousand(c, p):
    """a batch of 1100 rows, the last unlike the others"""
    d, zero = p
    s, R, t, a = ell(c, d, zero)
    q, r = c.vec("q", d), c.vec("r", d)
    tol = c.nonneg("tol")
    res = s.contains(c.arr([R @ q + t] * 1099 + [R @ r + t]), tol=tol)
    c.shape("batch", res, (1100,))
    if not zero:
        c.iff("first", res[0], c.le(norm2(q, a), 1 + tol))
        c.iff("last", res[1099], c.le(norm2(r, a), 1 + tol))
    else:
        c.iff("first", res[0], s.contains(R @ q + t, tol=tol))
        c.iff("last", res[1099], s.contains(R @ r + t, tol=tol))
    for i in range(1, 1099):
        c.iff("row %d" % i, res[i], res[0])
