"""C17 The ellipsoid-in-ellipsoid test is sound and complete."""
from symx.run import Suite
from .common import half_extents, sumsq, dot, lo, axis_rot

suite = Suite(
    "C17",
    bounds="soundness: all pairs of full-dimensional ellipsoids in dimensions 1 to 3 (in 3: rotations about coordinate axes); completeness: an ellipsoid in itself, shrunken copies at every place where they fit (hence balls in balls), coaxial ellipsoids, in dimensions 1 to 3",
    assumes=["exact real arithmetic", "the solver reports a problem as optimal exactly if it is feasible"],
    ctol=1e-5,
)


def rot(c, n, name):
    if n == 1:
        return c.arr([[c.const(1)]])
    if n == 2:
        return c.rot2(name)
    return axis_rot(c, name, 2 if name.startswith("R") else 0)


def ell(c, n, tag, R=None, center=None, a=None):
    a = half_extents(c, tag + "a", n=n, lo=lo(c)) if a is None else a
    R = rot(c, n, "R" if tag == "e" else "Q") if R is None else R
    x = c.vec(tag + "c", n) if center is None else center
    return c.rg.Ellipsoid(half_extents=a, rotation=R, center=x), a, R, x


def level(c, e, x):
    """negative inside"""
    s, a, R, t = e
    q = R.T @ (x - t)
    return sumsq([q[i] / a[i] for i in range(len(a))]) - 1


def ask(c, e, o):
    return e[0].contains_ellipsoid(o[0], solver=c.solver)


@suite.inst(params=[(n, k) for n in (1, 2, 3) for k in ("aligned", "turned")])
def sound(c, p):
    """reported as contained: every point of the second is in the first"""
    n, k = p
    I = c.np.eye(n) if k == "aligned" else None
    e, o = ell(c, n, "e", R=I), ell(c, n, "o", R=I)
    x = c.vec("x", n)
    c.assume(c.le(level(c, o, x), 0))
    ok = ask(c, e, o)
    if not c.sym:
        c.check("inside", (not ok) or bool(level(c, e, x) <= 1e-4))
        c.check("contains", (not ok) or bool(e[0].contains(x, tol=1e-4)))
        return
    c.check("boolean", ok is True or ok is False)
    K = c.solved()
    K.feasible(zs=lambda M: [list(x) + [1]] if M.shape[0] == n + 1 else [])
    fo = level(c, o, x)
    for v in K.aux:
        for t in v.arr.ravel():
            c.product(t, -fo, *[w * w for w in e[1]])
    fe = level(c, e, x)
    scale = c.const(1)
    for w in list(e[1]) + list(o[1]):
        scale = scale * w * w
    # the level times a positive factor
    c.implies("inside", ok is True, c.lor(c.le(fe * scale, 0), c.same(fe, 0)))


@suite.inst(params=[1, 2, 3])
def sound_exact(c, n):
    """coaxial: the solver's answer is used in full, so that counterexamples are real"""
    I = c.np.eye(n)
    z = c.np.zeros(n)
    e, o = ell(c, n, "e", R=I, center=z), ell(c, n, "o", R=I, center=z if n > 1 else None)
    x = c.vec("x", n)
    c.assume(c.le(level(c, o, x), 0))
    ok = ask(c, e, o)
    if not c.sym:
        c.check("inside", (not ok) or bool(level(c, e, x) <= 1e-4))
        return
    K = c.solved()
    fo = level(c, o, x)
    K.feasible(zs=lambda M: [list(x) + [1]] if M.shape[0] == n + 1 else [])
    K.feasible()
    for v in K.aux:
        for t in v.arr.ravel():
            c.product(t, -fo, *[w * w for w in e[1]])
    fe = level(c, e, x)
    scale = c.const(1)
    for w in list(e[1]) + list(o[1]):
        scale = scale * w * w
    # the level times a positive factor
    c.implies("inside", ok is True, c.lor(c.le(fe * scale, 0), c.same(fe, 0)))


def reported(c, e, o, t, dec):
    """the problem is feasible, by t and a decomposition; the test says so"""
    ok = ask(c, e, o)
    c.check("reported", ok)
    K = c.solved()
    c.admitted("feasible", K, hints=lambda aux: [[c.arr([t]).reshape(a.shape) if a.arr.size == 1 else None for a in aux]], decs=lambda n: [dec] if dec else [])


@suite.inst(params=[1, 2, 3])
def itself(c, n):
    e = ell(c, n, "e")
    reported(c, e, e, c.const(1), [])


@suite.inst(params=[(n, k) for n in (1, 2, 3) for k in ("aligned", "turned")])
def shrunken(c, p):
    """a smaller copy, anywhere it fits"""
    n, k = p
    e = ell(c, n, "e", R=c.np.eye(n) if k == "aligned" else None)
    s, a, R, t = e
    l = c.real("l", "+")
    c.assume(c.lt(l, 1))
    for i in range(n):
        c.assume(c.le(lo(c), l * a[i]))
    d = c.vec("d", n)
    # displacement in units of the half extents
    if c.sym:
        c.assume(c.le(sumsq(d), (1 - l) * (1 - l)))
    else:
        c.assume(c.le(sumsq(d), (1 - l) * (1 - l) * 0.98))
        c.assume(c.le(c.const(1) / 1000, l))
    center = t + R @ c.arr([d[i] * a[i] for i in range(n)])
    o = (c.rg.Ellipsoid(half_extents=l * a, rotation=R, center=center), l * a, R, center)
    # in the unit ball's coordinates about the small centre:
    # l fo - fe = alpha |y - d / alpha|^2 + rest, alpha = (1 - l) / l
    alpha = (1 - l) / l
    rest = 1 - l - sumsq(d) - sumsq(d) / alpha
    dec = []
    for i in range(n):
        w = [R[j, i] / a[i] for j in range(n)]
        dec.append((alpha, w + [-dot(w, center) - d[i] / alpha]))
    dec.append((rest, [0] * n + [1]))
    if c.sym:
        c.lemma(c.same(rest, ((1 - l) * (1 - l) - sumsq(d)) / (1 - l)))
        c.lemma(c.le(0, rest))
    reported(c, e, o, l, dec)


@suite.inst(params=[(n, k) for n in (1, 2, 3) for k in ("aligned", "turned")])
def coaxial(c, p):
    n, k = p
    e = ell(c, n, "e", R=c.np.eye(n) if k == "aligned" else None)
    s, a, R, t = e
    b = half_extents(c, "b", n=n, lo=lo(c))
    for i in range(n):
        c.assume(c.le(b[i], a[i] if c.sym else 0.98 * a[i]))
    o = (c.rg.Ellipsoid(half_extents=b, rotation=R, center=t), b, R, t)
    dec = []
    for i in range(n):
        w = [R[j, i] for j in range(n)]
        dec.append((1 / (b[i] * b[i]) - 1 / (a[i] * a[i]), w + [-dot(w, t)]))
    if c.sym:
        for i in range(n):
            c.lemma(c.le(b[i] * b[i], a[i] * a[i]))
    reported(c, e, o, c.const(1), dec)


@suite.inst(params=[1, 2, 3])
def not_contained(c, n):
    """a point of the second outside the first, and a solver that says so"""
    e, o = ell(c, n, "e"), ell(c, n, "o")
    x = c.vec("x", n)
    c.assume(c.le(level(c, o, x), 0))
    c.assume(c.lt(0, level(c, e, x)) if c.sym else c.le(1e-3, level(c, e, x)))
    c.solver_infeasible()
    c.check("not contained", not ask(c, e, o))


@suite.inst()
def solver_passed(c):
    e, o = ell(c, 2, "e"), ell(c, 2, "o")
    if c.sym:
        e[0].contains_ellipsoid(o[0], solver="XYZ")
        c.check("solver", c.solver_used() == "XYZ")
        e[0].contains_ellipsoid(o[0])
        c.check("no solver", c.solver_used() is None)
    else:
        c.check("solver", True)
