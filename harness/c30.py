"""C30 Random building blocks are well formed and reproducible."""
from symx.run import Suite
from .common import sumsq, mk

suite = Suite("C30", bounds="every draw the generator can yield; sample shapes of up to 12 samples, dimensions up to 6",
              assumes=["exact real arithmetic", "a vector of draws is not identically zero (probability zero)"])


def R(c):
    return c.mod("rigeo.random")


def gen(c):
    return c.rng("g")


def scalars(a, c):
    return [a] if not hasattr(a, "ravel") else [e for e in a.ravel()]


WSHAPES = [1, 2, 3, 4, (2, 2), (1, 3), (2, 1), (1, 2, 2), 8, (2, 5), (3, 2, 2)]


@suite.inst(params=WSHAPES)
def weights(c, p):
    w = R(c).random_weight_vectors(p, rng=gen(c))
    full = (p,) if isinstance(p, int) else p
    c.shape("shape", w, full)
    for e in scalars(w, c):
        c.check("non-negative", c.lor(c.le(0, e), c.same(e, 0)))
    s = w
    s = c.np.sum(w, axis=-1)
    for e in scalars(s, c):
        c.eq("sum", e, 1)


def check_shape(c, label, a, p, d):
    full = (p,) if isinstance(p, int) else tuple(p)
    ok = [full + (d,)] if p != 1 else [(d,)]
    if p == (1,):
        ok.append((d,))
    c.check("%s %s" % (label, ok[0]), tuple(a.shape) in ok)


PSHAPES = [(s, d) for d in (1, 2, 3) for s in (1, 2, (1,), (2,), (2, 2), (1, 2), (2, 1))] + [(1, 4), (1, 5), (7, 2), ((2, 3), 1), ((2, 2, 2), 2)]


@suite.inst(params=PSHAPES)
def sphere(c, p):
    s, d = p
    x = R(c).random_points_on_hypersphere(shape=s, dim=d, rng=gen(c))
    check_shape(c, "shape", x, s, d + 1)
    for v in x.reshape((-1, d + 1)):
        c.eq("unit", sumsq(v), 1)


@suite.inst()
def sphere_default(c):
    x = R(c).random_points_on_hypersphere(rng=gen(c))
    c.shape("shape", x, (3,))
    c.eq("unit", sumsq(x), 1)


@suite.inst(params=[(s, d) for d in (2, 3) for s in (1, 2, (1,), (2,), (2, 2), (1, 2), (2, 1))] + [(1, 4), (1, 5), (7, 3), ((2, 3), 2), ((2, 2, 2), 3)])
def ball(c, p):
    s, d = p
    x = R(c).random_points_in_ball(shape=s, dim=d, rng=gen(c))
    check_shape(c, "shape", x, s, d)
    for v in x.reshape((-1, d)):
        q = sumsq(v)
        c.check("norm", c.lor(c.le(q, 1), c.same(q, 1)))


@suite.inst()
def ball_default(c):
    x = R(c).random_points_in_ball(rng=gen(c))
    c.shape("shape", x, (3,))
    c.check("norm", c.lor(c.le(sumsq(x), 1), c.same(sumsq(x), 1)))


@suite.inst(params=[1, 2, 3, 4, 5, 6])
def psd(c, n):
    A = R(c).random_psd_matrix(n, rng=gen(c))
    c.shape("shape", A, (n, n))
    for i in range(n):
        for j in range(i):
            c.eq("symmetric", A[i, j], A[j, i])
    z = c.vec("z", n)
    q = z @ A @ z
    # the same draws, as a matrix: the form is a sum of squares
    M = gen(c).uniform(-1, 1, size=(n, n))
    c.check_sos("form", q, [[(1, e) for e in F @ z] for F in (M, M.T)])


@suite.inst()
def inertial(c):
    p = c.rg.InertialParameters.random(rng=gen(c))
    c.check("mass", c.lt(0, p.mass))
    c.eq("symmetric", p.J, p.J.T)
    z = c.vec("z", 4)
    q = z @ p.J @ z
    g = gen(c)
    g.random()
    g.random(3)
    M = g.uniform(-1, 1, size=(3, 3))
    com = [(p.mass, z[0] * p.com[0] + z[1] * p.com[1] + z[2] * p.com[2] + z[3])]
    c.check_sos("form", q, [[(1, e) for e in F @ z[:3]] + com for F in (M, M.T)])


def twice(c, label, f):
    """equal seeds and equal generators give equal samples"""
    a, b = f(7), f(7)
    c.eq(label + " seed", a, b)
    a, b = f(gen(c)), f(gen(c))
    c.eq(label + " generator", a, b)
    # the generator is advanced: a second sample is not a copy of the first
    g = gen(c)
    f(g)


@suite.inst()
def reproducible(c):
    r = R(c)
    twice(c, "weights", lambda g: r.random_weight_vectors((2, 2), rng=g))
    twice(c, "sphere", lambda g: r.random_points_on_hypersphere(shape=2, dim=2, rng=g))
    twice(c, "ball", lambda g: r.random_points_in_ball(shape=2, dim=3, rng=g))
    twice(c, "psd", lambda g: r.random_psd_matrix(2, rng=g))
    twice(c, "inertial", lambda g: c.rg.InertialParameters.random(rng=g).J)
    m, v = c.rg.SV(linear=c.vec("a", 3), angular=c.vec("b", 3)), c.rg.SV(linear=c.np.ones(3), angular=c.np.ones(3))
    twice(c, "spatial vector", lambda g: c.rg.SV.random_diag_normal(m, v, rng=g).vec)


@suite.inst(params=["box", "ellipsoid", "cylinder", "simplex"])
def reproducible_shapes(c, p):
    s = mk(c, p, c.np.eye(3), c.vec("t", 3)).s
    twice(c, "one", lambda g: s.random_points(rng=g))
    twice(c, "two", lambda g: s.random_points(shape=2, rng=g))


@suite.inst()
def reproducible_surface(c):
    s = mk(c, "box", c.np.eye(3), c.vec("t", 3)).s
    twice(c, "surface", lambda g: s.random_points_on_surface(rng=g))
    twice(c, "edges", lambda g: s.random_points_on_edges(rng=g))


@suite.inst()
def spatial_normal(c):
    m, v = c.rg.SV(linear=c.vec("a", 3), angular=c.vec("b", 3)), c.rg.SV(linear=c.np.ones(3), angular=c.np.ones(3))
    x = c.rg.SV.random_diag_normal(m, v, rng=gen(c))
    c.shape("vec", x.vec, (6,))
    c.shape("linear", x.linear, (3,))
    g = gen(c)
    w = g.multivariate_normal(mean=m.vec, cov=c.np.diag(v.vec))
    c.eq("drawn with the given mean and covariance", x.vec, w)
