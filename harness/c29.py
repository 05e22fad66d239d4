"""C29 Rejection sampling returns only accepted points or an error."""
from symx.run import Suite
from .common import mk, lo

suite = Suite("C29", bounds="up to 3 requested points and 3 tries (all patterns of acceptance; up to 12 points and 12 tries for named patterns), one or two target shapes, every candidate and every answer of the targets",
              assumes=["exact real arithmetic", "the bounding shape returns an (n, 3) array of candidates, a single point as a 3-vector (the convention of every shape of the package)"], max_paths=6000)


class Bound:
    """yields arbitrary candidates"""

    def __init__(self, c):
        self.c, self.batches, self.rngs = c, [], []

    def random_points(self, shape=1, rng=None):
        n = int(shape) if not isinstance(shape, tuple) else int(shape[0])
        k = len(self.batches)
        pts = [[self.c.real("p%d_%d_%d" % (k, i, j)) for j in range(3)] for i in range(n)]
        self.batches.append(pts)
        self.rngs.append(rng)
        return self.c.arr(pts[0]) if n == 1 and shape in (1, (1,)) else self.c.arr(pts)


class Target:
    """accepts an arbitrary subset of the candidates"""

    def __init__(self, c, bound, tag, pattern=None):
        self.c, self.bound, self.tag, self.flags, self.pattern = c, bound, tag, {}, pattern

    def contains(self, points, tol=1e-8):
        k = len(self.bound.batches) - 1
        n = len(self.bound.batches[k])
        v = [self.c.real("%s%d_%d" % (self.tag, k, i)) for i in range(n)]
        for i in range(n):
            self.flags[k, i] = v[i]
            if self.pattern:
                self.c.assume(self.c.le(0, v[i]) if self.pattern(k, i) else self.c.lt(v[i], 0))
        a = self.c.arr(v)
        return (a if points.ndim == 2 else a[0]) >= 0


def accepted(c, bound, targets):
    """candidates some target accepts, in the order they were generated"""
    out = []
    for k, b in enumerate(bound.batches):
        for i, q in enumerate(b):
            if c.cond(c.lor(*[c.le(0, t.flags[k, i]) for t in targets if (k, i) in t.flags])):
                out.append(q)
    return out


def want_shape(p):
    if p in (1, (1,)):
        return [(3,)] + ([(1, 3)] if p == (1,) else [])
    return [((p,) if isinstance(p, int) else p) + (3,)]


def sample(c, p, tries, ntargets, pattern=None):
    bound = Bound(c)
    targets = [Target(c, bound, "ab"[i], pattern) for i in range(ntargets)]
    n = p if isinstance(p, int) else 1
    if not isinstance(p, int):
        for e in p:
            n *= e
    g = c.rng("g")
    kw = {} if tries is None else {"max_tries": tries}
    try:
        r = c.mod("rigeo.random").rejection_sample(targets, bound, p, rng=g, **kw)
    except ValueError:
        r = None
    acc = accepted(c, bound, targets)
    c.check("the generator is handed on", all(h is g for h in bound.rngs))
    if tries is not None:
        c.check("at most the allowed tries", len(bound.batches) <= tries)
    if r is None:
        c.check("gives up only after the allowed tries", tries is not None and len(bound.batches) == tries)
        c.check("gives up only if too few were accepted", len(acc) < n)
        return
    c.check("shape", tuple(r.shape) in want_shape(p))
    c.check("enough were accepted", len(acc) >= n)
    r = r.reshape((n, 3))
    for i in range(min(n, len(acc))):
        c.eq("point %d" % i, r[i], c.arr(acc[i]))


@suite.inst(params=[(p, t) for p in (1, 2, (1,), (2,), (2, 1), (1, 2)) for t in (1, 2, 3)] + [(3, 1), (3, 2)])
def one_target(c, p):
    sample(c, p[0], p[1], 1)


@suite.inst(params=[(1, 1), (1, 2), (2, 1), (2, 2), ((2,), 1)])
def two_targets(c, p):
    sample(c, p[0], p[1], 2)


@suite.inst()
def no_tries(c):
    bound = Bound(c)
    c.raises("no tries allowed", lambda: c.mod("rigeo.random").rejection_sample([Target(c, bound, "a")], bound, 1, max_tries=0, rng=c.rng("g")), ValueError)


@suite.inst(max_paths=40)
def default_tries(c):
    """every candidate of the first batch is accepted"""
    sample(c, 2, None, 1, lambda k, i: True)


@suite.inst(params=[1, 2])
def shapes(c, p):
    """candidates of a box, kept if they are in one of two shapes"""
    t = c.vec("t", 3)
    I = c.np.eye(3)
    big = c.rg.Box(half_extents=[3, 3, 3], center=t)
    sph = c.rg.Ellipsoid(half_extents=[1, 2, 1], center=t)
    box = c.rg.Box(half_extents=[1, 1, 2], center=t + c.arr([2, 0, 0]))
    try:
        r = c.mod("rigeo.random").rejection_sample([sph, box], big, p, max_tries=1, rng=c.rng("g"))
    except ValueError:
        c.check("no", True)
        return
    for q in r.reshape((p, 3)):
        u = q - t
        s = u[0] * u[0] + u[1] * u[1] / 4 + u[2] * u[2]
        tol = c.const(1) / 10**6
        inb = c.land(*[c.land(c.le(v, h + tol), c.le(-h - tol, v)) for v, h in zip([u[0] - 2, u[1], u[2]], (1, 1, 2))])
        c.check("in one of them", c.lor(c.le(s, 1 + tol), inb))


@suite.inst(max_paths=200)
def capsule_request(c):
    """the real caller: a capsule samples inside its bounding box"""
    s = c.rg.Cylinder(length=2, radius=1, center=c.vec("t", 3)).capsule()
    g = c.rng("g")
    big = s.mbb()
    q = big.random_points(1, rng=c.rng("g"))
    c.assume(s.contains(q))
    x = s.random_points(rng=g)
    c.eq("first accepted candidate", x, q)


@suite.inst(params=[(5, "1100100", 4), (4, "0000000", 3), (6, "1111110", 2), (7, "1011011", 3), (12, "1000100", 12), ((3, 4), "0110100", 12)])
def longer(c, p):
    """more points and tries: one pattern of accepted candidates for every try"""
    n, pattern, tries = p
    sample(c, n, tries, 1, lambda k, i: pattern[(k + i) % 7] == "1")


class Drawn:
    """candidates drawn from the generator it is given"""

    def __init__(self, c):
        self.c, self.batches = c, []

    def random_points(self, shape=1, rng=None):
        n = int(shape) if not isinstance(shape, tuple) else int(shape[0])
        r = self.c.np.random.default_rng(rng).random((n, 3))
        self.batches.append(r)
        return r[0] if n == 1 and shape in (1, (1,)) else r


@suite.inst(params=[(2, 3, "010"), (3, 4, "1000100"), (5, 4, "1010010")])
def seeded(c, p):
    """every try draws fresh candidates, also if a seed is given"""
    n, tries, pattern = p
    bound = Drawn(c)
    t = Target(c, bound, "a", lambda k, i: pattern[(k + i) % len(pattern)] == "1")
    try:
        c.mod("rigeo.random").rejection_sample([t], bound, n, rng=5, max_tries=tries)
    except ValueError:
        pass
    g = c.np.random.default_rng(5)
    for k, b in enumerate(bound.batches):
        c.eq("candidates of try %d" % k, b, g.random((len(b), 3)))
