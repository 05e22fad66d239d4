"""C31 Grids consist of points of the shape."""
import itertools
from symx.run import Suite
from .common import mk, place, half_extents

suite = Suite("C31", bounds="grid sizes 1 to 4 per axis for boxes (1 to 7 if unequal), all placements; 1 to 3 for the other kinds, rotated about one axis at a time (n = 2: by any angle; n = 3: unrotated)",
              assumes=["exact real arithmetic"])


def lin(L, U, n):
    return [L + (U - L) * i / (n - 1) for i in range(n)] if n > 1 else [L]


@suite.inst(params=[1, 2, 3, 4, (2, 3, 1), (1, 2, 4), (3, 2, 2), (1, 1, 7), (5, 2, 1), (1, 6, 2)])
def box(c, p):
    S = mk(c, "box")
    h = S.size
    G = S.s.grid(list(p) if isinstance(p, tuple) else p)
    n = p if isinstance(p, tuple) else (p,) * 3
    axes = [lin(-h[i], h[i], n[i]) for i in range(3)]
    want = [S.world(c.arr(q)) for q in itertools.product(*axes)]
    c.shape("count", G, (len(want), 3))
    # every expected point occurs; together with the count that is all of them
    for k, w in enumerate(want):
        c.check("point %d" % k, c.lor(*[c.allsame(w, g) for g in G]))
    for k, g in enumerate(G):
        c.check("in box %d" % k, S.s.contains(g, tol=0))


def spin(c, axis):
    a = c.rot2("a")
    R = c.np.eye(3)
    i, j = [x for x in range(3) if x != axis]
    R[i, i], R[i, j], R[j, i], R[j, j] = a[0, 0], a[0, 1], a[1, 0], a[1, 1]
    return R


def part_of_box_grid(c, S, n, exact=True):
    G = S.s.grid(n)
    B = S.s.aabb().grid(n)
    tol = c.const(1) / 10**8
    c.check("dims", len(G.shape) == 2 and G.shape[1] == 3)
    k = 0
    for i, b in enumerate(B):
        inn = S.s.contains(b)
        there = c.lor(*[c.allsame(b, g) for g in G])
        c.implies("kept %d" % i, inn, there)
    for i, g in enumerate(G):
        c.check("contained %d" % i, S.s.contains(g))
        if exact:
            c.check("inside %d" % i, S.inside(S.R.T @ (g - S.t), tol))
        c.check("of the box grid %d" % i, c.lor(*[c.allsame(b, g) for b in B]))


@suite.inst(params=["ellipsoid", "cylinder", "capsule", "simplex"])
def one(c, p):
    S = mk(c, p, c.np.eye(3), c.vec("t", 3))
    part_of_box_grid(c, S, 1, p != "simplex")


@suite.inst(params=["ellipsoid", "cylinder", "capsule", "simplex"])
def unrotated2(c, p):
    S = mk(c, p, c.np.eye(3), c.vec("t", 3))
    part_of_box_grid(c, S, 2, p != "simplex")


@suite.inst(params=["ellipsoid", "cylinder", "capsule", "simplex", "pyramid", "octahedron"])
def unrotated3(c, p):
    S = mk(c, p, c.np.eye(3), c.vec("t", 3))
    part_of_box_grid(c, S, 3, p in ("ellipsoid", "cylinder", "capsule"))


@suite.inst(params=[k + ":" + str(n) for k in ("cylinder", "capsule", "ellipsoid", "simplex") for n in (2, 3)])
def tilted(c, p):
    """turned by a 3-4-5 angle"""
    k, n = p.split(":")
    f = c.const(1) / 5
    S = mk(c, k, c.arr([[3 * f, 0, 4 * f], [0, 1, 0], [-4 * f, 0, 3 * f]]), c.vec("t", 3))
    if k != "ellipsoid":
        # bounded proportions
        xs = list(S.size)
        for x in xs:
            c.assume(c.le(x, 4 * xs[0]))
            c.assume(c.le(xs[0], 4 * x))
            c.assume(c.le(c.const(1) / 100, x))
    part_of_box_grid(c, S, int(n), k != "simplex")


@suite.inst(params=["ellipsoid", "ellipsoid-2"])
def rotated2(c, p):
    S = mk(c, p, spin(c, 1), c.vec("t", 3))
    part_of_box_grid(c, S, 2)


@suite.inst()
def rejects(c):
    S = mk(c, "ellipsoid")
    c.raises("no points", lambda: S.s.grid(0), AssertionError, ValueError)
