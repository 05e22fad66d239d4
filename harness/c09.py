"""C09 A box is one set, however it is built and queried."""
import itertools
from symx.run import Suite
from .common import same_rows, half_extents, place, mk_box, diag

suite = Suite("C09", bounds="all half extents > 0 (0 in the flat instances), rotations, centres, query points and tolerances; batches of up to 12 query points (1100 with two distinct ones), bounding of up to 4 points",
              assumes=["exact real arithmetic"])


def corners(h):
    return [[s[i] * h[i] for i in range(3)] for s in itertools.product((1, -1), repeat=3)]


@suite.inst(params=[(), (0,), (1,), (2,), (0, 1)])
def vertices(c, p):
    R, t = place(c)
    b = mk_box(c, R, t, zero=p)
    h = b.size
    V = b.s.vertices
    c.shape("vertices", V, (8, 3))
    loc = (V - t) @ R
    ok = [c.lor(*[c.allsame(v, k) for k in corners(h)]) for v in loc]
    c.check_all("vertex is a corner", ok)
    c.check_all("corner is a vertex", [c.lor(*[c.allsame(v, k) for v in loc]) for k in corners(h)])
    c.eq("half extents", b.s.half_extents, h)
    c.eq("side lengths", b.s.side_lengths, 2 * h)
    c.eq("rotation", b.s.rotation, R)
    c.eq("center", b.s.center, t)
    c.eq("volume", b.s.volume, 8 * h[0] * h[1] * h[2])
    c.eq("diagonal", b.s.diaglen * b.s.diaglen, 4 * (h[0] * h[0] + h[1] * h[1] + h[2] * h[2]))
    c.check("diagonal sign", c.le(0, b.s.diaglen))
    c.check("dim", b.s.dim == 3)
    c.check("nv", b.s.nv == 8)
    c.check("nf", b.s.nf == 6)


@suite.inst(params=[(), (1,)])
def membership(c, p):
    R, t = place(c)
    b = mk_box(c, R, t, zero=p)
    q = c.vec("q", 3)
    tol = c.nonneg("tol")
    x = b.world(q)
    c.iff("contains", b.s.contains(x, tol=tol), b.inside(q, tol))
    c.iff("exact contains", b.s.contains(x, tol=0), b.inside(q))
    # half-space form
    A, bb = b.s.A, b.s.b
    c.iff("half-spaces", c.land(*[c.le(e, f) for e, f in zip(A @ x, bb)]), b.inside(q))


@suite.inst()
def default_tolerance(c):
    R, t = place(c)
    b = mk_box(c, R, t)
    q = c.vec("q", 3)
    x = b.world(q)
    c.implies("points of the box are contained", b.inside(q), b.s.contains(x))
    c.implies("points further off are not", b.s.contains(x), b.inside(q, c.const(1) / 10**6))


@suite.inst()
def batch(c):
    R, t = place(c)
    b = mk_box(c, R, t)
    q, r = c.vec("q", 3), c.vec("r", 3)
    X = c.arr([b.world(q), b.world(r)])
    res = b.s.contains(X, tol=0)
    c.shape("batch", res, (2,))
    c.iff("first", res[0], b.inside(q))
    c.iff("second", res[1], b.inside(r))
    one = b.s.contains(c.arr([b.world(q)]), tol=0)
    c.shape("one row", one, (1,))
    c.iff("one", one[0], b.inside(q))


@suite.inst(params=["cube", "sides", "sides-list", "default"])
def constructors(c, p):
    R, t = place(c)
    B = c.rg.Box
    if p == "cube":
        a = c.nonneg("a")
        b, h = B.cube(a, center=t, rotation=R), [a, a, a]
    elif p.startswith("sides"):
        s = c.arr([c.nonneg("s%d" % i) for i in range(3)])
        b, h = B.from_side_lengths(s if p == "sides" else list(s), center=t, rotation=R), [x / 2 for x in s]
    else:
        h = half_extents(c)
        b = B(h)
        R, t = c.np.eye(3), c.np.zeros(3)
    c.eq("half extents", b.half_extents, c.arr(h))
    c.eq("center", b.center, t)
    c.eq("rotation", b.rotation, R)
    q = c.vec("q", 3)
    c.iff("set", b.contains(R @ q + t, tol=0), c.land(*[c.land(c.le(q[i], h[i]), c.le(-h[i], q[i])) for i in range(3)]))


@suite.inst(params=["array", "list"])
def opposed_vertices(c, p):
    v, w = c.vec("v", 3), c.vec("w", 3)
    b = c.rg.Box.from_two_vertices(v, w) if p == "array" else c.rg.Box.from_two_vertices(list(v), list(w))
    q = c.vec("q", 3)
    btw = []
    for i in range(3):
        btw.append(c.lor(c.land(c.le(v[i], q[i]), c.le(q[i], w[i])), c.land(c.le(w[i], q[i]), c.le(q[i], v[i]))))
    c.iff("set", b.contains(q, tol=0), c.land(*btw))
    c.eq("center", b.center, (v + w) / 2)
    c.check("v", b.contains(v, tol=0))
    c.check("w", b.contains(w, tol=0))


@suite.inst(params=[1, 2, 3, 4])
def bounding(c, p):
    P = c.mat("p", p, 3)
    b = c.rg.Box.from_points_to_bound(P)
    for i in range(p):
        c.check("contains p%d" % i, b.contains(P[i], tol=0))
    for k in range(3):
        hi, lo = b.center[k] + b.half_extents[k], b.center[k] - b.half_extents[k]
        c.check("touched above", c.lor(*[c.same(hi, P[i][k]) for i in range(p)]))
        c.check("touched below", c.lor(*[c.same(lo, P[i][k]) for i in range(p)]))
    c.eq("axis-aligned", b.rotation, c.np.eye(3))


@suite.inst(params=["moved", "origin"])
def polyhedron(c, p):
    if p == "moved":
        R, t = place(c)
    else:
        R, t = c.np.eye(3), c.np.zeros(3)
    b = mk_box(c, R, t)
    poly = b.s.as_poly()
    c.check("type", type(poly).__name__ == "ConvexPolyhedron")
    same_rows(c, "vertices", poly.vertices, b.s.vertices)
    q = c.vec("q", 3)
    x = b.world(q)
    c.iff("same set", poly.contains(x, tol=0), b.inside(q))


@suite.inst()
def rejects(c):
    a = c.pos("a")
    c.raises("negative", lambda: c.rg.Box(c.arr([a, -a, a])), AssertionError, ValueError)
    c.raises("negative cube", lambda: c.rg.Box.cube(-a), AssertionError, ValueError)
    c.raises("two numbers", lambda: c.rg.Box(c.arr([a, a])), AssertionError, ValueError)


@suite.inst(params=[7, 12])
def many(c, n):
    """long batches; every row is judged by itself"""
    R, t = place(c)
    b = mk_box(c, R, t)
    q = [c.vec("q%d_" % i, 3) for i in range(n)]
    tol = c.nonneg("tol")
    X = c.arr([b.world(x) for x in q])
    res, exact = b.s.contains(X, tol=tol), b.s.contains(X, tol=0)
    c.shape("batch", res, (n,))
    for i in range(n):
        c.iff("tol %d" % i, res[i], b.inside(q[i], tol))
        c.iff("exact %d" % i, exact[i], b.inside(q[i]))


@suite.inst()
def thousand(c):
    """a batch of 1100 rows, the last unlike the others"""
    R, t = place(c)
    b = mk_box(c, R, t)
    q, r = c.vec("q", 3), c.vec("r", 3)
    tol = c.nonneg("tol")
    X = c.arr([b.world(q)] * 1099 + [b.world(r)])
    res = b.s.contains(X, tol=tol)
    c.shape("batch", res, (1100,))
    c.iff("first", res[0], b.inside(q, tol))
    c.iff("last", res[1099], b.inside(r, tol))
    for i in range(1, 1099):
        c.iff("row %d" % i, res[i], res[0])
