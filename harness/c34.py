"""C34 Polyhedron construction, intersection and hull are set operations."""
import itertools
from symx.run import Suite
from .common import dot
from .c33 import faces, valid, dd

suite = Suite("C34", bounds="intervals, triangles, rectangles, simplices in dimensions 1 to 3, tetrahedra up to rotation, up to 4 points or half-spaces (rectangle pairs: 8), all coordinates; square, hexagon, pyramid, octahedron and cube of sizes 1/10 to 10 at positions up to 10 with further points and half-spaces, and pairs of them moved by named vectors, all query points",
              assumes=["exact real arithmetic", "the double-description library converts, and removes redundancy, correctly (contract model of cdd.Matrix / cdd.Polyhedron)"],
              max_paths=4000, ms=15000)


def det(c, D):
    if len(D) == 1:
        return D[0][0]
    if len(D) == 2:
        return D[0][0] * D[1][1] - D[0][1] * D[1][0]
    a, b, e = D
    return sum(a[i] * (b[(i + 1) % 3] * e[(i + 2) % 3] - b[(i + 2) % 3] * e[(i + 1) % 3]) for i in range(3))


def simplex_points(c, d):
    """d+1 affinely independent points, and an arbitrary point with its barycentric coordinates"""
    if d < 3:
        V = c.mat("V", d + 1, d)
        D = [V[k + 1] - V[0] for k in range(d)]
        c.assume(c.lt(0, det(c, D)))
    else:
        # up to rotation: edges in triangular position
        v = c.vec("v", 3)
        p, q, r = c.pos("p"), c.pos("q"), c.pos("r")
        D = [c.np.array([p, 0, 0]), c.np.array([c.real("d10"), q, 0]), c.np.array([c.real("d20"), c.real("d21"), r])]
        V = c.np.array([v] + [v + t for t in D])
    a = c.vec("a", d)
    x = V[0] + sum(a[k] * D[k] for k in range(d))
    return V, a, x


def in_simplex(c, a):
    return c.land(*([c.le(0, t) for t in a] + [c.le(sum(a), 1)]))


def has(c, P, x):
    return bool(c.cond(P.contains(x, tol=0)))


def orders(d):
    return [list(q) for q in itertools.permutations(range(d + 1))]


@suite.inst(params=[1, 2, 3])
def vertices_in(c, d):
    V, a, x = simplex_points(c, d)
    P = c.rg.ConvexPolyhedron.from_vertices(V)
    c.check("dim", P.dim == d and P.nv == d + 1 and P.nf == d + 1)
    c.iff("set", in_simplex(c, a), P.contains(x, tol=0))
    c.implies("default tolerance", in_simplex(c, a), P.contains(x))
    c.iff("many points", in_simplex(c, a), P.contains(c.np.array([V[0], x, V[1]]), tol=0)[1])
    c.iff("other orientation", in_simplex(c, a), c.rg.ConvexPolyhedron.from_vertices(V[::-1]).contains(x, tol=0))
    n, h = c.vec("n", d), c.real("h")
    c.iff("hull", valid(c, V, None, n, h), valid(c, P.vertices, None, n, h))


@suite.inst(params=[1, 2, 3])
def pruned_vertices(c, d):
    """one more point inside or on the boundary is pruned"""
    V, a, x = simplex_points(c, d)
    if d == 3:
        # one of the generic positions of the extra point
        c.assume(c.land(*[c.lt(0, t) for t in a]), )
        c.assume(c.lt(sum(a), 1))
    else:
        c.assume(in_simplex(c, a))
        c.assume(c.lnot(c.lor(*[c.land(*[c.same(a[k], c.const(int(k == j))) for k in range(d)]) for j in range(d + 1)])))
    P = c.rg.ConvexPolyhedron.from_vertices(c.np.vstack([V, [x]]), prune=True)
    c.check("count", P.nv == d + 1)
    n, h = c.vec("n", d), c.real("h")
    c.iff("hull", valid(c, V, None, n, h), valid(c, P.vertices, None, n, h))
    if d < 3:
        e = c.vec("e", d)
        y = V[0] + sum(e[k] * (V[k + 1] - V[0]) for k in range(d))
        c.iff("set", in_simplex(c, e), P.contains(y, tol=0))


@suite.inst(params=[1, 2, 3])
def simplices(c, d):
    e = c.np.array([c.pos("e%d" % k) for k in range(d)])
    P = c.rg.ConvexPolyhedron.simplex(e)
    x = c.vec("x", d)
    want = c.land(*([c.le(0, t) for t in x] + [c.le(sum(x[k] / e[k] for k in range(d)), 1)]))
    c.iff("set", want, P.contains(x, tol=0))
    c.check("counts", P.nv == d + 1 and P.dim == d)
    Q = c.rg.ConvexPolyhedron.simplex(list(e))
    c.iff("list", want, Q.contains(x, tol=0))


@suite.inst(params=[1, 2, 3])
def simplex_rejects(c, d):
    e = c.np.array([c.real("e%d" % k) for k in range(d)])
    c.assume(c.lnot(c.land(*[c.lt(0, t) for t in e])))
    c.raises("extent", lambda: c.rg.ConvexPolyhedron.simplex(e), AssertionError, ValueError)


@suite.inst(params=[(k, pr) for k in (2, 3) for pr in (False, True)])
def halfspaces_1d(c, p):
    k, prune = p
    A, b = c.mat("A", k, 1), c.vec("b", k)
    c.assume(c.lt(A[0, 0], 0))
    for i in range(1, k):
        c.assume(c.lt(0, A[i, 0]))
    c.assume(c.lt(b[0] / A[0, 0], b[1] / A[1, 0]))
    if k == 3:
        c.assume(c.lt(b[0] / A[0, 0], b[2] / A[2, 0]))
    P = c.rg.ConvexPolyhedron.from_halfspaces(A, b, prune=prune)
    x = c.vec("x", 1)
    want = c.land(*[c.le(A[i, 0] * x[0], b[i]) for i in range(k)])
    c.iff("set", want, P.contains(x, tol=0))
    c.check("two ends", P.nv == 2)
    n, h = c.vec("n", 1), c.real("h")
    c.check("vertices inside", c.land(*[c.lor(c.le(A[i, 0] * v[0], b[i]), c.same(A[i, 0] * v[0], b[i])) for v in P.vertices for i in range(k)]))
    # and they span it
    lo_, hi_ = [f(*[v[0] for v in P.vertices]) for f in (lambda u, w: u if c.cond(c.le(u, w)) else w, lambda u, w: w if c.cond(c.le(u, w)) else u)]
    c.implies("spanned", want, c.land(c.lor(c.le(lo_, x[0]), c.same(lo_, x[0])), c.lor(c.le(x[0], hi_), c.same(x[0], hi_))))
    if prune:
        c.check("pruned", P.nf == 2)


@suite.inst(params=[False, True])
def halfspaces_2d(c, prune):
    """a triangle cut out by its three sides"""
    V, a, x = simplex_points(c, 2)
    A = [[V[(i + 1) % 3][1] - V[i][1], V[i][0] - V[(i + 1) % 3][0]] for i in range(3)]
    s = [c.pos("s%d" % i) for i in range(3)]
    A = c.np.array([[s[i] * t for t in r] for i, r in enumerate(A)])
    b = c.np.array([dot(A[i], V[i]) for i in range(3)])
    P = c.rg.ConvexPolyhedron.from_halfspaces(A, b, prune=prune)
    c.iff("set", in_simplex(c, a), P.contains(x, tol=0))
    n, h = c.vec("n", 2), c.real("h")
    c.check("count", P.nv == 3)
    c.iff("hull", valid(c, V, None, n, h), valid(c, P.vertices, None, n, h))


@suite.inst(params=[1, 2, 3])
def unbounded(c, d):
    """half-spaces that leave a direction free"""
    A, b = c.mat("A", d, d), c.vec("b", d)
    c.assume(c.lt(0, det(c, A)))
    c.raises("corner", lambda: c.rg.ConvexPolyhedron.from_halfspaces(A, b), ValueError)
    W, v = A, b
    c.raises("vertex and ray", lambda: c.rg.ConvexPolyhedron(span_form=dd(c).SpanForm(vertices=[v], rays=W)), ValueError)
    c.raises("cone", lambda: c.rg.ConvexPolyhedron(span_form=dd(c).SpanForm(rays=W)), ValueError)
    if d == 2:
        c.raises("strip", lambda: c.rg.ConvexPolyhedron.from_halfspaces(c.np.array([A[0], -A[0]]), c.np.array([b[0], 1 - b[0]])), ValueError)


@suite.inst(params=[1, 2, 3])
def flat(c, d):
    """segments and points"""
    v, l = c.vec("v", d), c.vec("l", d)
    c.assume(c.lt(0, l[0]))
    if d == 3:
        l = c.np.array([l[0], l[1], c.const(0)])
    a = c.vec("a", d)
    ds = [l] + [c.np.array([(-l[k] if j == 0 else l[0] if j == k else c.const(0)) for j in range(d)]) for k in range(1, d)]
    x = v + sum(a[k] * ds[k] for k in range(d))
    zero = [c.same(t, c.const(0)) for t in a]
    P = c.rg.ConvexPolyhedron.from_vertices(c.np.array([v, v + l]))
    c.iff("segment", c.land(c.le(0, a[0]), c.le(a[0], 1), *zero[1:]), P.contains(x, tol=0))
    P = c.rg.ConvexPolyhedron.from_vertices(c.np.array([v]))
    c.iff("point", c.land(*zero), P.contains(x, tol=0))


def interval(c, tag):
    u, w = c.real(tag + "0"), c.pos(tag + "w")
    return u, u + w


@suite.inst()
def intersect_intervals(c):
    a, b = interval(c, "p")
    e, f = interval(c, "q")
    CP = c.rg.ConvexPolyhedron
    P, Q = CP.from_vertices(c.np.array([[a], [b]])), CP.from_vertices(c.np.array([[f], [e]]))
    x = c.vec("x", 1)
    both = c.land(c.le(a, x[0]), c.le(x[0], b), c.le(e, x[0]), c.le(x[0], f))
    meet = c.land(c.le(e, b), c.le(a, f))
    for tag, I in (("", P.intersect(Q)), ("reversed", Q.intersect(P))):
        if I is None:
            c.check("disjoint" + tag, c.lnot(meet))
        else:
            c.check("meet" + tag, meet)
            c.iff("set" + tag, both, I.contains(x, tol=0))
            c.check("inside" + tag, c.land(*[c.land(c.lor(c.le(s, v[0]), c.same(s, v[0])), c.lor(c.le(v[0], t), c.same(v[0], t)))
                                              for v in I.vertices for s, t in ((a, b), (e, f))]))
    c.iff("itself", c.land(c.le(a, x[0]), c.le(x[0], b)), P.intersect(P).contains(x, tol=0))


@suite.inst(params=[0, 1, 2])
def intersect_triangles(c, k):
    """a fixed triangle with a triangle in one symbolic parameter family"""
    CP = c.rg.ConvexPolyhedron
    T = c.np.array([[0, 0], [4, 0], [0, 4]]) * 1.0
    t = c.vec("t", 2) if k == 0 else c.np.array([c.real("t0"), c.const(0)]) if k == 1 else c.np.array([c.real("t0"), c.const(1)])
    U = (c.np.array([[0, 0], [2, 0], [0, 2]]) * 1.0 if k == 0 else c.np.array([[0, 0], [-2, 0], [0, -2]]) * 1.0 if k == 1 else c.np.array([[0, 0], [3, 1], [1, 3]]) * 1.0) + t
    P, Q = CP.from_vertices(T), CP.from_vertices(U)
    I = P.intersect(Q)
    x = c.vec("x", 2)
    if I is None:
        c.check("disjoint", c.lnot(c.land(P.contains(x, tol=0), Q.contains(x, tol=0))))
    else:
        c.iff("set", c.land(P.contains(x, tol=0), Q.contains(x, tol=0)), I.contains(x, tol=0))
        for v in I.vertices:
            c.check("common", c.land(faces(c, P.face_form, v), faces(c, Q.face_form, v)))


@suite.inst(params=[1, 2])
def intersect_rectangles(c, k):
    """axis-aligned rectangles; k symbolic offsets"""
    CP = c.rg.ConvexPolyhedron
    A = c.np.array([[1, 0], [-1, 0], [0, 1], [0, -1]]) * 1.0
    t = [c.real("t"), c.real("u") if k == 2 else c.const(1)]
    w, g = 2, 3
    P = CP.from_halfspaces(A, c.np.array([1, 1, 1, 1]) * 1.0)
    Q = CP.from_halfspaces(A, c.np.array([t[0] + w, w - t[0], t[1] + g, g - t[1]]))
    I = P.intersect(Q)
    x = c.vec("x", 2)
    both = c.land(*[c.land(c.le(-1, x[i]), c.le(x[i], 1), c.le(t[i] - s, x[i]), c.le(x[i], t[i] + s)) for i, s in ((0, w), (1, g))])
    if I is None:
        c.check("disjoint", c.lnot(both))
        c.check("apart", c.lor(*[c.lor(c.lt(1 + s, t[i]), c.lt(t[i], -1 - s)) for i, s in ((0, w), (1, g))]))
    else:
        c.iff("set", both, I.contains(x, tol=0))
        c.check("touch", c.land(*[c.land(c.le(t[i], 1 + s), c.le(-1 - s, t[i])) for i, s in ((0, w), (1, g))]))


@suite.inst(params=[(d, q) for d in (1, 2, 3) for q in (0, 1, 2)], ms=20000)
def same_set(c, p):
    """sameness does not depend on the representation"""
    d, q = p
    V, a, x = simplex_points(c, d)
    CP = c.rg.ConvexPolyhedron
    P = CP.from_vertices(V)
    o = orders(d)
    W = V[o[[len(o) - 1, 1, len(o) // 2][q]]]
    Q = CP.from_vertices(W)
    c.check("reordered", bool(c.cond(P.is_same(Q))) and bool(c.cond(Q.is_same(P))))
    c.check("other kind", not P.is_same("simplex"))


@suite.inst()
def same_intervals(c):
    a, b = interval(c, "p")
    e, f = interval(c, "q")
    CP = c.rg.ConvexPolyhedron
    P, Q = CP.from_vertices(c.np.array([[a], [b]])), CP.from_vertices(c.np.array([[e], [f]]))
    c.iff("same", c.land(c.same(a, e), c.same(b, f)), P.is_same(Q, tol=0))
    c.iff("symmetric", c.land(c.same(a, e), c.same(b, f)), Q.is_same(P, tol=0))


@suite.inst()
def same_triangles(c):
    """reported the same: each has the other's corners; a moved corner is noticed"""
    V, a, x = simplex_points(c, 2)
    CP = c.rg.ConvexPolyhedron
    P = CP.from_vertices(V)
    Q = CP.from_vertices(c.np.array([V[0], V[1], x]))
    c.assume(c.lnot(c.same(a[1], c.const(0))))
    c.iff("same", c.land(c.same(a[0], c.const(0)), c.same(a[1], c.const(1))), P.is_same(Q, tol=0))


@suite.inst(params=[(1, 1), (2, 1), (3, 1), (1, 2), (2, 2), (3, 2), (1, 3), (2, 3)])
def hull(c, p):
    n_, d = p
    V, n, h = c.mat("V", n_, d), c.vec("n", d), c.real("h")
    H = dd(c).convex_hull(V)
    c.iff("same set", valid(c, V, None, n, h), valid(c, H, None, n, h))
    c.check("points", c.land(*[c.lor(*[c.allsame(v, w) for w in V]) for v in H]))


@suite.inst(params=[0, 1])
def hull_four(c, k):
    """four points: corners of a triangle and a fourth point anywhere"""
    T = c.np.array([[0, 0], [4, 0], [0, 4]]) * 1.0
    x = c.vec("x", 2)
    V = c.np.vstack([T, [x]]) if k == 0 else c.np.vstack([[x], T])
    n, h = c.vec("n", 2), c.real("h")
    H = dd(c).convex_hull(V)
    c.iff("same set", valid(c, V, None, n, h), valid(c, H, None, n, h))
    inside = c.land(c.le(0, x[0]), c.le(0, x[1]), c.le(x[0] + x[1], 4))
    c.implies("no redundant point", inside, len(H) == 3)


@suite.inst(params=[(1, 1), (1, 2), (0, 2), (3, 3)])
def degenerate_hull(c, p):
    """repeated points and points on a segment"""
    v, l = c.vec("v", 3), c.vec("l", 3)
    c.assume(c.lt(0, dot(l, l)))
    s = c.real("s", lo=0, hi=1)
    V = c.np.array([v, v + l, v + s * l] + [v] * p[0])[: 2 + p[1]] if p[1] else None
    n, h = c.vec("n", 3), c.real("h")
    H = dd(c).convex_hull(V)
    c.iff("same set", valid(c, V, None, n, h), valid(c, H, None, n, h))
    c.check("two ends", len(H) == 2)


@suite.inst()
def empty_hull(c):
    V = c.np.zeros((0, 2))
    c.check("no points", len(dd(c).convex_hull(V)) == 0)


# -- larger named polytopes, of every size and position ---------------------------
CUBE = [list(v) for v in itertools.product((0, 2), repeat=3)]
BODIES = {
    # name: (vertices, other points of the set, inequalities a x <= b)
    "square": ([[0, 0], [2, 0], [2, 2], [0, 2]], [[1, 1], [1, 0], [2, 1]], [([1, 0], 2), ([-1, 0], 0), ([0, 1], 2), ([0, -1], 0)]),
    "hexagon": ([[2, 0], [1, 2], [-1, 2], [-2, 0], [-1, -2], [1, -2]], [[0, 0], [0, 2], [1, 1]],
                [([2, 1], 4), ([-2, 1], 4), ([2, -1], 4), ([-2, -1], 4), ([0, 1], 2), ([0, -1], 2)]),
    "pyramid": ([[0, 0, 0], [2, 0, 0], [0, 2, 0], [2, 2, 0], [1, 1, 3]], [[1, 1, 0], [1, 1, 1]],
                [([0, 0, -1], 0), ([3, 0, 1], 6), ([-3, 0, 1], 0), ([0, 3, 1], 6), ([0, -3, 1], 0)]),
    "octahedron": ([[s if i == j else 0 for j in range(3)] for i in range(3) for s in (2, -2)], [[0, 0, 0], [1, 1, 0], [0, 0, 1]],
                   [(list(s), 2) for s in itertools.product((1, -1), repeat=3)]),
    "cube": (CUBE, [[1, 1, 1], [0, 1, 1], [2, 2, 1]], [([s if i == j else 0 for j in range(3)], 2 if s > 0 else 0) for i in range(3) for s in (1, -1)]),
}


def within(c, rows, q):
    return c.land(*[c.le(sum(a * y for a, y in zip(r, q)), b) for r, b in rows])


def scaled(c, pts, k, t):
    return c.arr([[k * x + y for x, y in zip(p, t)] for p in pts])


@suite.inst(params=list(BODIES))
def named(c, p):
    vs, more, rows = BODIES[p]
    d = len(vs[0])
    CP = c.rg.ConvexPolyhedron
    k, t, q = c.real("k", "+", lo=c.const(1) / 10, hi=10), c.vec("t", d), c.vec("q", d)
    for y in t:
        c.assume(c.land(c.le(y, 10), c.le(-10, y)))
    x = k * q + t
    V = scaled(c, vs, k, t)
    P = CP.from_vertices(V)
    c.check("counts", P.nv == len(vs) and P.nf == len(rows) and P.dim == d)
    c.iff("from vertices", within(c, rows, q), P.contains(x, tol=0))
    Q = CP.from_vertices(scaled(c, more[:1] + vs[::-1] + more[1:], k, t), prune=True)
    c.check("pruned", Q.nv == len(vs))
    c.iff("from all points", within(c, rows, q), Q.contains(x, tol=0))
    A = c.arr([[a * 1.0 for a in r] for r, b in rows])
    b = c.arr([k * b + dot(r, t) for r, b in rows])
    F = CP.from_halfspaces(A, b)
    c.iff("from half-spaces", within(c, rows, q), F.contains(x, tol=0))
    c.check("vertices of the half-spaces", len(F.vertices) == len(vs))
    c.check_all("each vertex", [c.lor(*[c.allsame(v, w) for w in F.vertices]) for v in V])
    G = CP.from_halfspaces(c.np.vstack([A, A[:1]]), c.np.concatenate([b, b[:1] + k]), prune=True)
    c.iff("a looser half-space", within(c, rows, q), G.contains(x, tol=0))
    c.check("pruned faces", G.nf == len(rows))
    c.check("same", P.is_same(F) and F.is_same(P))
    H = dd(c).convex_hull(scaled(c, more[:1] + vs + more[1:], k, t))
    c.check("hull size", len(H) == len(vs))
    c.check_all("hull has each vertex", [c.lor(*[c.allsame(v, w) for w in H]) for v in V])
    T = P.transform(translation=t)
    c.iff("moved", within(c, rows, q), T.contains(x + t, tol=0))


@suite.inst(params=[("square", (1, 1)), ("square", (0, 2)), ("square", (3, 0)), ("hexagon", (2, 0)), ("pyramid", (1, 0, 0)), ("pyramid", (0, 0, 1)),
                    ("octahedron", (1, 1, 0)), ("cube", (1, 1, 1)), ("cube", (1, 0, -1)), ("cube", (2, 0, 0)), ("cube", (2, 2, 2)), ("cube", (0, 3, 0))])
def named_intersection(c, p):
    """with a copy moved by a named vector"""
    name, s = p
    vs, more, rows = BODIES[name]
    d = len(vs[0])
    CP = c.rg.ConvexPolyhedron
    k, t, q = c.real("k", "+", lo=c.const(1) / 10, hi=10), c.vec("t", d), c.vec("q", d)
    for y in t:
        c.assume(c.land(c.le(y, 10), c.le(-10, y)))
    x = k * q + t
    P, Q = CP.from_vertices(scaled(c, vs, k, t)), CP.from_vertices(scaled(c, [[a + b for a, b in zip(v, s)] for v in vs], k, t))
    both = c.land(within(c, rows, q), within(c, rows, [a - b for a, b in zip(q, s)]))
    for lab, I in (("", P.intersect(Q)), (" other way", Q.intersect(P))):
        if I is None:
            c.check("nothing in common" + lab, c.lnot(both))
        else:
            c.iff("common points" + lab, both, I.contains(x, tol=0))


@suite.inst()
def thousand(c):
    """a batch of 1100 rows, the last unlike the others"""
    e = [c.pos("e%d" % i) for i in range(3)]
    P = c.rg.ConvexPolyhedron.simplex(c.arr(e))
    q, r = c.vec("q", 3), c.vec("r", 3)

    def want(x):
        return c.land(c.le(0, x[0]), c.le(0, x[1]), c.le(0, x[2]), c.le(x[0] / e[0] + x[1] / e[1] + x[2] / e[2], 1))

    res = P.contains(c.arr([q] * 1099 + [r]), tol=0)
    c.shape("batch", res, (1100,))
    c.iff("first", res[0], want(q))
    c.iff("last", res[1099], want(r))
    for i in range(1, 1099):
        c.iff("row %d" % i, res[i], res[0])
