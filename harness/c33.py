"""C33 Face and span forms convert without changing the polyhedron."""
import itertools
from symx.run import Suite
from .common import dot

suite = Suite("C33", bounds="all real coefficients; up to 4 rows or generators in dimensions 1 to 3, every choice of equality and line rows; "
              "the library's own conversions in dimensions 1 and 2 with up to 3 generators or rows",
              assumes=["exact real arithmetic", "the double-description library converts, and removes redundancy, correctly (contract model of cdd.Matrix / cdd.Polyhedron)"], max_paths=4000)


def dd(c):
    return c.mod("rigeo.polydd")


def faces(c, F, x):
    return c.land(*[c.lor(c.le(dot(a, x), b), c.same(dot(a, x), b)) for a, b in zip(F.A, F.b)])


def rows(c, mat, x):
    """the set {x : row [1 x] >= 0, = 0 for the linear rows}"""
    out = []
    for i in range(mat.row_size):
        r = mat[i]
        s = r[0] + dot(r[1:], x)
        out.append(c.same(s, c.const(0)) if i in mat.lin_set else c.lor(c.le(0, s), c.same(s, c.const(0))))
    return c.land(*out)


def valid(c, V, R, n, h):
    """n.x <= h holds on conv(V) + cone(R)"""
    # without vertices the set is a cone with apex at the origin
    out = [c.lor(c.le(dot(v, n), h), c.same(dot(v, n), h)) for v in ([0 * n] if V is None else V)]
    out += [c.lor(c.le(dot(r, n), 0), c.same(dot(r, n), c.const(0))) for r in ([] if R is None else R)]
    return c.land(*out)


def valid_rows(c, mat, n, h):
    out = []
    if all(mat[i][0] == 0 for i in range(mat.row_size)):
        out.append(c.le(0, h))
    for i in range(mat.row_size):
        g = mat[i]
        s = g[0] * h - dot(g[1:], n)
        out.append(c.same(s, c.const(0)) if i in mat.lin_set else c.lor(c.le(0, s), c.same(s, c.const(0))))
    return c.land(*out)


SIZES = [(1, 1), (2, 1), (2, 2), (3, 3), (4, 3)]


@suite.inst(params=SIZES)
def face_write(c, p):
    n, d = p
    A, b, x = c.mat("A", n, d), c.vec("b", n), c.vec("x", d)
    F = dd(c).FaceForm(A_ineq=A, b_ineq=b)
    c.check("sizes", F.nf == n and F.dim == d)
    m = F.to_cdd_matrix()
    c.check("kind", m.rep_type == dd(c).cdd.RepType.INEQUALITY)
    c.iff("set", c.land(*[c.lor(c.le(dot(A[i], x), b[i]), c.same(dot(A[i], x), b[i])) for i in range(n)]), rows(c, m, x))
    c.iff("read back", faces(c, F, x), faces(c, dd(c).FaceForm.from_cdd_matrix(m), x))


@suite.inst(params=[(2, 1, 1), (1, 2, 2), (2, 2, 1), (1, 1, 3), (2, 2, 3)])
def face_equalities(c, p):
    n, k, d = p
    A, b, E, e, x = c.mat("A", n, d), c.vec("b", n), c.mat("E", k, d), c.vec("e", k), c.vec("x", d)
    F = dd(c).FaceForm(A, b, E, e)
    want = c.land(*([c.lor(c.le(dot(A[i], x), b[i]), c.same(dot(A[i], x), b[i])) for i in range(n)] + [c.same(dot(E[i], x), e[i]) for i in range(k)]))
    c.iff("set", want, faces(c, F, x))
    c.iff("written", want, rows(c, F.to_cdd_matrix(), x))


@suite.inst(params=[(n, d, S) for n, d in [(1, 1), (2, 1), (2, 2), (3, 2), (3, 3), (4, 3)]
                    for k in range(n + 1) for S in [tuple(range(k)), tuple(range(n - k, n)), tuple(range(n))[::2][:k]]][:60])
def face_read(c, p):
    """any choice of equality rows"""
    n, d, S = p
    M, x = c.mat("M", n, d + 1), c.vec("x", d)
    cdd = dd(c).cdd
    ine = [i for i in range(n) if i not in S]
    m = cdd.Matrix(M[list(S) + ine].tolist())
    m.lin_set = frozenset(range(len(S)))
    m.rep_type = cdd.RepType.INEQUALITY
    F = dd(c).FaceForm.from_cdd_matrix(m)
    c.iff("set", rows(c, m, x), faces(c, F, x))
    m = cdd.Matrix(M.tolist())
    m.lin_set = frozenset(S)
    m.rep_type = cdd.RepType.INEQUALITY
    F = dd(c).FaceForm.from_cdd_matrix(m)
    c.iff("set, scattered equalities", rows(c, m, x), faces(c, F, x))


@suite.inst(params=SIZES)
def stack(c, p):
    n, d = p
    A, b, B, e, x = c.mat("A", n, d), c.vec("b", n), c.mat("B", 2, d), c.vec("e", 2), c.vec("x", d)
    F, G = dd(c).FaceForm(A, b), dd(c).FaceForm(B, e)
    c.iff("intersection", c.land(faces(c, F, x), faces(c, G, x)), faces(c, F.stack(G), x))
    c.iff("reversed", c.land(faces(c, F, x), faces(c, G, x)), faces(c, G.stack(F), x))
    c.iff("with itself", faces(c, F, x), faces(c, F.stack(F), x))


def rot(c, d):
    if d == 1:
        return c.np.eye(1) * (1 if c.cond(c.le(c.real("flip"), 0)) else -1)
    return c.rotn("R", d) if d == 2 else c.rot("R")


@suite.inst(params=[(2, 1), (2, 2), (3, 3)])
def face_transform(c, p):
    n, d = p
    A, b, x, t = c.mat("A", n, d), c.vec("b", n), c.vec("x", d), c.vec("t", d)
    R = rot(c, d)
    F = dd(c).FaceForm(A, b)
    c.iff("moved", faces(c, F, x), faces(c, F.transform(R, t), R @ x + t))
    c.iff("rotated", faces(c, F, x), faces(c, F.transform(rotation=R), R @ x))
    c.iff("translated", faces(c, F, x), faces(c, F.transform(translation=t), x + t))
    c.iff("unmoved", faces(c, F, x), faces(c, F.transform(), x))


def gens(c, nv, nr, nl, d):
    V = c.mat("V", nv, d) if nv else None
    W = c.mat("W", nr, d) if nr else None
    L = c.mat("L", nl, d) if nl else None
    return V, W, L


def allrays(W, L):
    return ([] if W is None else list(W)) + ([] if L is None else list(L) + [-l for l in L])


GENS = [(1, 0, 0, 1), (2, 1, 0, 1), (0, 1, 0, 1), (1, 0, 1, 1), (2, 2, 0, 2), (3, 0, 0, 2), (0, 2, 1, 2), (0, 0, 2, 2), (1, 1, 1, 3),
        (4, 0, 0, 3), (2, 0, 2, 3), (0, 3, 0, 3)]


@suite.inst(params=GENS)
def span_write(c, p):
    nv, nr, nl, d = p
    V, W, L = gens(c, nv, nr, nl, d)
    n, h = c.vec("n", d), c.real("h")
    S = dd(c).SpanForm(vertices=V, rays=W, span=L)
    R = allrays(W, L)
    c.check("counts", S.nv == nv and S.nr == nr + 2 * nl and S.dim == d)
    c.check("bounded", c.lnot(c.lor(bool(S.bounded()) != (nv > 0 and not R))))
    c.check("cone", c.lnot(c.lor(bool(S.is_cone()) != (nv == 0))))
    c.iff("set", valid(c, V, R, n, h), valid(c, S.vertices, S.rays, n, h))
    m = S.to_cdd_matrix()
    c.check("kind", m.rep_type == dd(c).cdd.RepType.GENERATOR)
    c.iff("written", valid(c, V, R, n, h), valid_rows(c, m, n, h))
    T = dd(c).SpanForm.from_cdd_matrix(m)
    c.iff("read back", valid(c, V, R, n, h), valid(c, T.vertices, T.rays, n, h))
    c.check("kinds kept", (T.vertices is None) == (nv == 0) and (T.rays is None) == (not R))


@suite.inst(params=GENS)
def span_read(c, p):
    """lines of the library's matrix become opposite rays; vertices, rays and lines in any order"""
    nv, nr, nl, d = p
    V, W, L = gens(c, nv, nr, nl, d)
    n, h = c.vec("n", d), c.real("h")
    cdd = dd(c).cdd
    rs = [[1] + list(v) for v in ([] if V is None else V)] + [[0] + list(r) for r in ([] if W is None else W)]
    ls = [[0] + list(l) for l in ([] if L is None else L)]
    for tag, rr, lin in [("lines last", rs + ls, range(len(rs), len(rs) + len(ls))), ("lines first", ls + rs[::-1], range(len(ls)))]:
        m = cdd.Matrix(rr)
        m.lin_set = frozenset(lin)
        m.rep_type = cdd.RepType.GENERATOR
        S = dd(c).SpanForm.from_cdd_matrix(m)
        R = allrays(W, L)
        c.iff(tag, valid_rows(c, m, n, h), valid(c, S.vertices, S.rays, n, h))
        c.iff(tag + " directly", valid(c, V, R, n, h), valid(c, S.vertices, S.rays, n, h))
        c.check(tag + " bounded", bool(S.bounded()) == (nv > 0 and not R))
        c.check(tag + " cone", bool(S.is_cone()) == (nv == 0))


@suite.inst(params=[g for g in GENS])
def span_transform(c, p):
    nv, nr, nl, d = p
    V, W, L = gens(c, nv, nr, nl, d)
    n, h, t = c.vec("n", d), c.real("h"), c.vec("t", d)
    R = rot(c, d)
    S = dd(c).SpanForm(vertices=V, rays=W, span=L)
    rays = allrays(W, L)
    for tag, T, Q, s in [("moved", S.transform(R, t), R, t), ("rotated", S.transform(rotation=R), R, t * 0),
                         ("translated", S.transform(translation=t), c.np.eye(d), t), ("unmoved", S.transform(), c.np.eye(d), t * 0)]:
        # n.x <= h on S  iff  (Q n).y <= h + (Q n).s on the image
        c.iff(tag, valid(c, V, rays, n, h), valid(c, T.vertices, T.rays, Q @ n, h + dot(Q @ n, s)))
        c.check(tag + " kinds", bool(T.bounded()) == bool(S.bounded()) and T.nr == S.nr and T.nv >= S.nv)


# ---------------------------------------------------------------- through the library
@suite.inst(params=[(2, 1), (3, 1), (3, 2)], ms=15000)
def canonical_vertices(c, p):
    n_, d = p
    V, n, h = c.mat("V", n_, d), c.vec("n", d), c.real("h")
    S = dd(c).SpanForm(V)
    T = S.canonical()
    c.iff("same set", valid(c, V, None, n, h), valid(c, T.vertices, T.rays, n, h))
    c.check("bounded", bool(T.bounded()))
    c.check("fewer", 1 <= T.nv <= n_)
    if d == 1:
        c.check("no redundant vertex", T.nv <= 2)


@suite.inst(params=[(2, 1), (3, 1), (2, 2)], ms=15000)
def canonical_faces(c, p):
    n, d = p
    A, b, x = c.mat("A", n, d), c.vec("b", n), c.vec("x", d)
    # the library does not terminate on an all-zero matrix
    for i in range(n):
        c.assume(c.lnot(c.same(dot(A[i], A[i]), c.const(0))))
    F = dd(c).FaceForm(A, b)
    G = F.canonical()
    c.iff("same set", faces(c, F, x), faces(c, G, x))


def span_point(c, base, dirs):
    """a point base + sum a_k dirs_k of the whole space, with its coordinates"""
    a = c.vec("a", len(dirs))
    return a, base + sum(a[k] * dirs[k] for k in range(len(dirs)))


@suite.inst(ms=15000)
def faces_of_segment(c):
    V = c.mat("V", 2, 1)
    c.assume(c.lt(V[0, 0], V[1, 0]))
    F = dd(c).SpanForm(V).to_face_form()
    x = c.vec("x", 1)
    c.iff("set", c.land(c.le(V[0, 0], x[0]), c.le(x[0], V[1, 0])), faces(c, F, x))


@suite.inst(ms=15000)
def faces_of_triangle(c):
    V = c.mat("V", 3, 2)
    d1, d2 = V[1] - V[0], V[2] - V[0]
    c.assume(c.lnot(c.same(d1[0] * d2[1] - d1[1] * d2[0], c.const(0))))
    a, x = span_point(c, V[0], [d1, d2])
    F = dd(c).SpanForm(V).to_face_form()
    c.iff("set", c.land(c.le(0, a[0]), c.le(0, a[1]), c.le(a[0] + a[1], 1)), faces(c, F, x))
    G = F.to_span_form()
    n, h = c.vec("n", 2), c.real("h")
    c.check("bounded again", bool(G.bounded()) and G.nv == 3)
    c.iff("back", valid(c, V, None, n, h), valid(c, G.vertices, G.rays, n, h))


@suite.inst(ms=15000)
def faces_of_wedge(c):
    """vertex and two rays"""
    v, W = c.vec("v", 2), c.mat("W", 2, 2)
    c.assume(c.lnot(c.same(W[0, 0] * W[1, 1] - W[0, 1] * W[1, 0], c.const(0))))
    a, x = span_point(c, v, W)
    S = dd(c).SpanForm(vertices=c.np.array([v]), rays=W)
    F = S.to_face_form()
    c.iff("set", c.land(c.le(0, a[0]), c.le(0, a[1])), faces(c, F, x))
    T = F.to_span_form()
    n, h = c.vec("n", 2), c.real("h")
    c.check("unbounded again", not T.bounded())
    c.implies("cone", bool(T.is_cone()), c.land(c.same(v[0], c.const(0)), c.same(v[1], c.const(0))))
    c.iff("back", valid(c, [v], W, n, h), valid(c, T.vertices, T.rays, n, h))


@suite.inst(ms=15000)
def faces_of_cone(c):
    W = c.mat("W", 2, 2)
    c.assume(c.lnot(c.same(W[0, 0] * W[1, 1] - W[0, 1] * W[1, 0], c.const(0))))
    a, x = span_point(c, c.np.zeros(2), W)
    F = dd(c).SpanForm(rays=W).to_face_form()
    c.iff("set", c.land(c.le(0, a[0]), c.le(0, a[1])), faces(c, F, x))


@suite.inst(ms=15000)
def faces_of_line(c):
    l = c.vec("l", 2)
    v = c.vec("v", 2)
    c.assume(c.lnot(c.same(dot(l, l), c.const(0))))
    q = c.np.array([-l[1], l[0]])
    a, x = span_point(c, v, [l, q])
    F = dd(c).SpanForm(vertices=[v], span=c.np.array([l])).to_face_form()
    c.iff("line", c.same(a[1], c.const(0)), faces(c, F, x))
    F = dd(c).SpanForm(vertices=[v], rays=[l]).to_face_form()
    c.iff("ray", c.land(c.same(a[1], c.const(0)), c.le(0, a[0])), faces(c, F, x))
    F = dd(c).SpanForm(vertices=[v, v + l]).to_face_form()
    c.iff("segment", c.land(c.same(a[1], c.const(0)), c.le(0, a[0]), c.le(a[0], 1)), faces(c, F, x))
    F = dd(c).SpanForm(vertices=[v]).to_face_form()
    c.iff("point", c.land(c.same(a[1], c.const(0)), c.same(a[0], c.const(0))), faces(c, F, x))


@suite.inst(ms=15000)
def span_of_halfplane(c):
    a, b = c.vec("a", 2), c.real("b")
    c.assume(c.lnot(c.same(dot(a, a), c.const(0))))
    S = dd(c).FaceForm(c.np.array([a]), c.np.array([b])).to_span_form()
    c.check("kind", not S.bounded())
    c.implies("cone", bool(S.is_cone()), c.same(b, c.const(0)))
    lam, mu, h = c.real("lam"), c.real("mu"), c.real("h")
    n = c.np.array([lam * a[0] - mu * a[1], lam * a[1] + mu * a[0]])
    c.iff("set", c.land(c.same(mu, c.const(0)), c.le(0, lam), c.le(lam * b, h)), valid(c, S.vertices, S.rays, n, h))


@suite.inst(params=[1, 2], ms=15000)
def span_of_equalities(c, d):
    """an affine subspace: only equalities"""
    E, e = c.mat("E", 1, d), c.vec("e", 1)
    c.assume(c.lnot(c.same(dot(E[0], E[0]), c.const(0))))
    F = dd(c).FaceForm(c.np.vstack((E, -E)), c.np.concatenate((e, -e)))
    x = c.vec("x", d)
    c.iff("canonical", c.same(dot(E[0], x), e[0]), faces(c, F.canonical(), x))
    S = F.to_span_form()
    lam, mu, h = c.real("lam"), c.real("mu"), c.real("h")
    if d == 1:
        n = c.np.array([lam * E[0, 0]])
        c.iff("point", c.le(lam * e[0], h), valid(c, S.vertices, S.rays, n, h))
    else:
        n = c.np.array([lam * E[0, 0] - mu * E[0, 1], lam * E[0, 1] + mu * E[0, 0]])
        c.iff("line", c.land(c.same(mu, c.const(0)), c.le(lam * e[0], h)), valid(c, S.vertices, S.rays, n, h))


@suite.inst(params=[1, 2], ms=15000)
def empty_set(c, d):
    a, b, g = c.vec("a", d), c.real("b"), c.pos("g", lo=c.const(1) / 100)
    c.assume(c.lnot(c.same(dot(a, a), c.const(0))))
    F = dd(c).FaceForm(c.np.array([a, -a]), c.np.array([b, -b - g]))
    c.check("no generators", F.to_span_form() is None)
    G = dd(c).FaceForm(c.np.array([a]), c.np.array([b])).stack(dd(c).FaceForm(c.np.array([-a]), c.np.array([-b - g])))
    c.check("no generators when stacked", G.to_span_form() is None)
