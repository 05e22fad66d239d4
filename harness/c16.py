"""C16 Optimised bounding and inscribed ellipsoids bound and are optimal."""
import itertools
import math

import numpy as onp

from symx.run import Suite
from .common import half_extents, sumsq, dot, lo, axis_rot

suite = Suite(
    "C16",
    bounds="bounding ellipsoids and spheres of 2 to 4 points in dimensions 1 to 3 (also flat sets in 2 and 3 dimensions), of one or two ellipsoids in dimensions 1 to 3 (least volume: ellipsoids that are smaller copies of the competitor, anywhere in it; in 3 dimensions axes turned about a coordinate axis) and of capsules (axis-aligned, at the origin); inscribed ellipsoids and spheres of polytopes given by up to 4 inequalities in dimensions 1 to 3, of segments in 1 to 3 dimensions and of triangles (named shapes, also flat in 3 dimensions); every optimal answer of the solver; competitors: every ellipsoid, in 3 dimensions with axes along the coordinate axes of the set",
    assumes=[
        "exact real arithmetic",
        "the solver returns a feasible point whose objective no feasible point improves on; a finite log-determinant means a positive definite matrix; the logarithm is increasing",
        "orth, null_space, eigh and lstsq return what they are documented to return (any such answer)",
        "answers have half extents below 1e6 where the code compares them with 1e-8",
    ],
    ctol=1e-4,
)


def orthogonal(c, n, name):
    if n == 1:
        return c.arr([[c.const(1)]])
    return c.rot2(name) if n == 2 else c.rot(name)


def parts(E, n):
    return E.half_extents, E.rotation, E.center


def wellformed(c, E, d, rank):
    a, U, t = parts(E, d)
    c.check("shape", E.dim == d and U.shape == (d, d) and t.shape == (d,))
    G = U.T @ U
    for i in range(d):
        for j in range(i + 1):
            c.eq("orthonormal %d%d" % (i, j), G[i, j], 1 if i == j else 0)
    for i in range(d):
        if i < rank:
            c.check("extent %d" % i, c.lt(0, a[i]))
        else:
            c.eq("flat %d" % i, a[i], 0)


def covers(c, E, x, rank, label="covers", scale=1):
    """x in E (scale: a positive factor)"""
    a, U, t = parts(E, len(x))
    q = U.T @ (x - t)
    v = sumsq([q[i] / a[i] for i in range(rank)])
    c.check(label, c.lor(c.le(v * scale, scale), c.same(v, 1)) if c.sym else c.le(v, 1 + 1e-4))
    for i in range(rank, len(x)):
        c.eq("%s, in the subspace %d" % (label, i), q[i], 0)


def vol(c, E, rank):
    v = c.const(1)
    for i in range(rank):
        v = v * E.half_extents[i]
    return v


# -- independent numbers for the replay -------------------------------------
def khachiyan(P, it=20000, tol=1e-7):
    """product of the half extents of the least ellipsoid about the points"""
    P = onp.asarray(P, float)
    n, d = P.shape
    Q = onp.vstack([P.T, onp.ones(n)])
    u = onp.ones(n) / n
    for _ in range(it):
        X = Q @ onp.diag(u) @ Q.T
        M = onp.einsum("ij,ij->j", Q, onp.linalg.solve(X, Q))
        j = int(onp.argmax(M))
        if M[j] - d - 1 < tol:
            break
        step = (M[j] - d - 1) / ((d + 1) * (M[j] - 1))
        u = (1 - step) * u
        u[j] += step
    c = P.T @ u
    C = (P - c).T @ onp.diag(u) @ (P - c) * d
    # inflate until it does contain them
    s = max(max(onp.einsum("ij,ij->i", P - c, onp.linalg.solve(C, (P - c).T).T)), 1e-12)
    return math.sqrt(abs(onp.linalg.det(C * s)))


def ball(P):
    """radius of the least ball about the points"""
    import cvxpy as cp

    x, r = cp.Variable(P.shape[1]), cp.Variable()
    cp.Problem(cp.Minimize(r), [cp.norm(p - x) <= r for p in P]).solve(solver=cp.CLARABEL)
    return float(r.value)


def inner(A, b, sphere):
    import cvxpy as cp

    d = A.shape[1]
    x = cp.Variable(d)
    if sphere:
        r = cp.Variable()
        cp.Problem(cp.Maximize(r), [a @ x + r * onp.linalg.norm(a) <= be for a, be in zip(A, b)]).solve(solver=cp.CLARABEL)
        return float(r.value) ** d
    L = cp.Variable((d, d), symmetric=True)
    cp.Problem(cp.Maximize(cp.log_det(L)), [a @ x + cp.norm(L @ a) <= be for a, be in zip(A, b)]).solve(solver=cp.CLARABEL)
    return float(onp.linalg.det(L.value))


# -- points -------------------------------------------------------------------
def point_set(c, n, d, r, degenerate_ok=False):
    """n points spanning an r-dimensional affine subspace; also their coordinates in it"""
    base = c.vec("o", d)
    F = orthogonal(c, d, "F") if r < d else c.np.eye(d)
    if r < d:
        c.frame(F, r)
    Y = []
    for k in range(n):
        Y.append(c.const(0) * c.np.ones(r) if k == 0 else c.vec("y%d" % k, r))
    # the first r + 1 are affinely independent
    M = [[Y[i + 1][j] for j in range(r)] for i in range(r)]
    D = M[0][0] if r == 1 else (M[0][0] * M[1][1] - M[0][1] * M[1][0] if r == 2 else dot(M[0], cross3(M[1], M[2])))
    c.assume(c.land(c.lt(0.1, D)) if not c.sym else c.lt(0, D))
    P = [base + sum(F[:, j] * y[j] for j in range(r)) for y in Y]
    return base, F, Y, P


def cross3(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mbe_points(c, P, sphere):
    return c.rg.mbe_of_points(c.arr([[x for x in p] for p in P]), sphere=sphere, solver=c.solver)


PTS = [(2, 1, 1), (3, 1, 1), (3, 2, 2), (4, 2, 2), (2, 2, 1), (3, 2, 1), (3, 3, 2), (2, 3, 1), (4, 3, 3)]


@suite.inst(params=[dict(p=p, sphere=s) for p in PTS for s in (False, True)])
def points_covered(c, p, sphere):
    n, d, r = p
    if c.sym:
        c.eigmode(c.const(1) / 10**6, 10**6)
    base, F, Y, P = point_set(c, n, d, r)
    E = mbe_points(c, P, sphere)
    wellformed(c, E, d, r)
    for k, x in enumerate(P):
        if c.sym:
            note_norm(c, E, x, P[0], r)
        covers(c, E, x, r, "point %d" % k)
    if sphere:
        for i in range(1, r):
            c.eq("round %d" % i, E.half_extents[i], E.half_extents[0])


def note_norm(c, E, x, o, r):
    """hint: the level is the squared norm of the problem"""
    vs = c.solved().values()
    A = [v for i, v in vs if i.attrs.get("PSD")]
    b = [v for i, v in vs if i.shape == (r,)]
    if not A or not b:
        return
    B = c.bases()
    y = B[-1].T @ (x - o)
    n2 = sumsq(A[0] @ y + b[0])
    a, U, t = parts(E, len(x))
    q = U.T @ (x - t)
    c.lemma(c.le(n2, 1))
    c.lemma(c.same(sumsq([q[i] / a[i] for i in range(r)]), n2))


def competitor(c, r, sphere, name="K"):
    """(W, w, z): the ellipsoid |diag(w) W^T (y - z)| <= 1"""
    if sphere:
        w = [c.pos(name + "w", 0.05)] * r
        W = c.np.eye(r)
    else:
        w = [c.pos("%sw%d" % (name, i), 0.05) for i in range(r)]
        # in three dimensions: the coordinates along its axes
        W = orthogonal(c, r, name) if r < 3 else c.np.eye(3)
    return W, w, c.vec(name + "z", r)


@suite.inst(params=[dict(p=p, sphere=s) for p in PTS for s in (False, True)])
def points_least(c, p, sphere):
    """no larger than any other (flat) ellipsoid that contains the points"""
    n, d, r = p
    if c.sym:
        c.eigmode(c.const(1) / 10**6, 10**6)
    base, F, Y, P = point_set(c, n, d, r)
    W, w, z = competitor(c, r, sphere)
    for y in Y:
        q = W.T @ (y - z)
        c.assume(c.le(sumsq([w[i] * q[i] for i in range(r)]), 1))
    E = mbe_points(c, P, sphere)
    v = vol(c, E, r)
    there = c.const(1)
    for x in w:
        there = there / x
    if not c.sym:
        Y = onp.array([[float(x) for x in y] for y in Y])
        best = ball(Y) ** r if sphere else khachiyan(Y)
        c.check("no larger", c.le(v, min(there, best) * (1 + 2e-3)))
        return
    # the competitor, in the coordinates of the problem
    B = c.bases()
    Q = (F[:, :r].T @ B[-1]) if B else c.np.eye(r)
    V = Q.T @ W
    A = V @ c.np.diag(c.arr(w)) @ V.T
    b = -(A @ (Q.T @ z))
    for y in Y:
        q = W.T @ (y - z)
        c.lemma(c.same(sumsq(A @ (Q.T @ y) + b), sumsq([w[i] * q[i] for i in range(r)])))
    compete(c, A, [b, c.arr([w[0]])], [(w[i], [V[j, i] for j in range(r)]) for i in range(r)])
    c.lemma(c.le(v / there, 1))
    c.check("no larger", c.lor(c.le(v, there), c.same(v, there)))


@suite.inst(params=["points", "ellipsoids", "inequalities"])
def solver_passed(c, what):
    def call(**kw):
        if what == "points":
            c.rg.mbe_of_points(c.arr([[c.const(0)], [c.const(1)]]), **kw)
        elif what == "ellipsoids":
            c.rg.mbe_of_ellipsoids([c.rg.Ellipsoid(half_extents=c.arr([c.const(1)]))], **kw)
        else:
            c.mod("rigeo.shape.ellipsoid").mie_inequality_form(c.arr([[c.const(1)], [c.const(-1)]]), c.arr([c.const(1), c.const(1)]), **kw)

    if c.sym:
        c.eigmode(c.const(1) / 10**6, 10**6)
        call(solver="XYZ")
        c.check("solver", c.solver_used() == "XYZ")
        call()
        c.check("no solver", c.solver_used() is None)
    else:
        c.check("solver", True)


# -- polyhedra ------------------------------------------------------------------
def mie(c, A, b, sphere):
    return c.mod("rigeo.shape.ellipsoid").mie_inequality_form(A, b, sphere=sphere, solver=c.solver)


def inscribed(c, E, a, b, rank, label):
    """E in {x | a x <= b}: the support of E"""
    h, U, t = parts(E, len(a))
    s = sumsq([h[i] * dot([U[j, i] for j in range(len(a))], a) for i in range(rank)])
    gap = b - dot(a, t)
    if not c.sym:
        c.check(label, c.le(float(c.sqrt(s)), gap + 1e-5))
        return
    c.check(label + ", centre", c.le(0, gap))
    c.check(label, c.lor(c.le(s, gap * gap), c.same(s, gap * gap)))


INEQ = [(2, 1), (3, 2), (4, 2), (4, 3)]


def inequalities(c, n, d):
    A = [c.vec("a%d" % k, d) for k in range(d)]
    # the first d + 1 bound a simplex
    l = [c.pos("l%d" % k, 0.1) for k in range(d)]
    A.append(-sum(l[k] * A[k] for k in range(d)))
    A += [c.vec("a%d" % k, d) for k in range(d + 1, n)]
    b = [c.real("b%d" % k) for k in range(n)]
    D = A[0][0] if d == 1 else (A[0][0] * A[1][1] - A[0][1] * A[1][0] if d == 2 else dot(A[0], cross3(A[1], A[2])))
    c.assume(c.lt(0, D))
    c.assume(c.lt(0, dot(l, b[:d]) + b[d]))
    if not c.sym:
        # bounded, with room inside
        import cvxpy as cp

        for s in (1, -1):
            for i in range(d):
                x = cp.Variable(d)
                p = cp.Problem(cp.Maximize(s * x[i]), [onp.array([float(v) for v in a]) @ x <= float(be) for a, be in zip(A, b)])
                p.solve(solver=cp.CLARABEL)
                c.assume(p.status == "optimal" and abs(p.value) < 1e3)
        x, r = cp.Variable(d), cp.Variable()
        p = cp.Problem(cp.Maximize(r), [onp.array([float(v) for v in a]) @ x + r * float(onp.linalg.norm(a)) <= float(be) for a, be in zip(A, b)])
        p.solve(solver=cp.CLARABEL)
        c.assume(p.status == "optimal" and p.value > 1e-2)
    return A, b


@suite.inst(params=[dict(p=p, sphere=s) for p in INEQ + [(3, 1), (5, 2), (7, 3)] for s in (False, True)])
def inside_inequalities(c, p, sphere):
    n, d = p
    if c.sym:
        c.eigmode(c.const(1) / 10**6, 10**6)
    A, b = inequalities(c, n, d)
    E = mie(c, c.arr([[x for x in a] for a in A]), c.arr(b), sphere)
    wellformed(c, E, d, d)
    for k in range(n):
        inscribed(c, E, A[k], b[k], d, "side %d" % k)
    if sphere:
        for i in range(1, d):
            c.eq("round %d" % i, E.half_extents[i], E.half_extents[0])


def feasible_inner(c, A, b, W, w, z):
    """|diag(w) W^T a| + a z <= b"""
    d = len(w)
    for a, be in zip(A, b):
        q = W.T @ a
        gap = be - dot(a, z)
        c.assume(c.land(c.le(0, gap), c.le(sumsq([w[i] * q[i] for i in range(d)]), gap * gap)))


@suite.inst(params=[dict(p=p, sphere=s) for p in INEQ for s in (False, True)])
def greatest_inequalities(c, p, sphere):
    n, d = p
    if c.sym:
        c.eigmode(c.const(1) / 10**6, 10**6)
    A, b = inequalities(c, n, d)
    W, w, z = competitor(c, d, sphere)
    feasible_inner(c, A, b, W, w, z)
    Am, bm = c.arr([[x for x in a] for a in A]), c.arr(b)
    E = mie(c, Am, bm, sphere)
    v = vol(c, E, d)
    there = c.const(1)
    for x in w:
        there = there * x
    if not c.sym:
        c.check("no smaller", c.le(max(there, inner(Am, bm, sphere)), v * (1 + 2e-3)))
        return
    B = W @ c.np.diag(c.arr(w)) @ W.T
    for a in A:
        q = W.T @ a
        c.lemma(c.same(sumsq(B @ a), sumsq([w[i] * q[i] for i in range(d)])))
    compete(c, B, [z, c.arr([w[0]])], [(w[i], [W[j, i] for j in range(d)]) for i in range(d)])
    c.lemma(c.le(there / v, 1))
    c.check("no smaller", c.lor(c.le(there, v), c.same(v, there)))


def compete(c, B, values, *decs):
    """the competitor (B for the semidefinite variable, values for the others, in any order) is feasible"""
    K = c.solved()
    K.feasible()

    def hints(aux):
        psd = [bool(a.attrs.get("PSD")) for a in aux]
        out = []
        for perm in itertools.permutations(values):
            rest = list(perm)
            h = []
            for a, p in zip(aux, psd):
                # a single number may be declared as a scalar or as an array of one
                x = B if p else next((v for v in rest if v.shape == a.shape or v.size == math.prod(a.shape) == 1), None)
                if x is not None and not p:
                    rest = [v for v in rest if v is not x]
                h.append(x)
            if all(len(h) != len(o) or any(x is not y for x, y in zip(h, o)) for o in out):
                out.append(h)
        return [[x if x is None or x.shape == a.shape else x.reshape(a.shape) for x, a in zip(h, aux)] for h in out]

    K.compete("competitor", [], hints=hints, decs=lambda m: [d for d in decs if len(d[0][1]) == m])


# -- ellipsoids ------------------------------------------------------------------
def rotation(c, n, name, axis=2):
    if n == 1:
        return c.arr([[c.const(1)]])
    return c.rot2(name) if n == 2 else axis_rot(c, name, axis)


def level(a, R, t, x):
    q = R.T @ (x - t)
    return sumsq([q[i] / a[i] for i in range(len(a))])


def mbe_ells(c, E, sphere):
    return c.rg.mbe_of_ellipsoids([e[0] for e in E], sphere=sphere, solver=c.solver)


def ell(c, d, tag, axis=2, R=None):
    a = half_extents(c, tag + "a", n=d, lo=lo(c))
    R = rotation(c, d, tag + "R", axis) if R is None else R
    t = c.vec(tag + "t", d)
    return c.rg.Ellipsoid(half_extents=a, rotation=R, center=t), a, R, t


def vectors(E, x):
    d = len(x)
    return lambda M: [list(x) + [1] + [-v for v in E.center]] if M.shape[0] == 2 * d + 1 else []


ELLS = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 3), (2, 3)]


@suite.inst(params=[dict(p=p, sphere=s) for p in ELLS for s in (False, True)])
def ellipsoids_covered(c, p, sphere):
    n, d = p
    if c.sym:
        c.eigmode(c.const(1) / 10**12, 10**12)
    es = [ell(c, d, "e%d" % k, k % 3) for k in range(n)]
    x = c.vec("x", d)
    which = n - 1
    s, a, R, t = es[which]
    f = level(a, R, t, x)
    c.assume(c.le(f, 1))
    E = mbe_ells(c, es, sphere)
    wellformed(c, E, d, d)
    scale = c.const(1)
    if c.sym:
        K = c.solved()
        qs = K.feasible(zs=vectors(E, x))
        fe = level(E.half_extents, E.rotation, E.center, x)
        fs = [q * q for q in a] + [1 / q for q in E.half_extents for _ in range(4)]
        for q in fs:
            scale = scale * q
        for i, v in K.values():
            if i.shape == (n,) and not i.attrs.get("PSD"):
                y = v.ravel()[which]
                if not c.product(y, 1 - f, *fs):
                    continue
                for q in qs:
                    c.product(q, *fs)
                c.lemma(c.le(fe * scale, scale))
    covers(c, E, x, d, scale=scale)
    if sphere:
        for i in range(1, d):
            c.eq("round %d" % i, E.half_extents[i], E.half_extents[0])


def part_of(c, a, R, t, tag):
    """a smaller copy anywhere it fits in the ellipsoid; its multiplier and
    the decomposition of the difference of the forms"""
    d = len(a)
    l = c.real(tag + "l", "+")
    c.assume(c.lt(l, 1))
    for i in range(d):
        c.assume(c.le(lo(c), l * a[i]))
    y = c.vec(tag + "y", d)
    if c.sym:
        c.assume(c.le(sumsq(y), (1 - l) * (1 - l)))
    else:
        c.assume(c.le(sumsq(y), (1 - l) * (1 - l) * 0.999))
        c.assume(c.le(c.const(1) / 1000, l))
    z = t + R @ c.arr([y[i] * a[i] for i in range(d)])
    alpha = (1 - l) / l
    rest = 1 - l - sumsq(y) - sumsq(y) / alpha
    dec = []
    for i in range(d):
        w = [R[j, i] / a[i] for j in range(d)]
        dec.append((alpha, w + [-dot(w, z) - y[i] / alpha]))
    dec.append((rest, [0] * d + [1]))
    if c.sym:
        c.lemma(c.same(rest, ((1 - l) * (1 - l) - sumsq(y)) / (1 - l)))
        c.lemma(c.le(0, rest))
    return (c.rg.Ellipsoid(half_extents=l * a, rotation=R, center=z), l * a, R, z), l, dec


@suite.inst(params=[dict(p=p, sphere=s) for p in ELLS for s in (False, True)])
def ellipsoids_least(c, p, sphere):
    n, d = p
    if c.sym:
        c.eigmode(c.const(1) / 10**12, 10**12)
    if sphere:
        a = c.arr([c.pos("r", lo(c))] * d)
        R = c.np.eye(d)
    else:
        a = half_extents(c, "a", n=d, lo=lo(c))
        R = rotation(c, d, "R")
    t = c.vec("t", d)
    es, ls, decs = [], [], []
    for k in range(n):
        e, l, dec = part_of(c, a, R, t, "e%d" % k)
        es.append(e)
        ls.append(l)
        full = [(1 / (a[i] * a[i]), [0] * d + [dot(t, R[:, i])] + list(R[:, i])) for i in range(d)]
        decs.append(full + [(w, list(u) + [0] * d) for w, u in dec])
    E = mbe_ells(c, es, sphere)
    v = vol(c, E, d)
    there = c.const(1)
    for x in a:
        there = there * x
    if not c.sym:
        c.check("no larger", c.le(v, there * (1 + 2e-3)))
        return
    S = R @ c.np.diag(c.arr([1 / (x * x) for x in a])) @ R.T
    dec0 = [(1 / (a[i] * a[i]), [R[j, i] for j in range(d)]) for i in range(d)]
    compete(c, S, [-(S @ t), c.arr(ls), c.arr([1 / (a[0] * a[0])])], dec0, *decs)
    c.lemma(c.le(v * v / (there * there), 1))
    c.lemma(c.le(v / there, 1))
    c.check("no larger", c.lor(c.le(v, there), c.same(v, there)))


# -- polyhedra ---------------------------------------------------------------------
def sides(c, Y, r):
    """[(a, b)]: the simplex is a y <= b, in its own coordinates"""
    out = []
    for k in range(r + 1):
        if r == 1:
            a = c.arr([Y[k][0] - Y[1 - k][0]])
            out.append((-a, -dot(a, Y[1 - k])))
            continue
        p, q = Y[(k + 1) % 3], Y[(k + 2) % 3]
        n = c.arr([p[1] - q[1], q[0] - p[0]])
        # pointing away from the vertex k (the vertices turn left)
        out.append((-n, -dot(n, p)))
    return out


# (dimension, rank, triangle)
TRI = {"right": ((4, 0), (0, 3)), "acute": ((4, 0), (1, 3)), "obtuse": ((2, 0), (-1, 1))}
POLY = [(1, 1, ""), (2, 1, ""), (3, 1, "")] + [(d, 2, k) for d in (2, 3) for k in TRI]


def grid(cases):
    out = []
    for p in cases:
        for s in (False, True):
            late = p[1] == 2 and (p[2] == "obtuse" or (p[0] == 3 and not (s and p[2] == "right")))
            out.append(dict(p=p, sphere=s, _o=dict(tier="thorough", wall=600) if late else dict(wall=200)))
    return out


def polytope(c, d, r, tri=None):
    base = c.vec("o", d)
    F = axis_rot(c, "F", 1) if d == 3 else (orthogonal(c, d, "F") if r < d else c.np.eye(d))
    if r < d:
        c.frame(F, r)
    # the first edge along the first axis of the subspace
    Y = [c.const(0) * c.np.ones(r)]
    if tri:
        Y += [c.arr([c.const(x) for x in y]) for y in TRI[tri]]
    else:
        Y.append(c.arr([c.pos("p", 0.1)] + [c.const(0)] * (r - 1)))
    if r == 2 and not tri:
        Y.append(c.arr([c.real("q"), c.pos("s", 0.1)]))
    P = [base + sum(F[:, j] * y[j] for j in range(r)) for y in Y]
    return F, Y, P, base, c.rg.ConvexPolyhedron.from_vertices(c.arr([[x for x in p] for p in P]), prune=False)


@suite.inst(params=grid(POLY))
def inside_simplex(c, p, sphere):
    d, r, tri = p
    if c.sym:
        c.eigmode(c.const(1) / 10**6, 10**6)
    F, Y, P, base, poly = polytope(c, d, r, tri)
    E = poly.mie(sphere=sphere, solver=c.solver)
    wellformed(c, E, d, r)
    for j in range(r, d):
        c.eq("in the subspace %d" % j, dot(F[:, j], E.center - base), 0)
        for i in range(r):
            c.eq("axis in the subspace %d%d" % (j, i), dot(F[:, j], E.rotation[:, i]), 0)
    for k, (a, b) in enumerate(sides(c, Y, r)):
        n = sum(F[:, j] * a[j] for j in range(r))
        inscribed(c, E, n, b + dot(n, base), r, "side %d" % k)
    if sphere:
        for i in range(1, r):
            c.eq("round %d" % i, E.half_extents[i], E.half_extents[0])


@suite.inst(params=grid(POLY))
def greatest_in_simplex(c, p, sphere):
    d, r, tri = p
    if c.sym:
        c.eigmode(c.const(1) / 10**6, 10**6)
    F, Y, P, base, poly = polytope(c, d, r, tri)
    W, w, z = competitor(c, r, sphere)
    S = sides(c, Y, r)
    feasible_inner(c, [a for a, b in S], [b for a, b in S], W, w, z)
    E = poly.mie(sphere=sphere, solver=c.solver)
    v = vol(c, E, r)
    there = c.const(1)
    for x in w:
        there = there * x
    if not c.sym:
        best = inner(onp.array([onp.asarray(a, float) for a, b in S]), onp.array([float(b) for a, b in S]), sphere)
        c.check("no smaller", c.le(max(there, best), v * (1 + 2e-3)))
        return
    B = c.bases()
    Q = (F[:, :r].T @ B[-1]) if B else c.np.eye(r)
    V = Q.T @ W
    M = V @ c.np.diag(c.arr(w)) @ V.T
    for a, b in S:
        q = W.T @ a
        c.lemma(c.same(sumsq(M @ (Q.T @ a)), sumsq([w[i] * q[i] for i in range(r)])))
    compete(c, M, [Q.T @ z, c.arr([w[0]])], [(w[i], [V[j, i] for j in range(r)]) for i in range(r)])
    c.lemma(c.le(there / v, 1))
    c.check("no smaller", c.lor(c.le(there, v), c.same(v, there)))


@suite.inst(params=[(2, 2), (3, 2)])
def bounding_simplex(c, p):
    """ConvexPolyhedron.mbe is the ellipsoid of its vertices"""
    d, r = p
    if c.sym:
        c.eigmode(c.const(1) / 10**6, 10**6)
    F, Y, P, base, poly = polytope(c, d, r)
    E = poly.mbe(solver=c.solver)
    wellformed(c, E, d, r)
    for k, x in enumerate(P):
        if c.sym:
            note_norm(c, E, x, P[0], r)
        covers(c, E, x, r, "vertex %d" % k)


@suite.inst(params=[False, True])
def bounding_capsule(c, sphere):
    """every point of each cap (hence of their hull)"""
    if c.sym:
        c.eigmode(c.const(1) / 10**12, 10**12)
    R = c.np.eye(3)
    t = c.np.zeros(3)
    L, r = c.pos("L", lo(c)), c.pos("r", lo(c))
    cyl = c.rg.Cylinder(length=L, radius=r, rotation=R, center=t)
    cap = cyl.capsule()
    u = c.vec("u", 3)
    c.assume(c.le(sumsq(u), 1))
    E = cap.mbe(sphere=sphere, solver=c.solver)
    wellformed(c, E, 3, 3)
    if sphere:
        for i in (1, 2):
            c.eq("round %d" % i, E.half_extents[i], E.half_extents[0])
    for s in (1, -1):
        x = c.arr([r * u[0], r * u[1], r * u[2] + s * L / 2])
        scale = c.const(1)
        if c.sym:
            K = c.solved()
            qs = K.feasible(zs=vectors(E, x))
            fe = level(E.half_extents, E.rotation, E.center, x)
            fs = [r, r] + [1 / q for q in E.half_extents for _ in range(4)]
            for q in fs:
                scale = scale * q
            for i, v in K.values():
                if i.shape == (2,):
                    for y in v.ravel():
                        c.product(y, 1 - sumsq(u), *fs)
                    for q in qs:
                        c.product(q, *fs)
                    c.lemma(c.le(fe * scale, scale))
        covers(c, E, x, 3, "cap %+d" % s, scale=scale)
