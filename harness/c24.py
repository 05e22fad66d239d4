"""C24 Pseudo-inertia constraint builders mean what they say."""
from symx.run import Suite
from .common import sumsq

suite = Suite("C24", bounds="all parameter vectors, matrices, margins eps >= 0; Schur blocks of sizes up to 4+4; positive semidefinite matrices given by 4 arbitrary factors (all of them)",
              assumes=["exact real arithmetic", "cvxpy expressions denote their values (symx/cpshim)"])


def con(c):
    return c.mod("rigeo.constraint")


def theta(c, tag="x"):
    return c.vec(tag, 10)


def pim_of(c, v):
    m, hx, hy, hz, Ixx, Ixy, Ixz, Iyy, Iyz, Izz = v
    tr = (Ixx + Iyy + Izz) / 2
    return c.arr([[tr - Ixx, -Ixy, -Ixz, hx], [-Ixy, tr - Iyy, -Iyz, hy], [-Ixz, -Iyz, tr - Izz, hz], [hx, hy, hz, m]])


@suite.inst()
def basis(c):
    v = theta(c)
    As = con(c).pim_sum_vec_matrices()
    c.check("ten matrices", len(As) == 10)
    J = c.np.zeros((4, 4))
    for A, x in zip(As, v):
        J = J + A * x
    c.eq("sum", J, pim_of(c, v))
    c.assume(c.lt(0, v[0]))
    p = c.rg.InertialParameters.from_vec(v)
    c.eq("agrees with the parameters' own matrix", p.J, J)


@suite.inst()
def vec_expression(c):
    v = theta(c)
    J = con(c).pim_must_equal_vec(v if c.sym else c.cp.Constant(v))
    c.shape("shape", J, (4, 4))
    c.eq("J", J if c.sym else J.value, pim_of(c, v))


def psd4(c, eps):
    """eps 1 + sum of four rank-one terms: every matrix >= eps 1"""
    us = [c.vec("u%d" % k, 4) for k in range(4)]
    M = c.np.zeros((4, 4))
    for u in us:
        M = M + c.arr([[u[i] * u[j] for j in range(4)] for i in range(4)])
    for i in range(4):
        M[i, i] = M[i, i] + eps
    return M, us


@suite.inst(params=["psd", "param", "param default", "psd default"])
def matrix_accepts(c, p):
    eps = c.nonneg("eps") if "default" not in p else 0
    M, us = psd4(c, eps)
    if p == "psd":
        b = lambda J: con(c).pim_psd(J, eps=eps)
    elif p == "psd default":
        b = lambda J: con(c).pim_psd(J)
    else:
        b = lambda J: con(c).pim_must_equal_param_var(J, eps)[1]
    K = c.cset(b, M)
    c.admitted("accepts", K, decs=lambda n: [[(1, u) for u in us]])


@suite.inst(params=["psd", "param"])
def matrix_sound(c, p):
    eps = c.nonneg("eps")
    M = c.mat("J", 4, 4)
    if p == "psd":
        b = lambda J: con(c).pim_psd(J, eps=eps)
    else:
        b = lambda J: con(c).pim_must_equal_param_var(J, eps)[1]
    z = c.vec("z", 4)
    K = c.cset(b, M)
    c.accepted(K, zs=lambda N: [z])
    for i in range(4):
        for j in range(i):
            c.check("symmetric %d%d" % (i, j), c.same(M[i, j], M[j, i]))
    s = 0
    for i in range(4):
        for j in range(4):
            s = s + z[i] * M[i, j] * z[j]
    c.check("margin", c.lor(c.le(eps * sumsq(z), s), c.same(eps * sumsq(z), s)))


@suite.inst()
def vector_accepts(c):
    eps = c.nonneg("eps")
    M, us = psd4(c, eps)
    H = [[M[i, j] for j in range(3)] for i in range(3)]
    tr = H[0][0] + H[1][1] + H[2][2]
    v = c.arr([M[3, 3], M[0, 3], M[1, 3], M[2, 3], tr - H[0][0], -H[0][1], -H[0][2], tr - H[1][1], -H[1][2], tr - H[2][2]])
    K = c.cset(lambda x: con(c).pim_must_equal_param_var(x, eps)[1], v)
    c.admitted("accepts", K, decs=lambda n: [[(1, u) for u in us]])
    if c.sym:
        J, _ = con(c).pim_must_equal_param_var(v, eps)
        c.eq("J", J, pim_of(c, v))
    else:
        X = c.cp.Variable(10)
        J, _ = con(c).pim_must_equal_param_var(X, eps)
        X.value = v
        c.eq("J", J.value, pim_of(c, v))


@suite.inst()
def vector_sound(c):
    eps = c.nonneg("eps")
    v = theta(c)
    z = c.vec("z", 4)
    K = c.cset(lambda x: con(c).pim_must_equal_param_var(x, eps)[1], v)
    c.accepted(K, zs=lambda N: [z])
    M = pim_of(c, v)
    s = 0
    for i in range(4):
        for j in range(4):
            s = s + z[i] * M[i, j] * z[j]
    c.check("margin", c.lor(c.le(eps * sumsq(z), s), c.same(eps * sumsq(z), s)))


@suite.inst()
def rejects(c):
    e = c.pos("e")
    C = con(c)
    V = c.cp.Variable
    c.raises("negative margin", lambda: C.pim_must_equal_param_var(V((4, 4)), -e), AssertionError, ValueError)
    c.raises("negative margin psd", lambda: C.pim_psd(V((4, 4)), eps=-e), AssertionError, ValueError)
    for shp in ((3, 3), (9,), (5, 5), (10, 1), (4,), (11,)):
        c.raises("shape %s" % (shp,), lambda: C.pim_must_equal_param_var(V(shp), 0), AssertionError, ValueError)
        c.raises("psd shape %s" % (shp,), lambda: C.pim_psd(V(shp), eps=0), AssertionError, ValueError)
        if shp != (10,):
            c.raises("vec shape %s" % (shp,), lambda: C.pim_must_equal_vec(V(shp)), AssertionError, ValueError)


def blk(c, rows):
    return c.arr(rows)


@suite.inst(params=["scalar scalar", "vec scalar", "mat mat", "1x1", "vec vec", "row block", "all scalars", "wide"])
def schur(c, p):
    S = con(c).schur
    wrap = (lambda x: x) if c.sym else (lambda x: c.cp.Constant(x))
    if c.sym:
        from symx.cpshim import C as wrap
    val = (lambda x: x.view(type(c.arr([1]))) if hasattr(x, "view") else x) if c.sym else (lambda x: x.value)
    a, s = c.real("a"), c.real("s")
    if p in ("scalar scalar", "all scalars"):
        b = c.real("b")
        X = S(a, wrap(b) if p == "scalar scalar" else b, s)
        c.eq("blocks", val(X), c.arr([[a, b], [b, s]]))
        return
    if p == "1x1":
        b = c.real("b")
        X = S(wrap(c.arr([[a]])), wrap(c.arr([[b]])), wrap(c.arr([[s]])))
        c.eq("blocks", val(X), c.arr([[a, b], [b, s]]))
        return
    n = 3
    A = c.mat("A", n, n)
    if p == "vec scalar":
        b = c.vec("b", n)
        for nm, X in (("array", S(A, wrap(b), s)), ("expr", S(wrap(A), wrap(b), wrap(s))), ("plain", S(A, b, s))):
            X = val(X)
            c.eq(nm + " A", X[:n, :n], A)
            c.eq(nm + " B", X[:n, n], b)
            c.eq(nm + " B^T", X[n, :n], b)
            c.eq(nm + " C", X[n, n], s)
        return
    if p == "vec vec":
        b = c.vec("b", n)
        X = val(S(wrap(A), wrap(b), c.arr([s])))
        c.eq("C", X[n, n], s)
        c.eq("B", X[:n, n], b)
        return
    if p == "row block":
        # scalar corner first
        b = c.mat("b", 1, n)
        X = val(S(a, wrap(b), wrap(A)))
        c.eq("A", X[0, 0], a)
        c.eq("B", X[0, 1:], b[0])
        c.eq("B^T", X[1:, 0], b[0])
        c.eq("C", X[1:, 1:], A)
        return
    k = 4 if p == "wide" else 2
    B = c.mat("B", n, k)
    D = c.mat("D", k, k)
    X = val(S(wrap(A), wrap(B), wrap(D)))
    c.eq("A", X[:n, :n], A)
    c.eq("B", X[:n, n:], B)
    c.eq("B^T", X[n:, :n], B.T)
    c.eq("C", X[n:, n:], D)
