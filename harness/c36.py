"""C36 Cross-product, lifting and transform matrices are exact identities."""
import itertools
from symx.run import Suite
from .common import cross, params

suite = Suite("C36", bounds="all vectors, symmetric matrices, rotations and translations; transforms in dimensions 1 to 4, box vertices in dimensions 1 to 5",
              assumes=["exact real arithmetic"])


@suite.inst()
def skew(c):
    a, b = c.vec("a", 3), c.vec("b", 3)
    a0 = [e for e in a]
    S = c.rg.skew3(a)
    c.eq("cross", S @ b, c.arr(cross(a, b)))
    c.eq("antisymmetric", S.T, -S)
    c.eq("zero", S @ a, c.np.zeros(3))
    c.eq("argument kept", a, c.arr(a0))
    c.raises("size", lambda: c.rg.skew3(c.vec("w", 2)), AssertionError, ValueError)


@suite.inst()
def lift3(c):
    A, x = c.symmat("A", 3), c.vec("x", 3)
    L = c.mod("rigeo.util").lift3(x)
    c.shape("L", L, (3, 6))
    c.eq("A x", L @ c.rg.vech(A), A @ x)
    c.raises("size", lambda: c.mod("rigeo.util").lift3(c.vec("w", 4)), AssertionError, ValueError)


@suite.inst()
def lift6(c):
    m = c.pos("m")
    h, I = c.vec("h", 3), c.symmat("I", 3)
    th = c.arr([m, h[0], h[1], h[2], I[0, 0], I[0, 1], I[0, 2], I[1, 1], I[1, 2], I[2, 2]])
    a, w = c.vec("v", 3), c.vec("w", 3)
    V = c.rg.SV(linear=a, angular=w)
    L = c.mod("rigeo.util").lift6(V)
    c.shape("L", L, (6, 10))
    got = L @ th
    lin = m * a + c.arr(cross(w, h))
    ang = c.arr(cross(h, a)) + I @ w
    # angular momentum h x v + I w first, linear momentum m v + w x h last
    c.eq("momenta", got, c.np.concatenate([ang, lin]))
    p = c.rg.InertialParameters.from_vec(th)
    c.eq("M V", got, p.M @ V.vec)


@suite.inst()
def contact(c):
    p, f = c.vec("p", 3), c.vec("f", 3)
    J = c.rg.contact_jacobian(p) if hasattr(c.rg, "contact_jacobian") else c.mod("rigeo.util").contact_jacobian(p)
    c.shape("J", J, (6, 3))
    w = J @ f
    c.eq("moment", w[:3], c.arr(cross(p, f)))
    c.eq("force", w[3:], f)


DIMS = [1, 2, 3, 4]


def motion(c, n, tag=""):
    t = c.vec(tag + "t", n)
    if n == 1:
        R = c.arr([[c.const(1)]])
    else:
        R = c.rotn(tag + "R", n)
    return R, t


@suite.inst(params=DIMS)
def transform(c, n):
    u = c.mod("rigeo.util")
    R, t = motion(c, n)
    x = c.vec("x", n)
    T = u.transform_matrix(R, t, dim=n)
    c.shape("T", T, (n + 1, n + 1))
    xh = c.np.concatenate([x, c.arr([1])])
    c.eq("point", T @ xh, c.np.concatenate([R @ x + t, c.arr([1])]))
    d = c.np.concatenate([x, c.arr([0])])
    c.eq("direction", T @ d, c.np.concatenate([R @ x, c.arr([0])]))
    Ti = u.transform_matrix_inv(R, t, dim=n)
    c.shape("Ti", Ti, (n + 1, n + 1))
    c.eq("undoes", Ti @ (T @ xh), xh)
    c.eq("inverse", Ti @ T, c.np.eye(n + 1))
    c.eq("inverse, other side", T @ Ti, c.np.eye(n + 1))
    c.eq("keywords", u.transform_matrix(rotation=R, translation=t, dim=n), T)
    c.eq("keywords, inverse", u.transform_matrix_inv(rotation=R, translation=t, dim=n), Ti)
    c.eq("lists", u.transform_matrix([[e for e in r] for r in R], [e for e in t], n), T)
    c.eq("lists, inverse", u.transform_matrix_inv([[e for e in r] for r in R], [e for e in t], n), Ti)


@suite.inst(params=DIMS)
def missing(c, n):
    u = c.mod("rigeo.util")
    R, t = motion(c, n)
    I, z = c.np.eye(n), c.np.zeros(n)
    for nm, f in (("forward", u.transform_matrix), ("inverse", u.transform_matrix_inv)):
        c.eq(nm + " no translation", f(rotation=R, dim=n), f(R, z, dim=n))
        c.eq(nm + " no rotation", f(translation=t, dim=n), f(I, t, dim=n))
        c.eq(nm + " identity", f(dim=n), c.np.eye(n + 1))
        c.raises(nm + " rotation shape", lambda: f(rotation=c.np.eye(n + 1), dim=n), AssertionError, ValueError)
        c.raises(nm + " translation shape", lambda: f(translation=c.np.zeros(n + 1), dim=n), AssertionError, ValueError)


@suite.inst()
def default_dimension(c):
    u = c.mod("rigeo.util")
    R, t = motion(c, 3)
    c.eq("forward", u.transform_matrix(R, t), u.transform_matrix(R, t, dim=3))
    c.eq("inverse", u.transform_matrix_inv(R, t), u.transform_matrix_inv(R, t, dim=3))


@suite.inst()
def compose(c):
    u = c.mod("rigeo.util")
    R, t = motion(c, 3, "a")
    S, s = motion(c, 2, "b")
    # a rotation about z followed by an arbitrary motion
    Z = c.np.eye(3)
    Z[:2, :2] = S
    z = c.np.zeros(3)
    z[:2] = s
    c.eq("product", u.transform_matrix(R, t) @ u.transform_matrix(Z, z), u.transform_matrix(R @ Z, R @ z + t))


@suite.inst(params=[1, 2, 3, 4, 5])
def vertices(c, n):
    h = c.arr([c.pos("h%d" % i) for i in range(n)])
    V = c.mod("rigeo.util").box_vertices(h)
    c.shape("V", V, (2**n, n))
    seen = set()
    for i in range(2**n):
        sg = []
        for j in range(n):
            c.check("entry is plus or minus the half extent", c.lor(c.same(V[i, j], h[j]), c.same(V[i, j], -h[j])))
            sg.append(1 if c.cond(c.same(V[i, j], h[j])) else -1)
        seen.add(tuple(sg))
    c.check("every combination once", seen == set(itertools.product([1, -1], repeat=n)))


@suite.inst()
def vertices_list(c):
    a, b = c.pos("a"), c.pos("b")
    V = c.mod("rigeo.util").box_vertices([a, b])
    s = sum(V[i, 0] * V[i, 0] for i in range(4))
    c.eq("sum of squares", s, 4 * a * a)
    c.eq("centred", sum(V[i] for i in range(4)), c.np.zeros(2))
