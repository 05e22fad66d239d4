"""C38 Spatial vectors form a vector space with the motion cross product."""
from symx.run import Suite
from .common import cross

suite = Suite("C38", bounds="all real vectors and scalars (divisor != 0)", assumes=["exact real arithmetic"])


def sv(c, tag):
    l, a = c.vec(tag + "l", 3), c.vec(tag + "a", 3)
    return c.rg.SpatialVector(linear=l, angular=a), l, a


def parts(c, label, V, l, a):
    c.eq(label + " linear", V.linear, l)
    c.eq(label + " angular", V.angular, a)
    c.eq(label + " vec", V.vec, c.np.concatenate([a, l]))


@suite.inst()
def construct(c):
    V, l, a = sv(c, "x")
    z = c.np.zeros(3)
    SV = c.rg.SpatialVector
    parts(c, "both", V, l, a)
    parts(c, "linear only", SV(linear=l), l, z)
    parts(c, "angular only", SV(angular=a), z, a)
    parts(c, "zero", SV.zero(), z, z)
    parts(c, "empty", SV(), z, z)
    parts(c, "from_vec", SV.from_vec(c.np.concatenate([a, l])), l, a)
    parts(c, "roundtrip", SV.from_vec(V.vec), l, a)
    parts(c, "positional", SV(l, a), l, a)
    parts(c, "lists", SV(linear=list(l), angular=list(a)), l, a)
    parts(c, "alias", c.rg.SV(linear=l, angular=a), l, a)
    c.raises("size", lambda: SV.from_vec(c.np.zeros(5)), AssertionError, ValueError)


@suite.inst()
def arithmetic(c):
    V, l, a = sv(c, "x")
    W, k, b = sv(c, "y")
    s = c.real("s")
    parts(c, "V+W", V + W, l + k, a + b)
    parts(c, "V-W", V - W, l - k, a - b)
    parts(c, "V*s", V * s, l * s, a * s)
    parts(c, "V/2", V / 2, l / 2, a / 2)
    t = c.pos("t")
    parts(c, "V/t", V / t, l / t, a / t)
    parts(c, "V/-t", V / (-t), -l / t, -a / t)
    parts(c, "operands", V, l, a)
    parts(c, "operands", W, k, b)


@suite.inst()
def cross_product(c):
    V, l, a = sv(c, "x")
    W, k, b = sv(c, "y")
    X = V.adjoint()
    c.shape("adjoint", X, (6, 6))
    ang = cross(a, b)
    lin = [p + q for p, q in zip(cross(a, k), cross(l, b))]
    c.eq("V x W", X @ W.vec, c.arr(ang + lin))
    c.eq("V x V", X @ V.vec, c.np.zeros(6))
    c.eq("antisymmetric", X @ W.vec, -(W.adjoint() @ V.vec))
    s = c.real("s")
    c.eq("linear", (V + W * s).adjoint(), X + s * W.adjoint())
