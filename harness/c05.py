"""C05 Regressor, spatial mass matrix and wrench obey Newton-Euler."""
from symx.run import Suite
from .common import params, cross

suite = Suite("C05", bounds="all parameters with mass > 0 (also massless), all velocities and accelerations; mechanics of the distribution for up to 2 point masses",
              assumes=["exact real arithmetic"])


def motion(c):
    return c.vec("v", 3), c.vec("w", 3), c.vec("a", 3), c.vec("al", 3)


@suite.inst()
def regressor(c):
    m, com, H = params(c)
    p = c.rg.InertialParameters(mass=m, com=com, H=H)
    v, w, a, al = motion(c)
    V, A = c.rg.SV(linear=v, angular=w), c.rg.SV(linear=a, angular=al)
    M = p.M
    c.eq("M V = lift(V) theta", M @ V.vec, c.rg.lift6(V) @ p.vec)
    c.eq("M symmetric", M, M.T)
    Y = c.rg.RigidBody.regressor(V, A)
    c.shape("Y", Y, (6, 10))
    ad = V.adjoint()
    c.eq("Y theta = M A - ad^T M V", Y @ p.vec, M @ A.vec - ad.T @ (M @ V.vec))
    W = p.body_wrench(V, A)
    c.eq("wrench", W.vec, Y @ p.vec)
    c.eq("wrench parts", c.np.concatenate([W.angular, W.linear]), W.vec)
    b = c.rg.RigidBody([], p)
    c.eq("method", b.regressor(V, A), Y)


@suite.inst(params=[1, 2])
def point_masses(c, p):
    ms = [c.pos("m%d" % i) for i in range(p)]
    P = c.mat("p", p, 3)
    q = c.rg.InertialParameters.from_point_masses(c.arr(ms), P)
    v, w, a, al = motion(c)
    V, A = c.rg.SV(linear=v, angular=w), c.rg.SV(linear=a, angular=al)
    L, Pm, F, N, T2 = [0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 0, 0], 0
    for m, x in zip(ms, P):
        u = [v[i] + cross(w, x)[i] for i in range(3)]
        mom = [m * e for e in u]
        acc = [a[i] + cross(al, x)[i] + cross(w, u)[i] for i in range(3)]
        f = [m * e for e in acc]
        Pm = [s + e for s, e in zip(Pm, mom)]
        L = [s + e for s, e in zip(L, cross(x, mom))]
        F = [s + e for s, e in zip(F, f)]
        N = [s + e for s, e in zip(N, cross(x, f))]
        T2 = T2 + m * (u[0] * u[0] + u[1] * u[1] + u[2] * u[2])
    mv = q.M @ V.vec
    c.eq("momentum", mv, c.arr(L + Pm))
    c.eq("kinetic energy", V.vec @ mv, T2)
    W = q.body_wrench(V, A)
    c.eq("Newton-Euler", W.vec, c.arr(N + F))
    c.eq("regressor", c.rg.RigidBody.regressor(V, A) @ q.vec, c.arr(N + F))


@suite.inst()
def massless(c):
    z = c.rg.InertialParameters.zero()
    v, w, a, al = motion(c)
    V, A = c.rg.SV(linear=v, angular=w), c.rg.SV(linear=a, angular=al)
    c.eq("no wrench", z.body_wrench(V, A).vec, c.np.zeros(6))
    c.eq("M", z.M, c.np.zeros((6, 6)))
