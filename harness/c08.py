"""C08 Shell, wireframe and vertex mass models equal their sums."""
import itertools
from symx.run import Suite
from .common import world, tj, place, half_extents, pim, outer, mass_pim

suite = Suite("C08", bounds="all half extents > 0, rotations, centres, masses >= 0; vertex masses on boxes and simplices",
              assumes=["exact real arithmetic", "the ellipsoid shell is the limit of a shell whose semi-axes are thickened equally"])


def segment(c, a, b, w):
    """mass w spread uniformly over the segment a..b: 1/3 of the mass at each end plus 1/3 weighted products"""
    mid = [(x + y) / 2 for x, y in zip(a, b)]
    # Simpson's rule is exact for quadratics
    return mass_pim(c, [w / 6, w * 2 / 3, w / 6], [a, mid, b])


def face(c, o, u, v, w):
    """mass w uniform over o + s u + t v, |s|,|t| <= 1 (product Simpson rule)"""
    J = c.np.zeros((4, 4))
    for s, ws in ((-1, 1), (0, 4), (1, 1)):
        a = [x + s * y - z for x, y, z in zip(o, u, v)]
        b = [x + s * y + z for x, y, z in zip(o, u, v)]
        J = J + segment(c, a, b, w * ws / 6)
    return J


def unit(i, x):
    v = [0, 0, 0]
    v[i] = x
    return v


@suite.inst()
def hollow_box(c):
    h = half_extents(c)
    R, t = place(c)
    m = c.nonneg("m")
    s = c.rg.Box(half_extents=h, rotation=R, center=t)
    A = 8 * (h[0] * h[1] + h[0] * h[2] + h[1] * h[2])
    J = c.np.zeros((4, 4))
    for k in range(3):
        i, j = [x for x in range(3) if x != k]
        for sg in (1, -1):
            J = J + face(c, unit(k, sg * h[k]), unit(i, h[i]), unit(j, h[j]), m * (4 * h[i] * h[j]) / A)
    c.eq("six faces", s.hollow_density_params(m).J, tj(c, R, t, J))


@suite.inst()
def wireframe_box(c):
    h = half_extents(c)
    R, t = place(c)
    m = c.nonneg("m")
    s = c.rg.Box(half_extents=h, rotation=R, center=t)
    L = 8 * (h[0] + h[1] + h[2])
    J = c.np.zeros((4, 4))
    for k in range(3):
        i, j = [x for x in range(3) if x != k]
        for si in (1, -1):
            for sj in (1, -1):
                a = [0, 0, 0]
                a[i], a[j], a[k] = si * h[i], sj * h[j], h[k]
                b = list(a)
                b[k] = -h[k]
                J = J + segment(c, a, b, m * 2 * h[k] / L)
    c.eq("twelve edges", s.wireframe_density_params(m).J, tj(c, R, t, J))


@suite.inst()
def shell_ellipsoid(c):
    a = half_extents(c, lo=c.const(1) / 10**6)
    R, t = place(c)
    m = c.nonneg("m")
    s = c.rg.Ellipsoid(half_extents=a, rotation=R, center=t)
    x, y, z = a
    # d/de of V(a+e) and of V(a+e) (a_k+e)^2/5 at e = 0, over the common factor 4 pi/3
    dV = y * z + x * z + x * y
    H = []
    for k in range(3):
        dVk = dV * a[k] * a[k] / 5 + x * y * z * 2 * a[k] / 5
        H.append(m * dVk / dV)
    c.eq("shell", s.hollow_density_params(m).J, world(c, R, t, m, H))


METHODS = ["Box.hollow", "Box.wireframe", "Ellipsoid.hollow"]


@suite.inst(params=METHODS)
def laws(c, p):
    kind, meth = p.split(".")
    h = half_extents(c, lo=c.const(1) / 10**6)
    R, t = place(c)
    s = getattr(c.rg, kind)(half_extents=h, rotation=R, center=t)
    f = getattr(s, meth + "_density_params")
    m, k = c.pos("m"), c.pos("k")
    q = f(m)
    c.eq("mass", q.mass, m)
    c.eq("com", q.com, t)
    c.eq("linear", f(k * m).J, k * q.J)
    c.eq("zero", f(0).J, c.np.zeros((4, 4)))
    c.raises("negative mass", lambda: f(-m), AssertionError, ValueError)
    S, u = place(c, "s")
    q2 = getattr(s.transform(rotation=S, translation=u), meth + "_density_params")(m)
    c.eq("moves", q2.J, tj(c, S, u, q.J))


@suite.inst(params=["each", "total"])
def box_vertices(c, p):
    h = half_extents(c)
    R, t = place(c)
    s = c.rg.Box(half_extents=h, rotation=R, center=t)
    if p == "each":
        ms = [c.pos("m0")] + [c.nonneg("m%d" % i) for i in range(1, 8)]
        q = s.vertex_point_mass_params(c.arr(ms))
        # which vertex has which index is the shape's own ordering
        c.eq("J", q.J, mass_pim(c, ms, s.vertices))
        tot = sum(ms)
        c.eq("mass", q.mass, tot)
    else:
        m = c.pos("m")
        q = s.vertex_point_mass_params(m)
        J = c.np.zeros((4, 4))
        for sg in itertools.product((1, -1), repeat=3):
            J = J + mass_pim(c, [m / 8], [[a * b for a, b in zip(sg, h)]])
        c.eq("J", q.J, tj(c, R, t, J))


@suite.inst(params=["each", "total", "bad", "list"])
def simplex_vertices(c, p):
    e = half_extents(c, "e")
    s = c.rg.ConvexPolyhedron.simplex(e)
    vs = [[0, 0, 0]] + [unit(i, e[i]) for i in range(3)]
    if p == "total":
        m = c.pos("m")
        c.eq("J", s.vertex_point_mass_params(m).J, mass_pim(c, [m / 4] * 4, vs))
        return
    ms = [c.pos("m0")] + [c.nonneg("m%d" % i) for i in range(1, 4)]
    if p == "bad":
        c.raises("negative", lambda: s.vertex_point_mass_params(c.arr([-ms[0]] + ms[1:])), AssertionError, ValueError)
        c.raises("count", lambda: s.vertex_point_mass_params(c.arr(ms[:3])), AssertionError, ValueError)
        return
    q = s.vertex_point_mass_params(ms if p == "list" else c.arr(ms))
    c.eq("J", q.J, mass_pim(c, ms, s.vertices))
    c.eq("J of the simplex", q.J, mass_pim(c, ms, vs))


@suite.inst(params=["Box", "ConvexPolyhedron"])
def moved_vertices(c, p):
    if p == "Box":
        s = c.rg.Box(half_extents=half_extents(c), rotation=c.rot("R"), center=c.vec("t", 3))
    else:
        s = c.rg.ConvexPolyhedron.simplex(half_extents(c, "e"))
    m = c.pos("m")
    S, u = place(c, "s")
    c.eq("moves", s.transform(rotation=S, translation=u).vertex_point_mass_params(m).J, tj(c, S, u, s.vertex_point_mass_params(m).J))


@suite.inst(params=["each", "total"])
def octahedron(c, p):
    """six vertices with their own masses"""
    h = half_extents(c, "h")
    u = c.vec("u", 3)
    V = []
    for i in range(3):
        for s in (1, -1):
            V.append([u[j] + (s * h[i] if j == i else 0) for j in range(3)])
    s = c.rg.ConvexPolyhedron.from_vertices(c.arr(V))
    c.check("six vertices", s.nv == 6)
    if p == "total":
        m = c.pos("m")
        c.eq("J", s.vertex_point_mass_params(m).J, mass_pim(c, [m / 6] * 6, V))
        return
    ms = [c.pos("m0")] + [c.nonneg("m%d" % i) for i in range(1, 6)]
    c.eq("J", s.vertex_point_mass_params(c.arr(ms)).J, mass_pim(c, ms, s.vertices))
