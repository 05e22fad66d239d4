"""C39 Queries and transforms leave their operands unchanged."""
import numbers
import numpy as np
from symx.run import Suite
from symx.core import Sym, SymBool
from .common import mk, params, half_extents, axis_rot

suite = Suite("C39", bounds="one object of each kind (box, simplex, full and flat ellipsoid, cylinder, capsule, parameters, rigid body of two shapes, span and face forms, "
              "polynomial, spatial vector) with arbitrary values; every listed operation, twice around, and modification of its result",
              assumes=["exact real arithmetic", "components a combination is documented to share (shapes and parameters of a rigid body, an ellipsoid bounding itself, arrays kept by inertial parameters and by face forms) are excluded from the modification part"],
              max_paths=4000, max_draws=6)


def owned(x):
    m = type(x).__module__ or ""
    return m.startswith("rigeo") and hasattr(x, "__dict__")


def leaf(x):
    return isinstance(x, (Sym, SymBool, numbers.Number, bool, np.bool_, np.number)) or type(x).__name__ == "Tri"


def walk(x, path="", seen=None):
    """(path, kind, value) of everything observable in x: public attributes, elements"""
    seen = set() if seen is None else seen
    if isinstance(x, np.ndarray):
        yield path, "array", x.copy()
        return
    if leaf(x) or x is None or isinstance(x, str):
        yield path, "leaf", x
        return
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        yield path, "len", len(x)
        for i, y in enumerate(x):
            yield from walk(y, "%s[%d]" % (path, i), seen)
    elif isinstance(x, dict):
        yield path, "len", len(x)
        for k in sorted(x, key=str):
            yield from walk(x[k], "%s[%s]" % (path, k), seen)
    elif owned(x):
        for k in sorted(vars(x)):
            if not k.startswith("_"):
                yield from walk(vars(x)[k], path + "." + k, seen)


def snap(x):
    return list(walk(x))


def same_thing(v, w):
    """the very same values (no solver needed)"""
    if isinstance(v, np.ndarray):
        return isinstance(w, np.ndarray) and v.shape == w.shape and all(a is b or not isinstance(a, (Sym, SymBool)) and a == b for a, b in zip(v.reshape(-1), w.reshape(-1)))
    return v is w


def boolish(v):
    return isinstance(v, (SymBool, bool, np.bool_)) or type(v).__name__ == "Tri"


def compare(c, label, s, t):
    c.check(label + " structure", [a[:2] for a in s] == [b[:2] for b in t])
    if all(same_thing(a[2], b[2]) for a, b in zip(s, t)):
        return
    for (p, k, v), (_, _, w) in zip(s, t):
        if k == "array":
            c.check(label + p + " shape", v.shape == w.shape)
            if v.size and boolish(v.reshape(-1)[0]):
                for a, b in zip(v.reshape(-1), w.reshape(-1)):
                    c.iff(label + p, a, b)
            elif v.size:
                c.eq(label + p, v, w)
        elif k == "len" or v is None or isinstance(v, str):
            c.check(label + p, v == w)
        elif boolish(v) or boolish(w):
            c.check(label + p, boolish(v) and boolish(w))
            c.iff(label + p, v, w)
        else:
            c.eq(label + p, v, w)


def scribble(x, seen=None):
    """modify everything reachable in a result in place"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size and x.ndim and x.dtype != bool and not boolish(x.reshape(-1)[0]):
            x[...] = x * 3 + 7
    elif isinstance(x, list):
        for y in x:
            scribble(y, seen)
        x.append(None)
    elif isinstance(x, tuple):
        for y in x:
            scribble(y, seen)
    elif isinstance(x, dict):
        for y in x.values():
            scribble(y, seen)
    elif owned(x):
        for k in list(vars(x)):
            scribble(vars(x)[k], seen)


def histories(c, obj, ops, args=(), shares=()):
    """every operation, twice around (second round in reverse order), then after modifying the results"""
    before = [snap(obj)] + [snap(a) for a in args]

    def unchanged(tag):
        for nm, s, x in zip(["object"] + ["argument %d" % i for i in range(len(args))], before, (obj,) + tuple(args)):
            compare(c, "%s leaves the %s unchanged: " % (tag, nm), s, snap(x))

    first, kept = {}, {}
    for nm, f in ops:
        kept[nm] = f()
        first[nm] = snap(kept[nm])
        unchanged(nm)
    for nm, f in reversed(ops):
        r = f()
        compare(c, nm + " repeated: ", first[nm], snap(r))
        if nm not in shares:
            scribble(r)
            unchanged("a change to the result of " + nm)
            compare(c, nm + " earlier result: ", first[nm], snap(kept[nm]))
    for nm, f in ops:
        compare(c, nm + " after changes to the results: ", first[nm], snap(f()))
    unchanged("the history")


def inputs(c):
    p, P = c.vec("p", 3), c.mat("P", 2, 3)
    R, t = c.rot("T"), c.vec("u", 3)
    return p, P, R, t


KINDS = ["box", "simplex", "ellipsoid", "ellipsoid-2", "ellipsoid-12", "cylinder", "capsule"]


@suite.inst(params=KINDS + ["pyramid", "octahedron"])
def shapes(c, kind):
    X = mk(c, kind, R=axis_rot(c, "R"), t=c.vec("t", 3))
    s = X.s
    if kind == "box":
        for t in X.size:
            c.assume(c.lt(c.const(1) / 10**6, t))
    p, P = c.vec("p", 3), c.mat("P", 2, 3)
    R, t = axis_rot(c, "T"), c.vec("u", 3)
    m = c.pos("m")
    ops = [
        ("aabb", lambda: s.aabb()),
        ("transform", lambda: s.transform(rotation=R, translation=t)),
        ("rotation", lambda: s.transform(rotation=R)),
        ("translation", lambda: s.transform(translation=t)),
        ("no transform", lambda: s.transform()),
        ("contains", lambda: s.contains(p)),
        ("contains many", lambda: s.contains(P)),
        ("is_same", lambda: s.is_same(s)),
    ]
    for nm in ("mbb", "mib", "mie", "mbe", "endpoints", "capsule", "is_degenerate", "_Q_degenerate"):
        if not hasattr(s, nm) or nm.startswith("_") or (kind, nm) in (("simplex", "mbe"), ("simplex", "mie"), ("capsule", "mbe"), ("pyramid", "mbe"), ("pyramid", "mie"), ("octahedron", "mbe"), ("octahedron", "mie")):
            continue
        ops.append((nm, getattr(s, nm)))
        if nm in ("mie", "mbe"):
            ops.append((nm + " sphere", lambda nm=nm: getattr(s, nm)(sphere=True)))
    for nm in ("uniform_density_params", "hollow_density_params", "wireframe_density_params", "vertex_point_mass_params"):
        if hasattr(s, nm) and kind not in ("ellipsoid-2", "ellipsoid-12"):
            ops.append((nm, lambda nm=nm: getattr(s, nm)(m)))
    if hasattr(s, "rotate_about_center"):
        ops.append(("rotate_about_center", lambda: s.rotate_about_center(R)))
    for nm in ("volume", "side_lengths", "diaglen", "E", "S", "A", "b", "Q", "rank", "dim", "nv", "nf", "full_length", "inner_length"):
        if hasattr(type(s), nm) and (kind not in ("ellipsoid-2", "ellipsoid-12") or nm in ("E", "rank", "dim", "volume")):
            ops.append((nm, lambda nm=nm: np.array(getattr(s, nm)) * 1))
    if hasattr(s, "on_surface") and kind != "capsule":
        ops.append(("on_surface", lambda: s.on_surface(p)))
    histories(c, s, ops, (p, P, R, t), shares=("mbe", "capsule"))


@suite.inst()
def box_as_poly(c):
    s = mk(c, "box", R=axis_rot(c, "R"), t=c.vec("t", 3)).s
    histories(c, s, [("as_poly", s.as_poly), ("mbb", lambda: s.volume)])


@suite.inst(params=[k if k == "capsule" else dict(p=k, _o=dict(max_draws=100)) for k in KINDS])
def sampling(c, kind):
    X = mk(c, kind, R=axis_rot(c, "R"), t=c.vec("t", 3))
    s = X.s
    ops = [("random_points", lambda: s.random_points(rng=5)), ("several", lambda: s.random_points(shape=2, rng=6))]
    if kind == "capsule":
        ops = ops[:1]
    if kind in ("box",):
        ops.append(("surface", lambda: s.random_points_on_surface(rng=7)))
        ops.append(("edges", lambda: s.random_points_on_edges(rng=8)))
        ops.append(("grid", lambda: s.grid(2)))
        n = [2, 1, 2]
        ops.append(("grid sizes", lambda: s.grid(n)))
    histories(c, s, ops)


@suite.inst(params=["box", "simplex", "ellipsoid", "ellipsoid-2", "cylinder", "capsule"])
def constraints(c, kind):
    """building optimisation constraints"""
    X = mk(c, kind, R=axis_rot(c, "R"), t=c.vec("t", 3))
    s = X.s
    cp = c.cp
    x, J, th = cp.Variable(3), cp.Variable((4, 4)), cp.Variable(10)
    h, eps = c.vec("h", 3), c.pos("eps")

    def done(f):
        f()
        return None

    ops = [("must_contain", lambda: done(lambda: s.must_contain(x))), ("scaled", lambda: done(lambda: s.must_contain(x, scale=2.0)))]
    for nm in ("moment_sdp_constraints", "moment_vertex_constraints", "moment_custom_vertex_constraints", "moment_constraints"):
        if hasattr(s, nm):
            ops.append((nm, lambda nm=nm: done(lambda: getattr(s, nm)(J, eps=eps))))
            ops.append((nm + " vector", lambda nm=nm: done(lambda: getattr(s, nm)(th))))
    ops.append(("aabb", lambda: s.aabb()))
    ops.append(("contains", lambda: s.contains(h)))
    histories(c, s, ops, (h,))


@suite.inst()
def inertial(c):
    IP = c.rg.InertialParameters
    m, com, H = params(c)
    k, com2, G = params(c, "q")
    A, B = IP(mass=m, com=com, H=H), IP(mass=k, com=com2, H=G)
    R, t = c.rot("R"), c.vec("t", 3)
    V, W = c.rg.SV(linear=c.vec("vl", 3), angular=c.vec("va", 3)), c.rg.SV(linear=c.vec("al", 3), angular=c.vec("aa", 3))
    ops = [("h", lambda: A.h), ("vec", lambda: A.vec), ("I", lambda: A.I), ("Hc", lambda: A.Hc), ("Ic", lambda: A.Ic), ("J", lambda: A.J), ("M", lambda: A.M),
           ("transform", lambda: A.transform(R, t)), ("rotation", lambda: A.transform(rotation=R)), ("translation", lambda: A.transform(translation=t)),
           ("none", lambda: A.transform()), ("+", lambda: A + B), ("sum", lambda: sum([A, B])), ("same", lambda: A.is_same(A)), ("wrench", lambda: A.body_wrench(V, W))]
    histories(c, A, ops, (B, R, t, V, W))


@suite.inst()
def inertial_sources(c):
    """the arrays parameters are built from"""
    IP = c.rg.InertialParameters
    m, com, H = params(c)
    vec, J, ms, ps = c.vec("w", 10), c.np.zeros((4, 4)), c.np.array([c.pos("m0"), c.pos("m1")]), c.mat("p", 2, 3)
    c.assume(c.lt(0, vec[0]))
    J[:3, :3] = H
    J[:3, 3] = m * com
    J[3, :3] = m * com
    J[3, 3] = m
    args = (com, H, vec, J, ms, ps)
    ops = [("com", lambda: IP(mass=m, com=com, H=H)), ("h", lambda: IP(mass=m, h=com, H=H)), ("I", lambda: IP(mass=m, com=com, I=H)),
           ("from com", lambda: IP(mass=m, com=com, H=H, translate_from_com=True)), ("none", lambda: IP(mass=m, com=com)),
           ("vec", lambda: IP.from_vec(vec)), ("pim", lambda: IP.from_pim(J)), ("points", lambda: IP.from_point_masses(ms, ps))]
    # parameters may keep the arrays they were given
    histories(c, None, ops, args, shares=("com", "h", "I", "from com", "none", "vec", "pim"))


@suite.inst()
def bodies(c):
    rg = c.rg
    IP = rg.InertialParameters
    m, com, H = params(c)
    k, com2, G = params(c, "q")
    a = half_extents(c, "a")
    b1 = rg.RigidBody([rg.Box(half_extents=a, center=c.vec("t", 3)), rg.Ellipsoid.sphere(radius=c.pos("r", lo=c.const(1) / 100))], IP(mass=m, com=com, H=H))
    b2 = rg.RigidBody(rg.Cylinder(length=c.pos("L", lo=c.const(1) / 100), radius=c.pos("g", lo=c.const(1) / 100)), IP(mass=k, com=com2, H=G))
    R, t = axis_rot(c, "R"), c.vec("u", 3)
    th = c.cp.Variable(10)

    def done(f):
        f()
        return None

    ops = [("+", lambda: b1 + b2), ("sum", lambda: sum([b1, b2])), ("reversed", lambda: b2 + b1), ("transform", lambda: b1.transform(R, t)),
           ("mbes", lambda: b1.mbes()), ("spheres", lambda: b1.mbes(sphere=True)), ("constraints", lambda: done(lambda: b1.moment_sdp_constraints(th))),
           ("single", lambda: done(lambda: b2.moment_sdp_constraints(th)))]
    histories(c, b1, ops, (b2, R, t), shares=("+", "sum", "reversed", "mbes", "spheres"))
    # the list of shapes of a combination is its own
    s = b1 + b2
    s.shapes.append(None)
    c.check("operands keep their shapes", len(b1.shapes) == 2 and len(b2.shapes) == 1)
    s = b1 + b2
    s.params = None
    c.check("operands keep their parameters", b1.params is not None and b2.params is not None)


@suite.inst(params=[(2, 1, 0), (3, 0, 2), (0, 2, 2)])
def spans(c, p):
    nv, nr, d = p
    d = d or 1
    P = c.mod("rigeo.polydd")
    V, W = c.mat("V", nv, d) if nv else None, c.mat("W", nr, d) if nr else None
    S = P.SpanForm(vertices=V, rays=W)
    R, t = (c.rotn("R", d) if d == 2 else c.np.eye(1) * 1.0), c.vec("t", d)
    ops = [("transform", lambda: S.transform(R, t)), ("bounded", lambda: S.bounded()), ("cone", lambda: S.is_cone()), ("counts", lambda: [S.nv, S.nr, S.dim])]
    if d == 1 or nv == 3:
        ops += [("canonical", lambda: S.canonical()), ("faces", lambda: S.to_face_form())]
    args = tuple(x for x in (V, W, R, t) if x is not None)
    histories(c, S, ops, args)


def construct(c, kind):
    """(arrays, constructor from them)"""
    rg = c.rg
    a, t, R = half_extents(c, "a", lo=c.const(1) / 10**6), c.vec("t", 3), axis_rot(c, "R")
    m = c.mod("rigeo.polydd")
    M = c.mod("rigeo.moment")
    if kind == "box":
        return (a, t, R), lambda: rg.Box(half_extents=a, center=t, rotation=R)
    if kind == "two vertices":
        return (t, t + a), lambda x=t, y=t + a: rg.Box.from_two_vertices(x, y)
    if kind == "bound":
        P = c.mat("P", 2, 3)
        return (P,), lambda: rg.Box.from_points_to_bound(P)
    if kind == "ellipsoid":
        return (a, t, R), lambda: rg.Ellipsoid(half_extents=a, center=t, rotation=R)
    if kind == "ellipsoid rotation":
        return (a, R), lambda: rg.Ellipsoid(half_extents=a, rotation=R)
    if kind == "sphere":
        return (t,), lambda: rg.Ellipsoid.sphere(radius=2.0, center=t)
    if kind == "cylinder":
        return (t, R), lambda: rg.Cylinder(length=3.0, radius=2.0, center=t, rotation=R)
    if kind == "vector":
        x = c.vec("x", 6)
        return (x,), lambda: rg.SV.from_vec(x)
    if kind == "parts":
        x, y = c.vec("x", 3), c.vec("y", 3)
        return (x, y), lambda: rg.SV(linear=x, angular=y)
    if kind == "spans":
        V, W = c.mat("V", 2, 2), c.mat("W", 1, 2)
        return (V, W), lambda: m.SpanForm(V, W)
    if kind == "vertices":
        V = c.mat("V", 2, 2)
        return (V,), lambda: m.SpanForm(V)
    if kind == "polyhedron":
        V = c.arr([t] + [t + a[i] * R[:, i] for i in range(3)])
        return (V,), lambda: rg.ConvexPolyhedron.from_vertices(V)
    if kind == "affine":
        return (t,), lambda: M.Polynomial.affine(t, 2.0)
    if kind == "params vec":
        x = c.vec("x", 10)
        c.assume(c.lt(0, x[0]))
        return (x,), lambda: rg.InertialParameters.from_vec(x)


@suite.inst(params=["box", "two vertices", "bound", "ellipsoid", "ellipsoid rotation", "sphere", "cylinder", "vector", "parts", "spans", "vertices", "polyhedron", "affine", "params vec"])
def constructors(c, kind):
    """an object and the arrays it was constructed from do not affect each other"""
    args, f = construct(c, kind)
    x, y, z = f(), f(), f()
    before, given = snap(x), snap(args)
    compare(c, "constructing leaves the arguments unchanged: ", given, snap(args))
    for k in range(len(args)):
        o = f()
        s = snap(o)
        args[k][...] = args[k] * 2 + 5
        compare(c, "argument %d changed afterwards: " % k, s, snap(o))
        args[k][...] = (args[k] - 5) / 2
    given = snap(args)
    scribble(y)
    compare(c, "arguments after a change to the object: ", given, snap(args))
    compare(c, "another object after a change to the object: ", before, snap(x))


@suite.inst(params=[1, 2])
def faces(c, d):
    P = c.mod("rigeo.polydd")
    A, b, B, e = c.mat("A", 2, d), c.vec("b", 2), c.mat("B", 1, d), c.vec("e", 1)
    for r in list(A) + list(B):
        c.assume(c.lt(0, r[0]))
    F, G = P.FaceForm(A, b), P.FaceForm(B, e)
    R, t = (c.rotn("R", d) if d == 2 else c.np.eye(1) * 1.0), c.vec("t", d)
    ops = [("transform", lambda: F.transform(R, t)), ("stack", lambda: F.stack(G)), ("counts", lambda: [F.nf, F.dim]), ("equalities", lambda: P.FaceForm(A, b, B, e))]
    if d == 1:
        ops += [("canonical", lambda: F.canonical()), ("spans", lambda: F.to_span_form())]
    histories(c, F, ops, (A, b, B, e, G, R, t))


@suite.inst()
def polynomials(c):
    M = c.mod("rigeo.moment")
    a, b = c.vec("a", 3), c.real("b")
    c.assume(c.land(c.lnot(c.same(a[0], c.const(0))), c.lnot(c.same(a[1], c.const(0))), c.lnot(c.same(a[2], c.const(0))), c.lnot(c.same(b, c.const(0)))))
    p, q = M.Polynomial.affine(a, b), M.Polynomial({"200": 1, "000": c.pos("k")})
    x = c.vec("x", 3)
    mm = M.MomentMatrix(n=3, d=2)
    val = c.mat("Mv", 10, 10)

    def coef(r):
        return {str(k): v for k, v in r.coefficients.items()} if hasattr(r, "coefficients") else r.evaluate(x)

    ops = [("+", lambda: (p + q).evaluate(x)), ("evaluate", lambda: p.evaluate(x)), ("localize", lambda: p.localize(M.MomentIndex("100")).evaluate(x)),
           ("value", lambda: mm.localize(val, p)), ("degree", lambda: p.degree), ("basis", lambda: len(M.Polynomial.basis(3, 2)))]
    histories(c, p, ops, (a, x, q, val))


@suite.inst()
def vectors(c):
    V, W = c.rg.SV(linear=c.vec("vl", 3), angular=c.vec("va", 3)), c.rg.SV(linear=c.vec("al", 3), angular=c.vec("aa", 3))
    s = c.pos("s")
    x = c.vec("x", 6)
    ops = [("+", lambda: (V + W).vec), ("-", lambda: (V - W).vec), ("*", lambda: (V * s).vec), ("/", lambda: (V / s).vec), ("adjoint", lambda: V.adjoint()),
           ("from_vec", lambda: c.rg.SV.from_vec(x)), ("vec", lambda: V.vec * 1), ("linear", lambda: V.linear * 1)]
    histories(c, W, ops, (x,))
    before = V.vec * 1
    for nm, f in ops[:5]:
        r = f()
        scribble(r)
        c.eq("a change to the result of " + nm, V.vec, before)


@suite.inst()
def pure_functions(c):
    u = c.mod("rigeo.util")
    x, A, R, t = c.vec("x", 3), c.symmat("A", 3), c.rot("R"), c.vec("t", 3)
    v = c.vec("v", 6)
    V = c.rg.SV(linear=c.vec("vl", 3), angular=c.vec("va", 3))
    ops = [("skew3", lambda: u.skew3(x)), ("vech", lambda: u.vech(A)), ("unvech", lambda: u.unvech(v)), ("lift3", lambda: u.lift3(x)), ("lift6", lambda: u.lift6(V)),
           ("clean", lambda: u.clean_transform(R, t)), ("T", lambda: u.transform_matrix(R, t)), ("Tinv", lambda: u.transform_matrix_inv(R, t)),
           ("box", lambda: u.box_vertices(x))]
    ops = [o for o in ops if hasattr(u, {"clean": "clean_transform", "T": "transform_matrix", "Tinv": "transform_matrix_inv", "box": "box_vertices"}.get(o[0], o[0]))]
    histories(c, None, ops, (x, A, R, t, v, V))


@suite.inst(params=["box", "simplex", "cylinder"])
def realizing(c, kind):
    """realizability of parameters by an ellipsoid leaves both alone"""
    E = mk(c, "ellipsoid", R=c.np.eye(3), t=c.vec("t", 3)).s
    m, com, H = params(c)
    A = c.rg.InertialParameters(mass=m, com=com, H=H)
    S = mk(c, kind, R=c.np.eye(3), t=c.vec("v", 3), tag="s").s
    pts = c.mat("P", 2, 3)
    hull = c.rg.Box
    ops = [("Q", lambda: E.Q * 1), ("bound", lambda: hull.from_points_to_bound(pts)), ("two", lambda: hull.from_two_vertices(pts[0], pts[1]))]
    if kind != "cylinder":
        ops.append(("contained", lambda: E.contains_polyhedron(S)))
    histories(c, E, ops, (A, S, pts))
