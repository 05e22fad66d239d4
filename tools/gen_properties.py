"""Writes /verif/properties.jsonl (one line per property).  Edit here, rerun."""
import json, os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            **({"state": state} if state else {}),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": None},
    })


S = "src/rigeo/"
SH = S + "shape/"

prop("C01", "Inertial parameter representations are interchangeable",
     "A rigid body's inertial parameters describe the same body whether given as mass with first moment or centre of mass, with second-moment matrix or inertia matrix, as a ten-vector, or as a 4x4 pseudo-inertia matrix: converting to any representation and back yields the same mass, first moment and second moment, including for massless (all-zero) parameters. The ten-vector is (m, hx, hy, hz, Ixx, Ixy, Ixz, Iyy, Iyz, Izz), the pseudo-inertia is [[H, h], [h^T, m]], and two parameter sets compare as the same exactly when their pseudo-inertia matrices agree.",
     ["inputs"], "every mass >= 0, first moment in R^3, symmetric second moment",
     "test_representations converts one fixed body; the conversions are linear maps in 10 unknowns that must be mutually inverse for all of R^10, and one swapped product of inertia is invisible on a diagonal matrix",
     [S + "inertial.py", S + "constraint.py"],
     [("constructor, from_vec, from_pim, vec, J, I, H", S + "inertial.py"), ("H2I / I2H", S + "inertial.py")],
     ["InertialParameters attributes and constructors"])

prop("C02", "Combining bodies superposes their mass distributions",
     "The parameters of a system of point masses are the sums of m, m*p and m*p*p^T; adding two parameter sets gives the parameters of the union of the two mass distributions, so addition is commutative, associative, has the zero parameters as identity (massless plus massless is massless), works with the built-in sum, and is independent of how the masses are grouped.",
     ["inputs"], "every finite system of point masses (non-negative masses, arbitrary positions) and every grouping of it; all parameter sets",
     "tests add two fixed bodies of equal mass; superposition must hold for all masses and positions, including zero-mass summands that tests never add",
     [S + "inertial.py", S + "rigidbody.py"],
     [("from_point_masses, __add__, __radd__, zero", S + "inertial.py"), ("__add__", S + "rigidbody.py")],
     ["InertialParameters.from_point_masses", "p1 + p2", "sum([...])"])

prop("C03", "Moving a body transforms its inertial parameters rigidly",
     "Applying a rotation R and translation t to inertial parameters yields exactly the parameters of the mass distribution whose every point p was moved to R p + t (pseudo-inertia T J T^T); transforms compose, the inverse transform restores the original, and a missing rotation or translation acts as the identity.",
     ["inputs"], "every rotation, translation and parameter set; every two-step composition",
     "test_transform uses rotations about one axis of a symmetric body with zero centre of mass, for which many wrong formulas coincide",
     [S + "inertial.py"], [("transform", S + "inertial.py"), ("Hc", S + "inertial.py")],
     ["InertialParameters.transform"])

prop("C04", "Centre-of-mass and origin reference points agree",
     "Quantities about the centre of mass and about the origin are related by the parallel-axis theorem for every body: Hc = H - m c c^T, Ic = I - m(|c|^2 1 - c c^T), and a body specified by its central inertia or central second moment together with its centre of mass has exactly those central quantities and the correspondingly shifted origin quantities. Second moment and inertia matrices convert by I = tr(H) 1 - H and are mutually inverse.",
     ["inputs"], "every mass, centre of mass, symmetric 3x3 inertia or second-moment matrix",
     "no test constructs a body from central quantities with a non-zero centre of mass",
     [S + "inertial.py"], [("translate_from_com branch, Hc, Ic, H2I, I2H", S + "inertial.py")],
     ["InertialParameters(..., translate_from_com=True)", "Hc", "Ic", "H2I", "I2H"])

prop("C05", "Regressor, spatial mass matrix and wrench obey Newton-Euler",
     "For every body, velocity and acceleration, the body wrench, the spatial mass matrix and the regressor agree with each other and with Newton-Euler mechanics of the underlying mass distribution: M V = lift(V) theta, M is symmetric and gives the system's momentum and kinetic energy, and regressor(V, A) theta equals M A - ad(V)^T M V, the sum over masses of the force and moment needed to produce the motion.",
     ["inputs"], "every inertial parameter set or point-mass system, spatial velocity and spatial acceleration",
     "test_regressor compares one random velocity/acceleration with pinocchio; body_wrench is not tested at all",
     [S + "inertial.py", S + "rigidbody.py", S + "util.py", S + "spatial.py"],
     [("M, body_wrench", S + "inertial.py"), ("regressor", S + "rigidbody.py"), ("lift3, lift6", S + "util.py"), ("adjoint", S + "spatial.py")],
     ["InertialParameters.M", "InertialParameters.body_wrench", "RigidBody.regressor"])

prop("C06", "The physical-consistency test decides eigenvalue positivity",
     "Inertial parameters are reported physically consistent for a margin eps exactly when every eigenvalue of their pseudo-inertia matrix is at least eps; in particular any parameters with a strictly positive margin stay consistent under rigid motion, and parameters with negative central second moment along any axis are rejected.",
     ["inputs"], "every pseudo-inertia matrix (given by spectrum and an orthogonal frame) and every eps",
     "consistent() has no test of its own; it is only reached through four realizability examples with eps = 0",
     [S + "inertial.py"], [("consistent", S + "inertial.py")], ["InertialParameters.consistent"])

prop("C07", "Uniform-density parameters equal the solid's volume integrals",
     "The uniform-density inertial parameters of a box, ellipsoid or cylinder of any size, centre and orientation and any mass equal the mass-normalised volume integrals of 1, x and x x^T over that solid, in world coordinates about the origin; they scale linearly with mass, move with the shape, and the reported volume is the solid's volume.",
     ["inputs"], "all half extents / radius / length > 0, all centres, rotations and masses >= 0",
     "there is no test of uniform_density_params values for any shape; tests use them only as inputs elsewhere",
     [SH + "box.py", SH + "ellipsoid.py", SH + "cylinder.py"],
     [("uniform_density_params, volume", SH + "box.py"), ("uniform_density_params, volume", SH + "ellipsoid.py"), ("uniform_density_params, volume", SH + "cylinder.py")],
     ["Box/Ellipsoid/Cylinder.uniform_density_params", "volume"])

prop("C08", "Shell, wireframe and vertex mass models equal their sums",
     "The hollow-box parameters equal the area-weighted sum of the six faces, the wireframe-box parameters the length-weighted sum of the twelve edges, the vertex-mass parameters the sum over the vertices with the given masses (or the total mass split evenly), and the ellipsoid-shell parameters the limit of the difference of two solids whose semi-axes are thickened equally; each has the requested total mass, is linear in it and moves rigidly with the shape.",
     ["inputs"], "all half extents > 0, centres, rotations, masses; symbolic vertex masses",
     "the tests only compare box and ellipsoid shells with each other and check linearity in mass; wireframe parameters are untested",
     [SH + "box.py", SH + "ellipsoid.py", SH + "poly.py"],
     [("hollow_density_params, wireframe_density_params", SH + "box.py"), ("hollow_density_params", SH + "ellipsoid.py"), ("vertex_point_mass_params", SH + "poly.py")],
     ["hollow_density_params", "wireframe_density_params", "vertex_point_mass_params"])

prop("C09", "A box is one set, however it is built and queried",
     "For every box, its vertices, half-space inequalities, membership test, side lengths, centre, rotation and volume all describe the same oriented cuboid {c + R q : |q_i| <= h_i}; cubes, side lengths, two opposed vertices and bounding of points construct exactly the box they name; and converting it to a general polyhedron keeps its vertices.",
     ["inputs"], "all half extents >= 0, centres, rotations, query points, opposed vertex pairs, point sets",
     "tests use unit or axis-aligned boxes and a handful of points; a sign or transpose error only shows for rotated, off-centre, non-cubic boxes",
     [SH + "box.py", SH + "poly.py", S + "util.py"],
     [("__init__, _box_vertices, _box_inequalities, constructors", SH + "box.py"), ("contains", SH + "poly.py"), ("box_vertices", S + "util.py")],
     ["Box constructors", "Box.contains", "Box.vertices", "Box.A/b", "volume", "side_lengths"])

prop("C10", "An ellipsoid is one set in every representation",
     "For every ellipsoid, membership, the shape matrix, its inverse, the affine form, the quadratic Q form, rank, degeneracy and volume describe the same set {c + R diag(a) u : |u| <= 1}; building an ellipsoid from its shape matrix or affine form recovers the same set; zero half extents make it flat (only points in its plane or line belong), and comparing two ellipsoids reports sameness exactly when the sets agree, also for flat ones.",
     ["inputs"], "all half extents (zero or above the degeneracy tolerance), rotations, centres and points, dimensions 1 to 4",
     "tests probe a few spheres and one axis-aligned disk; rotated degenerate ellipsoids and self-comparison of degenerate ones are never exercised",
     [SH + "ellipsoid.py"],
     [("contains, S, E, A, b, Q, from_shape_matrix, from_affine, sphere, is_same, rank", SH + "ellipsoid.py")],
     ["Ellipsoid.contains", "S", "E", "A", "b", "Q", "is_same", "rank", "is_degenerate", "volume"])

prop("C11", "Cylinder and capsule membership is exact and honours tolerance",
     "A point belongs to a cylinder iff its axial distance from the centre is at most half the length and its radial distance at most the radius, and to a capsule iff its distance to the axis segment is at most the radius, for every placement; the caller's tolerance is what decides points just outside; end points, axes, lengths, volume and sameness describe that same solid.",
     ["inputs"], "all lengths and radii > 0, centres, rotations, query points, tolerances",
     "tests query an axis-aligned cylinder at the origin with nine points and never pass a tolerance or compare two cylinders or capsules",
     [SH + "cylinder.py", SH + "capsule.py", SH + "base.py"],
     [("contains, endpoints, is_same, volume", SH + "cylinder.py"), ("contains, is_same, full_length", SH + "capsule.py")],
     ["Cylinder.contains", "Capsule.contains", "endpoints", "is_same", "full_length"])

prop("C12", "Rigidly moving a shape or body moves its point set",
     "For every shape (box, ellipsoid, cylinder, capsule, polyhedron) and every rotation R and translation t, a point p is in the shape iff R p + t is in the transformed shape; size is unchanged, transforms compose, identity and missing arguments leave the set unchanged, rotation about the centre keeps the centre, and transforming a rigid body moves every shape and its inertial parameters by the same motion.",
     ["inputs"], "all shapes, rotations, translations, points, two-step compositions",
     "tests transform one box about z and compare vertices; transformed ellipsoids, cylinders, capsules and general polyhedra are not checked for membership",
     [SH + "box.py", SH + "ellipsoid.py", SH + "cylinder.py", SH + "capsule.py", SH + "poly.py", S + "rigidbody.py", S + "util.py"],
     [("transform, rotate_about_center", SH + "*.py"), ("transform", S + "rigidbody.py"), ("clean_transform", S + "util.py")],
     ["Shape.transform", "rotate_about_center", "RigidBody.transform"])

prop("C13", "Axis-aligned bounding boxes are tight bounds",
     "The axis-aligned bounding box of every box, ellipsoid, cylinder, capsule and polyhedron contains the shape, is axis-aligned, and is the smallest such box: along each coordinate direction the shape touches both bounding planes.",
     ["inputs"], "all sizes, centres, rotations; flat ellipsoids included; all points of the shape",
     "the aabb tests for ellipsoid and cylinder need an unavailable commercial solver and so do not run here; they check six points of one placement",
     [SH + "box.py", SH + "ellipsoid.py", SH + "cylinder.py", SH + "capsule.py", SH + "poly.py"],
     [("aabb", SH + "*.py"), ("from_points_to_bound, from_two_vertices", SH + "box.py")],
     ["Shape.aabb"])

prop("C14", "Closed-form bounding ellipsoids and boxes bound minimally",
     "The closed-form minimum bounding ellipsoid or sphere of a full-dimensional box, cylinder or ellipsoid and the oriented bounding box of an ellipsoid, cylinder or capsule contain the whole shape, share its centre and orientation, and are minimal: no bounding sphere about any centre has a smaller radius, every vertex or rim point lies on the bounding ellipsoid, and its volume cannot be reduced.",
     ["inputs"], "all positive sizes, centres, rotations; all points of the shape; all competitor spheres / axis-scaled ellipsoids",
     "tests compare one box and sample points of one cylinder; minimality and the sphere option are not tested where a solver is missing",
     [SH + "box.py", SH + "ellipsoid.py", SH + "cylinder.py", SH + "capsule.py"],
     [("mbe, mbb", SH + "*.py")], ["mbe()", "mbe(sphere=True)", "mbb()"])

prop("C15", "Closed-form inscribed boxes and ellipsoids fit and are maximal",
     "The inscribed box of an ellipsoid or cylinder and the closed-form inscribed ellipsoid or sphere of a box lie inside the shape for every placement, share its centre, touch its boundary, and cannot be enlarged (no axis-scaled competitor of the same family has larger volume).",
     ["inputs"], "all positive sizes, centres, rotations; all points of the inscribed shape; competitor extents",
     "tests check one ellipsoid, one cylinder and one axis-aligned box",
     [SH + "box.py", SH + "ellipsoid.py", SH + "cylinder.py"], [("mib, mie", SH + "*.py")],
     ["Ellipsoid.mib", "Cylinder.mib", "Box.mie"])

prop("C16", "Optimised bounding and inscribed ellipsoids bound and are optimal",
     "Given a convex solver that returns an optimal solution of the problem it is handed, the bounding ellipsoid (or sphere) computed for a set of points or of ellipsoids contains all of them and has the least volume among all that do, and the inscribed ellipsoid (or sphere) computed for a polyhedron lies inside it and has the greatest volume; points in a lower-dimensional subspace get a flat ellipsoid in that subspace.",
     ["inputs"], "point sets, ellipsoid sets, polyhedra in dimensions 1 to 3 (bounded sizes), every optimal solver answer",
     "every test of this code needs the unavailable commercial solver, and even then compares four fixed instances; the sphere option and several ellipsoids of unequal size are untested",
     [SH + "ellipsoid.py", SH + "poly.py", SH + "capsule.py"],
     [("mbe_of_points, mbe_of_ellipsoids, _mbee_con_mat, mie_inequality_form", SH + "ellipsoid.py"), ("mie", SH + "poly.py")],
     ["mbe_of_points", "mbe_of_ellipsoids", "ConvexPolyhedron.mie / mbe", "Capsule.mbe"])

prop("C17", "The ellipsoid-in-ellipsoid test is sound and complete",
     "Given a correct feasibility solver, one full-dimensional ellipsoid is reported to contain another exactly when every point of the second belongs to the first, for every pair of sizes and placements.",
     ["inputs"], "all pairs of ellipsoids: soundness in dimensions 1 to 3, completeness for the decidable families listed in DESIGN.md",
     "one test with concentric unit-size ellipsoids, which needs the unavailable solver; unequal centres and non-unit inner ellipsoids are untested",
     [SH + "ellipsoid.py", S + "constraint.py"], [("contains_ellipsoid", SH + "ellipsoid.py"), ("schur", S + "constraint.py")],
     ["Ellipsoid.contains_ellipsoid"])

prop("C18", "Containment constraints accept exactly the points of the shape",
     "The optimisation constraints a shape generates for a point are satisfiable at p exactly when p is a point of the shape, for boxes, polyhedra, ellipsoids (also flat), cylinders and capsules at any placement; with a positive scale s they accept h exactly when h/s is in the shape, and for several points every point is constrained.",
     ["inputs"], "all shapes, placements, points, scales > 0, one or several points",
     "all must_contain tests need the unavailable solver; upstream they maximise along single axes of axis-aligned shapes",
     [SH + "ellipsoid.py", SH + "cylinder.py", SH + "capsule.py", SH + "poly.py", S + "constraint.py"],
     [("must_contain", SH + "*.py"), ("schur", S + "constraint.py")], ["Shape.must_contain"])

prop("C19", "Closest points belong to the shapes and realise the distance",
     "Given a convex solver that returns an optimal solution, a closest-point query returns a point of the first shape, a point of the second shape, and their Euclidean distance, and no pair of points of the two shapes is closer; intersecting shapes have distance zero.",
     ["inputs"], "all pairs of shape kinds, placements and competitor point pairs",
     "one test with three axis-aligned pairs, which needs the unavailable solver",
     [S + "closest.py"], [("closest_points", S + "closest.py"), ("must_contain", SH + "*.py")],
     ["closest_points(...).p1, p2, dist"])

prop("C20", "Ellipsoid realizability never rejects real bodies nor accepts misfits",
     "Inertial parameters of any mass distribution inside an ellipsoid (full-dimensional or flat) are accepted both by its realizability test (if consistent) and by its realizability constraints, and anything accepted is positive semidefinite with margin eps, has its centre of mass inside the ellipsoid and total quadratic moment within the ellipsoid's bound; flat ellipsoids allow no spread of mass out of their plane or line.",
     ["inputs"], "all ellipsoids of rank 1 to 3, placements, point-mass systems (bounded number), pseudo-inertia matrices, eps >= 0",
     "tests check disks and a segment on axis-aligned examples; the constraint form is never run",
     [SH + "ellipsoid.py", S + "constraint.py"],
     [("can_realize, moment_constraints, _Q_degenerate, _QV_degenerate, _Q_matrix", SH + "ellipsoid.py")],
     ["Ellipsoid.can_realize", "Ellipsoid.moment_constraints"])

prop("C21", "Moment-relaxation constraints admit every realizable body",
     "The moment-relaxation realizability constraints of a polyhedron, box or cylinder are satisfiable for the parameters of every mass distribution inside the shape (given as matrix or ten-vector), and whatever they admit is symmetric, positive semidefinite with the requested margin eps, has its centre of mass inside the shape and second moments within the shape's extreme values.",
     ["inputs"], "boxes, simplices and cylinders of all sizes and placements, all interior points (point masses; cones of them by linearity), relaxation degrees 2 and 3, eps >= 0",
     "every test needs the unavailable solver and samples 100 random bodies per shape; the eps margin is never tested",
     [SH + "poly.py", SH + "cylinder.py", S + "moment.py", S + "constraint.py"],
     [("moment_sdp_constraints, moment_sdp_feasibility_problem", SH + "poly.py, cylinder.py"), ("moment_constraints, localizing_constraints", S + "moment.py")],
     ["moment_sdp_constraints", "moment_sdp_feasibility_problem"])

prop("C22", "Vertex and disk based constraints admit every realizable body",
     "The specialised realizability constraints (vertex-based for polyhedra and boxes, end-disk-based for cylinders) are satisfiable for the parameters of every mass distribution inside the shape at any placement, and whatever they admit is positive semidefinite with margin eps, has its centre of mass inside the shape and second moments within the shape's extreme values about the shape's own frame.",
     ["inputs"], "boxes, simplices, cylinders of all sizes and placements, all interior points, eps >= 0",
     "one comparison of optimal values at the origin and four cylinder optima, all needing the unavailable solver",
     [SH + "poly.py", SH + "box.py", SH + "cylinder.py"],
     [("moment_vertex_constraints", SH + "poly.py"), ("moment_custom_vertex_constraints", SH + "box.py, cylinder.py"), ("transform_matrix_inv", S + "util.py")],
     ["moment_vertex_constraints", "moment_custom_vertex_constraints"])

prop("C23", "A rigid body is the union of its shapes and sum of its masses",
     "Combining rigid bodies unites their shapes and superposes their parameters (also with the built-in sum and for massless bodies); its realizability constraints admit exactly sums of parameters realizable on the individual shapes, so every distribution over the union is admitted and everything admitted splits into parts that satisfy each shape's own constraints with total margin eps; replacing shapes by bounding ellipsoids keeps the parameters and covers each shape for every supported shape kind.",
     ["inputs"], "bodies of one to three shapes of any supported kinds, placements, parameters, eps >= 0",
     "test_add and test_construction use two bodies; the constraint and bounding-ellipsoid paths need the unavailable solver",
     [S + "rigidbody.py"], [("__add__, __radd__, moment_sdp_constraints, mbes", S + "rigidbody.py")],
     ["RigidBody +", "moment_sdp_constraints", "mbes"])

prop("C24", "Pseudo-inertia constraint builders mean what they say",
     "The ten basis matrices reproduce the pseudo-inertia matrix of every parameter vector; constraining a 4x4 variable or a ten-vector yields the pseudo-inertia it denotes, constrained to be symmetric and positive semidefinite with margin eps and nothing more; the block matrix of a Schur complement has the given blocks for every admissible scalar, vector or matrix shape; wrong shapes and negative margins are rejected.",
     ["inputs"], "all parameter vectors, symmetric and non-symmetric 4x4 matrices, eps >= 0, block shapes up to 3",
     "test_pim_sum_vec_matrices samples 10 bodies; the constraint builders are only reached through tests that need the unavailable solver",
     [S + "constraint.py"], [("pim_sum_vec_matrices, pim_must_equal_vec, pim_must_equal_param_var, pim_psd, schur", S + "constraint.py")],
     ["pim_* and schur"])

prop("C25", "Polynomial arithmetic agrees with evaluation",
     "For every polynomial, evaluation at a point is the sum of coefficient times monomial; addition, localisation by a monomial, affine construction b - a.x, substitution of monomial values and the all-ones polynomial agree with evaluation at every point; the degree is the largest total degree; the monomial basis for n variables and degree d lists every monomial of degree at most d exactly once, lower degrees first, and has the stated dimension.",
     ["inputs"], "all coefficients and points; 1 to 4 variables, degree 0 to 4",
     "tests evaluate five sparse polynomials at small integer points; the basis is checked only for one variable",
     [S + "moment.py"], [("MomentIndex, Polynomial", S + "moment.py")],
     ["Polynomial.evaluate, +, localize, affine, substitute, basis, dim, degree"])

prop("C26", "Moment and localizing matrices represent measures",
     "For every point mass at x, the moment matrix entries are the products of basis monomials, the moment constraints accept exactly the matrices whose equal-monomial entries agree, and the localizing matrix of a polynomial g is g(x) times the leading block of the point's moment matrix, of the order reduced by half the degree of g rounded up; localizing constraints accept exactly the moment matrices whose localizing matrices are positive semidefinite.",
     ["inputs"], "all points and weights; 1 to 3 variables, relaxation degree 1 to 3; affine and quadratic g with arbitrary coefficients",
     "one test compares the symbolic indices for one variable and degree two",
     [S + "moment.py"], [("MomentMatrix", S + "moment.py")],
     ["MomentMatrix.indices, moment_constraints, localizing_matrix, localizing_constraints, localize"])

prop("C27", "Random points of a shape lie in the shape",
     "Whatever values the random generator yields, every point sampled from a box, polyhedron, ellipsoid, cylinder or capsule belongs to that shape for every placement, and the requested sample shape is returned.",
     ["inputs", "histories"], "all generator outputs within their documented ranges, all sizes and placements, sample shapes up to (2, 2)",
     "tests draw a few thousand points with one seed from mostly axis-aligned shapes; an error confined to rare draws or general placements is missed",
     [SH + "box.py", SH + "ellipsoid.py", SH + "cylinder.py", SH + "poly.py", SH + "capsule.py"],
     [("random_points", SH + "*.py")], ["Shape.random_points"])

prop("C28", "Random surface and edge points lie on the surface and edges",
     "Whatever values the random generator yields, surface samples of a box or full-dimensional ellipsoid lie on its surface and edge samples of a box lie on its edges, for every placement and sample size including one, with the requested sample shape; every face and every edge of the box can be drawn.",
     ["inputs", "histories"], "all generator outputs within their documented ranges, all sizes and placements, sample sizes up to 4, all multinomial outcomes",
     "the tests sample only axis-aligned, centred shapes (or translated ellipsoids), and edges not at all",
     [SH + "box.py", SH + "ellipsoid.py"], [("random_points_on_surface, random_points_on_edges", SH + "*.py")],
     ["random_points_on_surface", "random_points_on_edges"])

prop("C29", "Rejection sampling returns only accepted points or an error",
     "Whatever candidates the bounding shape yields and whatever the target shapes accept, rejection sampling returns exactly the requested number of points in the requested shape, each one a generated candidate contained in at least one target shape, in generation order and without duplicates or placeholders, or raises an error once the allowed number of tries is used up.",
     ["inputs", "histories"], "all accept/reject histories for up to 4 points and 4 tries, one or two target shapes, all candidate positions",
     "tests see two random histories; a wrong offset only shows for particular accept patterns (upstream once returned all zeros)",
     [S + "random.py"], [("rejection_sample", S + "random.py")], ["rejection_sample"])

prop("C30", "Random building blocks are well formed and reproducible",
     "Whatever values the random generator yields, weight vectors are non-negative and sum to one along the last axis, sphere samples have unit norm, ball samples have norm at most one, random matrices are symmetric positive semidefinite and random inertial parameters have positive mass and a positive semidefinite pseudo-inertia; all draws come from the generator or seed supplied, so equal seeds give equal samples.",
     ["inputs", "histories"], "all generator outputs within their documented ranges; dimensions 1 to 4; sample shapes up to rank 3",
     "tests check tens of samples from one seed; reproducibility is never tested",
     [S + "random.py", S + "inertial.py", S + "spatial.py"],
     [("random_weight_vectors, random_points_on_hypersphere, random_points_in_ball, random_psd_matrix", S + "random.py"), ("random", S + "inertial.py"), ("random_diag_normal", S + "spatial.py")],
     ["rigeo.random_*", "InertialParameters.random", "SpatialVector.random_diag_normal"])

prop("C31", "Grids consist of points of the shape",
     "Every point of a grid generated for a shape lies in the shape; a box's grid has the requested number of points per axis, evenly spaced from face to face in the box's own frame, and the grid of any other shape is exactly the part of its bounding box's grid that the shape contains.",
     ["inputs"], "all sizes and placements of box, ellipsoid, cylinder, capsule, simplex; 1 to 4 points per axis",
     "tests check containment for three axis-aligned boxes, one ellipsoid and one random polyhedron",
     [SH + "base.py", SH + "box.py", SH + "poly.py"], [("grid", SH + "*.py")], ["Shape.grid"])

prop("C32", "Surface tests recognise exactly the boundary",
     "A point is reported on the surface of a box iff it is in the box and on one of its face planes, and on the surface of an ellipsoid iff its normalised distance is one (any point of a flat ellipsoid counts), within the given tolerance, for every placement and for single points and batches alike; vertices, edge points and face points are on the surface and the centre is not.",
     ["inputs"], "all sizes, placements, points, tolerances",
     "tests use one box and one ellipsoid with integer half extents and a dozen points",
     [SH + "box.py", SH + "ellipsoid.py"], [("on_surface", SH + "*.py")], ["on_surface"])

prop("C33", "Face and span forms convert without changing the polyhedron",
     "Writing a polyhedron's face or span form to the double-description library's matrix and reading it back denotes the same set, with linear equalities and lines turned into opposite pairs of inequalities and rays; stacking face forms is intersection; transforming either form by a rotation and translation moves the set (directions of unbounded polyhedra are rotated but not shifted, the apex of a cone is shifted); boundedness and cone tests reflect the generators.",
     ["inputs"], "all coefficient matrices up to 4 rows in dimensions 1 to 3, every choice of equality/line rows, rotations and translations",
     "tests use one box and one half-space; a ray being translated is not noticed",
     [S + "polydd.py"], [("SpanForm, FaceForm", S + "polydd.py")],
     ["to_cdd_matrix, from_cdd_matrix, stack, transform, bounded, is_cone"])

prop("C34", "Polyhedron construction, intersection and hull are set operations",
     "Given a correct double-description library, a polyhedron built from vertices or half-spaces (or as a simplex) contains exactly the convex combinations of those vertices or the solutions of those inequalities, the intersection contains exactly the common points (None when there are none), sameness means equal sets, a convex hull's vertices span the same set as the points, and unbounded input is rejected.",
     ["inputs"], "intervals, rectangles and triangles, tetrahedra and simplices with arbitrary coordinates, all query points",
     "tests intersect axis-aligned boxes and query a fixed tetrahedron",
     [SH + "poly.py", S + "polydd.py"], [("from_vertices, from_halfspaces, simplex, intersect, is_same, contains", SH + "poly.py"), ("convex_hull", S + "polydd.py")],
     ["ConvexPolyhedron", "convex_hull"])

prop("C35", "Half-vectorisation is invertible and triangular numbers exact",
     "Half-vectorising a symmetric matrix and expanding it back returns the same matrix for every size and diagonal offset convention, vectors of non-triangular length are rejected, and an integer is recognised as a triangular number n(n+1)/2 with the right n exactly when it is one, however large.",
     ["inputs"], "symmetric matrices of size 1 to 6 with arbitrary entries; integers x < 2^64",
     "tests cover x < 1000 and random matrices; rounding of a floating-point square root only matters for large x",
     [S + "util.py"], [("vech, unvech, is_triangular_number", S + "util.py")], ["vech", "unvech", "is_triangular_number"])

prop("C36", "Cross-product, lifting and transform matrices are exact identities",
     "For all vectors, the skew matrix realises the cross product, the lifting matrices satisfy A x = lift(x) vech(A) for symmetric A, the contact Jacobian maps a force at a point to its moment and force, homogeneous transform matrices map points to R p + t and their inverse undoes them in any dimension, and box vertices enumerate every sign combination once.",
     ["inputs"], "all vectors, symmetric matrices, rotations, translations; dimensions 1 to 4",
     "random spot checks; transform matrices, their inverse and the contact Jacobian are untested",
     [S + "util.py"], [("skew3, lift3, lift6, contact_jacobian, transform_matrix, transform_matrix_inv, clean_transform, box_vertices", S + "util.py")],
     ["rigeo.util functions"])

prop("C37", "Unordered comparison is matching up to row order",
     "Two matrices compare as equal ignoring row order exactly when the rows of one can be paired one-to-one with rows of the other so that every pair is close under the given tolerance.",
     ["inputs"], "all matrices with up to 3 rows and 2 columns, all tolerances",
     "one test with three small matrices; greedy pairing errors need rows closer than the tolerance",
     [S + "test_util.py"], [("allclose_unordered", S + "test_util.py")], ["allclose_unordered"])

prop("C38", "Spatial vectors form a vector space with the motion cross product",
     "A spatial vector keeps its angular part first and its linear part last under every construction and conversion; addition, subtraction, scaling and division act component-wise; the adjoint matrix of V applied to W is the spatial motion cross product (so V cross V is zero and it is anti-symmetric in V and W).",
     ["inputs"], "all spatial vectors and scalars",
     "spatial vectors have no tests of their own",
     [S + "spatial.py"], [("SpatialVector", S + "spatial.py")], ["SpatialVector"])

prop("C39", "Queries and transforms leave their operands unchanged",
     "Calling any query, conversion, transform, sampling or combination operation leaves the shape, body, parameters and arrays it was given unchanged, repeating the call on the same object gives the same answer, and later changes to a result do not change the object it was derived from (apart from the parts that are shared by design: the shapes and parameters a rigid body is made of, the arrays inertial parameters and face forms are constructed from, an ellipsoid that is its own bounding ellipsoid).",
     ["inputs", "histories"], "all shapes and parameter sets; each public operation followed by re-examination and repetition, and by modification of the result",
     "no test looks at an operand after using it",
     [SH + "*.py", S + "inertial.py", S + "rigidbody.py", S + "polydd.py", S + "moment.py"],
     [("transform, rotate_about_center, +, localize, stack, aabb", SH + "*.py")], ["object state before and after each call"])

prop("C40", "Evaluation times and validation error follow their definitions",
     "Evaluation times start at zero, are spaced by exactly the step, stay below the duration and are as many as fit (one more step would reach or pass the end); the validation error of predictions is the root of the mean over samples of the squared wrench error, zero iff every prediction is exact.",
     ["inputs"], "all durations and steps with up to 6 times; all regressors, wrenches and parameters up to 3 samples",
     "neither function has a test",
     [S + "util.py"], [("compute_evaluation_times, validation_rmse", S + "util.py")],
     ["compute_evaluation_times", "validation_rmse"])

prop("C41", "Volume and surface sampling is uniform",
     "Points sampled from a box, ellipsoid or cylinder are uniformly distributed over its volume, and surface or edge samples uniformly over area or length.",
     ["inputs", "histories"], "the joint law of the generator's output",
     "tests compare one box count with a 1% tolerance",
     [SH + "*.py", S + "random.py"], [("random_points*", SH + "*.py")], ["distribution of samples"])

prop("C42", "Answers are insensitive to floating-point rounding",
     "Membership, consistency and realizability answers differ from the exact real-arithmetic answer only for inputs within the documented tolerance of a boundary.",
     ["inputs"], "all double-precision inputs",
     "tests use a handful of well-conditioned inputs",
     [SH + "*.py", S + "inertial.py"], [("contains, consistent, can_realize", SH + "*.py")], ["boolean results"])

with open(OUT, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
