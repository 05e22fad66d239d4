From f998a343b3f36fb1b4c77e851c1308c592d2cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 01/24] fix: Box.random_points_on_surface samples on the
 surface of a moved box and accepts a single point

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index bef5745..0977d53 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -146,7 +146,7 @@ class Box(ConvexPolyhedron):
         # TODO would probably be nicer to sample the number per face first,
         # like in the edges function below
         rng = np.random.default_rng(rng)
-        points = self.random_points(n, rng=rng)
+        points = rng.uniform(low=-1, high=1, size=(n, 3)) * self.half_extents
 
         x, y, z = self.half_extents
         Ax = 4 * y * z
-- 
2.43.0


From aace8a0eb79d7a7422e2667b3cecac5910255889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 02/24] fix: Ellipsoid.random_points_on_surface applies the
 rotation instead of its inverse

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 3e2695c..e23210d 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -502,7 +502,7 @@ class Ellipsoid(Shape):
             count += n_acc
 
         # rotate and translate points as needed
-        points = points @ self.rotation + self.center
+        points = points @ self.rotation.T + self.center
 
         # reshape to desired shape
         if shape == (1,):
-- 
2.43.0


From 21150ffa8ed88a36178943d1dbf8f109c00702a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 03/24] fix: Ellipsoid.mbe accepts the solver argument of
 Shape.mbe

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index e23210d..929301a 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -415,7 +415,7 @@ class Ellipsoid(Shape):
             Qr, V = self._QV_degenerate()
             return psd_constraints + [cp.trace(Qr @ Jr) >= 0, J == V @ Jr @ V.T]
 
-    def mbe(self, rcond=None, sphere=False):
+    def mbe(self, rcond=None, sphere=False, solver=None):
         if not sphere:
             return self
         radius = np.max(self.half_extents)
-- 
2.43.0


From 881efd55a182d273d4722f0b066bead588a567a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 04/24] fix: mbe_of_points(sphere=True) no longer overwrites
 the reference point

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 929301a..118bcfe 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -706,8 +706,8 @@ def mbe_of_points(points, rcond=None, sphere=False, solver=None):
     constraints = [cp.norm2(A @ x + b) <= 1 for x in P]
     if sphere:
         # if we want a sphere, then A is a multiple of the identity matrix
-        r = cp.Variable(1)
-        constraints.append(A == r * np.eye(rank))
+        a = cp.Variable(1)
+        constraints.append(A == a * np.eye(rank))
     problem = cp.Problem(objective, constraints)
     problem.solve(solver=solver)
 
-- 
2.43.0


From 41d1c1d45f71a37d86aa378319d4c2141933cc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 05/24] fix: Cylinder.is_same takes the tolerance that
 Capsule.is_same passes

---
 src/rigeo/shape/cylinder.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 8138615..9a4af2d 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -109,14 +109,14 @@ class Cylinder(Shape):
         """The volume of the cylinder."""
         return np.pi * self.radius**2 * self.length
 
-    def is_same(self, other):
+    def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
         return (
-            np.isclose(self.length, other.length)
-            and np.isclose(self.radius, other.radius)
-            and np.allclose(self.center, other.center)
-            and np.allclose(self.rotation, other.rotation)
+            np.isclose(self.length, other.length, atol=tol)
+            and np.isclose(self.radius, other.radius, atol=tol)
+            and np.allclose(self.center, other.center, atol=tol)
+            and np.allclose(self.rotation, other.rotation, atol=tol)
         )
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From 5d26325c960150dd58124a0f375b62bb6e567865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 06/24] fix: Cylinder.contains uses the given tolerance

---
 src/rigeo/shape/cylinder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 9a4af2d..7b0115e 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -123,7 +123,11 @@ class Cylinder(Shape):
         P1 = points @ self.longitudinal_axis[:, None]
         P2 = points @ self.transverse_axes
         return np.all(
-            [E.contains(P) for E, P in zip(self._ellipsoids, (P1, P2))], axis=0
+            [
+                E.contains(P, tol=tol)
+                for E, P in zip(self._ellipsoids, (P1, P2))
+            ],
+            axis=0,
         )
 
     def must_contain(self, points, scale=1.0):
-- 
2.43.0


From f035169e160dbfcf1319947f58b6d0799b3ec601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 07/24] fix: mbe_of_ellipsoids uses the quadratic form of the
 ellipsoids

---
 src/rigeo/shape/ellipsoid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 118bcfe..0c760d9 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -610,10 +610,14 @@ class Ellipsoid(Shape):
         )
 
 
-def _mbee_con_mat(S, d, Ai, bi, ti):
+def _mbee_con_mat(S, d, E, ti):
     """Constraint matrix for minimum bounding ellipsoid of ellipsoids problem."""
     dim = S.shape[0]
-    ci = bi @ bi - 1
+
+    # quadratic form of the ellipsoid: x.T @ Ai @ x + 2 * bi @ x + ci <= 0
+    Ai = E.S
+    bi = E.A @ E.b
+    ci = E.b @ E.b - 1
     Z = np.zeros((dim, dim))
     f = cp.reshape(-1 - ti * ci, (1, 1), order="C")
     e = cp.reshape(d - ti * bi, (dim, 1), order="C")
@@ -654,7 +658,7 @@ def mbe_of_ellipsoids(ellipsoids, sphere=False, solver=None):
 
     objective = cp.Minimize(-cp.log_det(S))
     constraints = [ts >= 0] + [
-        _mbee_con_mat(S, d, E.A, E.b, ti) << 0 for E, ti in zip(ellipsoids, ts)
+        _mbee_con_mat(S, d, E, ti) << 0 for E, ti in zip(ellipsoids, ts)
     ]
     if sphere:
         # if we want a sphere, then S is a multiple of the identity matrix
-- 
2.43.0


From c957ea2277e458ef9fa007446d082657eb86028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 08/24] fix: Ellipsoid.contains_ellipsoid uses the quadratic
 form of the other ellipsoid

---
 src/rigeo/shape/ellipsoid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 0c760d9..396d54d 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -548,8 +548,8 @@ class Ellipsoid(Shape):
         constraints = [
             t >= 0,
             schur(
-                self.S - t * other.A,
-                self.A @ self.b - t * self.b,
+                self.S - t * other.S,
+                self.A @ self.b - t * (other.A @ other.b),
                 self.b @ self.b - 1 - t * (other.b @ other.b - 1),
             )
             << 0,
-- 
2.43.0


From 63fe9b5d41719c040e85f82c5e633a51f5a18dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 09/24] fix: Ellipsoid.is_same handles degenerate ellipsoids
 and other dimensions

---
 src/rigeo/shape/ellipsoid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index 396d54d..d6cbdb3 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -245,7 +245,11 @@ class Ellipsoid(Shape):
         """Check if this ellipsoid is the same as another."""
         if not isinstance(other, self.__class__):
             return False
-        return np.allclose(self.Q, other.Q, atol=tol)
+        if self.dim != other.dim:
+            return False
+        return np.allclose(self.E, other.E, atol=tol) and np.allclose(
+            self.center, other.center, atol=tol
+        )
 
     def contains(self, points, tol=1e-8):
         """Check if points are contained in the ellipsoid.
-- 
2.43.0


From efbfb61d441458e9a51a1457584f81a8ac9bd7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 10/24] fix: massless inertial parameters have a finite center
 of mass

---
 src/rigeo/inertial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/inertial.py b/src/rigeo/inertial.py
index e3f4bab..5d8098d 100644
--- a/src/rigeo/inertial.py
+++ b/src/rigeo/inertial.py
@@ -47,7 +47,7 @@ class InertialParameters:
         if h is not None and com is not None:
             raise ValueError("Cannot specify both h and com.")
         if com is None:
-            if h is None:
+            if h is None or (mass == 0 and np.all(h == 0)):
                 com = np.zeros(3)
             else:
                 com = h / mass
-- 
2.43.0


From 59e178dc3614407f470ad911fd3bb94fddf5868f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 11/24] fix: transform_matrix_inv passes on the dimension

---
 src/rigeo/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 912fd4f..7489694 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -209,7 +209,7 @@ def transform_matrix_inv(rotation=None, translation=None, dim=3):
     translation."""
     rotation, translation = clean_transform(rotation, translation, dim=dim)
     return transform_matrix(
-        rotation=rotation.T, translation=-rotation.T @ translation
+        rotation=rotation.T, translation=-rotation.T @ translation, dim=dim
     )
 
 
-- 
2.43.0


From 4bae7e977643252a3fcb7df09033c53ee265ecf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 12/24] fix: the bounding sphere of a box reaches its vertices

---
 src/rigeo/shape/box.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/box.py b/src/rigeo/shape/box.py
index 0977d53..35e173d 100644
--- a/src/rigeo/shape/box.py
+++ b/src/rigeo/shape/box.py
@@ -334,7 +334,7 @@ class Box(ConvexPolyhedron):
 
         half_extents = self.half_extents * np.sqrt(3)  # TODO check this
         if sphere:
-            radius = np.max(half_extents)
+            radius = np.linalg.norm(self.half_extents)
             return Ellipsoid.sphere(radius=radius, center=self.center)
         return Ellipsoid(
             half_extents=half_extents,
-- 
2.43.0


From d6b7602e931fc96adb3df116f04920b4bbec9d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 13/24] fix: is_triangular_number is exact for large integers

---
 src/rigeo/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/util.py b/src/rigeo/util.py
index 7489694..d30cc3f 100644
--- a/src/rigeo/util.py
+++ b/src/rigeo/util.py
@@ -1,5 +1,6 @@
 """Miscellaneous utility functions."""
 import itertools
+import math
 import numbers
 from pathlib import Path
 
@@ -52,8 +53,9 @@ def is_triangular_number(x):
         return False, -1
 
     # use quadratic formula to solve
-    n = 0.5 * (np.sqrt(1 + 8 * x) - 1)
-    return n.is_integer(), int(n)
+    x = int(x)
+    n = (math.isqrt(1 + 8 * x) - 1) // 2
+    return n * (n + 1) == 2 * x, n
 
 
 def unvech(a):
-- 
2.43.0


From 4af0380017b9fdc16fe9f099a38c815b880e7996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 14/24] fix: Ellipsoid.rank counts the same half extents as its
 degenerate directions

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index d6cbdb3..b62055e 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -103,7 +103,7 @@ class Ellipsoid(Shape):
 
     @property
     def rank(self):
-        return np.count_nonzero(self.half_extents)
+        return np.count_nonzero(~self._z())
 
     @property
     def volume(self):
-- 
2.43.0


From ae997513db6e9bb979f96cee8fed344ed120e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 15/24] fix: ConvexPolyhedron and Cylinder moment SDP
 constraints include the pseudo-inertia constraints

---
 src/rigeo/shape/cylinder.py | 3 ++-
 src/rigeo/shape/poly.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index 7b0115e..d3f7180 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -161,7 +161,8 @@ class Cylinder(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._poly0s)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
diff --git a/src/rigeo/shape/poly.py b/src/rigeo/shape/poly.py
index e7fe25d..92dfa58 100644
--- a/src/rigeo/shape/poly.py
+++ b/src/rigeo/shape/poly.py
@@ -280,7 +280,8 @@ class ConvexPolyhedron(Shape):
         M = cp.Variable(moment.shape, PSD=True)
 
         return (
-            moment.moment_constraints(M)
+            psd_constraints
+            + moment.moment_constraints(M)
             + moment.localizing_constraints(M, polys=self._polys)
             + [m == M[0, 0], h == M[0, 1:4], H == M[1:4, 1:4]]
         )
-- 
2.43.0


From 61a0ce0f4d53d2d1e58417399819326a185f5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 16/24] fix: translating a polyhedron in span form leaves its
 rays in place

---
 src/rigeo/polydd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 4b3f240..5af9076 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -164,7 +164,7 @@ class SpanForm:
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
         if self.rays is not None:
-            rays = (rotation @ self.rays.T).T + translation
+            rays = (rotation @ self.rays.T).T
 
         return SpanForm(vertices=vertices, rays=rays)
 
-- 
2.43.0


From 914d13036b86adf66ddc9ee92e718af7a3a634ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 17/24] fix: Ellipsoid.volume is the volume in the ellipsoid's
 own dimension

---
 src/rigeo/shape/ellipsoid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index b62055e..f7e22da 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -108,7 +108,11 @@ class Ellipsoid(Shape):
     @property
     def volume(self):
         """The volume of the ellipsoid."""
-        return 4 * np.pi * np.prod(self.half_extents) / 3
+        # volume of the unit ball
+        v = 1.0 if self.dim % 2 == 0 else 2.0
+        for d in range(2 + self.dim % 2, self.dim + 1, 2):
+            v = 2 * np.pi * v / d
+        return v * np.prod(self.half_extents)
 
     def __repr__(self):
         return f"Ellipsoid(half_extents={self.half_extents}, center={self.center}, rotation={self.rotation})"
-- 
2.43.0


From 26c13c7044e99579f41d422155c1aa098e057d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 18/24] fix: Polynomial.basis returns moment indices for degree
 zero

---
 src/rigeo/moment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/moment.py b/src/rigeo/moment.py
index 30754d7..eb9f9ab 100644
--- a/src/rigeo/moment.py
+++ b/src/rigeo/moment.py
@@ -133,7 +133,7 @@ class Polynomial:
             b[i] = 1
             basis.append(MomentIndex(b))
         return [
-            sum(group)
+            sum(group, basis[0])
             for group in itertools.combinations_with_replacement(basis, d)
         ]
 
-- 
2.43.0


From 55f7d0540505ec8deac7f8e201c17817d57a7f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:52 +0000
Subject: [PATCH 19/24] fix: Ellipsoid.from_affine accepts matrices that are
 not symmetric

---
 src/rigeo/shape/ellipsoid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/ellipsoid.py b/src/rigeo/shape/ellipsoid.py
index f7e22da..9e53160 100644
--- a/src/rigeo/shape/ellipsoid.py
+++ b/src/rigeo/shape/ellipsoid.py
@@ -150,7 +150,7 @@ class Ellipsoid(Shape):
     @classmethod
     def from_affine(cls, A, b, rcond=None):
         """Construct an ellipsoid from an affine transformation of the unit ball."""
-        S = A @ A
+        S = A.T @ A
 
         # use least squares instead of direct solve in case we have a
         # degenerate ellipsoid
-- 
2.43.0


From ca27843b0972b233597e5a185a1aeda3cacce888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 20/24] fix: Cylinder.is_same ignores rotation about its own
 axis

---
 src/rigeo/shape/cylinder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index d3f7180..f6831c8 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -112,11 +112,13 @@ class Cylinder(Shape):
     def is_same(self, other, tol=1e-8):
         if not isinstance(other, self.__class__):
             return False
+        # the solid is symmetric about its axis and about its midplane
+        a, b = self.longitudinal_axis, other.longitudinal_axis
         return (
             np.isclose(self.length, other.length, atol=tol)
             and np.isclose(self.radius, other.radius, atol=tol)
             and np.allclose(self.center, other.center, atol=tol)
-            and np.allclose(self.rotation, other.rotation, atol=tol)
+            and np.allclose(np.outer(a, a), np.outer(b, b), atol=tol)
         )
 
     def contains(self, points, tol=1e-8):
-- 
2.43.0


From d90d3b59b8baa5f0c530e6f94429d6e7435fa404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:34 +0000
Subject: [PATCH 21/24] fix: FaceForm.from_cdd_matrix handles sets without
 inequalities

---
 src/rigeo/polydd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 5af9076..b7266db 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -197,11 +197,13 @@ class FaceForm:
             The CDD matrix representing the polyhedron.
         """
         M = np.array([mat[i] for i in range(mat.row_size)])
+        M = M.reshape((mat.row_size, mat.col_size))
         b = M[:, 0]
         A = -M[:, 1:]
 
         ineq_idx = np.array(
-            [idx for idx in range(mat.row_size) if idx not in mat.lin_set]
+            [idx for idx in range(mat.row_size) if idx not in mat.lin_set],
+            dtype=int,
         )
         eq_idx = np.array([idx for idx in mat.lin_set])
 
-- 
2.43.0


From 14312b8b3f04e8f7cc0b4fd016aa2970d07b9a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:30 +0000
Subject: [PATCH 22/24] fix: SpanForm.transform moves the apex of a cone

---
 src/rigeo/polydd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index b7266db..787005b 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -163,6 +163,9 @@ class SpanForm:
         rays = None
         if self.vertices is not None:
             vertices = (rotation @ self.vertices.T).T + translation
+        elif np.any(translation):
+            # the apex of a cone is at the origin, so it must be moved too
+            vertices = np.array([translation])
         if self.rays is not None:
             rays = (rotation @ self.rays.T).T
 
-- 
2.43.0


From dadf46e06d8b8f2f14ec6ef2466d90eaffb240a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:28 +0000
Subject: [PATCH 23/24] fix: Cylinder disk constraints apply the margin to the
 whole body only

---
 src/rigeo/shape/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rigeo/shape/cylinder.py b/src/rigeo/shape/cylinder.py
index f6831c8..a65a718 100644
--- a/src/rigeo/shape/cylinder.py
+++ b/src/rigeo/shape/cylinder.py
@@ -186,7 +186,7 @@ class Cylinder(Shape):
         disk_constraints = [
             c
             for J, disk in zip(Js, self.disk0s)
-            for c in disk.moment_constraints(J, eps=eps)
+            for c in disk.moment_constraints(J)
         ]
 
         return (
-- 
2.43.0


From 00943e4ee4e019840feb820ec98c43a7784bb343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:15 +0000
Subject: [PATCH 24/24] fix: face forms with integer entries can be converted

---
 src/rigeo/polydd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rigeo/polydd.py b/src/rigeo/polydd.py
index 787005b..35c90fb 100644
--- a/src/rigeo/polydd.py
+++ b/src/rigeo/polydd.py
@@ -236,7 +236,8 @@ class FaceForm:
             A CDD matrix representing the polyhedron.
         """
         # face form is Ax <= b, which cdd stores as one matrix [b -A]
-        F = np.hstack((self.b[:, None], -self.A))
+        # integers would make cdd switch to exact fractions
+        F = np.hstack((self.b[:, None], -self.A)).astype(float)
         Fmat = cdd.Matrix(F)
         Fmat.rep_type = cdd.RepType.INEQUALITY
         return Fmat
-- 
2.43.0

