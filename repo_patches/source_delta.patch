From ef75d6f32d3e2d8b80f592871a25818f58f65beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:35 +0000
Subject: [PATCH 01/37] fix: circumcenter_construction handles stacks of
 simplices, of any codimension

The first point and its weight were broadcast against the wrong axis for
batched input, integer input truncated the weights, and the pseudoinverse
rejected matrices with fewer rows than columns.
---
 pycomplex/geometry/euclidian.py | 6 +++---
 pycomplex/math/linalg.py        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 8fe7caf..2c12dc7 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -44,13 +44,13 @@ def circumcenter_construction(pts, weights=None):
         weights = np.asarray(weights)
 
     first = pts[..., 0, :]
-    moved = pts[..., 1:, :] - first
+    moved = pts[..., 1:, :] - pts[..., :1, :]
     e2 = linalg.dot(moved, moved)
     if weights is not None:
-        e2 -= (weights[..., 1:] - weights[..., 0])
+        e2 = e2 - (weights[..., 1:] - weights[..., :1])
     pinv = linalg.pinv(moved)
 
-    centroid = linalg.dot(pinv, e2) / 2 + first
+    centroid = linalg.dot(pinv, e2[..., None, :]) / 2 + first
     return centroid
 
 
diff --git a/pycomplex/math/linalg.py b/pycomplex/math/linalg.py
index daeac8c..b224903 100755
--- a/pycomplex/math/linalg.py
+++ b/pycomplex/math/linalg.py
@@ -223,4 +223,4 @@ def pinv(A, r=1e-9):
     inv = 1 / s
     inv[np.abs(s / s[..., :1]) < r] = 0
     # s[:, self.complex.topology.n_dim:] = 0
-    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v)
+    return np.einsum('...ij,...j,...jk->...ki', u[..., :s.shape[-1]], inv, v[..., :s.shape[-1], :])
-- 
2.43.0


From 292a79a4526fbdd6144c6cf782030a57b6cc7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:35 +0000
Subject: [PATCH 02/37] fix: circumcenter of a simplex does not depend on the
 others in its batch

The cutoff of the pseudoinverse was taken over all simplices of the batch.
---
 pycomplex/geometry/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 2c12dc7..5ecfb61 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -155,7 +155,7 @@ def circumcenter_barycentric(pts, weights=None, ratio=1e6):
 
     v, w = np.linalg.eigh(A)
     vr = 1 / v
-    vr[np.abs(vr) > np.abs(vr).min() * ratio] = 0
+    vr[np.abs(vr) > np.abs(vr).min(axis=-1, keepdims=True) * ratio] = 0
     pinv = np.einsum('...ij,...j,...kj', w, vr, w)
 
     b = np.ones(gu + (N,))
-- 
2.43.0


From 6bad43603cb3302e6b066785d359dbc6b656ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:35 +0000
Subject: [PATCH 03/37] fix: segment_normals does not truncate for integer
 corners

---
 pycomplex/geometry/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/geometry/euclidian.py b/pycomplex/geometry/euclidian.py
index 5ecfb61..87904a2 100755
--- a/pycomplex/geometry/euclidian.py
+++ b/pycomplex/geometry/euclidian.py
@@ -347,7 +347,7 @@ def segment_normals(corners):
     corners = np.asarray(corners)
     n_corners, n_dim = corners.shape[-2:]
     assert n_corners == n_dim
-    normals = np.empty_like(corners[..., 0])
+    normals = np.empty(corners[..., 0].shape, dtype=float)
 
     corners = corners[..., 1:, :] - corners[..., 0:1, :]
 
-- 
2.43.0


From 7c0ff2ff3f7daed8085e28df30c4009e9140a98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:49 +0000
Subject: [PATCH 04/37] fix: boundary of a complex keeps the radius and
 weights, and exists for spherical triangles

---
 pycomplex/complex/base.py                 | 13 +++++++++++--
 pycomplex/complex/simplicial/spherical.py |  3 +++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9e99422..9aef9d5 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -84,8 +84,17 @@ class BaseComplex(object):
         if boundary is None:
             return None
         else:
-            # FIXME: type self should be boundary_type; make that a seperate problem
-            return type(self)(vertices=self.vertices[boundary.parent_idx[0]], topology=boundary)
+            idx = boundary.parent_idx[0]
+            kwargs = {}
+            if getattr(self, 'weights', None) is not None:
+                kwargs['weights'] = self.weights[idx]
+            if hasattr(self, 'radius'):
+                kwargs['radius'] = self.radius
+            return self.boundary_type()(vertices=self.vertices[idx], topology=boundary, **kwargs)
+
+    def boundary_type(self):
+        # FIXME: should be a more specific type; make that a seperate problem
+        return type(self)
 
     def fix_orientation(self):
         return self.copy(topology=self.topology.fix_orientation())
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 79df4a9..3ace1e6 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -226,6 +226,9 @@ class ComplexSpherical2(ComplexSpherical):
         self.topology = topology
         self.radius = radius
 
+    def boundary_type(self):
+        return ComplexSpherical
+
     def subdivide_loop(self):
         """Subdivide the complex, returning a refined complex where each edge inserts a vertex
 
-- 
2.43.0


From 94156b87d175b9654834dfeadfabb8b8689a5e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:49 +0000
Subject: [PATCH 05/37] fix: fundamental and simplicial subdivision keep the
 radius of a spherical complex

---
 pycomplex/complex/simplicial/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index f9b8e12..2d5a66f 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -17,9 +17,10 @@ class BaseComplexSimplicial(BaseComplex):
     """
 
     def subdivide_fundamental(self, oriented=True):
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate(self.primal_position, axis=0),
             topology=self.topology.subdivide_fundamental(oriented),
+            weights=None,
         )
 
     def subdivide_fundamental_transfer(self):
@@ -27,9 +28,10 @@ class BaseComplexSimplicial(BaseComplex):
 
     def subdivide_simplicial(self):
         PP = self.primal_position
-        return type(self)(
+        return self.copy(
             vertices=np.concatenate([PP[0], PP[-1]], axis=0),
             topology=self.topology.subdivide_simplicial(),
+            weights=None,
         )
 
     def subdivide_cubical(self):
-- 
2.43.0


From a6a2b07adae4aff4abe229db7ab1d69f84619514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:49 +0000
Subject: [PATCH 06/37] fix: loop subdivision and extrusion do not keep weights
 of the wrong length

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 pycomplex/complex/simplicial/spherical.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 26f42bf..82e21e0 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -797,7 +797,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         solid_points = np.concatenate((self.vertices, other.vertices))
         solid_tris   = np.concatenate((self_tris, other_tris, boundary_tris))
 
-        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None)
+        solid = self.copy(vertices=solid_points, triangles=solid_tris, topology=None, weights=None)
         assert solid.topology.is_oriented
         return solid
 
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 3ace1e6..2d7d795 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -237,7 +237,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop()
+            topology=self.topology.subdivide_loop(),
+            weights=None
         )
 
     def subdivide_loop_direct(self):
@@ -248,7 +249,8 @@ class ComplexSpherical2(ComplexSpherical):
         """
         return self.copy(
             vertices=np.concatenate(self.primal_position[:2], axis=0),
-            topology=self.topology.subdivide_loop_direct()
+            topology=self.topology.subdivide_loop_direct(),
+            weights=None
         )
 
     def as_euclidian(self):
-- 
2.43.0


From c7e96c9bc0358a515fcf1e92664723137b9a024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:49 +0000
Subject: [PATCH 07/37] fix: casts between spherical and euclidian triangular
 complexes keep the weights

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 pycomplex/complex/simplicial/spherical.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 82e21e0..3b8ce40 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -722,7 +722,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
         radius = np.linalg.norm(self.vertices, axis=1)
         assert np.allclose(radius, radius.mean())
         from pycomplex.complex.simplicial.spherical import ComplexSpherical2
-        return ComplexSpherical2(vertices=self.vertices, topology=self.topology)
+        return ComplexSpherical2(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     def save_STL(self, filename):
         """Save a mesh to binary STL.
diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 2d7d795..327d8d1 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -255,7 +255,7 @@ class ComplexSpherical2(ComplexSpherical):
 
     def as_euclidian(self):
         from pycomplex.complex.simplicial.euclidian import ComplexTriangularEuclidian3
-        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology)
+        return ComplexTriangularEuclidian3(vertices=self.vertices, topology=self.topology, weights=self.weights)
 
     @staticmethod
     def multigrid_transfer_dual(coarse, fine):
-- 
2.43.0


From 06fd273d4711f1b8741b7cf12300a5e73971b023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:49 +0000
Subject: [PATCH 08/37] fix: smooth does not truncate integer vertices

---
 pycomplex/complex/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 9aef9d5..83c1fee 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -174,7 +174,7 @@ class BaseComplex(object):
                 C[n] = np.flatnonzero(c) if isinstance(c, np.ndarray) else c
 
         # accumulate new vertex positions
-        vertices = self.vertices.copy()
+        vertices = self.vertices.astype(self.primal_position[-1].dtype)
         # start with n-elements, working backwards to vertices
         for corners, cr, centroids in reversed(list(zip(self.topology.corners, C, self.primal_position))):
             if cr is not None:
-- 
2.43.0


From 2d5fb79832979cece6f821242c1b9394e8d5ad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:49 +0000
Subject: [PATCH 09/37] fix: affine_transform raised TypeError

---
 pycomplex/complex/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/base.py b/pycomplex/complex/base.py
index 83c1fee..8e6472f 100755
--- a/pycomplex/complex/base.py
+++ b/pycomplex/complex/base.py
@@ -119,9 +119,9 @@ class BaseComplex(object):
         return self.copy(vertices=self.vertices.dot(transform))
 
     def affine_transform(self, transform):
-        a = np.concatenate([self.vertices, np.ones_like[self.vertices[:, 0]]], axis=1)
+        a = np.concatenate([self.vertices, np.ones_like(self.vertices[:, :1])], axis=1)
         v = a.dot(transform)
-        return self.copy(vertices=v[:, :2] / v[:, 2])
+        return self.copy(vertices=v[:, :-1] / v[:, -1:])
 
     def scale(self, scale):
         return self.copy(vertices=self.vertices * scale)
-- 
2.43.0


From 57adfcde6ff6ca10e68b8fb8eb836c33205f1534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 10/37] fix: pick_primal_brute homogenizes its points

---
 pycomplex/complex/simplicial/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/base.py b/pycomplex/complex/simplicial/base.py
index 2d5a66f..4985ac0 100755
--- a/pycomplex/complex/simplicial/base.py
+++ b/pycomplex/complex/simplicial/base.py
@@ -303,7 +303,7 @@ class BaseComplexSimplicial(BaseComplex):
     def pick_primal_brute(self, points):
         """Added for debugging purposes"""
         _, basis = self.pick_precompute
-        baries = np.einsum('bcv,pc->bpv', basis, points)
+        baries = np.einsum('bcv,pc->bpv', basis, self.homogenize(points))
         quality = (baries * (baries < 0)).sum(axis=-1)
         simplex_index = np.argmax(quality, axis=0)
         return simplex_index
-- 
2.43.0


From b730edd71a0cd71d3f70b8e08b2722bfe1b4c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 11/37] fix: cubical complex given both cubes and topology had
 no topology

---
 pycomplex/complex/cubical.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pycomplex/complex/cubical.py b/pycomplex/complex/cubical.py
index 6c5ae82..1573266 100755
--- a/pycomplex/complex/cubical.py
+++ b/pycomplex/complex/cubical.py
@@ -29,9 +29,7 @@ class ComplexCubical(BaseComplex):
         self.vertices = np.asarray(vertices)
         if topology is None:
             topology = TopologyCubical.from_cubes(cubes)
-            self.topology = topology
-        if cubes is None:
-            self.topology = topology
+        self.topology = topology
 
     @cached_property
     def primal_position(self):
-- 
2.43.0


From 1b7b8b9f68610b4e6924b9afeceeb1025cbc5bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 12/37] fix: to_simplicial of a 1d cubical complex referred to
 a class that does not exist

---
 pycomplex/complex/cubical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/cubical.py b/pycomplex/complex/cubical.py
index 1573266..2fa774a 100755
--- a/pycomplex/complex/cubical.py
+++ b/pycomplex/complex/cubical.py
@@ -302,10 +302,10 @@ class ComplexCubical1(ComplexCubical):
 
     def to_simplicial(self):
         """Convert the cubical complex into a simplicial complex; trivial"""
-        from pycomplex.complex.simplicial.euclidian import ComplexSimplicial1
-        return ComplexSimplicial1(
+        from pycomplex.complex.simplicial.euclidian import ComplexSimplicialEuclidian
+        return ComplexSimplicialEuclidian(
             vertices=self.vertices,
-            topology=self.topology.as_1().subdivide_simplicial()
+            simplices=self.topology.corners[1]
         )
 
 
-- 
2.43.0


From 04332b42316b34f53bd8f88be266b87eb2210f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 13/37] fix: picking in a regular complex with an initial guess

A point beyond the far side of the guessed cube was not picked again,
and a guess that was right for all points raised UnboundLocalError.
---
 pycomplex/complex/regular.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/complex/regular.py b/pycomplex/complex/regular.py
index bd406a2..d92a14b 100755
--- a/pycomplex/complex/regular.py
+++ b/pycomplex/complex/regular.py
@@ -94,7 +94,7 @@ class ComplexRegularMixin(object):
             cube, baries = query(points)
         else:
             baries = compute_baries(basis[cube], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
             if np.any(update):
                 cube = cube.copy()
                 d, b = query(points[update])
@@ -173,9 +173,9 @@ class ComplexRegularMixin(object):
             domain, baries = query(points)
         else:
             baries = compute_baries(basis[domain_idx], points)
-            update = np.any(baries < 0, axis=1)
+            update = np.any((baries < 0) | (baries > 1), axis=1)
+            domain = domains[domain_idx]
             if np.any(update):
-                domain = domains[domain_idx]
                 d, b = query(points[update])
                 domain[update] = d
                 baries[update] = b
-- 
2.43.0


From 2f5937a4d48f6d36ea15fd155891392e17c9895b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 14/37] fix: degree of elements with more than 127 incident
 n-elements

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index 0d4bd98..bd1b1d2 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -270,7 +270,7 @@ class BaseTopology(object):
             N-elements for each n-element
         """
         A = self.accumulated_operators_N()
-        N_elements = self.chain(-1, fill=1)
+        N_elements = self.chain(-1, fill=1, dtype=index_dtype)
         # ones_like constructs a summing operator; seek nnz per column
         return [pycomplex.sparse.ones_like(a.T) * N_elements for a in A]
 
-- 
2.43.0


From 54436e2fa6a293bfd775abf69b052b9d268117ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 15/37] fix: check_chain skipped the last pair of matrices

---
 pycomplex/topology/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/topology/base.py b/pycomplex/topology/base.py
index bd1b1d2..b52b977 100755
--- a/pycomplex/topology/base.py
+++ b/pycomplex/topology/base.py
@@ -199,7 +199,7 @@ class BaseTopology(object):
         """Some basic sanity checks on a topology object
         check that the chain complex satisfies its defining properties
         """
-        for i in range(self.n_dim - 2):
+        for i in range(self.n_dim - 1):
             a, b = self.matrices[i], self.matrices[i+1]
             if not (a * b).nnz == 0:
                 raise ValueError('chain {i} does not match'.format(i=i+1))
-- 
2.43.0


From f62cdb9834b5e93ac75c61e504afe898d4f13e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:50 +0000
Subject: [PATCH 16/37] fix: subdivide_loop_direct gave all fine triangles the
 corners of the first coarse triangle

---
 pycomplex/topology/simplicial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 269d94c..8eeb6e5 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -497,10 +497,10 @@ class TopologyTriangular(TopologySimplicial):
 
         # E20 is implied by E21; but much easier to calc by subdivision too
         sE20 = np.empty((N2, 4, 3), index_dtype)
-        sE20[:,0 , :] = E21[0] + N0  # middle tri; translate parent edge index to edge-vertex
+        sE20[:,0 , :] = E21 + N0     # middle tri; translate parent edge index to edge-vertex
         sE20[:,1:, 0] = E20          # corner tri; inherit from parent
-        sE20[:,1:,+1] = E21p[0] + N0 # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
-        sE20[:,1:,-1] = E21m[0] + N0
+        sE20[:,1:,+1] = E21p + N0    # middle edge connections; same as fE10; rotate parent edge, translate to edge-vert
+        sE20[:,1:,-1] = E21m + N0
 
         sE20 = sE20.reshape(-1, 3)
         sE21 = fE21.reshape(-1, 3)
-- 
2.43.0


From 70f7a7db6bf2aa9d751a822fd8d5e68a73bf7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:41 +0000
Subject: [PATCH 17/37] fix: subdivide_loop_direct did not give a chain complex

The edges around each central triangle ran against the orientation that
the corner triangles inherit from the coarse triangle.
---
 pycomplex/topology/simplicial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index 8eeb6e5..f4e17b2 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -466,8 +466,8 @@ class TopologyTriangular(TopologySimplicial):
         # 3 new edges per face
         fE10 = np.empty((N2, 3, 2), index_dtype) # edge-vertex info added as consequence of faces
         fO10 = np.empty((N2, 3, 2), sign_dtype)
-        fE10[:,:,0] = E21m + N0     # edge-vertices can be found by rotating and offsetting parent edges
-        fE10[:,:,1] = E21p + N0
+        fE10[:,:,0] = E21p + N0     # edge-vertices can be found by rotating and offsetting parent edges
+        fE10[:,:,1] = E21m + N0
         # orientation part
         fO10[:,:,0] = -1  # this is a sign convention we are free to choose; neg-to-pos edges are maintained globally
         fO10[:,:,1] = +1
-- 
2.43.0


From 0cb1fbc11c330cefb2fc6970c90ac8906a98b0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 18/37] fix: block arrays with blocks of equal shape

---
 pycomplex/stencil/block.py     | 20 +++++++++++++-------
 pycomplex/stencil/diffusion.py |  6 +++---
 pycomplex/stencil/equation.py  |  2 +-
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 495f767..7292e8b 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -6,6 +6,14 @@ from pycomplex.stencil.operator import ZeroOperator
 
 
 
+def object_array(items, shape):
+    """Object array of the given items; unlike np.asarray this never merges items of equal shape"""
+    block = np.empty(len(items), object)
+    for i, item in enumerate(items):
+        block[i] = item
+    return block.reshape(shape)
+
+
 class BlockArray(object):
     """ndim-blocked array object"""
 
@@ -14,9 +22,7 @@ class BlockArray(object):
             self.block = block
         else:
             if ndim==1:
-                b = np.empty(len(block), object)
-                b[...] = block
-                self.block = b
+                self.block = object_array(block, len(block))
             elif ndim == 2:
                 b = np.empty((len(block), len(block[0])), object)
                 for i in range(b.shape[0]):
@@ -52,7 +58,7 @@ class BlockArray(object):
     def apply(self, func):
         """Copy of self, with func applied to all blocks"""
         block = [func(b) for b in self.block.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.shape))
+        return type(self)(object_array(block, self.block.shape))
 
     def transpose(self):
         """Return transpose of self"""
@@ -64,7 +70,7 @@ class BlockArray(object):
                 return np.transpose(x)
 
         block = [t(b) for b in self.block.T.flatten()]
-        return type(self)(np.asarray(block, object).reshape(self.block.T.shape))
+        return type(self)(object_array(block, self.block.T.shape))
 
     def broadcasting_operator(self, other, op):
         try:
@@ -78,7 +84,7 @@ class BlockArray(object):
 
         A, B = np.broadcast_arrays(A, B)
         block = [op(a, b) for a, b in zip(A.flatten(), B.flatten())]
-        block = np.asarray(block, object).reshape(A.shape)
+        block = object_array(block, A.shape)
         return type(self)(block)
 
     def __add__(self, other):
@@ -285,7 +291,7 @@ class BlockOperator(BlockArray):
                 if not isinstance(self.block[i, j], ZeroOperator):
                     output[i] = output[i] + self.block[i, j] * other.block[j]
 
-        return type(other)(output)
+        return type(other)(output, ndim=1)
 
     def __repr__(self):
         return '\n'.join('\t'.join([repr(e) for e in row]) for row in self.block)
diff --git a/pycomplex/stencil/diffusion.py b/pycomplex/stencil/diffusion.py
index 6122572..7b7024b 100644
--- a/pycomplex/stencil/diffusion.py
+++ b/pycomplex/stencil/diffusion.py
@@ -143,12 +143,12 @@ class Diffusion(NormalSmoothEquation, MultiGridEquation):
         return BlockArray([
             self.complex.coarse.hodge[n] * (self.complex.coarsen[n] * (self.complex.hodge[n].I * b))
             for n, b in zip(self.system.L, y.block)
-        ])
+        ], ndim=1)
     def restrict_primal(self, y):
-        return BlockArray([self.complex.coarsen[n] * b for n, b in zip(self.system.L, y.block)])
+        return BlockArray([self.complex.coarsen[n] * b for n, b in zip(self.system.L, y.block)], ndim=1)
 
 
     def restrict(self, y):
         return self.restrict_dual(y)
     def interpolate(self, x):
-        return BlockArray([self.complex.refine[n] * b for n, b in zip(self.system.R, x.block)])
\ No newline at end of file
+        return BlockArray([self.complex.refine[n] * b for n, b in zip(self.system.R, x.block)], ndim=1)
\ No newline at end of file
diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 65fe21b..1757c69 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -97,7 +97,7 @@ class NormalSmoothEquation(Equation):
     @cached_property
     def inverse_sg_normal_diagonal(self):
         """Inverse diagonal of normal equations formed on a per-block-row-equation basis"""
-        return BlockArray([pr.diagonal()[0] for pr in self.projected_rows]).invert()
+        return BlockArray([pr.diagonal()[0] for pr in self.projected_rows], ndim=1).invert()
 
     @cached_property
     def AT(self):
-- 
2.43.0


From 69325f8225065c1ff209ab4c2a659fe84c171669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 19/37] fix: from_dense of a block array with more than two
 blocks

---
 pycomplex/stencil/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 7292e8b..fe5861b 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -164,7 +164,7 @@ class BlockArray(object):
         assert sum(splits) == x.size
         return BlockArray([
             s.reshape(b.shape)
-            for s, b in zip(np.split(x, splits[:-1]), self.block)
+            for s, b in zip(np.split(x, np.cumsum(splits)[:-1]), self.block)
         ], self.ndim)
 
 
-- 
2.43.0


From ae2004c710a595e4691fa7282e22a22bf98cde49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 20/37] fix: block operators that are not square as linear
 operator

---
 pycomplex/stencil/block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index fe5861b..49ff001 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -307,7 +307,7 @@ class BlockOperator(BlockArray):
         # FIXME: signature of matvec requires that we support both shape (N,) and (N, 1)
         return LinearOperator(
             shape=tuple([sum(np.prod(b.shape) for b in s.block) for s in (L, R)]),
-            matvec=lambda x: self.vector_mul(L.from_dense(x)).to_dense(),
-            rmatvec=lambda x: T.vector_mul(R.from_dense(x)).to_dense(),
+            matvec=lambda x: self.vector_mul(R.from_dense(x)).to_dense(),
+            rmatvec=lambda x: T.vector_mul(L.from_dense(x)).to_dense(),
             dtype=np.float32,
         )
-- 
2.43.0


From 07a95773492d3fe1d01389ae33e54688fe23aef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 21/37] fix: stencil operator as linear operator handed
 flattened forms to the stencil

---
 pycomplex/stencil/operator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index 76faafb..bcce105 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -74,8 +74,8 @@ class StencilOperator(object):
         from scipy.sparse.linalg import LinearOperator
         return LinearOperator(
             shape=tuple([np.prod(s) for s in self.shape]),
-            matvec=lambda x: self.right(x.flatten()),
-            rmatvec=lambda x: self.left(x.flatten()),
+            matvec=lambda x: self(x.reshape(self.shape[1])).flatten(),
+            rmatvec=lambda x: self.transpose()(x.reshape(self.shape[0])).flatten(),
             dtype=np.float32,
         )
 
-- 
2.43.0


From 2774460129a79adbd38a0c98caad56b74af2a64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 22/37] fix: allocate_x and allocate_y of a stencil system

---
 pycomplex/stencil/linear_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index d58f30c..29a1376 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -36,10 +36,10 @@ class System(object):
         self.R = np.array(R)
 
     def allocate_x(self):
-        return BlockArray([self.complex.form(n) for n in self.R])
+        return BlockArray([self.complex.topology.form(n) for n in self.R], ndim=1)
 
     def allocate_y(self):
-        return BlockArray([self.complex.form(n) for n in self.L])
+        return BlockArray([self.complex.topology.form(n) for n in self.L], ndim=1)
 
     @classmethod
     def canonical(cls, complex: StencilComplex):
-- 
2.43.0


From d0b07a2e06621938c75eaf37a281d134ee72827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 23/37] fix: diagonal of the identity operator is a value like
 that of other diagonal operators

---
 pycomplex/stencil/operator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/stencil/operator.py b/pycomplex/stencil/operator.py
index bcce105..c0b72d2 100755
--- a/pycomplex/stencil/operator.py
+++ b/pycomplex/stencil/operator.py
@@ -183,8 +183,9 @@ class IdentityOperator(DiagonalOperator):
     def simplify(self):
         return self
 
+    @property
     def diagonal(self):
-        return 1
+        return np.ones(self.shape[0])
 
     def __repr__(self):
         return 'I'
-- 
2.43.0


From 05613183823232dd983fa6da634c38a5b46c9802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:49 +0000
Subject: [PATCH 24/37] fix: adjecent_pairs skipped pairs after a falsy item

---
 pycomplex/stencil/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/util.py b/pycomplex/stencil/util.py
index c954196..dba275a 100755
--- a/pycomplex/stencil/util.py
+++ b/pycomplex/stencil/util.py
@@ -101,6 +101,6 @@ def adjecent_pairs(iter):
     """Yield all adjacent pairs from the given iterable"""
     j = None
     for i in iter:
-        if j:
+        if j is not None:
             yield j, i
         j = i
-- 
2.43.0


From 9283c3098036194e67cbbc90dd409198f9970a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:27 +0000
Subject: [PATCH 25/37] fix: shape of block matrices

---
 pycomplex/block.py         | 5 ++++-
 pycomplex/stencil/block.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 9f86ba5..8dde087 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -51,7 +51,10 @@ class BlockArray(object):
         if self.nested:
             # FIXME
             raise NotImplementedError
-        return [[self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])] for n in range(self.ndim)]
+        return [
+            [self.block[(0,) * n + (i,) + (0,) * (self.ndim - n - 1)].shape[n] for i in range(self.block.shape[n])]
+            for n in range(self.ndim)
+        ]
 
     @cached_property
     def nested(self):
diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index 49ff001..e4939ee 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -51,7 +51,7 @@ class BlockArray(object):
         one list for each axis
         """
         return [
-            [self.block.take(i, axis=n).shape[n] for i in range(self.block.shape[n])]
+            [self.block[(0,) * n + (i,) + (0,) * (self.ndim - n - 1)].shape[n] for i in range(self.block.shape[n])]
             for n in range(self.ndim)
         ]
 
-- 
2.43.0


From 9cb864befa1833931e42a242f750e38191dd49c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:27 +0000
Subject: [PATCH 26/37] fix: solve_minres without initial guess

---
 pycomplex/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/solvers.py b/pycomplex/solvers.py
index d0d34fe..bc3c13c 100755
--- a/pycomplex/solvers.py
+++ b/pycomplex/solvers.py
@@ -97,7 +97,7 @@ def solve_minres(A, b, x0=None, maxiter=None, shift=0.0, tol=1e-5):
     rnorm = 0
     ynorm = 0
 
-    xtype = x0.dtype
+    xtype = np.result_type(A.dtype, b.dtype, np.float32) if x0 is None else x0.dtype
 
     eps = np.finfo(xtype).eps
 
-- 
2.43.0


From be78f467622c363c4744508721329f02a27ea72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:27 +0000
Subject: [PATCH 27/37] fix: minres on stencil equations without initial guess

---
 pycomplex/stencil/equation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 1757c69..3976109 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -37,6 +37,8 @@ class Equation(object):
     def solve_minres(self, y, x0=None, **kwargs):
         A = self.system.A.aslinearoperator()
         b = (self.system.B * y).to_dense()
+        if x0 is None:
+            x0 = self.system.allocate_x()
         x, _ = scipy.sparse.linalg.minres(A=A, b=b, x0=x0.to_dense(), **kwargs)
         return x0.from_dense(x)
 
-- 
2.43.0


From f440fa8a9718e538cb661d6e4051736083cf7fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:27 +0000
Subject: [PATCH 28/37] fix: sample_0 of points assumed to be in the interior

---
 pycomplex/stencil/complex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomplex/stencil/complex.py b/pycomplex/stencil/complex.py
index 5ffa01b..8fd971c 100755
--- a/pycomplex/stencil/complex.py
+++ b/pycomplex/stencil/complex.py
@@ -196,8 +196,9 @@ class StencilComplex(object):
         assert self.topology.boundary == 'periodic'
         points = np.asarray(points) / self.scale
 
+        f0 = f0[0]
         if not assume_interior:
-            f0 = np.pad(f0[0], [(0, 1)] * self.n_dim, mode='wrap')
+            f0 = np.pad(f0, [(0, 1)] * self.n_dim, mode='wrap')
             points = np.remainder(points, self.shape)
 
         return ndimage.map_coordinates(f0, points.T, order=1)
-- 
2.43.0


From 751b7ef615a68ecd2597563d4fdc434836286c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:39 +0000
Subject: [PATCH 29/37] fix: spherical geometry of stacks with other than one
 or two leading dimensions

---
 pycomplex/geometry/spherical.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomplex/geometry/spherical.py b/pycomplex/geometry/spherical.py
index 189a864..3dc843b 100755
--- a/pycomplex/geometry/spherical.py
+++ b/pycomplex/geometry/spherical.py
@@ -72,9 +72,9 @@ def triangle_areas_around_center(center, corners):
     """
     areas = np.empty(corners.shape[:-1])
     for i in range(3):
-        areas[:,:,i] = triangle_area_from_corners(center, corners[:,:,i-2], corners[:,:,i-1])
+        areas[..., i] = triangle_area_from_corners(center, corners[..., i-2, :], corners[..., i-1, :])
     #swivel equilaterals to vonoroi parts
-    return (areas.sum(axis=2)[:,:,None]-areas) / 2
+    return (areas.sum(axis=-1, keepdims=True) - areas) / 2
 
 
 def unsigned_volume(pts):
@@ -156,7 +156,7 @@ def circumcenter(pts):
     if n_pts == 2:
         return edge_circumcenter(pts)
     if n_pts == 1:
-        return pts[:, 0, :]
+        return pts[..., 0, :]
     from pycomplex.geometry import euclidian
     return linalg.normalized(euclidian.circumcenter(pts))
 
-- 
2.43.0


From ff233ad1c115fde1cecae68d7311fdba14bb310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:26 +0000
Subject: [PATCH 30/37] fix: square test of block matrices compared the wrong
 sizes

---
 pycomplex/block.py         | 4 ++--
 pycomplex/stencil/block.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycomplex/block.py b/pycomplex/block.py
index 8dde087..a37f5aa 100755
--- a/pycomplex/block.py
+++ b/pycomplex/block.py
@@ -194,8 +194,8 @@ class BlockMatrix(BlockArray):
     @cached_property
     def square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def diagonal(self):
         """Get the diagonal of the block
diff --git a/pycomplex/stencil/block.py b/pycomplex/stencil/block.py
index e4939ee..a7687f0 100755
--- a/pycomplex/stencil/block.py
+++ b/pycomplex/stencil/block.py
@@ -204,8 +204,8 @@ class BlockOperator(BlockArray):
     @cached_property
     def is_square(self):
         """Return true if matrix is square"""
-        r, c = np.array(self.shape).T
-        return np.alltrue(r.T == c)
+        r, c = self.shape
+        return r == c
 
     def to_dense(self):
         # dense = self.apply(lambda x: x.to_dense())    # something broken with apply
-- 
2.43.0


From 2443868f43bc0cc537618dfc52613b0ad4e0b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:03 +0000
Subject: [PATCH 31/37] fix: center of mass of a closed surface whose origin is
 not inside a star-shaped interior

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 3b8ce40..4efafb7 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -596,7 +596,7 @@ class ComplexTriangularEuclidian3(ComplexTriangularEuclidian):
             np.zeros_like(tris[:, 0:1, :])
         ), axis=1)
         tet_centroids = tets.mean(axis=1)
-        tet_volumes = euclidian.unsigned_volume(tets)
+        tet_volumes = euclidian.signed_volume(tets)
 
         return (tet_volumes[..., None] * tet_centroids).sum(axis=0) / tet_volumes.sum()
 
-- 
2.43.0


From 3d23088e328cb5d7bf14d9fa6ecf5c86931ff2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 32/37] fix: boundary of a simplicial 1-topology with boundary

---
 pycomplex/topology/simplicial.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycomplex/topology/simplicial.py b/pycomplex/topology/simplicial.py
index f4e17b2..ebbcbe6 100755
--- a/pycomplex/topology/simplicial.py
+++ b/pycomplex/topology/simplicial.py
@@ -165,7 +165,7 @@ class TopologySimplicial(PrimalTopology):
         O = np.zeros(n_dim, dtype=object)
         B = np.zeros(n_dim, dtype=object)
 
-        while True:
+        while n_dim > 0:
             EN0, ENn, ONn = construct_lower(EN0)
             n_simplices, n_pts = EN0.shape
             n_dim = n_pts - 1
@@ -174,9 +174,6 @@ class TopologySimplicial(PrimalTopology):
             O[N] = ONn
             B[N] = ENn
 
-            if n_dim == 0:
-                break
-
         return cls(elements=E, orientation=O, boundary=B)
 
     def fix_orientation(self):
-- 
2.43.0


From f73e63dd2e8281d957696dd8a94bda265ec3e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 33/37] fix: select the right hand side of a subsystem by lists
 of rows too

---
 pycomplex/stencil/linear_system.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycomplex/stencil/linear_system.py b/pycomplex/stencil/linear_system.py
index 29a1376..0077d05 100755
--- a/pycomplex/stencil/linear_system.py
+++ b/pycomplex/stencil/linear_system.py
@@ -144,9 +144,12 @@ class System(object):
 
     def __getitem__(self, item):
         """Slice a subsystem of full cochain complex"""
+        def select(op, rows, cols):
+            # rows and columns can each be selected by a slice or by a list of indices
+            return op.__getslice__((rows, slice(None))).__getslice__((slice(None), cols)).copy()
         return self.copy(
-            A=self.A.__getslice__(item).copy(),
-            B=self.B.__getslice__([item[0], item[0]]).copy(),
+            A=select(self.A, item[0], item[1]),
+            B=select(self.B, item[0], item[0]),
             L=self.L[item[0]],
             R=self.R[item[1]],
         )
-- 
2.43.0


From acea0ebf63d0947598b99c68ca0212c33905b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:05 +0000
Subject: [PATCH 34/37] fix: block Gauss-Seidel on the rows moved away from the
 solution

---
 pycomplex/stencil/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/stencil/equation.py b/pycomplex/stencil/equation.py
index 3976109..8f58d0f 100755
--- a/pycomplex/stencil/equation.py
+++ b/pycomplex/stencil/equation.py
@@ -143,7 +143,7 @@ class NormalSmoothEquation(Equation):
         for ri, l in enumerate(self.system.L):
             residual = sum(a * xc for a, xc in zip(self.system.A[ri, :], x.block)) - by[ri]
             for ci, xc in enumerate(x.block):
-                xc[:] += self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
+                xc[:] -= self.system.A[ri, ci].T * (DI[ri] * residual * (1 / 2))
         return x
 
     def overrelax(self, x: BlockArray, y: BlockArray, knots):
-- 
2.43.0


From 2de93723641cb44edf011cf4b80fcd1b9c4d1e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:09 +0000
Subject: [PATCH 35/37] fix: orient the dual edges at both ends of an open 1-d
 topology

---
 pycomplex/topology/dual.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycomplex/topology/dual.py b/pycomplex/topology/dual.py
index 2849696..053fdf0 100755
--- a/pycomplex/topology/dual.py
+++ b/pycomplex/topology/dual.py
@@ -165,7 +165,10 @@ class Dual(BaseTopology):
         B = [pycomplex.sparse.sparse_zeros((0, boundary.n_elements[0]))] + boundary.matrices
         T = self.primal.matrices
         # this term effectively 'glues' the interior and boundary topology together
-        S = self.primal.selector_boundary
+        S = list(self.primal.selector_boundary)
+        # a dual edge that crosses the boundary runs between an N-element and its boundary element;
+        # this sign only varies for 1-topologies, where the boundary 0-elements do not carry an orientation of their own
+        S[-2] = S[-2] * scipy.sparse.diags(-(T[-1] * self.primal.chain(-1, fill=1)), dtype=sign_dtype)
 
         return [scipy.sparse.bmat(
                 [[t,   s.T],
-- 
2.43.0


From 80b143682b917437d4d327fb72bbb3bffb6297a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:20 +0000
Subject: [PATCH 36/37] fix: subdivide_loop_operator made a vertex of every
 triangle too

---
 pycomplex/complex/simplicial/euclidian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomplex/complex/simplicial/euclidian.py b/pycomplex/complex/simplicial/euclidian.py
index 4efafb7..549e314 100755
--- a/pycomplex/complex/simplicial/euclidian.py
+++ b/pycomplex/complex/simplicial/euclidian.py
@@ -319,7 +319,7 @@ class ComplexTriangularEuclidian(ComplexSimplicialEuclidian):
             sparse array mapping coarse to fine vertices
 
         """
-        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0)
+        coarse_averaging = scipy.sparse.vstack(coarse.topology.averaging_operators_0[:2])
 
         if smooth:
             # NOTE: only difference with cubical case lies in this call
-- 
2.43.0


From 923be6c549eb881e3f6c5f9afa3c729c26747829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:52 +0000
Subject: [PATCH 37/37] fix: coarse_to_fine and fine_to_coarse of spherical
 complexes passed a method instead of the transfer matrix

---
 pycomplex/complex/simplicial/spherical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomplex/complex/simplicial/spherical.py b/pycomplex/complex/simplicial/spherical.py
index 327d8d1..dd42e7d 100755
--- a/pycomplex/complex/simplicial/spherical.py
+++ b/pycomplex/complex/simplicial/spherical.py
@@ -396,7 +396,7 @@ class ComplexSpherical2(ComplexSpherical):
         sparse matrix, [fine.n_vertices, coarse.n_vertices], float
         """
         from pycomplex.sparse import normalize_l1
-        return normalize_l1(coarse.multigrid_transfer_dual)
+        return normalize_l1(coarse.multigrid_transfer_dual(coarse, coarse.subdivide_loop()).T)
     @cached_property
     def fine_to_coarse(coarse):
         """Maps primal-0-form on fine to primal-0-form on coarse
@@ -406,7 +406,7 @@ class ComplexSpherical2(ComplexSpherical):
         sparse matrix, [coarse.n_vertices, fine.n_vertices], float
         """
         from pycomplex.sparse import normalize_l1
-        return normalize_l1(coarse.multigrid_transfer_dual.T)
+        return normalize_l1(coarse.multigrid_transfer_dual(coarse, coarse.subdivide_loop()))
 
 
 class ComplexSpherical3(ComplexSpherical):
-- 
2.43.0

