From 4ec98fee1d1ec267c02925d1cceb73d2435ce924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 01/59] fix: use lattice vectors as columns of the voxel bases

---
 czone/generator/generator.py |  5 +++--
 czone/volume/voxel.py        | 14 +++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index aa3559a..1f12f93 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -119,11 +119,12 @@ class Generator(BaseGenerator):
             Structure)), "Structure must be pymatgen Structure object"
         self._structure = structure
 
+        # lattice vectors are rows of the pymatgen matrix, but columns of the bases
         # check if voxel exists, if so, copy origin
         if self.voxel is None:
-            self.voxel = Voxel(bases=structure.lattice.matrix)
+            self.voxel = Voxel(bases=structure.lattice.matrix.T)
         else:
-            self.voxel = Voxel(bases=structure.lattice.matrix,
+            self.voxel = Voxel(bases=structure.lattice.matrix.T,
                                origin=self.origin)
 
     @property
diff --git a/czone/volume/voxel.py b/czone/volume/voxel.py
index 04e7bd7..1f842b2 100644
--- a/czone/volume/voxel.py
+++ b/czone/volume/voxel.py
@@ -48,7 +48,7 @@ class Voxel():
 
     @property
     def bases(self):
-        """Basis vectors defining crystal unit cell. Vectors are rows of matrix."""
+        """Basis vectors defining crystal unit cell. Vectors are columns of matrix."""
         return self._bases
 
     @bases.setter
@@ -58,17 +58,17 @@ class Voxel():
         assert (
             bases.shape == (3, 3)
         ), '''Bases must be 3x3 numpy array that defines vectors that span 3D space
-            [0,:] = [x_1, y_1, z_1]
-            [1,:] = [x_2, y_2, z_2]
-            [2,:] = [x_3, y_3, z_3]'''
+            [:,0] = [x_1, y_1, z_1]
+            [:,1] = [x_2, y_2, z_2]
+            [:,2] = [x_3, y_3, z_3]'''
 
         #check for collinearity
         assert (not self._collinear(
-            bases[0, :], bases[1, :])), "Bases vectors must linearly indepedent"
+            bases[:, 0], bases[:, 1])), "Bases vectors must linearly indepedent"
         assert (not self._collinear(
-            bases[0, :], bases[2, :])), "Bases vectors must linearly indepedent"
+            bases[:, 0], bases[:, 2])), "Bases vectors must linearly indepedent"
         assert (not self._collinear(
-            bases[1, :], bases[2, :])), "Bases vectors must linearly indepedent"
+            bases[:, 1], bases[:, 2])), "Bases vectors must linearly indepedent"
 
         self._bases = bases
 
-- 
2.43.0


From d76c27fb74c00a6aa396311b26864da4993b325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 02/59] fix: supply every site when fractional coordinates lie
 outside of the cell

---
 czone/generator/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 1f12f93..a0b49c8 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -203,6 +203,11 @@ class Generator(BaseGenerator):
         min_extent, max_extent = self.voxel.get_extents(bbox)
         fcoords = np.copy(
             self.coords)  #grab fractional in case bases are rotated
+
+        # sites may sit outside of the unit cell, so pad extents by whole cells
+        min_extent = min_extent - np.floor(np.max(fcoords, axis=0)).astype(np.int64)
+        max_extent = max_extent - np.floor(np.min(fcoords, axis=0)).astype(np.int64)
+
         # get matrix representing unit cells as grid
         l = [
             range(min_extent[0], max_extent[0] + 1),
-- 
2.43.0


From 638110ad92a77f6309fd87a7fd58a84ac045fcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 03/59] fix: fill the requested region when generator is
 strained homogeneously

---
 czone/generator/generator.py |  7 ++++++-
 czone/transform/strain.py    | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index a0b49c8..f05406e 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -8,7 +8,7 @@ from pymatgen.core import Lattice, Structure
 from pymatgen.symmetry.groups import SpaceGroup, sg_symbol_from_int_number
 
 from ..transform import BaseTransform
-from ..transform.strain import BaseStrain
+from ..transform.strain import BaseStrain, HStrain
 from ..transform.post import BasePostTransform
 from ..volume.voxel import Voxel
 from .amorphous_algorithms import *
@@ -200,6 +200,11 @@ class Generator(BaseGenerator):
 
     def supply_atoms(self, bbox: np.ndarray):
         #generation method for pymatgen lattice structure
+        if isinstance(self.strain_field, HStrain):
+            # cover the region which is strained onto the requested one
+            self.strain_field.scrape_params(self)
+            bbox = self.strain_field.remove_strain(bbox)
+
         min_extent, max_extent = self.voxel.get_extents(bbox)
         fcoords = np.copy(
             self.coords)  #grab fractional in case bases are rotated
diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index edf9327..e030922 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -163,6 +163,20 @@ class HStrain(BaseStrain):
 
         return sp
 
+    def remove_strain(self, points: np.ndarray) -> np.ndarray:
+        """Apply inverse of the strain to a collection of points.
+
+        Args:
+            points (np.ndarray): Nx3 array of strained points in space
+        
+        Returns:
+            np.ndarray: Nx3 array of unstrained points in space
+        """
+        inverse = copy.copy(self)
+        inverse.matrix = np.linalg.inv(self.matrix)
+
+        return inverse.apply_strain(points)
+
 
 class IStrain(BaseStrain):
     """Strain class for applying inhomogenous strain fields to generators.
-- 
2.43.0


From 53eb1d3d13baca4479b0ee413102fe23a352b7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 04/59] fix: reject invalid strain modes

---
 czone/transform/strain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index e030922..c0c571c 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -74,7 +74,7 @@ class BaseStrain(ABC):
 
     @mode.setter
     def mode(self, val):
-        if val == "crystal" or "standard":
+        if val in ("crystal", "standard"):
             self._mode = val
         else:
             raise ValueError("Mode must be either crystal or standard")
-- 
2.43.0


From 21c1b3bbd4b6903eb22a103aeb8ae97a0a9726c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 05/59] fix: accept a fixed point as origin of homogeneous
 strain

---
 czone/transform/strain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index c0c571c..51d34a0 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -107,8 +107,8 @@ class HStrain(BaseStrain):
 
         self.mode = mode
 
-        if origin != "generator":
-            self.origin = origin
+        if not (isinstance(origin, str) and origin == "generator"):
+            self.origin = np.array(origin)
             self.origin_type = "global"
         else:
             super().__init__()
-- 
2.43.0


From ddf20c8be3fc4d403b10d45344d6e1dea09177ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 06/59] fix: make inhomogeneous strain fields usable

---
 czone/transform/strain.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/czone/transform/strain.py b/czone/transform/strain.py
index 51d34a0..99a65f5 100644
--- a/czone/transform/strain.py
+++ b/czone/transform/strain.py
@@ -195,21 +195,22 @@ class IStrain(BaseStrain):
     """
 
     def __init__(self, fun=None, origin="generator", mode="crystal", **kwargs):
+        self._bases = None
+        self.mode = mode
+        self.fun_kwargs = kwargs
+
         if not fun is None:
             self.strain_fun = fun
         else:
             # apply no strain
-            self.strain_fun = lambda x: x
+            self.strain_fun = lambda x, **kwargs: x
 
-        self.mode = mode
-
-        if origin != "generator":
-            self.origin = origin
+        if not (isinstance(origin, str) and origin == "generator"):
+            self.origin = np.array(origin)
+            self.origin_type = "global"
         else:
             super().__init__()
-
-        self._bases = None
-        self.fun_kwargs = kwargs
+            self.origin_type = "generator"
 
     ##############
     # Properties #
@@ -235,8 +236,12 @@ class IStrain(BaseStrain):
     @strain_fun.setter
     def strain_fun(self, fun: Callable[[np.ndarray], np.ndarray]):
         try:
-            ref_arr = np.random.rand((100, 3))
-            test_arr = fun(ref_arr, **self.fun_kwargs)
+            ref_arr = np.random.default_rng(0).random((100, 3))
+            if self.mode == "crystal":
+                # crystal strain functions are also given the generator bases
+                test_arr = fun(ref_arr, basis=np.eye(3), **self.fun_kwargs)
+            else:
+                test_arr = fun(ref_arr, **self.fun_kwargs)
             assert (test_arr.shape == (100, 3))
         except AssertionError:
             raise ValueError(
@@ -255,13 +260,13 @@ class IStrain(BaseStrain):
 
         if self.mode == "crystal":
             # project onto crystal coordinates
-            sp = sp @ np.linalg.inv(self.bases)
+            sp = sp @ np.linalg.inv(self.bases).T
 
             # strain
             sp = self.strain_fun(sp, basis=self.bases, **self.fun_kwargs)
 
             # project back into real space
-            sp = sp @ self.bases
+            sp = sp @ self.bases.T
         else:
             # strain
             sp = self.strain_fun(sp, **self.fun_kwargs)
-- 
2.43.0


From c80763405d26f503974f6c8a2a63fa5a7fad0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 07/59] fix: let reflections transform algebraic surfaces

---
 czone/transform/transform.py | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index ea55165..7f00b9a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -335,18 +335,6 @@ class Reflection(MatrixTransform):
     def params(self):
         return self.plane
 
-    def applyTransformation_alg(self, alg_object):
-        if (isinstance(alg_object), Sphere):
-            alg_object.center = np.dot(
-                self.matrix,
-                (alg_object.center - self.origin).T).T + self.origin
-
-        if (isinstance(alg_object), Plane):
-            alg_object.point = np.dot(
-                self.matrix, (alg_object.point - self.origin).T).T + self.origin
-
-        return alg_object
-
 
 class MultiTransform(BaseTransform):
     """Transformation sequence which applies a numeruous transformations in succession.
-- 
2.43.0


From 7699d905173d2f3cd9b267fbe9b61d750b58ab41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 08/59] fix: transform plane normals correctly under general
 matrix transformations

---
 czone/transform/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 7f00b9a..6b6fe7d 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -234,7 +234,9 @@ class MatrixTransform(BaseTransform):
             else:
                 alg_object.point = np.dot(self.matrix, (alg_object.point).T).T
 
-            alg_object.normal = np.dot(self.matrix, (alg_object.normal).T).T
+            # normals transform with the inverse transpose
+            alg_object.normal = np.linalg.solve(self.matrix.T,
+                                                alg_object.normal)
 
         if isinstance(alg_object, Cylinder):
             if not (self.origin is None):
-- 
2.43.0


From 20b729dd9ada9ce9d8b9e183782d7943153f8f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 09/59] fix: respect flags of individual transformations in a
 sequence

---
 czone/generator/generator.py | 8 +++++++-
 czone/volume/volume.py       | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index f05406e..60e3fb0 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -7,7 +7,7 @@ import numpy as np
 from pymatgen.core import Lattice, Structure
 from pymatgen.symmetry.groups import SpaceGroup, sg_symbol_from_int_number
 
-from ..transform import BaseTransform
+from ..transform import BaseTransform, MultiTransform
 from ..transform.strain import BaseStrain, HStrain
 from ..transform.post import BasePostTransform
 from ..volume.voxel import Voxel
@@ -254,6 +254,12 @@ class Generator(BaseGenerator):
         """
         assert (isinstance(transformation, BaseTransform)
                ), "Supplied transformation not transformation object."
+        if isinstance(transformation, MultiTransform):
+            # each part decides on its own whether it moves the origin
+            for t in transformation.transforms:
+                self.transform(t)
+            return
+
         self.voxel.bases = transformation.applyTransformation_bases(
             self.voxel.bases)
 
diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index acaf8d7..2ffc8e5 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -8,7 +8,7 @@ from ase.io import write as ase_write
 from scipy.spatial import ConvexHull, Delaunay
 
 from ..generator import AmorphousGenerator, BaseGenerator
-from ..transform import BaseTransform
+from ..transform import BaseTransform, MultiTransform
 from .algebraic import BaseAlgebraic, Plane, Sphere, Cylinder
 from .algebraic import get_bounding_box as get_bounding_box_planes
 
@@ -278,6 +278,12 @@ class Volume(BaseVolume):
         assert (isinstance(transformation, BaseTransform)
                ), "Supplied transformation not transformation object."
 
+        if isinstance(transformation, MultiTransform):
+            # each part decides on its own whether it applies jointly
+            for t in transformation.transforms:
+                self.transform(t)
+            return
+
         if not (self.points is None):
             self.points = transformation.applyTransformation(self.points)
             self.createHull()
-- 
2.43.0


From 34ab691040041158228abfab28077849cd84ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 10/59] fix: align collinear and antiparallel vectors

---
 czone/transform/transform.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 6b6fe7d..cba5644 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -456,14 +456,21 @@ def rot_vtv(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
     v = np.array(v).reshape(3,)
     vt = np.array(vt).reshape(3,)
     eps = np.finfo(float).eps  #get machine epsilon for collinearity check
-    theta = np.arccos(np.dot(v, vt) / (np.linalg.norm(v) * np.linalg.norm(vt)))
+    v = v / np.linalg.norm(v)
+    vt = vt / np.linalg.norm(vt)
+    # arctan2 stays accurate for nearly collinear vectors
+    theta = np.arctan2(np.linalg.norm(np.cross(v, vt)), np.dot(v, vt))
     if (theta < eps):
         return np.eye(3)
-    elif (np.pi - theta < eps):
-        e_i = np.eye(3)[np.argmin(v)]  #grab axis along minimum component of v
+    elif (np.pi - theta < 1e-12):
+        #grab axis along smallest component of v
+        e_i = np.eye(3)[np.argmin(np.abs(v))]
         rot_axis = np.cross(v, e_i).astype(float)
     else:
         rot_axis = np.cross(v, vt).astype(float)
+        rot_axis /= np.linalg.norm(rot_axis)
+        #remove rounding errors when nearly antiparallel
+        rot_axis -= np.dot(rot_axis, v) * v
 
     rot_axis /= np.linalg.norm(rot_axis)
     A = np.array([[0, -rot_axis[2],
-- 
2.43.0


From bbacbfabf354e26469d3f6dea26b5069f3e0f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 11/59] fix: return the rotation aligning two sets of vectors

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index cba5644..3c0f189 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -491,7 +491,7 @@ def rot_align(v: np.ndarray, vt: np.ndarray) -> np.ndarray:
         np.ndarray: 3x3 rotation matrix
     """
 
-    return scRotation.align_vectors(vt, v).as_matrix()
+    return scRotation.align_vectors(vt, v)[0].as_matrix()
 
 
 def rot_zxz(alpha: float,
-- 
2.43.0


From c4947ffef6b1a7062b8db49f995a3498c45c7757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 12/59] fix: apply extrinsic zxz rotations in documented order

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 3c0f189..4dc2eaa 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -521,7 +521,7 @@ def rot_zxz(alpha: float,
         return scRotation.from_euler("ZXZ", [alpha, beta, gamma],
                                      degrees=False).as_matrix()
     elif convention == "extrinsic":
-        return scRotation.from_euler("zxz", [gamma, alpha, beta],
+        return scRotation.from_euler("zxz", [gamma, beta, alpha],
                                      degrees=False).as_matrix()
     else:
         raise (ValueError("Invalid argument for convention."))
-- 
2.43.0


From e9227cdd2d23f63e6edc3aaa804351a305b097c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 13/59] fix: keep angle between collinear vectors finite

---
 czone/util/misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index cce4e35..53b02aa 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -64,4 +64,5 @@ def vangle(v1: np.ndarray, v2: np.ndarray) -> float:
     Returns:
         float: angle in radians
     """
-    return np.arccos(np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2)))
\ No newline at end of file
+    cos_angle = np.dot(v1, v2) / (np.linalg.norm(v1) * np.linalg.norm(v2))
+    return np.arccos(np.clip(cos_angle, -1.0, 1.0))
-- 
2.43.0


From a057f03f2e1e15e7a392181565e8e4780e2bd630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 14/59] fix: project single points onto planes

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 51c693e..90dada2 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -220,7 +220,7 @@ class Plane(BaseAlgebraic):
         Returns:
             Projected point lying on surface of Plane.
         """
-        return point - self.sdist_from_plane(point)[:,None] * self.normal[None,:]
+        return point - self.sdist_from_plane(point)[...,None] * self.normal
 
 
 class Cylinder(BaseAlgebraic):
-- 
2.43.0


From f7cf2a8a8297cadf943ca98d8b2f8487b04aa4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:07 +0000
Subject: [PATCH 15/59] fix: align surfaces face to face without altering the
 moving surface

---
 czone/transform/transform.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 4dc2eaa..8d6c1cb 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -555,14 +555,13 @@ def s2s_alignment(M_plane: Plane, T_plane: Plane, M_point: np.ndarray,
 
     R_t = Rotation(matrix=R, origin=M_plane.point)
 
-    #TODO: why aren't these being used?
-    M_plane_r = R_t.applyTransformation_alg(M_plane)
-    M_point_r = R_t.applyTransformation(M_point)
+    # M_plane.point is the fixed point of the rotation
+    M_point_r = R_t.applyTransformation(np.squeeze(M_point))
 
-    proj_point = T_plane.project_point(M_point)
-    plane_shift = T_plane.project_point(T_point) - proj_point
+    proj_point = T_plane.project_point(M_point_r)
+    plane_shift = T_plane.project_point(np.squeeze(T_point)) - proj_point
 
-    ortho_shift = 1.0 * T_plane.dist_from_plane(M_plane.point) * T_plane.normal
+    ortho_shift = -1.0 * T_plane.sdist_from_plane(M_plane.point) * T_plane.normal
     T_t = Translation(shift=ortho_shift + plane_shift)
 
     return MultiTransform(transforms=[R_t, T_t])
-- 
2.43.0


From be1775f6f40e372c8a626107ba2f5b2d2ae6fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:31 +0000
Subject: [PATCH 16/59] fix: snap to the nearest plane of the family through
 the generator origin

---
 czone/volume/algebraic.py | 60 +++++++++++++++------------------------
 1 file changed, 23 insertions(+), 37 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 90dada2..5ca2154 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -443,52 +443,38 @@ def snap_plane_near_point(point: np.ndarray,
     miller_indices = np.array(miller_indices)
 
 
+    bases = generator.voxel.sbases
+    origin = generator.origin
+
     # check if generator has a strain field
-    if generator.strain_field is None:
-        # get point coordinates in generator coordinate system
-        point_fcoord = np.array(np.linalg.solve(generator.voxel.sbases, point))
-    else:
+    if not generator.strain_field is None:
         assert ( isinstance(
             generator.strain_field, HStrain)), "Finding Miller planes with inhomogenous strain fields is not supported."
 
-        if generator.strain_field.mode == "crystal":
-            H = generator.strain_field.matrix
-            point_fcoord = np.array(np.linalg.solve(H @ generator.voxel.sbases, point))
-
-    # get lattice points that are intersected by miller plane
-    with np.errstate(divide="ignore"):  #check for infs directly
-        target_fcoord = 1 / miller_indices
+        # get bases and origin of strained crystal
+        generator.strain_field.scrape_params(generator)
+        corners = np.vstack([np.zeros((1, 3)), bases.T]) + origin
+        corners = generator.strain_field.apply_strain(corners)
+        origin = corners[0, :]
+        bases = (corners[1:, :] - origin).T
 
-    new_point = np.zeros((3, 1))
+    # get index of plane in family which contains point, relative to generator origin
+    point = np.reshape(np.array(point), (3,))
+    index = np.dot(miller_indices, np.linalg.solve(bases, point - origin))
 
-    # TODO: if bases are not orthonormal, this procedure is not correct
-    # since the following rounds towards the nearest lattice points, with equal
-    # weights given to all lattice vectors
     if mode == "nearest":
-        for i in range(3):
-            new_point[i,0] = np.round(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        new_index = np.round(index)
     elif mode == "ceil":
-        for i in range(3):
-            new_point[i,0] = round_away(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
+        new_index = round_away(index)
     elif mode == "floor":
-        for i in range(3):
-            new_point[i,0] = np.fix(point_fcoord[i]/target_fcoord[i])*target_fcoord[i] \
-                                if not np.isinf(target_fcoord[i]) else point_fcoord[i]
-
-    if generator.strain_field is None:
-        # scale back to real space
-        new_point = generator.voxel.sbases @ new_point
-
-        # get perpendicular vector
-        normal = generator.voxel.reciprocal_bases.T @ miller_indices
+        new_index = np.fix(index)
     else:
-        H = generator.voxel.sbases
-        G = generator.strain_field.matrix
-        new_point = G @ H @ new_point
+        raise ValueError("Mode must be either nearest, ceil, or floor")
+
+    # get perpendicular vector, i.e., reciprocal lattice vector
+    normal = np.linalg.inv(bases).T @ miller_indices
 
-        # get perpendicular vector
-        normal = np.linalg.inv(H @ G).T @ miller_indices
+    # move along normal onto plane
+    new_point = point + (new_index - index) * normal / np.dot(normal, normal)
 
-    return Plane(normal=normal, point=new_point)
\ No newline at end of file
+    return Plane(normal=normal, point=new_point)
-- 
2.43.0


From d791dee7e8f28962037a42ee327c3f39261465e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 17/59] fix: keep hull and triangulation of volumes in step
 with their points

---
 czone/volume/volume.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 2ffc8e5..b9592e5 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -175,11 +175,16 @@ class Volume(BaseVolume):
 
     @points.setter
     def points(self, points):
+        points = np.array(points)
+        old_points = self._points
         try:
-            self._points = np.array([])  #clear points
+            self._points = None  #clear points
             self.addPoints(points)
-        except AssertionError:
+        except (AssertionError, IndexError):
             raise ValueError("Check shape of input array.")
+        finally:
+            if self._points is None:  #keep points if new ones are rejected
+                self._points = old_points
 
     @property
     def alg_objects(self):
@@ -257,21 +262,21 @@ class Volume(BaseVolume):
         assert (len(points.shape) <
                 3), "points must be N x 3 numpy array (x,y,z)"
 
+        if len(points.shape) == 1:  #check for single point
+            points = np.expand_dims(points, axis=0)
+
+        old_points = self._points
         if (self._points is None):
             self._points = np.copy(points)
-            if len(points.shape) == 1:  #add dim if only single new point
-                self._points = np.expand_dims(points)
         else:
-            if len(points.shape) == 1:  #check for single point
-                points = np.expand_dims(points, axis=0)
-
             self._points = np.append(self._points, points, axis=0)
 
-        #if hull created, update points; else, create hull
+        #hull and triangulation must always describe the current points
         try:
-            self._hull.add_points(points)
-        except AttributeError:
             self.createHull()
+        except Exception:
+            self._points = old_points
+            raise
 
     def transform(self, transformation: BaseTransform):
 
-- 
2.43.0


From c023412b8000234e6e2f1f39ff49ea8146d68d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 18/59] fix: use vertices of plane intersection as bounding box
 of volume

---
 czone/volume/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index b9592e5..a6b85f6 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -347,7 +347,9 @@ class Volume(BaseVolume):
 
             planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
             if len(planes) > 3:
-                return get_bounding_box_planes(planes)
+                bbox, status = get_bounding_box_planes(planes)
+                if status == 0:
+                    return bbox
 
             cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
             if len(cylinders) > 0:
-- 
2.43.0


From 8ab65c38fcb6731770b8694fbde344f115feb6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 19/59] fix: include tolerance of surfaces in bounding box of
 volume

---
 czone/volume/volume.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index a6b85f6..0c712fb 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -340,18 +340,25 @@ class Volume(BaseVolume):
             ]
             if len(spheres) > 0:
                 s_idx = sorted(range(len(spheres)), key=lambda i: spheres[i].radius)[0]
-                d = 2 * spheres[s_idx].radius
+                d = 2 * (spheres[s_idx].radius + spheres[s_idx].tol)
                 bbox = makeRectPrism(d, d, d)
                 shift = spheres[s_idx].center - (d / 2) * np.ones(3)
                 return bbox + shift
 
-            planes = [obj for obj in self.alg_objects if isinstance(obj, Plane)]
+            planes = [
+                Plane(obj.normal, obj.point + obj.tol * obj.normal)
+                for obj in self.alg_objects if isinstance(obj, Plane)
+            ]
             if len(planes) > 3:
                 bbox, status = get_bounding_box_planes(planes)
                 if status == 0:
                     return bbox
 
-            cylinders = [obj for obj in self.alg_objects if isinstance(obj, Cylinder)]
+            cylinders = [
+                Cylinder(obj.axis, obj.point, obj.radius + obj.tol,
+                         obj.length + 2 * obj.tol)
+                for obj in self.alg_objects if isinstance(obj, Cylinder)
+            ]
             if len(cylinders) > 0:
                 bbox = cylinders[0].get_bounding_box()
                 return bbox
-- 
2.43.0


From 4a15e317a08543aac0b8bc56e0f87390e8bd2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 20/59] fix: bound cylinders with axis along [1,1,1]

---
 czone/volume/algebraic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 5ca2154..f98ddc3 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -320,6 +320,8 @@ class Cylinder(BaseAlgebraic):
         # get vectors perpendicular to axis
         vs_0 = np.array([[1,1,1]]).T # any vector works; fix to make generation stable
         vs_0 = vs_0/np.linalg.norm(vs_0)
+        if np.abs(vs_0.T @ vz) > 1.0 - 1e-6: # unless it is parallel to axis
+            vs_0 = np.array([[1,0,0]]).T
         vs_0 = vs_0 - (vs_0.T @ vz) * vz
         vs_0 = vs_0/np.linalg.norm(vs_0)
 
-- 
2.43.0


From 55743a0712b7636b8159b48cbf9dc7a257dcb711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 21/59] fix: find convex regions anywhere in space and detect
 unbounded ones

---
 czone/volume/algebraic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index f98ddc3..a4f7732 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -411,8 +411,14 @@ def get_bounding_box(planes: List[Plane]):
     c = np.zeros(4)
     c[-1] = -1
 
-    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d)
+    bounds = [(None, None)] * 3 + [(0, None)]
+    res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d, bounds=bounds)
     if (res.status == 0):
+        # region is bounded only if plane normals positively span space
+        span = linprog(np.zeros(len(planes)), A_eq=A.T, b_eq=np.zeros(3), bounds=(1, None))
+        if np.linalg.matrix_rank(A) < 3 or span.status != 0:
+            return np.empty((0,3)), 3
+
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
         except QhullError:
-- 
2.43.0


From c0a3305e5891760db87768d33100c00f97b44efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:35 +0000
Subject: [PATCH 22/59] fix: copy volumes without generators and honour all
 documented options

---
 czone/volume/volume.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 0c712fb..5410c82 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -383,17 +383,19 @@ class Volume(BaseVolume):
                     - generator=BaseGenerator to replace generator associated with volume.
                     - Any kwargs accepted in creation of Volume object.
         """
-        new_volume = Volume(points=self.points,
-                            alg_objects=self.alg_objects,
-                            priority=self.priority)
-        if "generator" in kwargs.keys():
-            new_volume.add_generator(kwargs["generator"])
-        else:
-            new_volume.add_generator(self.generator)
-
-        if "transformation" in kwargs.keys():
-            for t in kwargs["transformation"]:
-                new_volume.transform(t)
+        transformation = kwargs.pop("transformation", [])
+
+        volume_kwargs = {
+            "points": self.points,
+            "alg_objects": self.alg_objects,
+            "generator": self.generator,
+            "priority": self.priority,
+            "tolerance": self.tolerance
+        }
+        new_volume = Volume(**{**volume_kwargs, **kwargs})
+
+        for t in transformation:
+            new_volume.transform(t)
 
         return new_volume
 
-- 
2.43.0


From 9fab5951eb0815d5da91c7d77afa338f2fec03ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 23/59] fix: keep molecule origin on its atom when other atoms
 are removed

---
 czone/molecule/molecule.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index e6f9a17..4068ae9 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -105,16 +105,25 @@ class BaseMolecule(ABC):
             if np.abs(new_origin_idx) >= self.atoms.shape[0]:
                 raise IndexError(f"Supplied new_origin_idx {new_origin_idx} is out of bounds for {self.atoms.shape[0]} atom molecule")
             
-        if new_origin_idx in indices:
+        # original indices of the atoms which are kept
+        N = self.atoms.shape[0]
+        kept = np.delete(np.arange(N), indices)
+
+        if new_origin_idx is not None and new_origin_idx % N not in kept:
             raise IndexError(f"Supplied new_origin_idx {new_origin_idx} in set of indices of atoms to be removed.")
         
-        if self._origin_tracking and self._origin_idx in indices:
-            raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
-            # self._origin_idx = new_origin_idx # TEST
+        if new_origin_idx is None and self._origin_tracking:
+            new_origin_idx = self._origin_idx
+            if new_origin_idx % N not in kept:
+                raise NotImplementedError # TODO: Implement origin resetting behavior and warn user if origin is reset to a new index
 
         self._species = np.delete(self.species, indices, axis=0)
         self._atoms = np.delete(self.atoms, indices, axis=0)
 
+        # keep following the same atom
+        if new_origin_idx is not None:
+            self.set_origin(idx=np.searchsorted(kept, new_origin_idx % N))
+
     @property
     def ase_atoms(self):
         """Collection of atoms in molecule as ASE Atoms object."""
-- 
2.43.0


From 1dfe288c5c16e08cd99b6e1edaf0f331cba37597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 24/59] fix: leave molecule origin unchanged when new origin
 index is rejected

---
 czone/molecule/molecule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index 4068ae9..3c03645 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -206,8 +206,8 @@ class BaseMolecule(ABC):
             self._origin = point
 
         elif idx is not None: 
-            self._origin_tracking = True
             self._origin_idx = idx
+            self._origin_tracking = True
 
     @property
     def orientation(self):
-- 
2.43.0


From ec2e88aa4527e03e55ee5551e23da173ec14be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 25/59] fix: copy matrices supplied to transformations and
 molecules

---
 czone/molecule/molecule.py   | 2 +-
 czone/transform/transform.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/czone/molecule/molecule.py b/czone/molecule/molecule.py
index 3c03645..acea502 100644
--- a/czone/molecule/molecule.py
+++ b/czone/molecule/molecule.py
@@ -226,7 +226,7 @@ class BaseMolecule(ABC):
         if np.sum(np.abs(mat @ mat.T - np.eye(3))) > 1e-6:
             raise ValueError(f"Input (rotation) matrix must be orthogonal.") # TODO: provide info on non-orthogonal vectors
 
-        self._orientation = mat
+        self._orientation = np.array(mat)
 
 
     def reset_orientation(self):
diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index 8d6c1cb..c0e4a4f 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -186,7 +186,7 @@ class MatrixTransform(BaseTransform):
     def matrix(self, matrix: np.ndarray):
         assert (matrix.shape == (
             3, 3)), "Input matrix must be square 3x3 numpy array"
-        self._matrix = matrix
+        self._matrix = np.array(matrix)
 
     @property
     def origin(self) -> np.ndarray:
@@ -290,7 +290,7 @@ class Rotation(MatrixTransform):
         assert (
             np.sum(np.abs(val @ val.T - np.eye(3))) < 1e-6
         ), "Input matrix not a valid rotation matrix. Fails orthogonality."
-        self._matrix = val
+        self._matrix = np.array(val)
 
 
 class Reflection(MatrixTransform):
-- 
2.43.0


From cec3ea838b9d785d83f0eefeda9f7111a160fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 26/59] fix: keep minimum distance across periodic boundary of
 amorphous blocks

---
 czone/generator/amorphous_algorithms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index 168919e..b407dc2 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -42,7 +42,8 @@ def get_tuples(tx, ty, tz):
 
 def get_voxels(min_dist, dims):
     """Get voxel and neighbor list."""
-    num_blocks = np.ceil(dims / (min_dist)).astype(int)
+    # voxels must not be thinner than min_dist, or neighbors are missed
+    num_blocks = np.maximum(np.floor(dims / (min_dist)), 1).astype(int)
     voxels = []
     neighbors = []
     for i in range(num_blocks[0]):
@@ -121,6 +122,7 @@ def gen_p_substrate(dims: List[float],
 
     # get voxel grid and list of local voxel neighbors
     voxels, neighbors = get_voxels(min_dist, dims)
+    num_blocks = np.array([len(voxels), len(voxels[0]), len(voxels[0][0])])
 
     if print_progress:
         print("Starting particle loop for %i particles" % num_c)
@@ -132,7 +134,7 @@ def gen_p_substrate(dims: List[float],
             print("On %i of %i" % (i, num_c))
         new_coord = rng.uniform(size=(1, 3)) * dims
 
-        block = np.floor(new_coord / (min_dist)).astype(int)
+        block = np.floor(new_coord / dims * num_blocks).astype(int)
         block = block[0]
         tlist = neighbors[block[0]][block[1]][block[2]]
         parts = []
@@ -143,7 +145,7 @@ def gen_p_substrate(dims: List[float],
         while ((len(p_dist) > 0) and (np.min(p_dist) < min_dist_2)):
 
             new_coord = rng.uniform(size=(1, 3)) * dims
-            block = np.floor(new_coord / (min_dist)).astype(int)
+            block = np.floor(new_coord / dims * num_blocks).astype(int)
             block = block[0]
             tlist = neighbors[block[0]][block[1]][block[2]]
             parts = []
-- 
2.43.0


From fcf8431ca9604954dd1872d8bd3449d921050c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 27/59] fix: keep minimum distance across periodic boundary of
 batched amorphous blocks

---
 czone/generator/amorphous_algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/czone/generator/amorphous_algorithms.py b/czone/generator/amorphous_algorithms.py
index b407dc2..ada22c1 100644
--- a/czone/generator/amorphous_algorithms.py
+++ b/czone/generator/amorphous_algorithms.py
@@ -181,7 +181,8 @@ def gen_p_substrate_batched(dims: List[float],
     coords = np.zeros((num_c, 3))
     dims = np.array([dim_x, dim_y, dim_z])
     voxel_size = min_dist*voxel_scale
-    num_blocks = np.ceil(dims / (voxel_size)).astype(int)
+    # voxels must not be thinner than voxel_size, or neighbors are missed
+    num_blocks = np.maximum(np.floor(dims / (voxel_size)), 1).astype(int)
     tot_blocks = np.prod(num_blocks)
     Nt = np.array([1, num_blocks[0], num_blocks[0]*num_blocks[1]])
 
@@ -204,7 +205,7 @@ def gen_p_substrate_batched(dims: List[float],
 
         # find block for each particle and make sure every particle is in unique block
         # to avoid full N^2 comparisons within batch
-        block = (np.floor(new_coord /voxel_size) @ Nt).astype(int)
+        block = (np.floor(new_coord / dims * num_blocks) @ Nt).astype(int)
         __, idx = np.unique(block, return_index=True)
         block = block[idx]
         new_coord = new_coord[idx,:]
-- 
2.43.0


From bc0eb9ed2189a01f4516015c56f3eaea32593771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 28/59] fix: generate amorphous material at the requested
 density

---
 czone/generator/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 60e3fb0..f89b551 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -434,7 +434,9 @@ class AmorphousGenerator(BaseGenerator):
             return self.old_result
         else:
             coords = gen_p_substrate(
-                np.max(bbox, axis=0) - np.min(bbox, axis=0), self.min_dist)
+                np.max(bbox, axis=0) - np.min(bbox, axis=0),
+                min_dist=self.min_dist,
+                density=self.density)
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From 35a5d8e333e1616dd9f5f84b2087d2d513222976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 29/59] fix: place amorphous material in the requested region

---
 czone/generator/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index f89b551..52fd4e3 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -436,7 +436,7 @@ class AmorphousGenerator(BaseGenerator):
             coords = gen_p_substrate(
                 np.max(bbox, axis=0) - np.min(bbox, axis=0),
                 min_dist=self.min_dist,
-                density=self.density)
+                density=self.density) + np.min(bbox, axis=0)
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
-- 
2.43.0


From e72b4517d0343f3f601dcd7034efc58a90a7ef50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 30/59] fix: transform volumes filled with amorphous material
 or empty space

---
 czone/generator/generator.py | 31 ++++++++++++++++++++++++++++++-
 czone/volume/volume.py       |  3 ++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 52fd4e3..1bbcd8c 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -440,6 +440,30 @@ class AmorphousGenerator(BaseGenerator):
             self._old_result = (coords, np.ones(coords.shape[0]) * self.species)
             return self.old_result
 
+    def transform(self, transformation: BaseTransform):
+        """Transform origin and previous generation with transformation.
+
+        Args:
+            transformation (BaseTransform): Transformation object from transforms module.
+        """
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
+        if isinstance(transformation, MultiTransform):
+            for t in transformation.transforms:
+                self.transform(t)
+            return
+
+        if transformation.basis_only:
+            return
+
+        if self.origin is not None:
+            self.origin = np.squeeze(transformation.applyTransformation(
+                np.reshape(self.origin, (1, 3))))
+
+        if self.old_result is not None:
+            coords, species = self.old_result
+            self._old_result = (transformation.applyTransformation(coords), species)
+
 
 class NullGenerator(BaseGenerator):
     """Generator object for empty space.
@@ -455,4 +479,9 @@ class NullGenerator(BaseGenerator):
         pass
 
     def supply_atoms(self, bbox):
-        return np.empty((0,3)), np.empty((0,))
\ No newline at end of file
+        return np.empty((0,3)), np.empty((0,))
+
+    def transform(self, transformation: BaseTransform):
+        """Empty space is not altered by any transformation."""
+        assert (isinstance(transformation, BaseTransform)
+               ), "Supplied transformation not transformation object."
diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 5410c82..94ea59d 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -233,7 +233,8 @@ class Volume(BaseVolume):
 
         new_generator = copy.deepcopy(generator)
 
-        if not isinstance(generator, AmorphousGenerator):
+        # only crystalline generators have a lattice origin
+        if hasattr(new_generator, "voxel"):
             if not origin is None:
                 new_generator.voxel.origin = origin
 
-- 
2.43.0


From 0fee6a87a1fea3ce09f510bfa1a8d36b3a2068e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:45 +0000
Subject: [PATCH 31/59] fix: reject splits which cannot be placed

---
 czone/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/util/misc.py b/czone/util/misc.py
index 53b02aa..2bfe0c1 100644
--- a/czone/util/misc.py
+++ b/czone/util/misc.py
@@ -31,7 +31,7 @@ def get_N_splits(n: int, m: int, l: int, seed: int = None) -> List[int]:
     if n == 0:
         return []
         
-    if (l - 2 * m < (n - 1) * m):
+    if (l - 2 * m - 1 < (n - 1) * m):
         raise ValueError("m is too large for number of splits requested and l")
     rng = np.random.default_rng(seed=seed)
 
-- 
2.43.0


From 6ce6c78d37bb83d8434943e9f312d397f6e7cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 32/59] fix: return distance function without periodic
 boundaries

---
 czone/util/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index 067fde3..e5fe3b1 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -176,6 +176,8 @@ def get_sdist_fun(dims=None, px=False, py=False, pz=False):
         def sdist(A, B):
             return np.sum((A - B)**2.0, axis=1)
 
+        return sdist
+
     # grab relevant dimensions
     cols = [x for x, y in zip([0, 1, 2], [px, py, pz]) if y]
     sdims = np.array(dims)[cols]
-- 
2.43.0


From 7dca04e700b695b8c38bd1cbfafbb122addd94a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 33/59] fix: count every pair once in radial distribution
 function

---
 czone/util/measure.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/czone/util/measure.py b/czone/util/measure.py
index e5fe3b1..a23406f 100644
--- a/czone/util/measure.py
+++ b/czone/util/measure.py
@@ -210,17 +210,19 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
 
     """
     # shift outside of negative octants
-    coords -= np.min(coords, axis=0)
+    coords = coords - np.min(coords, axis=0)
 
     # get box size and number of voxels in each direction
+    # voxels must not be thinner than cutoff, or neighbors are missed
     dims = np.max(coords, axis=0)
-    N = np.ceil(dims / cutoff).astype(int)
+    N = np.maximum(np.floor(dims / cutoff), 1).astype(int)
+    voxel_dims = np.where(dims > 0, dims, 1.0) / N
 
     Nt = np.array([1, N[0], N[0] * N[1]])
 
     # get voxel neighbor list and 1D voxel idx for each obj
     nn = get_voxel_grid(N, px, py, pz)
-    box_idx = (np.floor(coords / cutoff) @ Nt).astype(int)
+    box_idx = (np.minimum(np.floor(coords / voxel_dims), N - 1) @ Nt).astype(int)
 
     # get periodic distance calculation
     f_sdist = get_sdist_fun(dims, px, py, pz)
@@ -232,14 +234,14 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
         parts.append([int(x) for x in part_ids[box_idx == i]])
 
     # do 3D arrays so that distances are broadcasted/batched
-    counts = np.zeros(int(cutoff / 0.1))
+    counts = np.zeros(int(np.round(cutoff / 0.1)))
 
     # for each voxel, calculate distance of owned particles to all possible
     # neighbors within cutoff distance
     for i in range(np.prod(N)):
         cur_parts = coords[parts[i], :][:, :, None]
 
-        for n in nn[box_idx[i]]:
+        for n in set(nn[i]):
             neighbor_parts = (coords[parts[n], :].T)[None, :, :]
             dist = np.sqrt(f_sdist(cur_parts, neighbor_parts))
 
@@ -250,6 +252,6 @@ def calc_rdf(coords, cutoff=20.0, px=True, py=True, pz=True):
             counts += tmp_counts
 
     # correct for self interactions
-    counts[0] = 0.0
+    counts[0] -= coords.shape[0]
 
     return counts
-- 
2.43.0


From ca3d5443180ff7e5b6c5fed9adce45c29771aee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 34/59] fix: report all corners of exposed faces of alpha-shape

---
 czone/surface/alpha_shape.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index aca7105..b144764 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -92,7 +92,10 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
     # determine which points are along the outer edges of tetrahedra/alpha-shape
     sub_points = tri.simplices[surface_tris,:]
     sub_neighbors = tri.neighbors[surface_tris,:]
-    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]
+    exposed = np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors]))
+
+    # exposed faces are opposite to vertices, so points need another exposed face
+    out_points = sub_points[np.sum(exposed, axis=1, keepdims=True) - exposed > 0]
 
     if return_alpha_shape:
         shape_dict = {}
@@ -167,7 +170,10 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
     # determine which points are along the outer edges of tetrahedra/alpha-shape
     sub_points = tri.simplices[surface_tris,:]
     sub_neighbors = tri.neighbors[surface_tris,:]
-    out_points = sub_points[np.logical_not(np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors])))]
+    exposed = np.logical_or(sub_neighbors==-1, np.logical_not(probe_test[sub_neighbors]))
+
+    # exposed faces are opposite to vertices, so points need another exposed face
+    out_points = sub_points[np.sum(exposed, axis=1, keepdims=True) - exposed > 0]
 
     if return_alpha_shape:
         shape_dict = {}
-- 
2.43.0


From 9d90903cc1eb71c107064467587ec243d943be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 35/59] fix: find neighbors in full alpha-shape

---
 czone/surface/alpha_shape.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index b144764..3d003f3 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -106,7 +106,7 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
@@ -184,7 +184,7 @@ def alpha_shape_alg_3D_with_sampling(points, probe_radius, N_samples, std=1e-4,
 
         # also return list of simplices indices for full alpha shape
         a_tris = np.logical_not(np.logical_and(outside, np.logical_not(probe_test)))
-        shape_dict["a_tris"] = np.nonzero(a_tris)
+        shape_dict["a_tris"] = np.nonzero(a_tris)[0]
 
         return list(set(out_points)), shape_dict
     else:
-- 
2.43.0


From cd94b0f213ba5f6b3a26da129250905405daaa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 36/59] fix: place adsorbates reproducibly without sampling

---
 czone/surface/adsorbate.py   | 3 ++-
 czone/surface/alpha_shape.py | 8 +++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/czone/surface/adsorbate.py b/czone/surface/adsorbate.py
index 221a548..049150d 100644
--- a/czone/surface/adsorbate.py
+++ b/czone/surface/adsorbate.py
@@ -200,7 +200,8 @@ def add_adsorbate(mol: BaseMolecule,
     else:
         surface_ind, shape_dict = alpha_shape_alg_3D(points=volume.atoms, 
                                                     probe_radius=probe_radius, 
-                                                    return_alpha_shape=True)
+                                                    return_alpha_shape=True,
+                                                    rng=rng)
 
     valid_indices = np.zeros(volume.atoms.shape[0], dtype=bool)
     valid_indices[surface_ind] = True
diff --git a/czone/surface/alpha_shape.py b/czone/surface/alpha_shape.py
index 3d003f3..36f479d 100644
--- a/czone/surface/alpha_shape.py
+++ b/czone/surface/alpha_shape.py
@@ -48,7 +48,7 @@ def tetrahedron_circumradii(points):
     radius = np.linalg.norm(center,axis=0)
     return radius
 
-def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
+def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False, rng=None):
     """Use alpha shape algorithm to determine points on exterior of collection of points.
 
     Performs alpha-shape algorithm ##TODO: cite a source here
@@ -57,17 +57,19 @@ def alpha_shape_alg_3D(points, probe_radius, return_alpha_shape=False):
         points (np.ndarray): Nx3 array representing coordinates of points in object
         probe_radius (float): radius of test
         return_alpha_shape (bool): return dictionary of alpha shape arrays, default False.
+        rng (np.random.Generator): generator for numerical noise added to points, default None.
     Returns:
         List of indices of points on exterior of surface for given alpha-shape.
     """
 
     ## Get alpha-shape
     # get delaunay triangulation of points
-    points = points+1e-4*np.random.rand(*points.shape)
+    rng = np.random.default_rng() if rng is None else rng
+    points = points+1e-4*rng.random(points.shape)
     tri = Delaunay(points)
 
     # get cicrcumradii of all tetrahedron in triangulation
-    circumradii = tetrahedron_circumradii((points+1e-10*np.random.rand(*points.shape))[tri.simplices, :])
+    circumradii = tetrahedron_circumradii((points+1e-10*rng.random(points.shape))[tri.simplices, :])
     
     # check which tetrahedra in triangulation are part of alpha-shape for given probe radius
     probe_test = circumradii <= probe_radius
-- 
2.43.0


From 747bfbd4a6c6da4562d80279db38743ec51c088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 37/59] fix: place planar defects within spherical volumes
 anywhere in space

---
 czone/prefab/prefab.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 72678c3..689fbcb 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -158,9 +158,13 @@ class fccMixedTwinSF(BasePrefab):
 
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
-                # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec      
+                # only override bbox if Sphere is smaller
+                s_start = ao.center - ao.radius * norm_vec
+                s_finish = ao.center + ao.radius * norm_vec
+                if np.dot(norm_vec, s_start) > np.dot(norm_vec, start):
+                    start = s_start
+                if np.dot(norm_vec, s_finish) < np.dot(norm_vec, finish):
+                    finish = s_finish
 
         sp = snap_plane_near_point(start,
                                    self.generator,
@@ -399,9 +403,13 @@ class wurtziteStackingFault(BasePrefab):
 
         for ao in self.volume.alg_objects:
             if isinstance(ao, Sphere):
-                # TODO: only override bbox if Sphere is smaller 
-                start = -1.0 * ao.radius * norm_vec
-                finish = ao.radius * norm_vec            
+                # only override bbox if Sphere is smaller
+                s_start = ao.center - ao.radius * norm_vec
+                s_finish = ao.center + ao.radius * norm_vec
+                if np.dot(norm_vec, s_start) > np.dot(norm_vec, start):
+                    start = s_start
+                if np.dot(norm_vec, s_finish) < np.dot(norm_vec, finish):
+                    finish = s_finish
 
         sp = snap_plane_near_point(start,
                                    self.generator,
-- 
2.43.0


From dc695c24081f6de2e0a938c4b7708ff350a39409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 38/59] fix: stack faults along the c-axis of rotated wurtzite
 generators

---
 czone/prefab/prefab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 689fbcb..29ed611 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -394,7 +394,7 @@ class wurtziteStackingFault(BasePrefab):
         # TODO: the bounding box isn't necessarily tangent to the valid volume (e.g., spheres)
         # perhaps refine the end points until planes intersect
         
-        norm_vec = self.generator.voxel.reciprocal_bases @ np.array(self.plane)
+        norm_vec = self.generator.voxel.reciprocal_bases.T @ np.array(self.plane)
         norm_vec /= np.linalg.norm(norm_vec)
         bbox = self.volume.get_bounding_box()
         ci = np.dot(norm_vec.reshape(1, 3), bbox.T).T
-- 
2.43.0


From d6fed45286c91a85e4a3297916343818d2e71c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:00 +0000
Subject: [PATCH 39/59] fix: write scenes to any requested format and use
 supplied Debye-Waller factors

---
 czone/scene/scene.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/czone/scene/scene.py b/czone/scene/scene.py
index ca8b1e3..56161c1 100644
--- a/czone/scene/scene.py
+++ b/czone/scene/scene.py
@@ -174,14 +174,13 @@ class Scene():
             fname (str): output file name.
             **kwargs: any key word arguments otherwise accepted by ASE write.
         """
-        if "format" in kwargs.keys():
-            if kwargs["format"] == "prismatic":
-                dwf = set(self.all_species)
-                dw_default = (0.1**2.0) * 8 * np.pi**2.0
-                dwf = {str(Symbols([x])): dw_default for x in dwf}
-                ase_write(filename=fname,
-                          images=self.ase_atoms,
-                          debye_waller_factors=dwf,
-                          **kwargs)
+        if kwargs.get("format") == "prismatic" and "debye_waller_factors" not in kwargs:
+            dwf = set(self.all_species)
+            dw_default = (0.1**2.0) * 8 * np.pi**2.0
+            dwf = {str(Symbols([x])): dw_default for x in dwf}
+            ase_write(filename=fname,
+                      images=self.ase_atoms,
+                      debye_waller_factors=dwf,
+                      **kwargs)
         else:
             ase_write(filename=fname, images=self.ase_atoms, **kwargs)
-- 
2.43.0


From 065b7de1c4d83c1aa8cfefcfc11204e09db015d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 40/59] fix: pass surface energies to constructors of common
 Wulff shapes

---
 czone/prefab/wulff.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4a5af67..183d001 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -206,8 +206,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cubic nanoparticle.
         """
         energies = {(1, 0, 0): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def cuboctohedron(cls, generator: Generator, natoms: int = 1000):
@@ -221,8 +221,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a cuboctohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.0, (1, 1, 1): 1.15}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -236,8 +236,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a octohedral nanoparticle.
         """
         energies = {(1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
     @classmethod
     def truncated_octohedron(cls, generator: Generator, natoms: int = 1000):
@@ -251,8 +251,8 @@ class WulffSingle(WulffBase):
             Wulff construction for a truncated octohedral nanoparticle.
         """
         energies = {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}
-        wulff = cls(generator, natoms)
-        return wulff.get_construction(energies)
+        wulff = cls(generator, energies, natoms)
+        return wulff.get_construction()
 
 
 """
-- 
2.43.0


From 142d4d123c8a1e1fd464b24510b4fe9afd3f210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 41/59] fix: get facet areas before construction of Wulff shape

---
 czone/prefab/wulff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 183d001..4f29f6d 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -169,7 +169,7 @@ class WulffSingle(WulffBase):
             return Volume(alg_objects=planes, generator=self.generator)
 
     def get_areas(self):
-        return self._wulff.facet_fractions
+        return self.wulff.facet_fractions
 
     def winterbottom(self, interface: Tuple[int], interface_energy: float):
         """Construct Winterbottom construction for single crystals.
-- 
2.43.0


From 4f638d6c8f0de4ba73ae512b3765a82e4888b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:11 +0000
Subject: [PATCH 42/59] fix: keep elements in primitive structure for Wulff
 constructions

---
 czone/prefab/wulff.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 4f29f6d..f6060b5 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -58,7 +58,8 @@ class WulffBase(ABC):
                ), "Supplied generator must be crystalline Generator class"
         self._generator = val
         p_struct = val.structure.get_primitive_structure()
-        self._p_atoms = Atoms(positions=p_struct.cart_coords, cell=p_struct.lattice.matrix)
+        self._p_atoms = Atoms(numbers=p_struct.atomic_numbers, positions=p_struct.cart_coords,
+                              cell=p_struct.lattice.matrix, pbc=True)
 
     @property
     def p_atoms(self):
-- 
2.43.0


From 6a19aecc534f836da0dcbc5ec1075a73b78c1b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:14 +0000
Subject: [PATCH 43/59] fix: orient facets of Wulff constructions with
 generator

---
 czone/prefab/wulff.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index f6060b5..c68579a 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -8,7 +8,7 @@ from wulffpack.core import BaseParticle
 
 from ..generator.generator import Generator
 from ..transform.strain import HStrain, IStrain
-from ..transform.transform import MatrixTransform, Rotation, rot_v
+from ..transform.transform import MatrixTransform, Rotation, rot_v, rot_vtv
 from ..volume.algebraic import Cylinder, Plane, Sphere
 from ..volume.volume import MultiVolume, Volume
 
@@ -125,6 +125,19 @@ class WulffBase(ABC):
             for f in wulff_form.facets
         ]
 
+    def _orient_planes(self, planes):
+        """Rotate facets from frame of crystal structure to frame of generator.
+
+        Args:
+            planes (List[Plane]): facets of Wulff construction.
+
+        Returns:
+            List of Planes, normal to crystallographic directions of generator.
+        """
+        matrix = self.generator.voxel.bases @ np.linalg.inv(self.generator.lattice.matrix.T)
+        orient = MatrixTransform(matrix)
+        return [orient.applyTransformation_alg(p) for p in planes]
+
     @abstractmethod
     def get_construction(self):
         """For a given crystal and set of surface energies, return a Wulff construction.
@@ -163,7 +176,7 @@ class WulffSingle(WulffBase):
         return self._wulff
 
     def get_construction(self, return_facet_areas=False):
-        planes = self.planes_from_wulff(self.wulff)
+        planes = self._orient_planes(self.planes_from_wulff(self.wulff))
         if return_facet_areas:
             return Volume(alg_objects=planes, generator=self.generator), self.wulff.facet_fractions
         else:
@@ -191,7 +204,9 @@ class WulffSingle(WulffBase):
         """
         wulff = Winterbottom(self.surface_energies, interface, interface_energy,
                              self.p_atoms, self.natoms)
-        planes = self.planes_from_wulff(wulff)
+        # particle is rotated such that interface aligns with z=0; generator is not
+        wulff.rotate_particle(rot_vtv(np.array([0, 0, -1]), np.array(interface)))
+        planes = self._orient_planes(self.planes_from_wulff(wulff))
 
         return Volume(alg_objects=planes, generator=self.generator)
 
-- 
2.43.0


From 6cad679b43982e2ae6e4aa02854bee3996fc6e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:57 +0000
Subject: [PATCH 44/59] fix: populate volumes whose planes have an empty
 intersection

---
 czone/volume/volume.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 94ea59d..1319b3f 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -352,7 +352,7 @@ class Volume(BaseVolume):
             ]
             if len(planes) > 3:
                 bbox, status = get_bounding_box_planes(planes)
-                if status == 0:
+                if status in (0, 2):  #planes enclose a region, or none at all
                     return bbox
 
             cylinders = [
@@ -367,6 +367,11 @@ class Volume(BaseVolume):
 
     def populate_atoms(self):
         bbox = self.get_bounding_box()
+        if bbox is not None and len(bbox) == 0:  #interior of volume is empty
+            self._atoms = np.empty((0, 3))
+            self._species = np.empty((0,), dtype=int)
+            return
+
         coords, species = self.generator.supply_atoms(bbox)
         check = self.checkIfInterior(coords)
 
-- 
2.43.0


From a2d492c0bd9dd36344f6b39705671436a091ada6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:03 +0000
Subject: [PATCH 45/59] fix: never substitute atoms at zero fraction

---
 czone/transform/post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/post.py b/czone/transform/post.py
index dc50d5d..fd4cae3 100644
--- a/czone/transform/post.py
+++ b/czone/transform/post.py
@@ -50,7 +50,7 @@ class ChemicalSubstitution(BasePostTransform):
             t_filter = species == t
             t_probs = rng.uniform(0,1,size=species.shape)
 
-            out_species[(t_filter) & (t_probs <= self.frac)] = s
+            out_species[(t_filter) & (t_probs < self.frac)] = s
 
         return out_species
 
-- 
2.43.0


From e94119e9c2a87b6a80adea3d7879eeacfd39b14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 46/59] fix: keep wurtzite stacking faults in registry for any
 number of faults and site setting

---
 czone/prefab/prefab.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/czone/prefab/prefab.py b/czone/prefab/prefab.py
index 29ed611..f84fb5a 100644
--- a/czone/prefab/prefab.py
+++ b/czone/prefab/prefab.py
@@ -441,19 +441,23 @@ class wurtziteStackingFault(BasePrefab):
         defect_types = {"stacking_fault":True}
         bz = (0.5)*self.generator.voxel.sbases @ np.array([0, 0, -1])
 
-        polarity = 1
         for i in range(self.N):
-            # check if 100 or 200 plane in the previous generator
             cur_plane_pt = planes[splits[i]].point
 
-            plane_100 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,1))
-            plane_200 = snap_plane_near_point(cur_plane_pt, gen_tmp, (0,0,2))
+            # find the layer at or just below the plane in the previous generator
+            h = np.linalg.solve(gen_tmp.voxel.sbases, cur_plane_pt - gen_tmp.voxel.origin)[2]
+            coords = gen_tmp.coords
+            top = np.argmin(np.mod(h - coords[:, 2] + 1e-5, 1.0))
 
-            # adjust shift according to 100 plane vs 200 plane
-            bsf = 2 if np.allclose(plane_100.point, plane_200.point) else 1
+            # find the same layer in the adjacent bilayer, which replaces it
+            species = np.asarray(gen_tmp.species)
+            same = np.flatnonzero(species == species[top])
+            dz = np.mod(coords[same, 2] - coords[top, 2], 1.0)
+            rep = same[np.argmin(np.abs(dz - 0.5))]
 
-            # add stacking fault
-            b = polarity * gen_tmp.voxel.sbases @ ((bsf / 3) * np.array([1, -1, 0]))
+            # add stacking fault, keeping the layer at the plane in registry
+            db = coords[top, :2] - coords[rep, :2]
+            b = gen_tmp.voxel.sbases @ np.append(db, 0)
             b = b + bz
 
             t = Translation(shift=b)
@@ -466,9 +470,6 @@ class wurtziteStackingFault(BasePrefab):
             new_vol.priority = self.N - (i + 1)
             vols.append(new_vol)
 
-            # flip shift direction after every stacking fault
-            polarity *= -1
-
         if return_defect_types:
             return MultiVolume(volumes=vols), defect_types
         else:
-- 
2.43.0


From 2baa47713010866af138fad2436adefe27e15958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 47/59] fix: construct Winterbottom shapes for interfaces
 normal to z

---
 czone/prefab/wulff.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index c68579a..6da2507 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -149,6 +149,14 @@ class WulffBase(ABC):
         pass
 
 
+class _UnrotatedWinterbottom(Winterbottom):
+    """Winterbottom construction which is kept in the frame of its crystal structure."""
+
+    def rotate_particle(self, rotation):
+        # would align interface with z=0, but generator is not rotated
+        pass
+
+
 class WulffSingle(WulffBase):
 
     def __init__(self,
@@ -202,10 +210,8 @@ class WulffSingle(WulffBase):
             Volume with shape described by Winterbottom construction for given 
             surfce energies.
         """
-        wulff = Winterbottom(self.surface_energies, interface, interface_energy,
-                             self.p_atoms, self.natoms)
-        # particle is rotated such that interface aligns with z=0; generator is not
-        wulff.rotate_particle(rot_vtv(np.array([0, 0, -1]), np.array(interface)))
+        wulff = _UnrotatedWinterbottom(self.surface_energies, interface, interface_energy,
+                                       self.p_atoms, self.natoms)
         planes = self._orient_planes(self.planes_from_wulff(wulff))
 
         return Volume(alg_objects=planes, generator=self.generator)
-- 
2.43.0


From 6b0bfa24a31cc4b4010b19003ed5607420a2d901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 48/59] fix: orient Wulff facets for structures in any
 orientation

---
 czone/prefab/wulff.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 6da2507..0b43104 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -3,6 +3,7 @@ from typing import Dict, List, Tuple
 
 import numpy as np
 from ase import Atoms
+from spglib import get_symmetry_dataset
 from wulffpack import Decahedron, Icosahedron, SingleCrystal, Winterbottom
 from wulffpack.core import BaseParticle
 
@@ -126,7 +127,7 @@ class WulffBase(ABC):
         ]
 
     def _orient_planes(self, planes):
-        """Rotate facets from frame of crystal structure to frame of generator.
+        """Rotate facets from frame of standardized crystal structure to frame of generator.
 
         Args:
             planes (List[Plane]): facets of Wulff construction.
@@ -134,7 +135,10 @@ class WulffBase(ABC):
         Returns:
             List of Planes, normal to crystallographic directions of generator.
         """
-        matrix = self.generator.voxel.bases @ np.linalg.inv(self.generator.lattice.matrix.T)
+        cell = (self.p_atoms.get_cell(), self.p_atoms.get_scaled_positions(),
+                self.p_atoms.get_atomic_numbers())
+        std_rotation = get_symmetry_dataset(cell, symprec=1e-5).std_rotation_matrix
+        matrix = self.generator.voxel.bases @ np.linalg.inv(self.generator.lattice.matrix.T) @ std_rotation.T
         orient = MatrixTransform(matrix)
         return [orient.applyTransformation_alg(p) for p in planes]
 
-- 
2.43.0


From 94434f6ed2c00d39983c10bb28d77ae12f9c4f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:46 +0000
Subject: [PATCH 49/59] fix: recompute Wulff shape when its parameters are
 changed

---
 czone/prefab/wulff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index 0b43104..df1f037 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -61,6 +61,7 @@ class WulffBase(ABC):
         p_struct = val.structure.get_primitive_structure()
         self._p_atoms = Atoms(numbers=p_struct.atomic_numbers, positions=p_struct.cart_coords,
                               cell=p_struct.lattice.matrix, pbc=True)
+        self._wulff = None
 
     @property
     def p_atoms(self):
@@ -78,6 +79,7 @@ class WulffBase(ABC):
             self._natoms = int(val)
         except:
             raise TypeError("natoms must be convertible to integer")
+        self._wulff = None
 
     @property
     def surface_energies(self):
@@ -91,6 +93,7 @@ class WulffBase(ABC):
                 "surface energies must be passed as tuple pairs of miller indices and floats"
 
         self._surface_energies = vals
+        self._wulff = None
 
     ####################
     ###### Methods #####
-- 
2.43.0


From db71d555410be5e2f5c917a23cada8cb3e91a563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:03 +0000
Subject: [PATCH 50/59] fix: size Winterbottom shapes with negative interface
 energy

---
 czone/prefab/wulff.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index df1f037..c31a4b7 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -3,6 +3,7 @@ from typing import Dict, List, Tuple
 
 import numpy as np
 from ase import Atoms
+from scipy.spatial import ConvexHull
 from spglib import get_symmetry_dataset
 from wulffpack import Decahedron, Icosahedron, SingleCrystal, Winterbottom
 from wulffpack.core import BaseParticle
@@ -163,6 +164,11 @@ class _UnrotatedWinterbottom(Winterbottom):
         # would align interface with z=0, but generator is not rotated
         pass
 
+    @property
+    def volume(self):
+        """Volume of the particle, which does not contain the origin if interface energy is negative."""
+        return ConvexHull(np.vstack([np.vstack(f.vertices) for f in self._yield_facets()])).volume
+
 
 class WulffSingle(WulffBase):
 
-- 
2.43.0


From 388930ed8f29706827141e180fe502ad48a47528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:29 +0000
Subject: [PATCH 51/59] fix: keep Miller indices when Wulff facets are oriented
 to standard cells

---
 czone/prefab/wulff.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/czone/prefab/wulff.py b/czone/prefab/wulff.py
index c31a4b7..ed9922b 100644
--- a/czone/prefab/wulff.py
+++ b/czone/prefab/wulff.py
@@ -141,8 +141,14 @@ class WulffBase(ABC):
         """
         cell = (self.p_atoms.get_cell(), self.p_atoms.get_scaled_positions(),
                 self.p_atoms.get_atomic_numbers())
-        std_rotation = get_symmetry_dataset(cell, symprec=1e-5).std_rotation_matrix
-        matrix = self.generator.voxel.bases @ np.linalg.inv(self.generator.lattice.matrix.T) @ std_rotation.T
+        dataset = get_symmetry_dataset(cell, symprec=1e-5)
+        lattice = self.generator.lattice.matrix.T
+        std_lattice = np.array(dataset.std_lattice).T
+        if np.allclose(lattice.T @ lattice, std_lattice.T @ std_lattice):
+            # same cell, same miller indices
+            matrix = self.generator.voxel.bases @ np.linalg.inv(std_lattice)
+        else:
+            matrix = self.generator.voxel.bases @ np.linalg.inv(lattice) @ dataset.std_rotation_matrix.T
         orient = MatrixTransform(matrix)
         return [orient.applyTransformation_alg(p) for p in planes]
 
-- 
2.43.0


From 4ee6e1b2f7b14246be9e1c74f6643fdda47c7c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:19 +0000
Subject: [PATCH 52/59] fix: drop coinciding planes before intersecting
 half-spaces

---
 czone/volume/algebraic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index a4f7732..ac926a3 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -407,6 +407,12 @@ def get_bounding_box(planes: List[Plane]):
         d[i, 0] = -1.0 * np.dot(n.squeeze(), (p + shift).squeeze())
         norms[i, 0] = np.linalg.norm(n)
 
+    # planes which coincide up to rounding would intersect in spurious vertices
+    hs = np.hstack([A, d]) / norms
+    coincide = np.max(np.abs(hs[:, None, :] - hs[None, :, :]), axis=-1) < 1e-8
+    unique = ~np.any(np.tril(coincide, k=-1), axis=1)
+    A, d, norms = A[unique], d[unique], norms[unique]
+
     #check feasiblity of region and get interior point
     c = np.zeros(4)
     c[-1] = -1
@@ -415,7 +421,7 @@ def get_bounding_box(planes: List[Plane]):
     res = linprog(c, A_ub=np.hstack([A, norms]), b_ub=-1.0 * d, bounds=bounds)
     if (res.status == 0):
         # region is bounded only if plane normals positively span space
-        span = linprog(np.zeros(len(planes)), A_eq=A.T, b_eq=np.zeros(3), bounds=(1, None))
+        span = linprog(np.zeros(len(A)), A_eq=A.T, b_eq=np.zeros(3), bounds=(1, None))
         if np.linalg.matrix_rank(A) < 3 or span.status != 0:
             return np.empty((0,3)), 3
 
-- 
2.43.0


From bacfa4a098bfaad7dfae75db7bb8c8207b7f2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:45 +0000
Subject: [PATCH 53/59] fix: convert hulls with coplanar and collinear points
 to planes

---
 czone/volume/algebraic.py | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index ac926a3..e2b42de 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -352,26 +352,11 @@ class Cylinder(BaseAlgebraic):
 def convex_hull_to_planes(points, **kwargs):
     """Convert the convex hull of a set of points into a set of Planes."""
 
-    tri = Delaunay(points)
-    facets = tri.convex_hull
+    # coplanar facets share the same equation
+    hull = ConvexHull(points)
+    _, facets = np.unique(hull.equations, axis=0, return_index=True)
 
-    def facet_to_plane(facet):
-        v0 = points[facet[1],:] - points[facet[0],:]
-        v1 = points[facet[2],:] - points[facet[0],:]
-        n = np.cross(v0,v1)
-        return Plane(n, points[facet[0]])
-
-    planes = [facet_to_plane(f) for f in facets]
-
-    ipoint = np.mean(points, axis=0)
-    if tri.find_simplex(ipoint) < 0:
-        raise AssertionError
-
-    for i, plane in enumerate(planes):
-        if not plane.checkIfInterior(ipoint):
-            plane = plane.flip_orientation()
-
-    return planes
+    return [Plane(hull.equations[f, :3], points[hull.simplices[f, 0]]) for f in facets]
 
 def get_bounding_box(planes: List[Plane]):
     """Get convex region interior to set of Planes, if one exists.
-- 
2.43.0


From b2d9b0022e4b2c8baf8063706c1c2f884f72e4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:57 +0000
Subject: [PATCH 54/59] fix: report regions without interior as empty for any
 representing points

---
 czone/volume/algebraic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index e2b42de..2aeafea 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -410,6 +410,10 @@ def get_bounding_box(planes: List[Plane]):
         if np.linalg.matrix_rank(A) < 3 or span.status != 0:
             return np.empty((0,3)), 3
 
+        # region has no interior if the largest inscribed sphere is a point
+        if res.x[-1] < 1e-8:
+            return np.empty((0,3)), 2
+
         try:
             hs = HalfspaceIntersection(np.hstack([A, d]), res.x[:-1])
         except QhullError:
-- 
2.43.0


From 1222267ac6767b8a677183a63786d47848c4d1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:29 +0000
Subject: [PATCH 55/59] fix: let the space group number override the symbol as
 documented

---
 czone/generator/generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 1bbcd8c..37384ab 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -294,10 +294,10 @@ class Generator(BaseGenerator):
         Returns:
             Generator: Generator object with structure and symmetry defined by input space group.
         """
-        if sym is None:
-            sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
-        else:
+        if sgn is None:
             sg = SpaceGroup(int_symbol=sym)
+        else:
+            sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
 
         lattice = Lattice.from_parameters(a=cellDims[0],
                                           b=cellDims[1],
-- 
2.43.0


From 23ae471d4159d5f95f832c689958f1eb89776b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:33 +0000
Subject: [PATCH 56/59] fix: keep the setting named by a space group symbol

---
 czone/generator/generator.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/czone/generator/generator.py b/czone/generator/generator.py
index 37384ab..d34861d 100644
--- a/czone/generator/generator.py
+++ b/czone/generator/generator.py
@@ -5,7 +5,6 @@ from typing import List, Tuple
 
 import numpy as np
 from pymatgen.core import Lattice, Structure
-from pymatgen.symmetry.groups import SpaceGroup, sg_symbol_from_int_number
 
 from ..transform import BaseTransform, MultiTransform
 from ..transform.strain import BaseStrain, HStrain
@@ -294,10 +293,8 @@ class Generator(BaseGenerator):
         Returns:
             Generator: Generator object with structure and symmetry defined by input space group.
         """
-        if sgn is None:
-            sg = SpaceGroup(int_symbol=sym)
-        else:
-            sg = SpaceGroup(int_symbol=sg_symbol_from_int_number(sgn))
+        # symbols may name a setting other than the standard one, so are kept as they are
+        sg = sym if sgn is None else sgn
 
         lattice = Lattice.from_parameters(a=cellDims[0],
                                           b=cellDims[1],
@@ -306,7 +303,7 @@ class Generator(BaseGenerator):
                                           beta=cellAngs[1],
                                           gamma=cellAngs[2])
 
-        structure = Structure.from_spacegroup(sg.int_number,
+        structure = Structure.from_spacegroup(sg,
                                               lattice=lattice,
                                               species=Z,
                                               coords=coords)
-- 
2.43.0


From c8c0a87ae75778212e9e73f7a539e16585f40076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 57/59] fix: accept sphere centers given as 3x1 arrays

---
 czone/volume/algebraic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/volume/algebraic.py b/czone/volume/algebraic.py
index 2aeafea..b5d4a11 100644
--- a/czone/volume/algebraic.py
+++ b/czone/volume/algebraic.py
@@ -122,7 +122,7 @@ class Sphere(BaseAlgebraic):
         center = np.array(center)  #cast to np array if not already
         if center.size != 3 or center.shape[0] != 3:
             raise ValueError("Center must be an array with 3 elements")
-        self._center = center
+        self._center = np.reshape(center, (3,))  #make a consistent shape
 
 
 class Plane(BaseAlgebraic):
-- 
2.43.0


From 89d0c8ccaf262c8915e7a750062c0e5fbe1f6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 58/59] fix: accept translations given as 3x1 arrays

---
 czone/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index c0e4a4f..f070c6a 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -126,7 +126,7 @@ class Translation(BaseTransform):
         shift = np.array(shift)
         assert (shift.size == 3), "Shift must be a vector in 3D space"
         assert (shift.shape[0] == 3), "Shift must be a vector in 3D space"
-        self._shift = shift
+        self._shift = np.reshape(shift, (3,))
 
     @property
     def params(self):
-- 
2.43.0


From 7fbd066a79f9135fa82a7ac57524ae6b32a241dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 59/59] fix: keep members added to a group from an iterator

---
 czone/transform/post.py      | 1 +
 czone/transform/transform.py | 1 +
 czone/volume/volume.py       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/czone/transform/post.py b/czone/transform/post.py
index fd4cae3..385413e 100644
--- a/czone/transform/post.py
+++ b/czone/transform/post.py
@@ -82,6 +82,7 @@ class PostSequence(BasePostTransform):
             transform (Basetransform): transform object to add to Multitransform.
         """
         if hasattr(transform, '__iter__'):
+            transform = list(transform)  #iterators can only be read once
             for v in transform:
                 assert (isinstance(
                     v, BasePostTransform)), "transforms must be transform objects"
diff --git a/czone/transform/transform.py b/czone/transform/transform.py
index f070c6a..939efa2 100644
--- a/czone/transform/transform.py
+++ b/czone/transform/transform.py
@@ -388,6 +388,7 @@ class MultiTransform(BaseTransform):
     def add_transform(self, transform):
         """Add a transformation to sequence of transformations"""
         if hasattr(transform, '__iter__'):
+            transform = list(transform)  #iterators can only be read once
             for t in transform:
                 assert (isinstance(t, BaseTransform)
                        ), "transforms must be BaseTransformation objects"
diff --git a/czone/volume/volume.py b/czone/volume/volume.py
index 1319b3f..f728cc9 100644
--- a/czone/volume/volume.py
+++ b/czone/volume/volume.py
@@ -449,6 +449,7 @@ class MultiVolume(BaseVolume):
             volume (BaseVolume): Volume object to add to MultiVolume.
         """
         if hasattr(volume, '__iter__'):
+            volume = list(volume)  #iterators can only be read once
             for v in volume:
                 assert (isinstance(
                     v, BaseVolume)), "volumes must be volume objects"
-- 
2.43.0

