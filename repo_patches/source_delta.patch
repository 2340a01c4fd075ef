From 7ad7523d369cec566ceb4d43bbd487d67573987f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:05 +0000
Subject: [PATCH 01/35] fix: keep stacked meshes intact when an object is empty

---
 building3d/geom/mesh/__init__.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/building3d/geom/mesh/__init__.py b/building3d/geom/mesh/__init__.py
index 2138595..5daca6b 100644
--- a/building3d/geom/mesh/__init__.py
+++ b/building3d/geom/mesh/__init__.py
@@ -32,19 +32,15 @@ def vstack_mesh(
     faces = np.zeros((num_tri_tot, 3), dtype=INT)
 
     # Fill the arrays (vstack)
-    num_pts_added = 0
     tri_offset = 0
     pts_offset = 0
     for i in range(num_objects):
-        for j in range(t_tri[i].shape[0]):
-            if j == 0 and i > 0:
-                tri_offset += num_tri_per_obj[i - 1]
-            faces[j + tri_offset] = t_tri[i][j] + num_pts_added
-        for j in range(t_pts[i].shape[0]):
-            if j == 0 and i > 0:
-                pts_offset += num_pts_per_obj[i - 1]
+        for j in range(num_tri_per_obj[i]):
+            faces[j + tri_offset] = t_tri[i][j] + pts_offset
+        for j in range(num_pts_per_obj[i]):
             verts[j + pts_offset] = t_pts[i][j]
-            num_pts_added += 1
+        tri_offset += num_tri_per_obj[i]
+        pts_offset += num_pts_per_obj[i]
 
     # TODO: Equal points should be merged. Look at building3d/mesh/quality/purge_mesh.py
     ...
-- 
2.43.0


From 0f8f387b898a940ce62f3e43b9eb50d13b6eb813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:25:14 +0000
Subject: [PATCH 02/35] fix: space impulse response rows by the time step

---
 building3d/sim/rays/impulse_response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/impulse_response.py b/building3d/sim/rays/impulse_response.py
index b30e8b6..762790c 100644
--- a/building3d/sim/rays/impulse_response.py
+++ b/building3d/sim/rays/impulse_response.py
@@ -35,7 +35,7 @@ def impulse_response(hit_buf: FloatDataType, sim_cfg: SimulationConfig) -> pd.Da
     hit_inst /= sum_of_hits
 
     # Make time array
-    time_arr = np.linspace(0, num_steps * time_step, num_steps)
+    time_arr = np.arange(num_steps) * time_step
 
     # Convert to DataFrame (index: time, columns: receivers)
     ir = pd.DataFrame(index=pd.Index(time_arr, name="time"))
-- 
2.43.0


From e773d11566c27fad3583271156d5e00b58a63933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:11 +0000
Subject: [PATCH 03/35] fix: ignore repeated points in the collinearity test

---
 building3d/geom/points/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index 5b257f3..893b02a 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -174,9 +174,16 @@ def are_points_collinear(
 
     are_collinear = True
     num_vectors = vectors.shape[0]
-    for i in range(1, num_vectors):
-        if np.allclose(vectors[i], vectors[i - 1], atol=atol) or np.allclose(
-            vectors[i], -1 * vectors[i - 1], atol=atol
+    ref = -1  # index of the reference vector (the first one with non-zero length)
+    for i in range(num_vectors):
+        if not vectors[i].any():
+            # Same point as the first one, does not affect collinearity
+            continue
+        if ref < 0:
+            ref = i
+            continue
+        if np.allclose(vectors[i], vectors[ref], atol=atol) or np.allclose(
+            vectors[i], -1 * vectors[ref], atol=atol
         ):
             pass
         else:
-- 
2.43.0


From 25e9efb99d70662e610857fc31cf2dbb06026370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:17 +0000
Subject: [PATCH 04/35] fix: find the plane of points with repeated neighbours

---
 building3d/geom/points/__init__.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/building3d/geom/points/__init__.py b/building3d/geom/points/__init__.py
index 893b02a..b0c14e6 100644
--- a/building3d/geom/points/__init__.py
+++ b/building3d/geom/points/__init__.py
@@ -116,17 +116,21 @@ def are_points_coplanar(
     if are_points_collinear(pts, atol=atol):
         return True  # collinear points are also coplanar
 
-    # Calculate normal vector based on the first 3 points
+    # Calculate normal vector based on the first point and 2 other points,
+    # skipping repeated and collinear ones
     vec_n = new_vector(np.nan, np.nan, np.nan)
-    i = 0
+    i, j = 1, 2
     while np.isnan(vec_n).any():
-        if i + 2 >= num_pts:
+        if i + 1 >= num_pts:
             # All points are collinear if we reach this point
             # TODO: Collinearity was already tested before. This should never happen.
             return True
 
-        vec_n = normal(pts[i], pts[i + 1], pts[i + 2])
-        i += 1
+        vec_n = normal(pts[0], pts[i], pts[j])
+        j += 1
+        if j >= num_pts:
+            i += 1
+            j = i + 1
 
     # Plane equation:
     # ax + by + cz + d = 0
-- 
2.43.0


From 66f5d350dc493dab3593bd28d94755da32958291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:22 +0000
Subject: [PATCH 05/35] fix: return the identity matrix when there is nothing
 to rotate

---
 building3d/geom/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 439d32d..1cf1e20 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -78,7 +78,7 @@ def rotate_points_around_vector(
     """
     if np.linalg.norm(u) < GEOM_ATOL or abs(phi) < GEOM_ATOL:
         # No need to rotate
-        return pts, np.ones((3, 3))
+        return pts, np.eye(3)
 
     # Rotate the points
     R = rotation_matrix(u, phi)
-- 
2.43.0


From 9ef46151988b896007a2cc942ed40e759147693a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:05 +0000
Subject: [PATCH 06/35] fix: rotate and move points also when their normal is
 along or against the requested one

---
 building3d/geom/rotation.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/building3d/geom/rotation.py b/building3d/geom/rotation.py
index 1cf1e20..d4edbb2 100644
--- a/building3d/geom/rotation.py
+++ b/building3d/geom/rotation.py
@@ -113,28 +113,33 @@ def rotate_points_to_plane(
     if not points_equal(anchor, new_point(0.0, 0.0, 0.0)):
         pts = pts - anchor
 
-    # Find rotation axis
+    # Find rotation axis and angle
     rotaxis = np.cross(p_norm, u)
+    phi = float(angle(p_norm, u))
     if (np.abs(rotaxis) < GEOM_ATOL).all():
-        # No need to rotate, the points are already at the correct plane
-        phi = 0.0
-        return pts, rotaxis, phi
-
-    rotaxis /= np.linalg.norm(rotaxis)
-
-    # Find rotation angle
-    phi = angle(p_norm, u)
+        if np.dot(p_norm, u) > 0:
+            # No need to rotate, the points already have the correct normal
+            phi = 0.0
+        else:
+            # The normal has to be reversed, any axis perpendicular to it will do
+            if abs(p_norm[0]) < 0.5:
+                rotaxis = np.cross(p_norm, new_point(1.0, 0.0, 0.0))
+            else:
+                rotaxis = np.cross(p_norm, new_point(0.0, 1.0, 0.0))
+            phi = np.pi
 
     # Rotate the points
-    R = rotation_matrix(rotaxis, float(phi))
-    pts = pts.dot(R.T)
+    if phi != 0.0:
+        rotaxis /= np.linalg.norm(rotaxis)
+        R = rotation_matrix(rotaxis, phi)
+        pts = pts.dot(R.T)
 
     # Move points back from anchor
     if not points_equal(anchor, new_point(0.0, 0.0, 0.0)):
-        pts += anchor
+        pts = pts + anchor
 
     # Move points to d (translation)
     p_dest = u * d
-    pts += p_dest
+    pts = pts + p_dest
 
-    return pts, rotaxis, float(phi)
+    return pts, rotaxis, phi
-- 
2.43.0


From 957b9323e86d4ef0c15f95cccb00ba3dbc049267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:52 +0000
Subject: [PATCH 07/35] fix: divide the polygon centroid by the total weight

---
 building3d/geom/polygon/centroid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/centroid.py b/building3d/geom/polygon/centroid.py
index fabe7fb..c072d08 100644
--- a/building3d/geom/polygon/centroid.py
+++ b/building3d/geom/polygon/centroid.py
@@ -31,4 +31,4 @@ def polygon_centroid(pts: PointType, tri: IndexType) -> PointType:
     for i in range(num_tri):
         poly_ctr += tri_ctr[i] * weights[i]
 
-    return poly_ctr
+    return poly_ctr / weights.sum()
-- 
2.43.0


From 9e966841c2376deb0b4595efa5bbed9d3e9e8a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:52 +0000
Subject: [PATCH 08/35] fix: roll polygon points to a convex corner when the
 normal is given

---
 building3d/geom/polygon/__init__.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index e22b007..7ca46bc 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -16,6 +16,7 @@ from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.polygon.ispointinside import is_point_inside_margin
 from building3d.geom.polygon.plane import plane_coefficients
 from building3d.geom.polygon.touching import are_polygons_touching
+from building3d.geom.triangles import is_corner_convex
 from building3d.geom.triangles import triangle_centroid
 from building3d.geom.triangles import triangulate
 from building3d.geom.types import FLOAT
@@ -79,6 +80,8 @@ class Polygon:
 
         if tri is None:
             self.pts, self.tri = triangulate(self.pts, self.vn)
+            if vn is not None:
+                self._roll_to_convex_corner()
         else:
             assert len(tri) > 0, "Empty triangles provided"
             self.tri: IndexType = tri
@@ -89,6 +92,17 @@ class Polygon:
             self.pts
         )
 
+    def _roll_to_convex_corner(self):
+        """Rolls the points forward until the first corner is convex."""
+        num_pts = len(self.pts)
+        for i in range(num_pts):
+            if is_corner_convex(
+                self.pts[i - 1], self.pts[i], self.pts[(i + 1) % num_pts], self.vn
+            ):
+                self.pts = np.roll(self.pts, -i, axis=0)
+                self.tri = (self.tri - i) % num_pts
+                break
+
     @property
     def children(self) -> PointType:
         return self.pts
-- 
2.43.0


From 82644989bf3a097545bff47a2ae548fb4d7db581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:52 +0000
Subject: [PATCH 09/35] fix: flip the normal of a polygon whose last corner is
 not convex

---
 building3d/geom/polygon/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index 7ca46bc..abcf198 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -153,7 +153,7 @@ class Polygon:
         Returns:
             Polygon
         """
-        return Polygon(self.pts[::-1].copy(), name=new_name)
+        return Polygon(self.pts[::-1].copy(), name=new_name, vn=-self.vn)
 
     def get_some_interior_point(self) -> PointType:
         """Return some point laying inside this polygon.
-- 
2.43.0


From d97d811f1e031aa9a6671ab53b5d047d71f16eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:52 +0000
Subject: [PATCH 10/35] fix: calculate the tetrahedron volume without
 cancellation

---
 building3d/geom/tetrahedrons.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/building3d/geom/tetrahedrons.py b/building3d/geom/tetrahedrons.py
index adaf452..3438760 100644
--- a/building3d/geom/tetrahedrons.py
+++ b/building3d/geom/tetrahedrons.py
@@ -1,7 +1,6 @@
 import numpy as np
 from numba import njit
 
-from building3d.config import EPSILON
 from building3d.geom.types import FLOAT
 from building3d.geom.types import PointType
 
@@ -13,23 +12,8 @@ def tetrahedron_volume(
     pt2: PointType,
     pt3: PointType,
 ) -> FLOAT:
-    """Calculates volume using the Cayley-Menger formula."""
-    # Edge lengths
-    a = np.linalg.norm(pt1 - pt0)
-    b = np.linalg.norm(pt2 - pt0)
-    c = np.linalg.norm(pt3 - pt0)
-    d = np.linalg.norm(pt2 - pt1)
-    e = np.linalg.norm(pt3 - pt2)
-    f = np.linalg.norm(pt3 - pt1)
-
-    x = b**2 + c**2 - e**2
-    y = a**2 + c**2 - f**2
-    z = a**2 + b**2 - d**2
-
-    nominator = (
-        4 * a**2 * b**2 * c**2 - a**2 * x**2 - b**2 * y**2 - c**2 * z**2 + x * y * z
-    )
-    vol = np.sqrt(nominator + EPSILON) / 12.0
+    """Calculates volume using the scalar triple product."""
+    vol = np.abs(np.dot(pt1 - pt0, np.cross(pt2 - pt0, pt3 - pt0))) / 6.0
 
     return vol
 
-- 
2.43.0


From ac9d7de3257bb1053b92524d515cc4fd207c740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:28 +0000
Subject: [PATCH 11/35] fix: calculate the triangle area without a constant
 under the root

---
 building3d/geom/triangles.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 1ebb13b..04472ac 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -1,7 +1,6 @@
 import numpy as np
 from numba import njit
 
-from building3d.config import EPSILON
 from building3d.config import GEOM_ATOL
 from building3d.config import GEOM_RTOL
 from building3d.config import POINT_NUM_DEC
@@ -17,19 +16,8 @@ from building3d.geom.types import VectorType
 
 @njit
 def triangle_area(pt1: PointType, pt2: PointType, pt3: PointType) -> float:
-    """Calculates triangle area using the Heron's formula.
-
-    Reference: https://en.wikipedia.org/wiki/Heron%27s_formula
-    """
-    va = pt2 - pt1
-    vb = pt3 - pt2
-    vc = pt3 - pt1
-    a = np.linalg.norm(va)
-    b = np.linalg.norm(vb)
-    c = np.linalg.norm(vc)
-
-    s = 0.5 * (a + b + c)
-    area = np.sqrt(s * (s - a) * (s - b) * (s - c) + EPSILON)
+    """Calculates triangle area using the cross product of its two sides."""
+    area = 0.5 * np.linalg.norm(np.cross(pt2 - pt1, pt3 - pt1))
 
     return area
 
-- 
2.43.0


From f5c31ba5cead18160009e3d2edb430dd6d809903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:57 +0000
Subject: [PATCH 12/35] fix: keep names and orientation of the floor and
 ceiling for any starting corner

---
 building3d/geom/solid/floor_plan.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/building3d/geom/solid/floor_plan.py b/building3d/geom/solid/floor_plan.py
index 5379756..8d5626c 100644
--- a/building3d/geom/solid/floor_plan.py
+++ b/building3d/geom/solid/floor_plan.py
@@ -101,15 +101,13 @@ def floor_plan(
 
         walls.append(wall)
 
-    floor_poly = Polygon(floor_pts, name=floor_name)
     # Floor's normal should point downwards
-    if not np.allclose(floor_poly.vn, [0, 0, -1]):
-        floor_poly = floor_poly.flip()
+    floor_vn = np.array([0.0, 0.0, -1.0], dtype=FLOAT)
+    floor_poly = Polygon(floor_pts, name=floor_name, vn=floor_vn)
 
-    ceiling_poly = Polygon(ceiling_pts, name=ceiling_name)
     # Ceiling's normal should point upwards
-    if not np.allclose(ceiling_poly.vn, [0, 0, 1]):
-        ceiling_poly = ceiling_poly.flip()
+    ceiling_vn = np.array([0.0, 0.0, 1.0], dtype=FLOAT)
+    ceiling_poly = Polygon(ceiling_pts, name=ceiling_name, vn=ceiling_vn)
 
     floor = Wall([floor_poly], name=floor_name)
     ceiling = Wall([ceiling_poly], name=ceiling_name)
-- 
2.43.0


From 6d67bae36c3b9700d4f17a1d417310e60c54443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:06 +0000
Subject: [PATCH 13/35] fix: raise ValueError for all paths that lead nowhere,
 as documented

---
 building3d/geom/building/__init__.py | 47 +++++++++-------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index 84ef2e4..c1ac98b 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -92,41 +92,22 @@ class Building:
         Raises:
             ValueError: If the path does not point to any existing object.
         """
-        obj = abspath.split(PATH_SEP)
-        assert len(obj) >= 1
-        building = obj[0]
-        assert building == self.name
-
-        if len(obj) == 1:
-            return self
-        elif len(obj) == 2:
-            zone = obj[1]
-            return self[zone]
-        elif len(obj) == 3:
-            zone = obj[1]
-            solid = obj[2]
-            return self[zone][solid]
-        elif len(obj) == 4:
-            zone = obj[1]
-            solid = obj[2]
-            wall = obj[3]
-            return self[zone][solid][wall]
-        elif len(obj) == 5:
-            zone = obj[1]
-            solid = obj[2]
-            wall = obj[3]
-            polygon = obj[4]
-            return self[zone][solid][wall][polygon]
-        elif len(obj) == 6:
-            zone = obj[1]
-            solid = obj[2]
-            wall = obj[3]
-            polygon = obj[4]
-            index = int(obj[5])
-            return self[zone][solid][wall][polygon][index]
-        else:
+        names = abspath.split(PATH_SEP)
+
+        if names[0] != self.name or len(names) > 6:
             raise ValueError(f"Incorrect absolute path: {abspath}")
 
+        obj = self
+        try:
+            for name in names[1:5]:
+                obj = obj[name]
+            if len(names) == 6:
+                obj = obj[int(names[5])]
+        except (KeyError, IndexError) as err:
+            raise ValueError(f"Incorrect absolute path: {abspath}") from err
+
+        return obj
+
     def get_polygon_paths(self) -> list[str]:
         """Returns a list of all paths to polygons belonging to this building."""
         poly_paths = []
-- 
2.43.0


From 3f9f51f0954923e979650b58aeccb2866472a960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:06 +0000
Subject: [PATCH 14/35] fix: do not remove the old object if its replacement is
 rejected

---
 building3d/geom/solid/__init__.py |  3 +++
 building3d/geom/wall/__init__.py  | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 4b6b56e..1d71691 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -81,6 +81,9 @@ class Solid:
         self.walls[wall.name] = wall
 
     def replace_wall(self, old_name: str, new_wall: Wall):
+        if new_wall.name != old_name and new_wall.name in self.walls:
+            raise GeometryError(f"Wall {new_wall.name} already exists in {self.name}")
+
         del self.walls[old_name]
         self.add_wall(new_wall)
 
diff --git a/building3d/geom/wall/__init__.py b/building3d/geom/wall/__init__.py
index bdb8985..6cf19aa 100644
--- a/building3d/geom/wall/__init__.py
+++ b/building3d/geom/wall/__init__.py
@@ -81,9 +81,15 @@ class Wall:
         self.polygons[poly.name] = poly
 
     def replace_polygon(self, old_name: str, *new_poly: Polygon):
+        taken = set(self.polygons) - {old_name}
+        for poly in new_poly:
+            if poly.name in taken:
+                raise GeometryError(f"Polygon {poly.name} already exists in the wall")
+            taken.add(poly.name)
+
         del self.polygons[old_name]
-        for np in new_poly:
-            self.add_polygon(np)
+        for poly in new_poly:
+            self.add_polygon(poly)
 
     def get(self, abspath: str):
         """Get object by the absolute path."""
-- 
2.43.0


From 13e205c2071c46b2f73fb0bceca1d427af966bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:50 +0000
Subject: [PATCH 15/35] fix: insert slicing points at the sliced edge also if
 it is the last one

---
 .../geom/polygon/slice/get_point_arrays.py       | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/building3d/geom/polygon/slice/get_point_arrays.py b/building3d/geom/polygon/slice/get_point_arrays.py
index 721076e..c72ab96 100644
--- a/building3d/geom/polygon/slice/get_point_arrays.py
+++ b/building3d/geom/polygon/slice/get_point_arrays.py
@@ -2,7 +2,6 @@ import numpy as np
 from numba import njit
 
 from building3d.geom.exceptions import GeometryError
-from building3d.geom.points import is_point_in_array
 from building3d.geom.points import list_pts_to_array
 from building3d.geom.points import points_equal
 from building3d.geom.polygon.edges import polygon_edges
@@ -158,15 +157,12 @@ def get_point_arrays(
             raise ValueError("Unexpected slicing plane orientation")
 
         points_2 = []
-        slice_points_included = False
-        for p in pts:
-            points_2.append(p)
-            if not slice_points_included:
-                if is_point_in_array(p, edges[edge_num]):
-                    # Slicing ocurred at this edge - need to add slice_points
-                    for sp in slicing_pts:
-                        points_2.append(sp)
-                    slice_points_included = True
+        for i in range(len(pts)):
+            points_2.append(pts[i])
+            if i == edge_num:
+                # Slicing ocurred at the edge starting here - need to add slice_points
+                for sp in slicing_pts:
+                    points_2.append(sp)
 
         pts2 = list_pts_to_array(points_2)
 
-- 
2.43.0


From 7a77902594eaec879ff15a3ed7efc1e7c1d68f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:52 +0000
Subject: [PATCH 16/35] fix: facing polygons must have the same outline

---
 building3d/geom/polygon/facing.py | 34 ++++++++++++-------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/building3d/geom/polygon/facing.py b/building3d/geom/polygon/facing.py
index 9050489..c2358aa 100644
--- a/building3d/geom/polygon/facing.py
+++ b/building3d/geom/polygon/facing.py
@@ -5,7 +5,6 @@ from building3d.config import GEOM_RTOL
 from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import points_equal
-from building3d.geom.polygon.area import polygon_area
 from building3d.geom.types import PointType
 from building3d.geom.types import VectorType
 
@@ -31,10 +30,6 @@ def are_polygons_facing(
 
     Returns:
         bool: True if the polygons are facing each other, False otherwise.
-
-    Note:
-        This function uses bounding box overlap and point matching to determine
-        if polygons are facing. It may have rare cases of incorrect solutions.
     """
     if not np.allclose(vn1, -1 * vn2, rtol=GEOM_RTOL):
         return False
@@ -44,22 +39,19 @@ def are_polygons_facing(
     if not are_bboxes_overlapping(bbox1, bbox2):
         return False
 
-    num_matching = 0
-    matched = set()
+    # The points of facing polygons are the same, but they run in opposite directions
+    num_pts = pts1.shape[0]
+    if pts2.shape[0] != num_pts:
+        return False
 
-    # This does not test if the connections between points are same,
-    # so it additionally tests if the areas are the same.
-    # If all the points are the same and areas are the same, the polygons are
-    # most likely with the same shape.
-    # TODO: There might still be rare cases where it gives incorrect result.
-    for i in range(pts1.shape[0]):
-        for j in range(pts2.shape[0]):
-            if j not in matched:
-                if points_equal(pts1[i], pts2[j]):
-                    num_matching += 1
-                    matched.add(j)
-                    break
-    if num_matching == len(pts1):
-        if np.isclose(polygon_area(pts1, vn1), polygon_area(pts2, vn2)):
+    for start in range(num_pts):
+        num_matching = 0
+        for i in range(num_pts):
+            if points_equal(pts1[i], pts2[(start - i) % num_pts]):
+                num_matching += 1
+            else:
+                break
+        if num_matching == num_pts:
             return True
+
     return False
-- 
2.43.0


From 78e282694b2bd4a0bb0a0d5bc69554cdfab544f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:52 +0000
Subject: [PATCH 17/35] fix: find crossing polygons whatever the width of the
 overlap

---
 building3d/geom/polygon/crossing.py | 82 +++++++++++++++++++----------
 building3d/geom/polygon/touching.py | 14 ++---
 2 files changed, 57 insertions(+), 39 deletions(-)

diff --git a/building3d/geom/polygon/crossing.py b/building3d/geom/polygon/crossing.py
index bc34a88..a237ca7 100644
--- a/building3d/geom/polygon/crossing.py
+++ b/building3d/geom/polygon/crossing.py
@@ -1,14 +1,13 @@
 import numpy as np
 from numba import njit
 
+from building3d.config import GEOM_RTOL
 from building3d.geom.points import are_points_coplanar
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.bboxes import are_bboxes_overlapping
 from building3d.geom.bboxes import cube_edges
 from building3d.geom.bboxes import cube_polygons
-from building3d.geom.points import new_point_between_2_points
-from building3d.geom.points import points_equal
-from building3d.geom.points.distance import distance_point_to_edge
+from building3d.geom.points import is_valid_pt
 from building3d.geom.points.intersections import line_segment_intersection
 from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.ispointinside import is_point_inside
@@ -31,7 +30,7 @@ def are_polygons_crossing(
     IMPORTANT! It returns False if:
     - the polygons are exactly the same (same points, same normal vectors),
     - the polygons are facing (same points, opposite normal vectors),
-    - one polygon is completely inside the other,
+    - one polygon is completely inside the other and their edges do not meet,
     """
     bbox1 = bounding_box(pts1)
     bbox2 = bounding_box(pts2)
@@ -41,31 +40,56 @@ def are_polygons_crossing(
     if not are_points_coplanar(np.vstack((pts1, pts2))):
         return False
 
-    for e1 in polygon_edges(pts1):
-        for e2 in polygon_edges(pts2):
-            if (
-                points_equal(e1[0], e2[0])
-                or points_equal(e1[0], e2[1])
-                or points_equal(e1[1], e2[1])
-                or points_equal(e1[1], e2[0])
-            ):
-                continue
-            else:
-                p_cross = line_segment_intersection(e1[0], e1[1], e2[0], e2[1])
-                if np.isnan(p_cross).any():
-                    continue
-                elif np.isclose(
-                    distance_point_to_edge(p_cross, e1[0], e1[1]), 0
-                ) or np.isclose(distance_point_to_edge(p_cross, e2[0], e2[1]), 0):
-                    for x in np.linspace(0, 1, 10):
-                        p_mid = new_point_between_2_points(e1[0], e1[1], rel_d=x)
-                        if is_point_inside(p_mid, pts2, tri2, boundary_in=False):
-                            return True
-                        p_mid = new_point_between_2_points(e2[0], e2[1], rel_d=x)
-                        if is_point_inside(p_mid, pts1, tri1, boundary_in=False):
-                            return True
-                else:
-                    return True
+    edges1 = polygon_edges(pts1)
+    edges2 = polygon_edges(pts2)
+
+    meeting = False
+    for e1 in edges1:
+        for e2 in edges2:
+            if is_valid_pt(line_segment_intersection(e1[0], e1[1], e2[0], e2[1])):
+                meeting = True
+                break
+        if meeting:
+            break
+
+    if not meeting:
+        return False
+
+    for e1 in edges1:
+        if is_line_segment_partly_inside(e1[0], e1[1], pts2, tri2):
+            return True
+    for e2 in edges2:
+        if is_line_segment_partly_inside(e2[0], e2[1], pts1, tri1):
+            return True
+    return False
+
+
+@njit
+def is_line_segment_partly_inside(
+    seg_start: PointType,
+    seg_end: PointType,
+    pts: PointType,
+    tri: IndexType,
+) -> bool:
+    """Checks if any part of the line segment runs inside a coplanar polygon.
+
+    The parts running along the edges of the polygon are not considered to be inside.
+    """
+    segment = seg_end - seg_start
+
+    # The segment can enter or leave the polygon only at the polygon's edges
+    rel_d = [0.0, 1.0]
+    for e in polygon_edges(pts):
+        p_cross = line_segment_intersection(seg_start, seg_end, e[0], e[1])
+        if is_valid_pt(p_cross):
+            rel_d.append(np.dot(p_cross - seg_start, segment) / np.dot(segment, segment))
+    rel_d = sorted(rel_d)
+
+    for i in range(len(rel_d) - 1):
+        if rel_d[i + 1] - rel_d[i] > GEOM_RTOL:
+            p_mid = seg_start + 0.5 * (rel_d[i] + rel_d[i + 1]) * segment
+            if is_point_inside(p_mid, pts, tri, boundary_in=False):
+                return True
     return False
 
 
diff --git a/building3d/geom/polygon/touching.py b/building3d/geom/polygon/touching.py
index 419ddbb..d1fcc96 100644
--- a/building3d/geom/polygon/touching.py
+++ b/building3d/geom/polygon/touching.py
@@ -1,9 +1,8 @@
-import numpy as np
 from numba import njit
 
 from building3d.geom.bboxes import bounding_box
-from building3d.geom.points import new_point_between_2_points
 from building3d.geom.points import points_equal
+from building3d.geom.polygon.crossing import is_line_segment_partly_inside
 from building3d.geom.polygon.ispointinside import is_point_at_boundary
 from building3d.geom.polygon.ispointinside import is_point_inside
 from building3d.geom.types import IndexType
@@ -134,14 +133,9 @@ def check_poly_a_against_b(
     for ptest in pts_b:
         edge.append(ptest)
 
-        is_middle_inside = False
-
-        for x in np.linspace(0, 1, 5):
-            mid_pt = new_point_between_2_points(edge[0], edge[1], rel_d=x)
-            if is_point_inside(mid_pt, pts_a, tri_a, boundary_in=False):
-                is_middle_inside = True
-                break
-
+        is_middle_inside = is_line_segment_partly_inside(
+            edge[0], edge[1], pts_a, tri_a
+        )
         at_boundary = is_point_at_boundary(ptest, pts_a)
         is_inside = is_point_inside(ptest, pts_a, tri_a, boundary_in=False)
 
-- 
2.43.0


From b93a99370dab95c1b6e8a99f32576cd10dc9087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:40 +0000
Subject: [PATCH 18/35] fix: accept points next to a triangle's edge whatever
 the rounding

---
 building3d/geom/triangles.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index 04472ac..fa00bb5 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -64,9 +64,7 @@ def is_point_on_same_side(
         # This point lies on the edge connecting p1 and p2
         return False
     else:
-        vtest /= len_vtest
-        vref /= len_vref
-        return bool(np.isclose(vtest, vref, atol=atol).all())
+        return bool(np.dot(vtest, vref) > 0)
 
 
 @njit
-- 
2.43.0


From cd481cb804a3e5d62f0adc000c757c03994fe7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:40 +0000
Subject: [PATCH 19/35] fix: segments that end on a polygon cross it whatever
 the rounding

---
 building3d/geom/polygon/crossing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/polygon/crossing.py b/building3d/geom/polygon/crossing.py
index a237ca7..c0be3df 100644
--- a/building3d/geom/polygon/crossing.py
+++ b/building3d/geom/polygon/crossing.py
@@ -129,7 +129,7 @@ def is_line_segment_crossing_polygon(
     )
 
     # Check if the intersection point is within the line segment
-    if t < 0 or t > 1:
+    if t < -epsilon or t > 1 + epsilon:
         return False
 
     intersect_pt = seg_start + t * segment_direction
-- 
2.43.0


From c814510b01eb436cfac704f8e2ee7236701328e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:40 +0000
Subject: [PATCH 20/35] fix: write objects without children to B3D files

---
 building3d/io/b3d.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/building3d/io/b3d.py b/building3d/io/b3d.py
index c183238..e67001f 100644
--- a/building3d/io/b3d.py
+++ b/building3d/io/b3d.py
@@ -61,17 +61,17 @@ def write_b3d(path: str, bdg: Building, parent_dirs: bool = True) -> None:
     bdict = recursive_default_dict()
     bdict["name"] = bdg.name
 
+    zones = bdict["zones"]  # Getting an item adds it, also if it has no children
     for z in bdg.zones.values():
+        solids = zones[z.name]
         for s in z.solids.values():
+            walls = solids[s.name]
             for w in s.walls.values():
+                polygons = walls[w.name]
                 for p in w.polygons.values():
-                    bdict["zones"][z.name][s.name][w.name][p.name][
-                        "pts"
-                    ] = p.pts.tolist()
-                    bdict["zones"][z.name][s.name][w.name][p.name][
-                        "tri"
-                    ] = p.tri.tolist()
-                    bdict["zones"][z.name][s.name][w.name][p.name]["uid"] = p.uid
+                    polygons[p.name]["pts"] = p.pts.tolist()
+                    polygons[p.name]["tri"] = p.tri.tolist()
+                    polygons[p.name]["uid"] = p.uid
 
     # Save to JSON
     with open(path, "w") as f:
-- 
2.43.0


From 3e2554e11b980396b30088192e8ed7f8e58cb02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:08 +0000
Subject: [PATCH 21/35] fix: use the surface absorption set for each polygon in
 the simulation

---
 building3d/sim/rays/simulation.py        |  5 +++--
 building3d/sim/rays/simulation_config.py | 21 ++++++++++-----------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index 677cbb8..b1673aa 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -59,8 +59,9 @@ class Simulation:
         self.absorber_radius: float = sim_cfg.rays["absorber_radius"]
 
         # Surface parameters
-        default_absorption = sim_cfg.surfaces["absorption"]["default"]
-        self.surf_absorption: FloatDataType = np.full(len(self.polygons), default_absorption)
+        self.surf_absorption: FloatDataType = sim_cfg.surface_params_to_array(
+            "absorption", building
+        )
 
         # Visualization parameters
         # TODO: Should these parameters be here? Plotting and movie rendering isn't here...
diff --git a/building3d/sim/rays/simulation_config.py b/building3d/sim/rays/simulation_config.py
index cf343b5..011e472 100644
--- a/building3d/sim/rays/simulation_config.py
+++ b/building3d/sim/rays/simulation_config.py
@@ -16,6 +16,13 @@ from .jit_print import jit_print
 logger = logging.getLogger(__name__)
 
 
+class SurfaceParam(dict):
+    """Values of a surface parameter by polygon path. Polygons not set have the default value."""
+
+    def __missing__(self, path: str) -> float:
+        return self["default"]
+
+
 class SimulationConfig:
 
     def __init__(self, building: Building):
@@ -45,12 +52,11 @@ class SimulationConfig:
 
         # Surface parameters
         self.surfaces = {
-            "absorption": {
-                "default": 0.2,
+            "absorption": SurfaceParam(
+                default=0.2,
                 # To add custom values to each polygon use self.set_surface_param()
-            },
+            ),
         }
-        self.set_default_surface_paths(self.building)
 
         # Visualization parameters (plots, movies)
         self.visualization = {
@@ -74,13 +80,6 @@ class SimulationConfig:
             "hits_file": "hits_<step>.npy",
         }
 
-    def set_default_surface_paths(self, building: Building):
-        """Add all polygon paths to surface parameters and fill them with default values."""
-        poly_paths = building.get_polygon_paths()
-        for key in self.surfaces.keys():
-            for path in poly_paths:
-                self.surfaces[key][path] = self.surfaces[key]["default"]
-
     def set_surface_param(
         self,
         param_name: str,
-- 
2.43.0


From e77b2b8c040c64d38e43cb45d2463a1fa92404fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:08 +0000
Subject: [PATCH 22/35] fix: find transparent polygons of the building as it is
 now

---
 building3d/sim/rays/find_transparent.py | 69 +++++++++++--------------
 1 file changed, 29 insertions(+), 40 deletions(-)

diff --git a/building3d/sim/rays/find_transparent.py b/building3d/sim/rays/find_transparent.py
index 9043416..0e37e29 100644
--- a/building3d/sim/rays/find_transparent.py
+++ b/building3d/sim/rays/find_transparent.py
@@ -29,10 +29,6 @@ from building3d.geom.paths.split_path import split_path
 logger = logging.getLogger(__name__)
 
 
-# Use cache to speed up finding transparent polygons for each ray within a building
-CACHE: dict[int, set[str]] = {}  # {id(building): set(transparent_polygon_paths)}
-
-
 def find_transparent(building: Building) -> set[str]:
     """Finds and returns the list of transparent polygons in the building.
 
@@ -45,39 +41,32 @@ def find_transparent(building: Building) -> set[str]:
         set of paths to polygons
     """
     logger.debug(f"Finding transparent polygons in {building.name}")
-    if id(building) in CACHE:
-        return CACHE[id(building)]
-
-    else:
-        # Find facing polygons (matching exactly)
-        logger.debug("Making graph")
-        graph = graph_polygon(building, facing=True, overlapping=False, touching=False)
-
-        transparent_polygons = []
-        added = set()
-
-        logger.debug("Iterating through the graph items")
-        for k, v in graph.items():
-            assert isinstance(v, list)
-            assert (
-                len(v) <= 1
-            ), f"Expected one facing polygon, but found more ({len(v)})"
-
-            if len(v) == 1:
-                if k not in added or v[0] not in added:
-                    _, z0, *_ = split_path(k)
-                    _, z1, *_ = split_path(v[0])
-
-                    # Doesn't have to check if plg0 is facing plg1,
-                    # because if they are in the graph, they must be
-                    if z0 == z1:
-                        logger.debug(f"Transparent polygons found: {k}, {v[0]}")
-                        transparent_polygons.extend([k, v[0]])
-                        added.add(k)
-                        added.add(v[0])
-
-        # Add to CACHE
-        set_of_transparent_polygons = set(transparent_polygons)
-        CACHE[id(building)] = set_of_transparent_polygons
-
-        return set_of_transparent_polygons
+
+    # Find facing polygons (matching exactly)
+    logger.debug("Making graph")
+    graph = graph_polygon(building, facing=True, overlapping=False, touching=False)
+
+    transparent_polygons = []
+    added = set()
+
+    logger.debug("Iterating through the graph items")
+    for k, v in graph.items():
+        assert isinstance(v, list)
+        assert (
+            len(v) <= 1
+        ), f"Expected one facing polygon, but found more ({len(v)})"
+
+        if len(v) == 1:
+            if k not in added or v[0] not in added:
+                _, z0, s0, *_ = split_path(k)
+                _, z1, s1, *_ = split_path(v[0])
+
+                # Doesn't have to check if plg0 is facing plg1,
+                # because if they are in the graph, they must be
+                if z0 == z1 and s0 != s1:
+                    logger.debug(f"Transparent polygons found: {k}, {v[0]}")
+                    transparent_polygons.extend([k, v[0]])
+                    added.add(k)
+                    added.add(v[0])
+
+    return set(transparent_polygons)
-- 
2.43.0


From 848ffb09b6a313270f21cc9f0cc74c9a6cd73ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:08 +0000
Subject: [PATCH 23/35] fix: list the polygon of a building with one polygon in
 its graph

---
 building3d/geom/building/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/building3d/geom/building/graph.py b/building3d/geom/building/graph.py
index 8ffa830..dcfd316 100644
--- a/building3d/geom/building/graph.py
+++ b/building3d/geom/building/graph.py
@@ -39,6 +39,8 @@ def graph_polygon(
 
     num_checked = 0
     for pl1 in iter_polygons(bdg):
+        if pl1.path not in g:
+            g[pl1.path] = []
         for pl2 in iter_polygons(bdg):
 
             num_checked += 1
-- 
2.43.0


From fc74a8d72f02edf4abf745887703fcb74e098b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:47 +0000
Subject: [PATCH 24/35] fix: match wildcard paths relative to the parent
 directory, text literally

---
 building3d/paths/wildcardpath.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/building3d/paths/wildcardpath.py b/building3d/paths/wildcardpath.py
index 2f8411f..e72ffbb 100644
--- a/building3d/paths/wildcardpath.py
+++ b/building3d/paths/wildcardpath.py
@@ -55,9 +55,9 @@ class WildcardPath:
         paths = {}
         regex = re.compile(self._regex)
 
-        for f in Path(parent).glob("**/*"):
-            f = str(f)
-            match = regex.match(f)
+        for p in Path(parent).glob("**/*"):
+            f = str(p)
+            match = regex.fullmatch(str(p.relative_to(parent)))
             if match:
                 paths[f] = {}
                 for gr, val in match.groupdict().items():
@@ -216,16 +216,16 @@ class WildcardPath:
         Regex named groups are used, so that the wildcard values can be
         later retrieved (see `get_matching_paths_and_values()`).
         """
-        re_path = self.path
         start, stop = WildcardPath.wcard_sep
-
-        for wname in self._wildcards:
-            wcard = self.wrap(wname)
-            groups = self._groups[wname]
-
-            for gr in groups:
-                re_path = re_path.replace(wcard, f"(?P{start}{gr}{stop}\\d+)", 1)
-        re_path = ".*" + re_path + "/*$"
+        parts = re.split(f"{start}([^{start}{stop}]+){stop}", os.path.normpath(self.path))
+        groups = {wname: iter(self._groups[wname]) for wname in self._wildcards}
+
+        re_path = ""
+        for i, part in enumerate(parts):
+            if i % 2 == 0:  # Text between wildcards
+                re_path += re.escape(part)
+            else:
+                re_path += f"(?P{start}{next(groups[part])}{stop}\\d+)"
         return re_path
 
     def _to_dict_with_namedtuple_keys(
-- 
2.43.0


From 586c18bdf4e5e34ae8c9fccc3b13dbef7c231a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:43:21 +0000
Subject: [PATCH 25/35] fix: move rays that are exactly at the reflection
 distance

---
 building3d/sim/rays/simulation_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation_loop.py b/building3d/sim/rays/simulation_loop.py
index fc9fd62..dc03415 100644
--- a/building3d/sim/rays/simulation_loop.py
+++ b/building3d/sim/rays/simulation_loop.py
@@ -229,7 +229,7 @@ def simulation_loop(
                     vn = np.zeros(3, dtype=FLOAT)
                     dist = np.inf
 
-            if energy[rn] > eps and dist > reflection_dist:
+            if energy[rn] > eps and dist >= reflection_dist:
                 position[rn] += delta_pos[rn]
             else:
                 continue
-- 
2.43.0


From 5abfc9dd9655511bf072d15cfe8f90e80927d88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:07 +0000
Subject: [PATCH 26/35] fix: accept an existing, empty state directory

---
 building3d/sim/rays/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/sim/rays/simulation.py b/building3d/sim/rays/simulation.py
index b1673aa..7c6866a 100644
--- a/building3d/sim/rays/simulation.py
+++ b/building3d/sim/rays/simulation.py
@@ -95,7 +95,7 @@ class Simulation:
         if os.path.exists(self.buffer_dir) and len(os.listdir(self.buffer_dir)) > 0:
             raise RuntimeError(f"Buffer dir ({self.buffer_dir}) already exists and is non-empty!")
         else:
-            os.makedirs(self.buffer_dir)
+            os.makedirs(self.buffer_dir, exist_ok=True)
 
     @staticmethod
     def get_transparent_polygon_numbers(building):
-- 
2.43.0


From a82b25e1729d5d92da73a9217d4dcb6192558653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:03:21 +0000
Subject: [PATCH 27/35] fix: count crossings of the point's ray away from the
 edges of a solid

---
 building3d/geom/solid/__init__.py | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/building3d/geom/solid/__init__.py b/building3d/geom/solid/__init__.py
index 1d71691..d32c9d1 100644
--- a/building3d/geom/solid/__init__.py
+++ b/building3d/geom/solid/__init__.py
@@ -3,6 +3,7 @@ from typing import Sequence
 
 import numpy as np
 
+from building3d.config import GEOM_RTOL
 from building3d.random import random_id
 from building3d.geom.exceptions import GeometryError
 from building3d.geom.paths import PATH_SEP
@@ -10,6 +11,7 @@ from building3d.geom.paths.validate_name import validate_name
 from building3d.geom.bboxes import bounding_box
 from building3d.geom.points import new_point
 from building3d.geom.polygon.crossing import are_polygons_crossing
+from building3d.geom.polygon.edges import polygon_edges
 from building3d.geom.polygon.facing import are_polygons_facing
 from building3d.geom.polygon.ispointinside import is_point_inside_projection
 from building3d.geom.solid.get_mesh import get_mesh_from_walls
@@ -20,6 +22,17 @@ from building3d.geom.wall import Wall
 
 logger = logging.getLogger(__name__)
 
+# Directions used in the ray casting algorithm (arbitrary, not aligned with typical edges)
+RAY_DIRECTIONS = np.array(
+    [
+        [0.739, 0.239, 0.113],
+        [0.113, 0.739, 0.239],
+        [-0.239, 0.113, 0.739],
+        [0.317, -0.592, 0.743],
+        [-0.671, -0.413, 0.217],
+    ]
+)
+
 
 class Solid:
     """Solid is a space enclosed by polygons."""
@@ -145,26 +158,30 @@ class Solid:
         if pt[0] < min_x or pt[1] < min_y or pt[2] < min_z:
             return False
 
+        if self.is_point_at_boundary(pt):
+            return True
+
         # It is possible, so we proceed with the ray casting algorithm
-        # This algorithm may give wrong answer if the point lays in the corner
-        vec = np.array([0.739, 0.239, 0.113])  # Just a random vector
-        vec /= np.linalg.norm(vec)
+        all_polys = [p for w in self.children.values() for p in w.children.values()]
+        edges = np.vstack([polygon_edges(poly.pts) for poly in all_polys])
+
+        # A ray passing through an edge may cross one, both, or none of the adjacent polygons.
+        # Use the first direction for which the ray does not pass close to any edge.
+        vec = RAY_DIRECTIONS[0]
+        for direction in RAY_DIRECTIONS:
+            vec = direction / np.linalg.norm(direction)
+            vn = np.cross(vec, edges[:, 1] - edges[:, 0])
+            distance = np.abs(np.sum(vn * (edges[:, 0] - pt), axis=1))
+            if np.all(distance > GEOM_RTOL * np.linalg.norm(vn, axis=1)):
+                break
 
         num_crossings = 0
-        all_polys = [p for w in self.children.values() for p in w.children.values()]
         for poly in all_polys:
             p_crosses_polygon = is_point_inside_projection(pt, vec, poly.pts, poly.tri)
             if p_crosses_polygon:
                 num_crossings += 1
 
-        if num_crossings % 2 == 1:
-            return True
-        else:
-            # Check if point is at the boundary
-            if self.is_point_at_boundary(pt):
-                return True
-            else:
-                return False
+        return num_crossings % 2 == 1
 
     def is_point_at_boundary(self, pt: PointType) -> bool:
         """Checks whether the point p lays on any of the boundary polygons."""
-- 
2.43.0


From 0f89d5030d05f738cb14eca151269d3cbefbfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:09 +0000
Subject: [PATCH 28/35] fix: add intersection points in the order in which they
 lie on the edge

---
 .../polygon/slice/add_intersection_points.py  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/building3d/geom/polygon/slice/add_intersection_points.py b/building3d/geom/polygon/slice/add_intersection_points.py
index 40b2b54..616b655 100644
--- a/building3d/geom/polygon/slice/add_intersection_points.py
+++ b/building3d/geom/polygon/slice/add_intersection_points.py
@@ -7,6 +7,9 @@ from building3d.geom.points import list_pts_to_array
 from building3d.geom.points import points_equal
 from building3d.geom.points.intersections import line_segment_intersection
 from building3d.geom.polygon.edges import polygon_edges
+from building3d.geom.types import FLOAT
+from building3d.geom.types import INT
+from building3d.geom.types import IndexType
 from building3d.geom.types import PointType
 
 from .constants import INVALID_INDEX
@@ -70,16 +73,28 @@ def add_intersection_points(
     for i1 in range(edges1.shape[0]):
         out1.append(edges1[i1, 0])
         if i1 in intersect_ix1:
-            for pt_index in intersect_ix1[i1]:
+            for pt_index in sort_by_distance(intersect_pts, intersect_ix1[i1], edges1[i1, 0]):
                 out1.append(intersect_pts[pt_index])
 
     for i2 in range(edges2.shape[0]):
         out2.append(edges2[i2, 0])
         if i2 in intersect_ix2:
-            for pt_index in intersect_ix2[i2]:
+            for pt_index in sort_by_distance(intersect_pts, intersect_ix2[i2], edges2[i2, 0]):
                 out2.append(intersect_pts[pt_index])
 
     new_pts1 = list_pts_to_array(out1)
     new_pts2 = list_pts_to_array(out2)
 
     return new_pts1, new_pts2
+
+
+@njit
+def sort_by_distance(pts: list[PointType], indices: list[int], ref_pt: PointType) -> IndexType:
+    """Returns `indices` of the points `pts` sorted by their distance to `ref_pt`."""
+    num = len(indices)
+    sq_dist = np.zeros(num, dtype=FLOAT)
+    sorted_indices = np.zeros(num, dtype=INT)
+    for i in range(num):
+        sq_dist[i] = np.sum((pts[indices[i]] - ref_pt) ** 2)
+        sorted_indices[i] = indices[i]
+    return sorted_indices[np.argsort(sq_dist)]
-- 
2.43.0


From dc1411636da4b301683d2a1cce9ab99a22bda483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:09 +0000
Subject: [PATCH 29/35] fix: stitch all adjacent solids of the current building

---
 building3d/geom/building/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/building3d/geom/building/__init__.py b/building3d/geom/building/__init__.py
index c1ac98b..31a39e4 100644
--- a/building3d/geom/building/__init__.py
+++ b/building3d/geom/building/__init__.py
@@ -174,7 +174,7 @@ class Building:
         logger.info(f"Stitching solids in building {self}")
 
         # Find adjacent solids
-        adj_solids = self.get_graph(new=False, level="solid", facing=True, overlapping=True)
+        adj_solids = self.get_graph(new=True, level="solid", facing=True, overlapping=True)
         done = []
 
         for s_path in adj_solids.keys():
@@ -182,12 +182,15 @@ class Building:
                 _, z1_name, s_name = s_path.split(PATH_SEP)
                 _, z2_name, adj_s_name = adj_s_path.split(PATH_SEP)
 
-                if set([s_name, adj_s_name]) not in done:
+                if set([s_path, adj_s_path]) not in done:
                     stitch_solids(
                         s1=self.zones[z1_name].solids[s_name],
                         s2=self.zones[z2_name].solids[adj_s_name],
                     )
-                    done.append(set([s_name, adj_s_name]))
+                    done.append(set([s_path, adj_s_path]))
+
+        # The polygons were replaced, so the graph is not valid anymore
+        self.graph = {}
 
     def volume(self) -> float:
         """Calculate building volume as the sum of zone volumes."""
-- 
2.43.0


From 29834f9ea9a54820d1c4e6597d7e34d108da515e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:09 +0000
Subject: [PATCH 30/35] fix: replace only the sliced polygon when stitching

---
 building3d/geom/solid/stitch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index ea686ee..389fefb 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -143,7 +143,7 @@ def replace_polygon(s: Solid, old_poly: Polygon, *new_poly: Polygon) -> None:
     """Replaces `old_poly` with an arbitraty number of `new_poly` (in-place)."""
     wpl = get_walls_and_polygons(s)
     for wall, poly in wpl:
-        if poly.name == old_poly.name:
+        if poly is old_poly:
             wall.replace_polygon(poly.name, *new_poly)
 
 
-- 
2.43.0


From 2e6e094dbbfa2d9278f76011328e54b3288840c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:09 +0000
Subject: [PATCH 31/35] fix: stitch polygons split into several parts by their
 overlap

---
 building3d/geom/solid/stitch.py | 41 +++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/building3d/geom/solid/stitch.py b/building3d/geom/solid/stitch.py
index 389fefb..c730c7e 100644
--- a/building3d/geom/solid/stitch.py
+++ b/building3d/geom/solid/stitch.py
@@ -63,13 +63,15 @@ def slice_both_and_replace(s1: Solid, p1: Polygon, s2: Solid, p2: Polygon) -> No
 
         if p2_in_p1:
             # Slice p1 twice
-            main, sup = slice_one_and_replace(s1, p1, sup_cut)
+            pt_in_main = p2.pts[p2.tri[0]].mean(axis=0)
+            main, sup = slice_one_and_replace(s1, p1, sup_cut, pt_in_main)
             assert main is not None
             _, _ = slice_one_and_replace(s1, main, p2.pts)
 
         elif p1_in_p2:
             # Slice p2 twice
-            main, sup = slice_one_and_replace(s2, p2, sup_cut)
+            pt_in_main = p1.pts[p1.tri[0]].mean(axis=0)
+            main, sup = slice_one_and_replace(s2, p2, sup_cut, pt_in_main)
             assert main is not None
             _, _ = slice_one_and_replace(s2, main, p1.pts)
 
@@ -103,7 +105,7 @@ def get_sup_cut(pairs: PointType) -> PointType:
 
 
 def slice_one_and_replace(
-    s: Solid, p: Polygon, slicing_pts: PointType
+    s: Solid, p: Polygon, slicing_pts: PointType, pt_in_a: PointType | None = None
 ) -> tuple[Polygon | None, Polygon | None]:
     """Slices polygon `p` with `slicing_pts` and replaces it in solid `s` (in-place).
 
@@ -111,20 +113,20 @@ def slice_one_and_replace(
         s: Solid containing the polygon `p`
         p: Polygon from solid `s`
         slicing_pts: Slicing points
+        pt_in_a: Optional point inside the part to be returned as `a`
 
     Return:
-        tuple of polygons `(a, b)`, where `b` is the polygon surrounded by `slicing_pts`
+        tuple of polygons `(a, b)`
     """
     _, slicing_pts = add_intersection_points(p.pts, slicing_pts)
-    slicing_pts = remove_outside_points(p, slicing_pts)
+    slicing_pts = select_slicing_points(p, slicing_pts)
 
     if len(slicing_pts) < 2:
         return None, None
 
-    pt_in_b = None  # TODO
     try:
         a, b = slice_polygon(
-            p, slicing_pts, pt2=pt_in_b, name1=f"{p.name}-main", name2=f"{p.name}-sup"
+            p, slicing_pts, pt1=pt_in_a, name1=f"{p.name}-main", name2=f"{p.name}-sup"
         )
     except GeometryError:
         return None, None
@@ -158,6 +160,31 @@ def get_walls_and_polygons(s: Solid) -> list[tuple[Wall, Polygon]]:
     return wpl
 
 
+def select_slicing_points(poly: Polygon, slicing_pts: PointType) -> PointType:
+    """Returns the slicing points to be used to slice `poly` into two parts.
+
+    The closed line connecting the slicing points may run through the polygon more than once.
+    Only the first part of the line running through the polygon is returned.
+    If the line does not enter the polygon, all slicing points inside `poly` are returned.
+    """
+    num_pts = slicing_pts.shape[0]
+    runs_inside = []
+    for i in range(num_pts):
+        middle = (slicing_pts[i] + slicing_pts[(i + 1) % num_pts]) / 2
+        runs_inside.append(poly.is_point_inside(middle, boundary_in=False))
+
+    starts = [i for i in range(num_pts) if runs_inside[i] and not runs_inside[i - 1]]
+    if len(starts) < 1:
+        return remove_outside_points(poly, slicing_pts)
+
+    i = starts[0]
+    selected = [i]
+    while runs_inside[i]:
+        i = (i + 1) % num_pts
+        selected.append(i)
+    return slicing_pts[np.array(selected)]
+
+
 def remove_outside_points(poly: Polygon, slicing_pts: PointType) -> PointType:
     """Returns only those slicing points which are inside `poly` (boundary included)."""
     pts = np.zeros(slicing_pts.shape, dtype=FLOAT)
-- 
2.43.0


From d4e215e615f19520d55d7e9ce58385917d5788bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:52 +0000
Subject: [PATCH 32/35] fix: draw a single object in the color given

---
 building3d/display/plot_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/building3d/display/plot_objects.py b/building3d/display/plot_objects.py
index 27a7418..6ba8993 100644
--- a/building3d/display/plot_objects.py
+++ b/building3d/display/plot_objects.py
@@ -54,7 +54,7 @@ def plot_objects(objects: tuple, output_file=None, colors=()) -> None:
         # If more than 1 object is given, use different color for each
         if len(objects) > 1 and len(colors) == 0:
             col = random_rgb_color()
-        elif len(objects) > 1 and len(colors) == len(objects):
+        elif len(colors) == len(objects):
             col = [
                 float(x) for x in colors[obj_num]
             ]  # PyVista does not handle integer colors
-- 
2.43.0


From b22233116b61ae1676cb0546cd46900f73fcc87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:57:52 +0000
Subject: [PATCH 33/35] fix: color ray trails by the energy of their own ray in
 movies

---
 building3d/sim/rays/movie_from_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/building3d/sim/rays/movie_from_buffer.py b/building3d/sim/rays/movie_from_buffer.py
index a107b42..bdc4c80 100644
--- a/building3d/sim/rays/movie_from_buffer.py
+++ b/building3d/sim/rays/movie_from_buffer.py
@@ -111,7 +111,7 @@ def make_movie_from_buffer(
             # Draw trailing lines
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh = pv.PolyData(line_varr, lines=line_index)
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
             line_mesh.set_active_scalars("energy")
             plotter.add_mesh(
                 line_mesh,
@@ -132,7 +132,7 @@ def make_movie_from_buffer(
             line_varr, line_index = position_buffer_to_lines(position)
             line_mesh.points = line_varr
             line_mesh.lines = line_index
-            line_mesh["energy"] = energy.flatten()
+            line_mesh["energy"] = energy.T.flatten()
 
             plotter.write_frame()
 
-- 
2.43.0


From 51e1a44039ecc1e8fd03ffdda655a104cd47bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:59:27 +0000
Subject: [PATCH 34/35] fix: compare polygons with different numbers of points
 and with other objects

---
 building3d/geom/polygon/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/building3d/geom/polygon/__init__.py b/building3d/geom/polygon/__init__.py
index abcf198..c89027d 100644
--- a/building3d/geom/polygon/__init__.py
+++ b/building3d/geom/polygon/__init__.py
@@ -189,6 +189,10 @@ class Polygon:
         return are_polygons_touching(self.pts, self.tri, other.pts, other.tri)
 
     def __eq__(self, other):
+        if not isinstance(other, Polygon):
+            return NotImplemented
+        if self.pts.shape != other.pts.shape:
+            return False
         if np.allclose(self.pts, other.pts):
             return True
         else:
-- 
2.43.0


From 0c0d1c914258ec3033739dcfafa1cd2fa5f67b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:31:19 +0000
Subject: [PATCH 35/35] fix: triangulate polygons with many reflex corners

Failed attempts were counted over the whole run, so a polygon with enough
corners that are not ears was rejected before all its ears were clipped.
---
 building3d/geom/triangles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/building3d/geom/triangles.py b/building3d/geom/triangles.py
index fa00bb5..af86efe 100644
--- a/building3d/geom/triangles.py
+++ b/building3d/geom/triangles.py
@@ -248,6 +248,7 @@ def triangulate(
                 triangles.append((prev_id, curr_id, next_id))
                 # Remove pos from index
                 vertices.pop(pos)
+                num_fail = 0
                 continue
             else:
                 # There is some point inside this triangle
-- 
2.43.0

