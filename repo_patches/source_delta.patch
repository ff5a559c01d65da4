From 0161c4da5091d019442d919a9f031f52ab2609c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:22 +0000
Subject: [PATCH 01/17] fix: end parallel runs cleanly when a task or a worker
 fails

Pool.map left the pool and its workers behind when a task raised, and
waited for ever when a worker died or a result could not be rebuilt. Use
a process pool executor, which raises in these cases and is always shut
down.
---
 pvfactors/run.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pvfactors/run.py b/pvfactors/run.py
index 4e2a7a5..c96a1e3 100644
--- a/pvfactors/run.py
+++ b/pvfactors/run.py
@@ -6,7 +6,8 @@ from pvfactors.geometry import OrderedPVArray
 from pvfactors.irradiance import HybridPerezOrdered
 from pvfactors.viewfactors import VFCalculator
 from pvfactors.engine import PVEngine
-from multiprocessing import Pool, cpu_count
+from concurrent.futures import ProcessPoolExecutor
+from multiprocessing import cpu_count
 import numpy as np
 import pandas as pd
 from time import time
@@ -241,12 +242,18 @@ def run_parallel_engine(report_builder, pvarray_parameters,
                        report_indices))
 
     # Start multiprocessing
-    pool = Pool(n_processes)
     start = time()
-    indexed_reports = pool.map(_run_serially, list_folds)
+    with ProcessPoolExecutor(max_workers=n_processes) as executor:
+        try:
+            results = executor.map(_run_serially, list_folds)
+        except BaseException:
+            # If a worker can't be started, the executor leaves the others
+            for process in list((executor._processes or {}).values()):
+                process.terminate()
+                process.join()
+            raise
+        indexed_reports = list(results)
     end = time()
-    pool.close()
-    pool.join()
     sorted_indexed_reports = sorted(indexed_reports, key=lambda tup: tup[1])
     sorted_reports = [tup[0] for tup in sorted_indexed_reports]
 
-- 
2.43.0


From 16a84e374e49e32cf94897e79aafafccae5e8f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 02/17] fix: use inputs by position whatever the labels of
 pandas inputs

Series with an index other than the timestamps were aligned by label with
the timestamps in the Perez model, which silently removed diffuse light.
---
 pvfactors/engine.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvfactors/engine.py b/pvfactors/engine.py
index 9d8b252..a100f37 100644
--- a/pvfactors/engine.py
+++ b/pvfactors/engine.py
@@ -148,10 +148,16 @@ class PVEngine(object):
             surface_azimuth = np.array([surface_azimuth])
             ghi = None if ghi is None else np.array([ghi])
 
+        # Use plain arrays: the labels of pandas inputs must not be aligned
+        DNI, DHI, solar_zenith, solar_azimuth, surface_tilt, surface_azimuth \
+            = map(np.asarray, (DNI, DHI, solar_zenith, solar_azimuth,
+                               surface_tilt, surface_azimuth))
+        ghi = None if ghi is None else np.asarray(ghi)
+
         # Format albedo
         self.n_points = len(DNI)
         albedo = (albedo * np.ones(self.n_points) if np.isscalar(albedo)
-                  else albedo)
+                  else np.asarray(albedo))
 
         # Fit PV array
         self.pvarray.fit(solar_zenith, solar_azimuth, surface_tilt,
-- 
2.43.0


From 5b09b743e1021aea6acbc599463ab4152ccc2678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 03/17] fix: keep the saved view factors when building the
 absorption ones

---
 pvfactors/viewfactors/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/viewfactors/calculator.py b/pvfactors/viewfactors/calculator.py
index aa8e844..59e5048 100644
--- a/pvfactors/viewfactors/calculator.py
+++ b/pvfactors/viewfactors/calculator.py
@@ -153,7 +153,7 @@ class VFCalculator(object):
         n_ts_surfaces = pvarray.n_ts_surfaces
         vf_aoi_matrix = np.zeros(
             (n_ts_surfaces + 1, n_ts_surfaces + 1, n_steps),
-            dtype=float) if self.vf_matrix is None else self.vf_matrix
+            dtype=float) if self.vf_matrix is None else self.vf_matrix.copy()
 
         # Get timeseries objects
         ts_ground = pvarray.ts_ground
-- 
2.43.0


From 1046df7e76e8c66d60d59be954af5d6169a2f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 04/17] fix: list the ground surfaces of the time step asked
 for

---
 pvfactors/geometry/pvground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index f336c2a..1890317 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -522,7 +522,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for shadow_el in self.shadow_elements:
-            list_surfaces += shadow_el.non_point_surfaces_at(0)
+            list_surfaces += shadow_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_illum_surfaces_at(self, idx):
@@ -540,7 +540,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for illum_el in self.illum_elements:
-            list_surfaces += illum_el.non_point_surfaces_at(0)
+            list_surfaces += illum_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_surfaces_at(self, idx):
-- 
2.43.0


From 1aa84fc7ebb2c4fcb92a7e10cf0a28aebb59a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 05/17] fix: list the current surfaces after casting, cutting
 or merging

---
 pvfactors/geometry/base.py  | 19 +++++++------------
 pvfactors/geometry/pvrow.py |  7 +------
 2 files changed, 8 insertions(+), 18 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 4cc7d1d..0af3f8e 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -632,7 +632,6 @@ class PVSegment(GeometryCollection):
         self._shaded_collection = shaded_collection
         self._illum_collection = illum_collection
         self.index = index
-        self._all_surfaces = None
         super(PVSegment, self).__init__([self._shaded_collection,
                                          self._illum_collection])
 
@@ -913,11 +912,9 @@ class PVSegment(GeometryCollection):
         list of :py:class:`~pvfactors.geometry.base.PVSurface`
             PV surfaces in the PV segment
         """
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self._illum_collection.list_surfaces
-            self._all_surfaces += self._shaded_collection.list_surfaces
-        return self._all_surfaces
+        # Surfaces change when casting shadows, cutting, or merging
+        return (list(self._illum_collection.list_surfaces)
+                + list(self._shaded_collection.list_surfaces))
 
 
 class BaseSide(GeometryCollection):
@@ -935,7 +932,6 @@ class BaseSide(GeometryCollection):
         list_segments = [] if list_segments is None else list_segments
         check_collinear(list_segments)
         self.list_segments = tuple(list_segments)
-        self._all_surfaces = None
         super(BaseSide, self).__init__(list_segments)
 
     @classmethod
@@ -1008,11 +1004,10 @@ class BaseSide(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all surfaces in the Side object."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            for segment in self.list_segments:
-                self._all_surfaces += segment.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        for segment in self.list_segments:
+            all_surfaces += segment.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
diff --git a/pvfactors/geometry/pvrow.py b/pvfactors/geometry/pvrow.py
index 66fe966..2a61f4a 100644
--- a/pvfactors/geometry/pvrow.py
+++ b/pvfactors/geometry/pvrow.py
@@ -695,7 +695,6 @@ class PVRow(GeometryCollection):
         self.back = back_side
         self.index = index
         self.original_linestring = original_linestring
-        self._all_surfaces = None
         super(PVRow, self).__init__([self.front, self.back])
 
     @classmethod
@@ -832,11 +831,7 @@ class PVRow(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all the surfaces in the PV row."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self.front.all_surfaces
-            self._all_surfaces += self.back.all_surfaces
-        return self._all_surfaces
+        return self.front.all_surfaces + self.back.all_surfaces
 
     @property
     def surface_indices(self):
-- 
2.43.0


From 64ef391ade595ec497c2cd60a0fc66c83524cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 06/17] fix: give each segment and row its own default parts

---
 pvfactors/geometry/base.py  | 9 +++++++--
 pvfactors/geometry/pvrow.py | 8 ++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 0af3f8e..95ef54e 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -609,8 +609,8 @@ class PVSegment(GeometryCollection):
     call basic geometrical methods and properties on it, eg call length, etc.
     """
 
-    def __init__(self, illum_collection=ShadeCollection(shaded=False),
-                 shaded_collection=ShadeCollection(shaded=True), index=None):
+    def __init__(self, illum_collection=None, shaded_collection=None,
+                 index=None):
         """Initialize PV segment.
 
         Parameters
@@ -626,6 +626,11 @@ class PVSegment(GeometryCollection):
         index : int, optional
             Index of the PV segment (Default = None)
         """
+        # Collections get edited in place: never share default ones
+        if illum_collection is None:
+            illum_collection = ShadeCollection(shaded=False)
+        if shaded_collection is None:
+            shaded_collection = ShadeCollection(shaded=True)
         assert shaded_collection.shaded, "surface should be shaded"
         assert not illum_collection.shaded, "surface should not be shaded"
         self._check_collinear(illum_collection, shaded_collection)
diff --git a/pvfactors/geometry/pvrow.py b/pvfactors/geometry/pvrow.py
index 2a61f4a..c1b837f 100644
--- a/pvfactors/geometry/pvrow.py
+++ b/pvfactors/geometry/pvrow.py
@@ -659,7 +659,7 @@ class PVRowSide(BaseSide):
     constitue one side of a PV row: a PV row side can also be
     "discretized" into multiple segments"""
 
-    def __init__(self, list_segments=[]):
+    def __init__(self, list_segments=None):
         """Initialize PVRowSide using its base class
         :py:class:`pvfactors.geometry.base.BaseSide`
 
@@ -674,7 +674,7 @@ class PVRowSide(BaseSide):
 class PVRow(GeometryCollection):
     """A PV row is made of two PV row sides, a front and a back one."""
 
-    def __init__(self, front_side=PVRowSide(), back_side=PVRowSide(),
+    def __init__(self, front_side=None, back_side=None,
                  index=None, original_linestring=None):
         """Initialize PV row.
 
@@ -691,8 +691,8 @@ class PVRow(GeometryCollection):
             (Default = None)
 
         """
-        self.front = front_side
-        self.back = back_side
+        self.front = PVRowSide() if front_side is None else front_side
+        self.back = PVRowSide() if back_side is None else back_side
         self.index = index
         self.original_linestring = original_linestring
         super(PVRow, self).__init__([self.front, self.back])
-- 
2.43.0


From 30d0baa976de178ea79fff209f2ed622ac78a74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 07/17] fix: do not edit the list a shade collection was made
 from

---
 pvfactors/geometry/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 95ef54e..1e2285e 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -346,7 +346,8 @@ class ShadeCollection(GeometryCollection):
         list_surfaces = [] if list_surfaces is None else list_surfaces
         param_names = [] if param_names is None else param_names
         _check_uniform_shading(list_surfaces)
-        self.list_surfaces = list_surfaces
+        # Copy list because the collection edits it in place
+        self.list_surfaces = list(list_surfaces)
         self.shaded = self._get_shading(shaded)
         self.is_collinear = is_collinear(list_surfaces)
         self.param_names = param_names
-- 
2.43.0


From c774b079500f46e75f70056ec1f450e02cb6b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:43 +0000
Subject: [PATCH 08/17] fix: cast shadows falling on several illuminated parts

---
 pvfactors/geometry/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 1e2285e..3468845 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -706,13 +706,14 @@ class PVSegment(GeometryCollection):
         intersection = (self._illum_collection.buffer(DISTANCE_TOLERANCE)
                         .intersection(linestring))
         if not intersection.is_empty:
-            # Split up only if interesects the illuminated collection
-            # print(intersection)
-            self._shaded_collection.add_linestring(intersection,
-                                                   normal_vector=self.n_vector)
-            # print(self._shaded_collection.length)
-            self._illum_collection.remove_linestring(intersection)
-            # print(self._illum_collection.length)
+            # Split up only if interesects the illuminated collection, which
+            # can be in several places if already partly shaded
+            n_vector = self.n_vector
+            for part in getattr(intersection, 'geoms', [intersection]):
+                if part.length > 0.:
+                    self._shaded_collection.add_linestring(
+                        part, normal_vector=n_vector)
+                    self._illum_collection.remove_linestring(part)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
 
-- 
2.43.0


From 503e860d279e42f47698532cda87133b0bfeb40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:49 +0000
Subject: [PATCH 09/17] fix: merge the surfaces of lines going down along the
 line

---
 pvfactors/geometry/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 3468845..7ebc291 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -467,6 +467,10 @@ class ShadeCollection(GeometryCollection):
             merged_lines = linemerge(self.list_surfaces)
             minx, miny, maxx, maxy = merged_lines.bounds
             surf_1 = self.list_surfaces[0]
+            (x1, y1), (x2, y2) = surf_1.coords[0], surf_1.coords[-1]
+            if (x2 - x1) * (y2 - y1) < 0:
+                # Surfaces go down from left to right
+                miny, maxy = maxy, miny
             new_pvsurf = PVSurface(
                 coords=[(minx, miny), (maxx, maxy)],
                 shaded=self.shaded, normal_vector=surf_1.n_vector,
-- 
2.43.0


From 6a7817f8737da1e283f96af6c99a3d5e042c71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 10/17] fix: remove surfaces entirely covered by what is
 removed

---
 pvfactors/geometry/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 8025768..576c9ae 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -67,6 +67,8 @@ def difference(u, v):
             return LineString([ub1, vb2])
         else:
             return u
+    elif v_contains_ub1 and v_contains_ub2:
+        return LineString()
     else:
         return u
 
-- 
2.43.0


From 2325b12fcd3782ae195f1248bfb5fa747bcca989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 11/17] fix: cut fully shaded segments

---
 pvfactors/geometry/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 576c9ae..a093a58 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -75,7 +75,8 @@ def difference(u, v):
 
 def contains(linestring, point, tol_distance=DISTANCE_TOLERANCE):
     """Fixing floating point errors obtained in shapely for contains"""
-    return linestring.distance(point) < tol_distance
+    # The distance from shapely to an empty geometry is 0
+    return not linestring.is_empty and linestring.distance(point) < tol_distance
 
 
 def is_collinear(list_elements):
-- 
2.43.0


From 71cb5c868d6c65ad54f3bbf5ca1122c1b17be8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 12/17] fix: cast no shadow on segments it only touches

---
 pvfactors/geometry/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 7ebc291..c104fef 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -714,7 +714,8 @@ class PVSegment(GeometryCollection):
             # can be in several places if already partly shaded
             n_vector = self.n_vector
             for part in getattr(intersection, 'geoms', [intersection]):
-                if part.length > 0.:
+                # The buffer alone intersects lines that only touch
+                if part.length > 2 * DISTANCE_TOLERANCE:
                     self._shaded_collection.add_linestring(
                         part, normal_vector=n_vector)
                     self._illum_collection.remove_linestring(part)
-- 
2.43.0


From 2e4673521e713d103a920abc5136eefb8e07ba8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:24 +0000
Subject: [PATCH 13/17] fix: solve the other timesteps when one has a singular
 system

---
 pvfactors/engine.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pvfactors/engine.py b/pvfactors/engine.py
index a100f37..b4b74b4 100644
--- a/pvfactors/engine.py
+++ b/pvfactors/engine.py
@@ -7,6 +7,21 @@ from pvfactors.irradiance import HybridPerezOrdered
 from pvfactors.config import DEFAULT_RHO_FRONT, DEFAULT_RHO_BACK
 
 
+def _inv_each(matrices):
+    """Inverse of each matrix of a stack: NaN for the singular ones, which
+    come from unusable inputs at some timesteps."""
+    try:
+        return np.linalg.inv(matrices)
+    except np.linalg.LinAlgError:
+        inverses = np.full(matrices.shape, np.nan)
+        for idx, matrix in enumerate(matrices):
+            try:
+                inverses[idx] = np.linalg.inv(matrix)
+            except np.linalg.LinAlgError:
+                pass
+        return inverses
+
+
 class PVEngine(object):
     """Class putting all of the calculations together into simple
     workflows.
@@ -226,7 +241,7 @@ class PVEngine(object):
         a_mat = invrho_ts_diag - ts_vf_matrix_reshaped
         # Calculate inverse, requires specific shape
         # shape = n_timesteps, n_surfaces + 1, n_surfaces + 1
-        inv_a_mat = np.linalg.inv(a_mat)
+        inv_a_mat = _inv_each(a_mat)
         # Use einstein sum to get final timeseries radiosities
         # shape = n_surfaces + 1, n_timesteps
         q0 = np.einsum('ijk,ki->ji', inv_a_mat, irradiance_mat)
-- 
2.43.0


From 2badb036b33dc31dea933e30c1a64b48380642d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:29 +0000
Subject: [PATCH 14/17] fix: flip surfaces only once to get back surface
 luminance

---
 pvfactors/irradiance/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index b25a582..7b67b6e 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -13,7 +13,8 @@ from pvfactors.config import \
 
 
 def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
-                            solar_zenith, solar_azimuth, dni, dhi):
+                            solar_zenith, solar_azimuth, dni, dhi,
+                            is_flipped=False):
     """Function used to calculate the luminance and the view factor terms from the
     Perez diffuse light transposition model, as implemented in the
     ``pvlib-python`` library.
@@ -42,6 +43,9 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
         values for direct normal irradiance
     dhi : array-like
         values for diffuse horizontal irradiance
+    is_flipped : bool, optional
+        Surfaces were flipped to get back surface values, and should not be
+        flipped again because of round off errors (Default = False)
 
     Returns
     -------
@@ -68,7 +72,8 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
         df_inputs.surface_tilt, df_inputs.surface_azimuth,
         df_inputs.solar_zenith, df_inputs.solar_azimuth)
     sun_hitting_back_surface = ((aoi_proj < 0) &
-                                (df_inputs.solar_zenith <= 90))
+                                (df_inputs.solar_zenith <= 90) &
+                                (not is_flipped))
     df_inputs_back_surface = df_inputs.loc[sun_hitting_back_surface].copy()
     # Reverse the surface normal to switch to back-surface circumsolar calc
     df_inputs_back_surface.loc[:, 'surface_azimuth'] = (
@@ -82,7 +87,7 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
     if df_inputs_back_surface.shape[0] > 0:
         # Use recursion to calculate circumsolar luminance for back surface
         df_inputs_back_surface = perez_diffuse_luminance(
-            *breakup_df_inputs(df_inputs_back_surface))
+            *breakup_df_inputs(df_inputs_back_surface), is_flipped=True)
 
     # Calculate Perez diffuse components
     components = irradiance.perez(df_inputs.surface_tilt,
-- 
2.43.0


From 826df9a25c631253b5e18c32d178a72b61f0bcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 15/17] fix: give the reinstall advice for loader errors
 without error number

---
 pvfactors/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pvfactors/__init__.py b/pvfactors/__init__.py
index 50f168e..1a9cd72 100644
--- a/pvfactors/__init__.py
+++ b/pvfactors/__init__.py
@@ -17,7 +17,11 @@ except OSError as err:
         "Christoph Gohlke's website if you're on Windows: "
         "https://www.lfd.uci.edu/~gohlke/pythonlibs/#shapely"
     )
-    err.strerror += "; " + msg
+    if err.strerror is None:
+        # no error number: the text is in the arguments
+        err.args = ("; ".join([str(arg) for arg in err.args] + [msg]),)
+    else:
+        err.strerror += "; " + msg
     raise err
 
 
-- 
2.43.0


From 98f8b38f11a716d4beba4d76d5496f66a6b9a7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 16/17] fix: import when git prints garbage or fails midway

---
 pvfactors/_version.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pvfactors/_version.py b/pvfactors/_version.py
index 8c41c0b..b68440c 100644
--- a/pvfactors/_version.py
+++ b/pvfactors/_version.py
@@ -95,7 +95,7 @@ def run_command(commands, args, cwd=None, verbose=False, hide_stderr=False,
         return None, None
     stdout = p.communicate()[0].strip()
     if sys.version_info[0] >= 3:
-        stdout = stdout.decode()
+        stdout = stdout.decode(errors="replace")
     if p.returncode != 0:
         if verbose:
             print("unable to run %s (error)" % dispcmd)
@@ -295,11 +295,16 @@ def git_pieces_from_vcs(tag_prefix, root, verbose, run_command=run_command):
         pieces["closest-tag"] = None
         count_out, rc = run_command(GITS, ["rev-list", "HEAD", "--count"],
                                     cwd=root)
-        pieces["distance"] = int(count_out)  # total number of commits
+        try:
+            pieces["distance"] = int(count_out)  # total number of commits
+        except (TypeError, ValueError):
+            raise NotThisMethod("'git rev-list' failed")
 
     # commit date: see ISO-8601 comment in git_versions_from_keywords()
-    date = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
-                       cwd=root)[0].strip()
+    date, rc = run_command(GITS, ["show", "-s", "--format=%ci", "HEAD"],
+                           cwd=root)
+    if date is None:
+        raise NotThisMethod("'git show' failed")
     pieces["date"] = date.strip().replace(" ", "T", 1).replace(" ", "", 1)
 
     return pieces
-- 
2.43.0


From 09957f9ad629ba3deb8a5a0e470d2b1dd8e2b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 17/17] fix: leave the reports given to merge as they are

---
 pvfactors/report.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pvfactors/report.py b/pvfactors/report.py
index 01e15da..c5d3260 100644
--- a/pvfactors/report.py
+++ b/pvfactors/report.py
@@ -62,10 +62,10 @@ class ExampleReportBuilder(object):
         report : dict
             Final report with all concatenated values
         """
-        report = reports[0]
+        # use new lists, in order to leave the merged reports as they are
+        report = {key: list(values) for key, values in reports[0].items()}
         # merge other reports if any
-        keys_report = list(reports[0].keys())
         for other_report in reports[1:]:
-            for key in keys_report:
+            for key in report:
                 report[key] += other_report[key]
         return report
-- 
2.43.0

