From 0d69d105132c57efa4df88b862ca2ebd1b951dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:55 +0000
Subject: [PATCH 01/10] fix: isotropic model drops the light passing through
 modules on shaded front surfaces

total_perez['front_shaded_pvrow'] removed all direct light, while the surfaces
themselves (and the hybrid Perez model) receive what passes through the
module spacing and the transparent modules.
---
 pvfactors/irradiance/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 904c44c..8a97f1f 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -180,7 +180,8 @@ class IsotropicOrdered(BaseModel):
         self.total_perez['front_illum_pvrow'] = perez_front_pvrow['poa_global']
         self.total_perez['front_shaded_pvrow'] = (
             self.total_perez['front_illum_pvrow']
-            - self.direct['front_illum_pvrow'])
+            - self.direct['front_illum_pvrow']
+            + self.direct['front_shaded_pvrow'])
         self.total_perez['ground_shaded'] = (self.DHI
                                              + self.direct['ground_shaded'])
 
-- 
2.43.0


From 25889bb9784233cb6dea4386231824ccea805f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:09 +0000
Subject: [PATCH 02/10] fix: non-point ground surfaces are selected at the
 requested index

TsGround.non_point_shaded_surfaces_at(idx) and non_point_illum_surfaces_at(idx)
looked at index 0 whatever index was asked for.
---
 pvfactors/geometry/pvground.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/pvground.py b/pvfactors/geometry/pvground.py
index f336c2a..1890317 100644
--- a/pvfactors/geometry/pvground.py
+++ b/pvfactors/geometry/pvground.py
@@ -522,7 +522,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for shadow_el in self.shadow_elements:
-            list_surfaces += shadow_el.non_point_surfaces_at(0)
+            list_surfaces += shadow_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_illum_surfaces_at(self, idx):
@@ -540,7 +540,7 @@ class TsGround(object):
         """
         list_surfaces = []
         for illum_el in self.illum_elements:
-            list_surfaces += illum_el.non_point_surfaces_at(0)
+            list_surfaces += illum_el.non_point_surfaces_at(idx)
         return list_surfaces
 
     def non_point_surfaces_at(self, idx):
-- 
2.43.0


From 9c33250a3c9c77df970178a71a8743f4bd8b1dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:26 +0000
Subject: [PATCH 03/10] fix: building the AOI view factors no longer overwrites
 the view factor matrix

With fAOI functions the AOI matrix was filled in place into the matrix
returned by build_ts_vf_matrix, so pvarray.ts_vf_matrix held AOI factors.
---
 pvfactors/viewfactors/calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pvfactors/viewfactors/calculator.py b/pvfactors/viewfactors/calculator.py
index aa8e844..59e5048 100644
--- a/pvfactors/viewfactors/calculator.py
+++ b/pvfactors/viewfactors/calculator.py
@@ -153,7 +153,7 @@ class VFCalculator(object):
         n_ts_surfaces = pvarray.n_ts_surfaces
         vf_aoi_matrix = np.zeros(
             (n_ts_surfaces + 1, n_ts_surfaces + 1, n_steps),
-            dtype=float) if self.vf_matrix is None else self.vf_matrix
+            dtype=float) if self.vf_matrix is None else self.vf_matrix.copy()
 
         # Get timeseries objects
         ts_ground = pvarray.ts_ground
-- 
2.43.0


From a8b1ca9d167071101754fad4c4debe06bfba4b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:35 +0000
Subject: [PATCH 04/10] fix: difference of a line with a longer line covering
 it is empty

---
 pvfactors/geometry/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pvfactors/geometry/utils.py b/pvfactors/geometry/utils.py
index 8025768..576c9ae 100644
--- a/pvfactors/geometry/utils.py
+++ b/pvfactors/geometry/utils.py
@@ -67,6 +67,8 @@ def difference(u, v):
             return LineString([ub1, vb2])
         else:
             return u
+    elif v_contains_ub1 and v_contains_ub2:
+        return LineString()
     else:
         return u
 
-- 
2.43.0


From b0be724753fde67f7ccf82926dcbb57372c95330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:35 +0000
Subject: [PATCH 05/10] fix: merged surfaces stay on their line when it goes
 down

---
 pvfactors/geometry/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 4cc7d1d..37c2840 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -466,6 +466,10 @@ class ShadeCollection(GeometryCollection):
             merged_lines = linemerge(self.list_surfaces)
             minx, miny, maxx, maxy = merged_lines.bounds
             surf_1 = self.list_surfaces[0]
+            b1, b2 = surf_1.boundary
+            if (b2.x - b1.x) * (b2.y - b1.y) < 0.:
+                # the surfaces are on a line going down
+                miny, maxy = maxy, miny
             new_pvsurf = PVSurface(
                 coords=[(minx, miny), (maxx, maxy)],
                 shaded=self.shaded, normal_vector=surf_1.n_vector,
-- 
2.43.0


From 90629192bddd7571b9bfc43a0381c88326e0d138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:35 +0000
Subject: [PATCH 06/10] fix: shadows can be cast on several separate
 illuminated surfaces

---
 pvfactors/geometry/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 37c2840..458de32 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -706,12 +706,13 @@ class PVSegment(GeometryCollection):
                         .intersection(linestring))
         if not intersection.is_empty:
             # Split up only if interesects the illuminated collection
-            # print(intersection)
-            self._shaded_collection.add_linestring(intersection,
-                                                   normal_vector=self.n_vector)
-            # print(self._shaded_collection.length)
-            self._illum_collection.remove_linestring(intersection)
-            # print(self._illum_collection.length)
+            # The intersection has several parts when some surfaces between
+            # illuminated ones are already shaded
+            n_vector = self.n_vector
+            for part in getattr(intersection, 'geoms', [intersection]):
+                self._shaded_collection.add_linestring(part,
+                                                       normal_vector=n_vector)
+                self._illum_collection.remove_linestring(part)
             super(PVSegment, self).__init__([self._shaded_collection,
                                              self._illum_collection])
 
-- 
2.43.0


From 9cce283d3acd3289339221bbc36f1cfa3d6e2fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:35 +0000
Subject: [PATCH 07/10] fix: PV segments do not share their default shade
 collections

---
 pvfactors/geometry/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 458de32..7955b0e 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -613,8 +613,8 @@ class PVSegment(GeometryCollection):
     call basic geometrical methods and properties on it, eg call length, etc.
     """
 
-    def __init__(self, illum_collection=ShadeCollection(shaded=False),
-                 shaded_collection=ShadeCollection(shaded=True), index=None):
+    def __init__(self, illum_collection=None, shaded_collection=None,
+                 index=None):
         """Initialize PV segment.
 
         Parameters
@@ -630,6 +630,10 @@ class PVSegment(GeometryCollection):
         index : int, optional
             Index of the PV segment (Default = None)
         """
+        if illum_collection is None:
+            illum_collection = ShadeCollection(shaded=False)
+        if shaded_collection is None:
+            shaded_collection = ShadeCollection(shaded=True)
         assert shaded_collection.shaded, "surface should be shaded"
         assert not illum_collection.shaded, "surface should not be shaded"
         self._check_collinear(illum_collection, shaded_collection)
-- 
2.43.0


From f864d3b2131a268fff668711ba6dc75747b5095d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:02 +0000
Subject: [PATCH 08/10] fix: the list of all surfaces follows shadows cast and
 cuts made later

---
 pvfactors/geometry/base.py  | 20 ++++++++------------
 pvfactors/geometry/pvrow.py | 10 ++++------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/pvfactors/geometry/base.py b/pvfactors/geometry/base.py
index 7955b0e..56336d3 100644
--- a/pvfactors/geometry/base.py
+++ b/pvfactors/geometry/base.py
@@ -640,7 +640,6 @@ class PVSegment(GeometryCollection):
         self._shaded_collection = shaded_collection
         self._illum_collection = illum_collection
         self.index = index
-        self._all_surfaces = None
         super(PVSegment, self).__init__([self._shaded_collection,
                                          self._illum_collection])
 
@@ -922,11 +921,10 @@ class PVSegment(GeometryCollection):
         list of :py:class:`~pvfactors.geometry.base.PVSurface`
             PV surfaces in the PV segment
         """
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self._illum_collection.list_surfaces
-            self._all_surfaces += self._shaded_collection.list_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        all_surfaces += self._illum_collection.list_surfaces
+        all_surfaces += self._shaded_collection.list_surfaces
+        return all_surfaces
 
 
 class BaseSide(GeometryCollection):
@@ -944,7 +942,6 @@ class BaseSide(GeometryCollection):
         list_segments = [] if list_segments is None else list_segments
         check_collinear(list_segments)
         self.list_segments = tuple(list_segments)
-        self._all_surfaces = None
         super(BaseSide, self).__init__(list_segments)
 
     @classmethod
@@ -1017,11 +1014,10 @@ class BaseSide(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all surfaces in the Side object."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            for segment in self.list_segments:
-                self._all_surfaces += segment.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        for segment in self.list_segments:
+            all_surfaces += segment.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
diff --git a/pvfactors/geometry/pvrow.py b/pvfactors/geometry/pvrow.py
index 66fe966..74ebd29 100644
--- a/pvfactors/geometry/pvrow.py
+++ b/pvfactors/geometry/pvrow.py
@@ -695,7 +695,6 @@ class PVRow(GeometryCollection):
         self.back = back_side
         self.index = index
         self.original_linestring = original_linestring
-        self._all_surfaces = None
         super(PVRow, self).__init__([self.front, self.back])
 
     @classmethod
@@ -832,11 +831,10 @@ class PVRow(GeometryCollection):
     @property
     def all_surfaces(self):
         """List of all the surfaces in the PV row."""
-        if self._all_surfaces is None:
-            self._all_surfaces = []
-            self._all_surfaces += self.front.all_surfaces
-            self._all_surfaces += self.back.all_surfaces
-        return self._all_surfaces
+        all_surfaces = []
+        all_surfaces += self.front.all_surfaces
+        all_surfaces += self.back.all_surfaces
+        return all_surfaces
 
     @property
     def surface_indices(self):
-- 
2.43.0


From 75f79516c7c0b983a53756a0df025632ffd95edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:53 +0000
Subject: [PATCH 09/10] fix: circumsolar luminance is defined when the sun is
 in the plane of the rows

---
 pvfactors/irradiance/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pvfactors/irradiance/utils.py b/pvfactors/irradiance/utils.py
index b25a582..80a8cd3 100644
--- a/pvfactors/irradiance/utils.py
+++ b/pvfactors/irradiance/utils.py
@@ -67,8 +67,12 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
     aoi_proj = irradiance.aoi_projection(
         df_inputs.surface_tilt, df_inputs.surface_azimuth,
         df_inputs.solar_zenith, df_inputs.solar_azimuth)
-    sun_hitting_back_surface = ((aoi_proj < 0) &
-                                (df_inputs.solar_zenith <= 90))
+    # ... or when the sun is in the plane of the pvrow (up to round-off): the
+    # circumsolar view factor of the front surface is also 0 then
+    sun_in_plane = np.abs(aoi_proj) < 1e-10
+    sun_hitting_back_surface = (((aoi_proj < 0) | sun_in_plane) &
+                                (df_inputs.solar_zenith <= 90) &
+                                (df_inputs.surface_tilt != 0))
     df_inputs_back_surface = df_inputs.loc[sun_hitting_back_surface].copy()
     # Reverse the surface normal to switch to back-surface circumsolar calc
     df_inputs_back_surface.loc[:, 'surface_azimuth'] = (
@@ -76,7 +80,9 @@ def perez_diffuse_luminance(timestamps, surface_tilt, surface_azimuth,
     df_inputs_back_surface.loc[:, 'surface_azimuth'] = np.mod(
         df_inputs_back_surface.loc[:, 'surface_azimuth'], 360.
     )
-    df_inputs_back_surface.loc[:, 'surface_tilt'] = (
+    # The back surface does not see a sun in its plane: use a horizontal one
+    df_inputs_back_surface.loc[:, 'surface_tilt'] = np.where(
+        sun_in_plane[sun_hitting_back_surface], 0.,
         180. - df_inputs_back_surface.surface_tilt)
 
     if df_inputs_back_surface.shape[0] > 0:
-- 
2.43.0


From 3c263f99a016b9ede8ff0cb464f9d4d7d9bb5b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:43 +0000
Subject: [PATCH 10/10] fix: circumsolar light on the back surface uses the
 view factor of the Perez model when the sun is low

---
 pvfactors/irradiance/models.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pvfactors/irradiance/models.py b/pvfactors/irradiance/models.py
index 8a97f1f..35e83d3 100644
--- a/pvfactors/irradiance/models.py
+++ b/pvfactors/irradiance/models.py
@@ -1005,9 +1005,10 @@ class HybridPerezOrdered(BaseModel):
             surface_tilt, surface_azimuth, solar_zenith, solar_azimuth)
         aoi_back_pvrow = 180. - aoi_front_pvrow
 
-        # Will be used for back surface adjustments: from Perez model
-        # FIXME: pvlib clips the angle values to calculate vf -> adjust here
-        vf_circumsolar_backsurface = cosd(aoi_back_pvrow) / cosd(solar_zenith)
+        # Will be used for back surface adjustments: from Perez model, which
+        # clips the angle values to calculate the view factor
+        vf_circumsolar_backsurface = (
+            cosd(aoi_back_pvrow) / np.maximum(cosd(solar_zenith), cosd(85.)))
         poa_circumsolar_back = (luminance_circumsolar
                                 * vf_circumsolar_backsurface)
 
-- 
2.43.0

