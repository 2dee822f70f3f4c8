From ee1bc66cd08acbd08a66e0bf082fe7c7f3a89db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:30 +0000
Subject: [PATCH 01/47] fix: import sin, cos and sqrt used by the conductivity
 tensor and curve interpolation

---
 hyvr/optimized.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/optimized.py b/hyvr/optimized.py
index b317e72..ac68241 100644
--- a/hyvr/optimized.py
+++ b/hyvr/optimized.py
@@ -4,6 +4,8 @@ This module contains optimized versions of routines that were once in sim or uti
 :Author: Samuel Scherrer
 """
 
+from math import sin, cos, sqrt
+
 import numpy as np
 import numpy.typing as npt
 
-- 
2.43.0


From 3467f0e24c1af91211823a4328eaa7679ae282bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:30 +0000
Subject: [PATCH 02/47] fix: contact_surface can be imported and rejects
 unknown surface modes

---
 hyvr/geo/contact_surface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyvr/geo/contact_surface.py b/hyvr/geo/contact_surface.py
index 82637c5..67608c7 100644
--- a/hyvr/geo/contact_surface.py
+++ b/hyvr/geo/contact_surface.py
@@ -32,12 +32,15 @@ class ContactSurface:
             self.zmin = self.z
             self.zmax = self.z
 
-        elif self.mode == "dem":
+        elif kwargs['mode'] == "dem":
             raise NotImplementedError("This is not implemented yet!")
 
+        else:
+            raise ValueError("Unknown contact surface mode: " + str(kwargs['mode']))
 
 
-    def use_lower_surface_value(self, other_surface: ContactSurface ):
+
+    def use_lower_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
@@ -48,7 +51,7 @@ class ContactSurface:
 
 
 
-    def use_higher_surface_value(self, other_surface: ContactSurface ):
+    def use_higher_surface_value(self, other_surface: "ContactSurface"):
         other_surf = other_surface.surface
         for i in range(self.nx):
             for j in range(self.ny):
-- 
2.43.0


From 90e05b94174a90c78f73743d91adb3f502d9565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:56 +0000
Subject: [PATCH 03/47] fix: use np.float64, the alias np.float no longer
 exists in numpy

---
 hyvr/assign_points.py      |  6 +++---
 hyvr/geo/ae_realization.py |  4 ++--
 hyvr/geo/channel_ae.pyx    | 28 ++++++++++++++--------------
 hyvr/geo/model.py          |  8 ++++----
 hyvr/geo/sheet_ae.py       | 16 ++++++++--------
 hyvr/geo/sheet_ae.pyx      | 16 ++++++++--------
 hyvr/geo/trough_ae.pyx     | 34 +++++++++++++++++-----------------
 hyvr/utils.py              |  2 +-
 8 files changed, 57 insertions(+), 57 deletions(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index d4b5669..aefcdf7 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -61,13 +61,13 @@ def assign_points(model):
     hat_array = -1*np.ones((nx, ny, nz), dtype=np.int32)
 
     # angles
-    azim_array = np.zeros((nx, ny, nz), dtype=np.float)
-    dip_array = np.zeros((nx, ny, nz), dtype=np.float)
+    azim_array = np.zeros((nx, ny, nz), dtype=np.float64)
+    dip_array = np.zeros((nx, ny, nz), dtype=np.float64)
 
 
     # container for passing facies, ae, ha, and hat, and azimuth and dip
     geo_ids = np.empty(4, dtype=np.int32)
-    angles = np.empty(2, dtype=np.float)
+    angles = np.empty(2, dtype=np.float64)
 
     total_n = nx * ny
 
diff --git a/hyvr/geo/ae_realization.py b/hyvr/geo/ae_realization.py
index 4988634..d7a04e9 100644
--- a/hyvr/geo/ae_realization.py
+++ b/hyvr/geo/ae_realization.py
@@ -117,8 +117,8 @@ class AERealization:
         self.object_zmins = np.array(self.object_zmin_list)
         self.object_zmaxs = np.array(self.object_zmax_list)
         # get the rest from the object list
-        self.object_azim = np.zeros(self.n_objects, dtype=np.float)
-        self.object_dip = np.zeros(self.n_objects, dtype=np.float)
+        self.object_azim = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_dip = np.zeros(self.n_objects, dtype=np.float64)
         self.object_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_ha = np.zeros(self.n_objects, dtype=np.int32)
         self.object_num_facies = np.zeros(self.n_objects, dtype=np.int32)
diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 43edc15..4a1bad5 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -16,17 +16,17 @@ cdef class ChannelAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i, nx, ny, j, k, max_len_centerline
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_width = np.zeros(self.n_objects, dtype=np.float)
-        self.object_depth = np.zeros(self.n_objects, dtype=np.float)
-        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_width = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_depth = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_min_dx_dy = np.zeros(self.n_objects, dtype=np.float64)
         self.object_len_centerline = np.zeros(self.n_objects, dtype=np.int32)
-        self.object_ztop = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float)
+        self.object_ztop = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sin_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cos_dip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag_height = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
@@ -59,10 +59,10 @@ cdef class ChannelAE(AERealization):
             max_len_centerline = np.max(self.object_len_centerline)
         else:
             max_len_centerline = 0
-        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
-        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float)
+        self.object_x_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_y_center = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vx = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
+        self.object_vy = np.zeros((self.n_objects, max_len_centerline), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             for j in range(self.object_len_centerline[i]):
diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 8ffb396..b6e5503 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -175,13 +175,13 @@ class Model:
         # Initialise storage arrays:
         # hydraulic conductivity
         self.data['k_iso'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # porosity
         self.data['poros' ]= np.zeros((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
         # anisotropy ratio
         self.data['anirat' ]= np.ones((self.grid.nx, self.grid.ny, self.grid.nz),
-                                      dtype=np.float)
+                                      dtype=np.float64)
 
         k_iso = self.data['k_iso']
         poros = self.data['poros']
@@ -289,7 +289,7 @@ class Model:
                 anirat[fac == hyi] = hydraulics['k_ratio'][hy_idx]
 
         # Assignment of anisotropy
-        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float)
+        self.data['ktensors'] = np.zeros((self.grid.nx, self.grid.ny, self.grid.nz, 3, 3), dtype=np.float64)
         ho.set_anisotropic_ktensor(self.data['ktensors'], k_iso, azim*np.pi/180, dip*np.pi/180, anirat)
 
 
diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index 1c15e83..d1ec85c 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -14,20 +14,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
diff --git a/hyvr/geo/sheet_ae.pyx b/hyvr/geo/sheet_ae.pyx
index 4123a52..a11d644 100644
--- a/hyvr/geo/sheet_ae.pyx
+++ b/hyvr/geo/sheet_ae.pyx
@@ -9,20 +9,20 @@ class SheetAE(AERealization):
 
     def create_object_arrays(self):
 
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_bottom_surface_zmean = np.zeros(self.n_objects, dtype=np.float64)
         self.object_dipsets = np.zeros(self.n_objects, dtype=np.int32)
 
         if self.n_objects > 0:
             nx, ny = self.object_list[0].bottom_surface.surface.shape
         else:
             nx, ny = 0, 0
-        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
-        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float)
+        self.object_bottom_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
+        self.object_top_surface = np.zeros((self.n_objects, nx, ny), dtype=np.float64)
 
         for i, obj in enumerate(self.object_list):
             self.object_shift[i] = obj.shift
diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 5f05c34..54565ab 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -17,23 +17,23 @@ cdef class TroughAE(AERealization):
     cpdef create_object_arrays(self):
         # This is super ugly :(
         cdef int i
-        self.object_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_z = np.zeros(self.n_objects, dtype=np.float)
-        self.object_a = np.zeros(self.n_objects, dtype=np.float)
-        self.object_b = np.zeros(self.n_objects, dtype=np.float)
-        self.object_c = np.zeros(self.n_objects, dtype=np.float)
-        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float)
-        self.object_alpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float)
-        self.object_lag = np.zeros(self.n_objects, dtype=np.float)
-        self.object_shift = np.zeros(self.n_objects, dtype=np.float)
-        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float)
-        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float)
-        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float)
+        self.object_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_z = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_a = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_b = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_c = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_max_ab = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_alpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_sinalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosalpha = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_lag = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_shift = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_cosdip = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_layer_dist = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_x = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_y = np.zeros(self.n_objects, dtype=np.float64)
+        self.object_normvec_z = np.zeros(self.n_objects, dtype=np.float64)
         self.object_lag_facies = np.zeros(self.n_objects, dtype=np.int32)
         self.object_structure = np.zeros(self.n_objects, dtype=np.int32)
 
diff --git a/hyvr/utils.py b/hyvr/utils.py
index c192bf7..a304522 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -66,7 +66,7 @@ import errno
 #     meta['no_Data'] = linecache.getline(fn, 6).split()[1]
 
 #     # Extract data using pandas
-#     df = pd.read_csv(fn, header=None, delimiter=' ', skiprows=6, dtype=np.float)
+#     df = pd.read_csv(fn, header=None, delimiter=' ', skiprows=6, dtype=np.float64)
 #     data = df.as_matrix()
 
 #     return data, meta
-- 
2.43.0


From 466ddcd221a4852b110f74eb97e45a8ee7ad8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:56 +0000
Subject: [PATCH 04/47] fix: the domain top is at z0 + lz, not at lz

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b6e5503..f58943c 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -106,7 +106,7 @@ class Model:
             'strata',
         ]
 
-        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.lz)
+        top_surface = ContactSurface(self.grid, mode='flat', z=self.grid.zmax)
         for si in range(self.n_strata):
             # create top surface
             if si == self.n_strata - 1:
-- 
2.43.0


From 46737d2534cab50fbbd17177b6c20297b1f93370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:56 +0000
Subject: [PATCH 05/47] fix: limit a sheet's bottom, not its top, to the bottom
 of its element

---
 hyvr/geo/sheet_ae.py  | 2 +-
 hyvr/geo/sheet_ae.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/sheet_ae.py b/hyvr/geo/sheet_ae.py
index d1ec85c..8a1b806 100644
--- a/hyvr/geo/sheet_ae.py
+++ b/hyvr/geo/sheet_ae.py
@@ -87,7 +87,7 @@ class SheetAE(AERealization):
                 # close to the bottom it might also be possible that the AE
                 # bottom is higher than the current bottom, so we have to use
                 # the higher value
-                top_surface.use_higher_surface_value(self.bottom_surface)
+                bottom_surface.use_higher_surface_value(self.bottom_surface)
 
             else:
                 last_sheet = True
diff --git a/hyvr/geo/sheet_ae.pyx b/hyvr/geo/sheet_ae.pyx
index a11d644..bcf3483 100644
--- a/hyvr/geo/sheet_ae.pyx
+++ b/hyvr/geo/sheet_ae.pyx
@@ -82,7 +82,7 @@ class SheetAE(AERealization):
                 # close to the bottom it might also be possible that the AE
                 # bottom is higher than the current bottom, so we have to use
                 # the higher value
-                top_surface.use_higher_surface_value(self.bottom_surface)
+                bottom_surface.use_higher_surface_value(self.bottom_surface)
 
             else:
                 last_sheet = True
-- 
2.43.0


From ff2674ee5bda766204374994199a841c130d8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:56 +0000
Subject: [PATCH 06/47] fix: cells exactly on a contact surface belong to the
 element

---
 hyvr/assign_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/assign_points.py b/hyvr/assign_points.py
index aefcdf7..e192f3f 100644
--- a/hyvr/assign_points.py
+++ b/hyvr/assign_points.py
@@ -315,7 +315,7 @@ def maybe_assign_points_to_ae(
         return 0
     z_above = top_surface[x_idx, y_idx]
     z_below = bottom_surface[x_idx, y_idx]
-    if z_below < z and z < z_above:
+    if z_below <= z and z <= z_above:
         geo_ids[0] = ae.bg_facies
         angles[0] = ae.bg_azim
         angles[1] = ae.bg_dip
-- 
2.43.0


From 4e5b415f61749ac614fba57bd9ea842bed9d5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:56 +0000
Subject: [PATCH 07/47] fix: object numbers reach the array that is used to
 assign ha

---
 hyvr/geo/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index f58943c..0b9bb94 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -144,8 +144,9 @@ class Model:
             for ae in stratum.aes:
                 ae.num = num_ae
                 num_ae += 1
-                for obj in ae.object_list:
+                for oi, obj in enumerate(ae.object_list):
                     obj.num_ha = num_ha
+                    ae.object_num_ha[oi] = num_ha
                     num_ha += 1
 
 
-- 
2.43.0


From 11ab9efc403e249b7f664aa91c10b2ef6dfe1747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:22 +0000
Subject: [PATCH 08/47] fix: dipping layers of sheets follow the azimuth and
 dip of their cells

---
 hyvr/geo/sheet.py  | 4 ++--
 hyvr/geo/sheet.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index eeed2e8..8259cf6 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -49,8 +49,8 @@ class Sheet:
             cos_dip = np.cos(self.dip*np.pi/180)
             sin_azim = np.sin(self.azim*np.pi/180)
             cos_azim = np.cos(self.azim*np.pi/180)
-            self.normvec_x = -sin_dip*cos_azim
-            self.normvec_y = sin_dip*sin_azim
+            self.normvec_x = sin_dip*cos_azim
+            self.normvec_y = -sin_dip*sin_azim
             self.normvec_z = cos_dip
 
 
diff --git a/hyvr/geo/sheet.pyx b/hyvr/geo/sheet.pyx
index 48c1bfd..d6c1c44 100644
--- a/hyvr/geo/sheet.pyx
+++ b/hyvr/geo/sheet.pyx
@@ -45,8 +45,8 @@ cdef class Sheet:
             cos_dip = cos(self.dip*np.pi/180)
             sin_azim = sin(self.azim*np.pi/180)
             cos_azim = cos(self.azim*np.pi/180)
-            self.normvec_x = -sin_dip*cos_azim
-            self.normvec_y = sin_dip*sin_azim
+            self.normvec_x = sin_dip*cos_azim
+            self.normvec_y = -sin_dip*sin_azim
             self.normvec_z = cos_dip
 
 
-- 
2.43.0


From 61e05cecd7b7a7eb7fb1ce167a05ea2989e46da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:22 +0000
Subject: [PATCH 09/47] fix: sheets have enough layers for the whole domain

---
 hyvr/geo/sheet.py  | 5 +++--
 hyvr/geo/sheet.pyx | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index 8259cf6..cca782c 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -73,9 +73,10 @@ class Sheet:
             self.shift += np.random.rand() * self.layer_dist
 
 
-            # The maximum amount of necessary layers is max(lx, ly, lz)/layer_dist
+            # No cell is farther away from the zero-plane than
+            # lx/2 + ly/2 + lz, on both of its sides
             # 10 is added just to be sure
-            self.num_facies = int(np.ceil((max(grid.ly, grid.ly, grid.lz) + self.shift)/self.layer_dist)) + 10
+            self.num_facies = int(np.ceil((grid.lx + grid.ly + 2*grid.lz)/self.layer_dist)) + 10
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
diff --git a/hyvr/geo/sheet.pyx b/hyvr/geo/sheet.pyx
index d6c1c44..5bb97de 100644
--- a/hyvr/geo/sheet.pyx
+++ b/hyvr/geo/sheet.pyx
@@ -69,9 +69,10 @@ cdef class Sheet:
             self.shift += np.random.rand() * self.layer_dist
 
 
-            # The maximum amount of necessary layers is max(lx, ly, lz)/layer_dist
+            # No cell is farther away from the zero-plane than
+            # lx/2 + ly/2 + lz, on both of its sides
             # 10 is added just to be sure
-            self.num_facies = int(np.ceil((max(grid.ly, grid.ly, grid.lz) + self.shift)/self.layer_dist)) + 10
+            self.num_facies = int(np.ceil((grid.lx + grid.ly + 2*grid.lz)/self.layer_dist)) + 10
             self.facies_array = hu.get_alternating_facies(self.num_facies, type_params)
         else:
             # massive internal structure
-- 
2.43.0


From 8d98e1345c672af76837bd175809fa007cec9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:22 +0000
Subject: [PATCH 10/47] fix: sheet attributes that its structure does not use
 have a value

---
 hyvr/geo/sheet.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyvr/geo/sheet.py b/hyvr/geo/sheet.py
index cca782c..76ca8b6 100644
--- a/hyvr/geo/sheet.py
+++ b/hyvr/geo/sheet.py
@@ -11,18 +11,18 @@ class Sheet:
     This class holds parameters for single sheet objects.
     """
     dipsets: npt.NDArray[np.float64]
-    num_facies: npt.NDArray[np.float64]
+    num_facies: npt.NDArray[np.float64] = 0
     zmin: npt.NDArray[np.float64]
     zmax: npt.NDArray[np.float64]
     dip: npt.NDArray[np.float64]
     azim: npt.NDArray[np.float64]
-    shift: npt.NDArray[np.float64]
-    layer_dist: npt.NDArray[np.float64]
-    normvec_x: npt.NDArray[np.float64]
-    normvec_y: npt.NDArray[np.float64]
-    normvec_z: npt.NDArray[np.float64]
-    facies: npt.NDArray[np.int32]
-    num_ha: npt.NDArray[np.int32]
+    shift: npt.NDArray[np.float64] = 0
+    layer_dist: npt.NDArray[np.float64] = 0
+    normvec_x: npt.NDArray[np.float64] = 0
+    normvec_y: npt.NDArray[np.float64] = 0
+    normvec_z: npt.NDArray[np.float64] = 0
+    facies: npt.NDArray[np.int32] = 0
+    num_ha: npt.NDArray[np.int32] = 0
     facies_array: npt.NDArray[np.int32]
     bottom_surface: ContactSurface
     top_surface: ContactSurface
-- 
2.43.0


From 4be007ac601a8da255fcabff5697ec3324856c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:38 +0000
Subject: [PATCH 11/47] fix: homogeneous parameters are read for all
 hydrofacies, also in the new ini-file format

---
 hyvr/geo/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 0b9bb94..b0ec5db 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -283,7 +283,7 @@ class Model:
 
         else:
             # Homogeneous case
-            for hy_idx, hyi in enumerate(hydraulics['hydro']):
+            for hy_idx, hyi in enumerate(hydraulics['hydrofacies']):
                 hyi = hy_idx
                 k_iso[fac == hyi] = hydraulics['k_h'][hy_idx]
                 poros[fac == hyi] = hydraulics['n'][hy_idx]
-- 
2.43.0


From a3bf3b1516bc8e7bf1ed4b3cc16325bb0cee474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:38 +0000
Subject: [PATCH 12/47] fix: background parameters are assigned to cells
 without object, not to the first object

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index b0ec5db..f0a9b30 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -228,9 +228,9 @@ class Model:
                 # for si, aei in enumerate(ae_lu):
                 for stratum in self.strata:
                     for ae in stratum.aes:
-                        m0 = ha_arr == 0
+                        m0 = ha_arr == -1
                         ms = ae_arr == ae.num
-                        ae_mask = m0 & ms     # Get material that equals zero within in architectural element
+                        ae_mask = m0 & ms     # Get cells without object within the architectural element
                         if np.all(ae_mask == False):
                             continue
 
-- 
2.43.0


From 2646c854274a15a6af6f64c42f0c75622281c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 13/47] fix: element trends change the cells of the element
 only

---
 hyvr/geo/model.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index f0a9b30..7a95c36 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -257,14 +257,18 @@ class Model:
                         # Assign background anisotropy ratio
                         anirat[ae_mask] = hydraulics['k_ratio'][ae_bg_facies]
 
-                        # Assign architectural element trends
-                        if ae.type_params['k_ztrend'] is not None:
-                            # Vertical trend
-                            zf_vec = np.linspace(*ae.type_params['k_ztrend'], self.grid.nz)  # Z factor at each elevation
-                            k_iso *= zf_vec
-                        if ae.type_params['k_xtrend'] is not None:
-                            xf_vec = np.linspace(*ae.type_params['k_xtrend'], self.grid.nx)
-                            k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                """ Assign architectural element trends to the cells of the element """
+                for stratum in self.strata:
+                    for ae in stratum.aes:
+                        ms = ae_arr == ae.num
+                        for name, values in [('k', k_iso), ('n', poros)]:
+                            if ae.type_params[name + '_ztrend'] is not None:
+                                # Vertical trend
+                                zf_vec = np.linspace(*ae.type_params[name + '_ztrend'], self.grid.nz)  # Z factor at each elevation
+                                values[ms] *= np.broadcast_to(zf_vec, values.shape)[ms]
+                            if ae.type_params[name + '_xtrend'] is not None:
+                                xf_vec = np.linspace(*ae.type_params[name + '_xtrend'], self.grid.nx)
+                                values[ms] *= np.broadcast_to(xf_vec[:, np.newaxis, np.newaxis], values.shape)[ms]
 
                 """ Assign trends to hydraulic parameters globally """
                 if hydraulics['k_ztrend'] is not None:
-- 
2.43.0


From 868dc6e1f1f4f705875deb154c3e0775a5a74432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:07 +0000
Subject: [PATCH 14/47] fix: x-trends reach the saved conductivity and porosity

---
 hyvr/geo/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/model.py b/hyvr/geo/model.py
index 7a95c36..fc5dcff 100644
--- a/hyvr/geo/model.py
+++ b/hyvr/geo/model.py
@@ -276,14 +276,14 @@ class Model:
                     k_iso *= zf_vec
                 if hydraulics['k_xtrend'] is not None:
                     xf_vec = np.linspace(*hydraulics['k_xtrend'], self.grid.nx)
-                    k_iso = np.transpose(k_iso.transpose() * xf_vec)
+                    k_iso *= xf_vec[:, np.newaxis, np.newaxis]
 
                 if hydraulics['n_ztrend'] is not None:
                     zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)  # Z factor at each elevation
                     poros *= zf_vec
                 if hydraulics['n_xtrend'] is not None:
                    xf_vec = np.linspace(*hydraulics['n_xtrend'], self.grid.nx)
-                   poros = np.transpose(poros.transpose() * xf_vec)
+                   poros *= xf_vec[:, np.newaxis, np.newaxis]
 
         else:
             # Homogeneous case
-- 
2.43.0


From 67e7ef2482a07d4f63435d93c99a59449575e62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 15/47] fix: do not start the debugger for an empty selection

---
 hyvr/utils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index a304522..615b008 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -464,10 +464,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
 
         else:
             x_idx, y_idx, z_idx = np.where(selection_mask)
-            try:
-                min_x_idx = min(x_idx)
-            except:
-                import pdb; pdb.set_trace()
+            min_x_idx = np.min(x_idx)
             max_x_idx = np.max(x_idx)
             min_y_idx = np.min(y_idx)
             max_y_idx = np.max(y_idx)
-- 
2.43.0


From a4a977b641c307b14670eb7f7391844b76b73454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:23 +0000
Subject: [PATCH 16/47] fix: remove only the mean of a random field

---
 hyvr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/utils.py b/hyvr/utils.py
index 615b008..99fb775 100644
--- a/hyvr/utils.py
+++ b/hyvr/utils.py
@@ -509,7 +509,7 @@ def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussia
     # Power spectrum of variable
     syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot
     syy = np.abs(syy)       # Remove imaginary artifacts
-    syy[0] = 0
+    syy[(0,)*syy.ndim] = 0
 
     real = np.random.randn(*syy.shape)
     imag = np.random.randn(*syy.shape)
-- 
2.43.0


From 59c357a8a2ab918300c9a97881b2f2a703d4e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 17/47] fix: a missing contact_model is reported as missing
 option

---
 hyvr/input/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/options.py b/hyvr/input/options.py
index a4edcab..1cfde56 100644
--- a/hyvr/input/options.py
+++ b/hyvr/input/options.py
@@ -78,7 +78,7 @@ options['strata'] = [
 element_options = [
     Option('geometry', str, optional=False,
            validation_func=lambda x: x in ['trough', 'channel', 'sheet']),
-    Option('contact_model', list, optional=True, shape=[-1], datatype=str),
+    Option('contact_model', list, optional=False, shape=[-1], datatype=str),
     Option('facies', list, optional=False, shape=[-1], datatype=str),
     Option('altfacies', list, optional=True, shape=['facies', -1], datatype=str),
     Option('size_ztrend', list, optional=True, shape=2, datatype=float),
-- 
2.43.0


From d6f589980574f25de6f028b30b724fb50f49dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 18/47] fix: report invalid background facies instead of
 failing to build the message

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 532af78..d319ffd 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -226,7 +226,7 @@ def parse_inifile(p):
     try:
         strata['bg_facies'] = parse_facies(strata['bg_facies'], hydraulics['hydrofacies'])
     except:
-        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + strata['bg_facies'])
+        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + str(strata['bg_facies']))
 
 
     # flowtrans section
-- 
2.43.0


From 5b77f72b362aa6be5c920b53c30ab3525761be71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 19/47] fix: bulbset_dist is required for bulb_sets, not for
 bulb

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index d319ffd..b6d720f 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -280,7 +280,7 @@ def parse_inifile(p):
         if elements[section]['structure'] == 'dip' or elements[section]['structure'] == 'random':
             assert_exists('dipset_dist', dictionary, section)
         # if structure is 'bulb_sets', require 'bulbset_dist'
-        if elements[section]['structure'] == 'bulb' or elements[section]['structure'] == 'random':
+        if elements[section]['structure'] == 'bulb_sets' or elements[section]['structure'] == 'random':
             assert_exists('bulbset_dist', dictionary, section)
 
         # lag surface facies
-- 
2.43.0


From e512d35ba263e89cb9ce67c8dc5ed980f95d6e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 20/47] fix: the overwrite flag of a run takes precedence over
 the ini-file

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index b6d720f..8d7b7a8 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -498,7 +498,7 @@ def set_up_directories(run, inifile, overwrite_old_output=None):
     if overwrite_old_output is None:
         overwrite_old_output = run['overwrite_old_output']
     if run['rundir'].exists():
-        if run['overwrite_old_output'] is True:
+        if overwrite_old_output is True:
             # If it exists, we just delete everything in it
             for f in os.listdir(run['rundir']):
                 path = os.path.join(run['rundir'], f)
-- 
2.43.0


From 9f30f8aaa771f766437ad31600c38570e4f6217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 21/47] fix: a model directory given in the ini-file or by the
 user can be used

---
 hyvr/input/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 8d7b7a8..d43f1f4 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -149,10 +149,11 @@ def parameters(inifile):
             directory = input(
                 'Please input the model directory save path, or press <enter> to'
                 'save in default directory:\n')
-            if len(run['modeldir']) == 0:
-                run['modeldir'] = inipath
+            if len(directory) == 0:
+                run['modeldir'] = ini_path
             else:
                 run['modeldir'] = pathlib.Path(directory).resolve()
+        run['modeldir'] = pathlib.Path(run['modeldir']).resolve()
         run['rundir'] = run['modeldir'] / run['runname']
 
     return run, model, strata, hydraulics, flowtrans, elements
-- 
2.43.0


From 7caac686f41b580fe16fd4219e3ec1aff526b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 22/47] fix: report a missing file or run section and recognise
 all old-format ini-files

---
 hyvr/input/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index d43f1f4..2340a43 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -101,9 +101,11 @@ def parameters(inifile):
         # this is probably caused by a wrong encoding
         p.read(inifile, encoding='utf-8-sig')
     if len(p.sections()) == 0:
-        raise FileNotFoundError("Parameter file {:s} not found!".format(inifile))
+        raise FileNotFoundError("Parameter file {:s} not found!".format(str(inifile)))
+    if 'run' not in p.sections():
+        raise MissingSectionError('run')
 
-    old_format = 'dataoutputs' in dict(p['run'])
+    old_format = 'dataoutputs' in p['run'] or 'l_dataoutputs' in p['run']
     if old_format:
         run, model, strata, hydraulics, flowtrans, elements = get_new_parameters_from_deprecated(*parse_deprecated_inifile(p))
 
-- 
2.43.0


From 3d7c0149b0488fe38fff7283cc91f52023925a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 23/47] fix: only the backup suffix is removed to get the run
 name

---
 hyvr/input/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 2340a43..3840ea6 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -126,7 +126,7 @@ def parameters(inifile):
     ini_path = pathlib.Path(inifile).parent.resolve()
     ini_name = pathlib.Path(inifile).name
     if run['runname'] is None:
-        if ini_name.endswith("autogenerated_backup.ini"):
+        if ini_name.endswith("_autogenerated_backup.ini"):
             run['runname'] = ini_name[0:-25]
         else:
             run['runname'] = ".".join(ini_name.split('.')[0:-1])
-- 
2.43.0


From 42bf1f3cbe4fb2476c478bc4863fcde6dc091786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 24/47] fix: do not look for the file of an unsupported AE
 table under an undefined path

---
 hyvr/input/parameters.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 3840ea6..3a6c672 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -444,10 +444,6 @@ def parse_deprecated_inifile(p):
 
     strata = Section('strata', old_options['strata']).parse(dict(p['strata']))
     del sections[sections.index('strata')]
-    if strata['ae_table'] is not None:
-        ae_table = pathlib.Path(inifile).parent / strata['ae_table']
-        if not ae_table.exists():
-            raise FileNotFoundError('ae_table-file {:s} not found!'.format(ae_table))
 
     hydraulics = Section('hydraulics', old_options['hydraulics']).parse(dict(p['hydraulics']))
     del sections[sections.index('hydraulics')]
-- 
2.43.0


From 4a5a7a142884c040a49ae15bebe4a3bd9dba3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 25/47] fix: background and lag values of old-format elements

---
 hyvr/input/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 3a6c672..456d4b3 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -344,9 +344,9 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         elem = elements[elem_name]
         elem['size_ztrend'] = elem['geo_ztrend']
         if elem['bg'] is not None:
-            elem['bg_facies'] = elem['bg'][0]
+            elem['bg_facies'] = int(elem['bg'][0])
             elem['bg_azim'] = elem['bg'][1]
-            elem['bg_dip'] = elem['bg'][1]
+            elem['bg_dip'] = elem['bg'][2]
         else:
             elem['bg_facies'] = -1
             elem['bg_azim'] = float('NaN')
@@ -361,7 +361,7 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
                 elem['lag_height'] = elem['lag'][0]
-                elem['lag_facies'] = elem['lag'][1]
+                elem['lag_facies'] = int(elem['lag'][1])
             else:
                 elem['lag_height'] = 0.0
                 elem['lag_facies'] = -1
-- 
2.43.0


From 82d2378fa7c24a1ad2ebe63ed98fc0ad4b43a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 26/47] fix: old-format channels and bulb sets can be used

---
 hyvr/input/parameters.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 456d4b3..8f8fe50 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -357,6 +357,14 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
         if elem['geometry'] == 'trunc_ellip':
             elem['geometry'] = 'trough'
             elem['trough_density'] = elem['el_z']
+            if elem['structure'] == 'bulb_l':
+                elem['structure'] = 'bulb_sets'
+        elif elem['geometry'] == 'ext_par':
+            elem['geometry'] = 'channel'
+            elem['channel_no'] = int(elem['channel_no'])
+            elem['azimuth'] = [0., 0.]
+            elem['mig'] = 0.
+            elem['flow_angle'] = 0.
         elem['contact_model'] = parse_old_elem_contact_model(elem)
         if elem['geometry'] in ['trough', 'channel']:
             if elem['lag'] is not None:
-- 
2.43.0


From bd03574fedfc1943e8d8cdb164f6c43d2f30f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 27/47] fix: reject the heterogeneity level that is not
 implemented anymore

---
 hyvr/input/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 8f8fe50..651c770 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -318,6 +318,8 @@ def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans
     model['hydraulics'] = hydraulics['gen']
     model['heterogeneity'] = run['het']
     model['heterogeneity_level'] = model['hetlev']
+    if model['hetlev'] == 'ae':
+        raise ValueError('heterogeneity level "ae" is not supported anymore')
     if model['display']:
         raise ValueError('display option is not supported anymore')
 
-- 
2.43.0


From 3c22efec2040b8950a4fdf030d88e3084e66bb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 28/47] fix: invalid geometries of old-format elements are
 reported

---
 hyvr/input/parameters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyvr/input/parameters.py b/hyvr/input/parameters.py
index 651c770..3c7fb69 100644
--- a/hyvr/input/parameters.py
+++ b/hyvr/input/parameters.py
@@ -467,6 +467,8 @@ def parse_deprecated_inifile(p):
         dictionary = dict(p[section])
         assert_exists('geometry', dictionary, section)
         geometry = dictionary['geometry']
+        if geometry not in ['trunc_ellip', 'ext_par', 'sheet']:
+            raise ValueError('Invalid geometry: ' + geometry + ' in section ' + section)
         elements[section] = Section(section, old_options[geometry]).parse(dict(p[section]))
 
 
-- 
2.43.0


From bd0910ba1831a79eb1652fc70b9a69940218833e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:08 +0000
Subject: [PATCH 29/47] fix: contact modes may be written in upper case

---
 hyvr/geo/contact_surface_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/contact_surface_utils.py b/hyvr/geo/contact_surface_utils.py
index bdf9b30..41d2051 100644
--- a/hyvr/geo/contact_surface_utils.py
+++ b/hyvr/geo/contact_surface_utils.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def parse_contact_model(param_list, depth=False):
-    mode = param_list[0].strip("\"'")
+    mode = param_list[0].strip("\"'").lower()
     cm = {'mode': mode}
     param_idx = 1
     if depth:
-- 
2.43.0


From e005a6fb21a539439f69f09509287bd853665e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 30/47] fix: the head gradient of the flowtrans section reaches
 the mf6 output

---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 867fc1e..f224bd0 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -329,9 +329,9 @@ def to_mf6(model, fname):
         hin = model.flowtrans['hin'][0]
         hout = model.flowtrans['hout'][0]
 
-    elif flowtrans['gradh'] is not None:
+    elif model.flowtrans['gradh'] is not None:
         hout = 1
-        hin = hout + model.grid.lx * flowtrans['gradh']
+        hin = hout + model.grid.lx * model.flowtrans['gradh']
 
     if np.any([model.flowtrans['hin'] is not None, model.flowtrans['gradh'] is not None]):
         chd_rec = []
-- 
2.43.0


From d468d547e966db37c6e4822c9bd6fcc3a72034bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 31/47] fix: mf6 column and row widths are dx and dy

---
 hyvr/postprocess/output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index f224bd0..73a1e84 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -304,8 +304,8 @@ def to_mf6(model, fname):
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
                                                    ncol=model.grid.nx,
-                                                   delr=model.grid.dy,
-                                                   delc=model.grid.dx,
+                                                   delr=model.grid.dx,
+                                                   delc=model.grid.dy,
                                                    top=ztop,
                                                    botm=botm[1:],
                                                    filename='{}.dis'.format(runname))
-- 
2.43.0


From 989cfac727fe94ebaa791264728af0d14d8c1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 32/47] fix: mf6 layer bottoms are exact and match the number
 of layers

---
 hyvr/postprocess/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 73a1e84..4832c8d 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -299,7 +299,7 @@ def to_mf6(model, fname):
     """ Create discretization """
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
-    botm = np.around(np.arange(ztop, zbot-model.grid.dz, -model.grid.dz), decimals=3)
+    botm = np.linspace(ztop, zbot, model.grid.nz + 1)
     dis = flopy.mf6.modflow.mfgwfdis.ModflowGwfdis(gwf,
                                                    nlay=model.grid.nz,
                                                    nrow=model.grid.ny,
-- 
2.43.0


From 48fde3328043460856b11010f785bbc51a27fc1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 33/47] fix: mf6 layers are numbered from the top of the model

---
 hyvr/postprocess/output.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 4832c8d..e0a149a 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -257,11 +257,12 @@ def to_mf6(model, fname):
 
     # Transpose HyVR arrays for MF6 input
     transpose_order = (2, 1, 0)
-    k_iso = np.transpose(model.data['k_iso'], transpose_order)
+    # Layers are numbered from top to bottom
+    k_iso = np.transpose(model.data['k_iso'], transpose_order)[::-1]
     if set(['anirat', 'dip', 'azim']).issubset(model.data.keys()):
-        anirat = np.transpose(model.data['anirat'], transpose_order)
-        dip = np.transpose(model.data['dip'], transpose_order)
-        azim = np.transpose(model.data['azim'], transpose_order)
+        anirat = np.transpose(model.data['anirat'], transpose_order)[::-1]
+        dip = np.transpose(model.data['dip'], transpose_order)[::-1]
+        azim = np.transpose(model.data['azim'], transpose_order)[::-1]
         xt3d = True
     else:
         xt3d = False
-- 
2.43.0


From 35dfcd5d6c05e35141e839ec5a77312b3c55a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 34/47] fix: no mf6 wells without a given discharge

---
 hyvr/postprocess/output.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index e0a149a..f2434db 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -370,11 +370,8 @@ def to_mf6(model, fname):
 
     """ Create well package """
     # Apply constant discharges at model faces
-    if 'q_in' in model.flowtrans:
-        if model.flowtrans['q_in'] is not None:
-            q_in = model.flowtrans['q_in']
-        else:
-            q_in = 0.01
+    if model.flowtrans['q_in'] is not None:
+        q_in = model.flowtrans['q_in']
 
         # if 'q_out' in flowtrans:
         #     q_out = flowtrans['q_out']
-- 
2.43.0


From da07f35dacea59b38f9e98984a71f88755c8f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 35/47] fix: modflow columns are along x, as their width and
 the boundary conditions

---
 hyvr/postprocess/output.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index f2434db..8ce4099 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -192,26 +192,26 @@ def to_modflow(model, fname):
     ztop = model.grid.z0 + model.grid.lz
     zbot = model.grid.z0
     botm = np.linspace(ztop, zbot, model.grid.nz + 1)
-    dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.nx, model.grid.ny, 
+    dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.ny, model.grid.nx,
                                    delr=model.grid.dx, delc=model.grid.dy,
                                    top=ztop, botm=botm[1:])
 
     # Variables for the BAS package
-    ibound = np.ones((model.grid.nz, model.grid.nx, model.grid.ny), dtype=np.int32)
+    ibound = np.ones((model.grid.nz, model.grid.ny, model.grid.nx), dtype=np.int32)
     ibound[:, :, 0] = -1
     ibound[:, :, -1] = -1
 
-    strt = np.ones((model.grid.nz, model.grid.nx, model.grid.ny), dtype=np.float32)
+    strt = np.ones((model.grid.nz, model.grid.ny, model.grid.nx), dtype=np.float32)
     strt[:, :, 0] = model.flowtrans['hin'][0]
     strt[:, :, -1] = model.flowtrans['hout'][0]
 
     bas = flopy.modflow.ModflowBas(mf, ibound=ibound, strt=strt)
 
     # Assign hydraulic conductivity
-    hyvr_hk = np.transpose(model.data['k_iso'], (2, 0, 1))
+    hyvr_hk = np.transpose(model.data['k_iso'], (2, 1, 0))
     hyvr_layvka = 1                                           # VKA dataset is ratio of horizontal K
     if 'anirat' in model.data.keys():
-        hyvr_vka = np.transpose(model.data['anirat'], (2, 0, 1))
+        hyvr_vka = np.transpose(model.data['anirat'], (2, 1, 0))
 
         # Add LPF package to the MODFLOW model
         lpf = flopy.modflow.ModflowLpf(mf,                        # Modflow object
-- 
2.43.0


From d83074cd0eeaa490aab70d86699bf28e4c7d5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 36/47] fix: modflow layers are numbered from the top of the
 model

---
 hyvr/postprocess/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 8ce4099..479283f 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -208,10 +208,11 @@ def to_modflow(model, fname):
     bas = flopy.modflow.ModflowBas(mf, ibound=ibound, strt=strt)
 
     # Assign hydraulic conductivity
-    hyvr_hk = np.transpose(model.data['k_iso'], (2, 1, 0))
+    # (layers are numbered from top to bottom)
+    hyvr_hk = np.transpose(model.data['k_iso'], (2, 1, 0))[::-1]
     hyvr_layvka = 1                                           # VKA dataset is ratio of horizontal K
     if 'anirat' in model.data.keys():
-        hyvr_vka = np.transpose(model.data['anirat'], (2, 1, 0))
+        hyvr_vka = np.transpose(model.data['anirat'], (2, 1, 0))[::-1]
 
         # Add LPF package to the MODFLOW model
         lpf = flopy.modflow.ModflowLpf(mf,                        # Modflow object
-- 
2.43.0


From 827e47ba89e99f764e950f4f184d087b2cc6b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 37/47] fix: do not report output as saved that was not written

---
 hyvr/postprocess/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 479283f..815ae9b 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -75,7 +75,8 @@ def create_outputs(model, realization_dir, runname, formats):
             # in case of an import error, only warn the user instead of raising
             # an error
             warnings.warn(str(e))
-        print_to_stdout('Saved', fmt, 'output to', realization_dir)
+        else:
+            print_to_stdout('Saved', fmt, 'output to', realization_dir)
 
 
 def to_mat(model, fname):
-- 
2.43.0


From bdd319dee0d99c666066c427a34e65ee2efac8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:45 +0000
Subject: [PATCH 38/47] fix: vtr output has exactly one more node than cells in
 each direction

---
 hyvr/postprocess/output.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyvr/postprocess/output.py b/hyvr/postprocess/output.py
index 815ae9b..9afcd9b 100644
--- a/hyvr/postprocess/output.py
+++ b/hyvr/postprocess/output.py
@@ -156,9 +156,9 @@ def to_vtr(model, fname):
     try:
         from pyevtk.hl import gridToVTK
         data_dict = {key:model.data[key] for key in model.data if key != "ktensors"}
-        xv = np.arange(model.grid.x0, model.grid.xmax+model.grid.dx, model.grid.dx)
-        yv = np.arange(model.grid.y0, model.grid.ymax+model.grid.dy, model.grid.dy)
-        zv = np.arange(model.grid.z0, model.grid.zmax+model.grid.dz, model.grid.dz)
+        xv = model.grid.x0 + model.grid.dx*np.arange(model.grid.nx + 1)
+        yv = model.grid.y0 + model.grid.dy*np.arange(model.grid.ny + 1)
+        zv = model.grid.z0 + model.grid.dz*np.arange(model.grid.nz + 1)
         gridToVTK(fname, xv, yv, zv, cellData=data_dict)
     except ImportError as e:
         raise type(e)(str(e) + ", vtr output not possible!")
-- 
2.43.0


From a235a77da263b33ceada399e8cd1f64f792f6cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:08 +0000
Subject: [PATCH 39/47] fix: channels with a size_ztrend can be generated

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index 4a1bad5..e4e725e 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -112,7 +112,7 @@ cdef class ChannelAE(AERealization):
         dz = self.type_params['agg']
         if self.type_params['size_ztrend'] is not None:
             z = 0.5*(self.top_surface.zmean + self.bottom_surface.zmean)
-            zfactor = np.interp(z, [grid.z0, grid.zmax], *self.type_params['size_ztrend'])
+            zfactor = np.interp(z, [grid.z0, grid.zmax], self.type_params['size_ztrend'])
         else:
             zfactor = 1
         depth = self.type_params['depth'] * zfactor
-- 
2.43.0


From 6b07f4d7fdfe339753f819a90a6fd2be25884c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:30 +0000
Subject: [PATCH 40/47] fix: channels start relative to the centre of the
 domain

---
 hyvr/geo/channel_ae.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index e4e725e..d6d964f 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -133,8 +133,8 @@ cdef class ChannelAE(AERealization):
 
             for i in range(n_channels):
                 # get start of channel
-                ystart_grid = (grid.y0 + grid.ly)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
-                xstart_grid = (grid.x0 + grid.lx)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
+                ystart_grid = (grid.y0 + grid.ymax)/2 - (domain_length+width)/2 * np.sin(flow_angle) + ystart[i] * np.cos(flow_angle)
+                xstart_grid = (grid.x0 + grid.xmax)/2 - (domain_length+width)/2 * np.cos(flow_angle) - ystart[i] * np.sin(flow_angle)
                 # generate centerline
                 outputs = ferguson_curve(grid,
                                          self.type_params['h'],
-- 
2.43.0


From 1a6478194dc12791f83f61369e7cd3c54ac64091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:30 +0000
Subject: [PATCH 41/47] fix: dipset layers of channels are never looked up with
 a negative index

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index d6d964f..df3734b 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -300,7 +300,7 @@ cdef class ChannelAE(AERealization):
                 # To correct for the distance in z-direction we subtract |dz| * cos(dip)
                 # note that dz is negative here
                 d = dist_along_curve * self.object_sin_dip[oi] + dz*self.object_cos_dip[oi] + self.object_shift[oi]
-                n = int(d/self.object_layer_dist[oi])
+                n = int((d + self.object_depth[oi])/self.object_layer_dist[oi])
                 geo_ids[0] = self.object_facies_array[oi,n]
                 return
             else:
-- 
2.43.0


From ff1ba7497fb2678582d234347660c3340252480d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:30 +0000
Subject: [PATCH 42/47] fix: channel background noise has zero mean at every
 point

---
 hyvr/geo/channel_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_utils.py b/hyvr/geo/channel_utils.py
index 3aaadba..25132ef 100644
--- a/hyvr/geo/channel_utils.py
+++ b/hyvr/geo/channel_utils.py
@@ -130,7 +130,7 @@ def ferguson_theta(s, eps_factor, k, h):
         else:
             t1 = th_store[idex-1]
             t2 = th_store[idex-2]
-            eps = np.random.normal(1)*eps_factor
+            eps = np.random.normal()*eps_factor
 
         th_store[idex] = thetaAR2(t1, t2, k, h, eps)
 
-- 
2.43.0


From 3d0116072db9cfdee40ec9b066bb36c83557774d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:30 +0000
Subject: [PATCH 43/47] fix: user-defined troughs are placed from top to bottom

---
 hyvr/geo/trough_ae.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 54565ab..788ce52 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -70,7 +70,8 @@ cdef class TroughAE(AERealization):
                 self.bottom_surface, self.top_surface, self.type_params, grid
             )
         else:
-            te_xyz = self.type_params['te_xyz']
+            # objects have to be sorted from top to bottom
+            te_xyz = sorted(self.type_params['te_xyz'], key=lambda xyz: -xyz[2])
 
         # Generate troughs
         for xc, yc, zc in te_xyz:
-- 
2.43.0


From 426dd3058f7b042a2cf53af0ae2e8ce810bbb3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:13 +0000
Subject: [PATCH 44/47] fix: cross sections are taken at the requested
 coordinate

---
 hyvr/postprocess/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyvr/postprocess/plotting.py b/hyvr/postprocess/plotting.py
index 7e677c2..55e2609 100644
--- a/hyvr/postprocess/plotting.py
+++ b/hyvr/postprocess/plotting.py
@@ -46,7 +46,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
 
     for yi in y:
         fig, ax = plt.subplots()
-        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2)/model.grid.dy)))
+        y_index = int(np.round((yi-(model.grid.y0+model.grid.dy/2))/model.grid.dy))
         if 0 <= y_index and y_index < model.grid.ny:
             im = ax.pcolor(model.grid.X[:,y_index,:].T, model.grid.Z[:,y_index,:].T,
                     model.data[field][:,y_index,:].T, cmap=cmap)
@@ -63,7 +63,7 @@ def cross_section_pcolor(model, field, y=None, x=None, log=False, xlim_y=None, y
 
     for xi in x:
         fig, ax = plt.subplots()
-        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2)/model.grid.dx)))
+        x_index = int(np.round((xi-(model.grid.x0+model.grid.dx/2))/model.grid.dx))
         if 0 <= x_index and x_index < model.grid.nx:
             im = ax.pcolor(model.grid.Y[x_index,:,:].T, model.grid.Z[x_index,:,:].T,
                     model.data[field][x_index,:,:].T, cmap=cmap)
-- 
2.43.0


From 1b3d6fc61edf6bf610269de252e45ac629c5b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:41 +0000
Subject: [PATCH 45/47] fix: sheet_ae.pyx imports the names it uses

---
 hyvr/geo/sheet_ae.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyvr/geo/sheet_ae.pyx b/hyvr/geo/sheet_ae.pyx
index bcf3483..fe69925 100644
--- a/hyvr/geo/sheet_ae.pyx
+++ b/hyvr/geo/sheet_ae.pyx
@@ -1,6 +1,10 @@
 
 import numpy as np
+import numpy.typing as npt
+
 from hyvr.geo.sheet import Sheet
+from hyvr.geo.grid import Grid
+from hyvr.geo.contact_surface import ContactSurface
 
 
 from hyvr.geo.ae_realization cimport AERealization
-- 
2.43.0


From f027aa7efb6111be9504697a97e178dd5ee83d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 46/47] fix: bulbs of rotated troughs follow the trough's
 surface

---
 hyvr/geo/trough_ae.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyvr/geo/trough_ae.pyx b/hyvr/geo/trough_ae.pyx
index 788ce52..6320141 100644
--- a/hyvr/geo/trough_ae.pyx
+++ b/hyvr/geo/trough_ae.pyx
@@ -209,8 +209,8 @@ cdef class TroughAE(AERealization):
             #
             # The gradient is (up to a scalar)
             #
-            #             /  nx*cos/a + ny*sin/b  \
-            # grad f(x) = | -nx*sin/a + ny*cos/b  |
+            #             /  nx*cos/a - ny*sin/b  \
+            # grad f(x) = |  nx*sin/a + ny*cos/b  |
             #             \          nz/c         /
             #
             # where nx, ny, nz are the normalized distances.
@@ -229,8 +229,8 @@ cdef class TroughAE(AERealization):
             len_normvec = sqrt(aaa**2 + bbb**2 + ccc**2)
             if len_normvec != 0:
                 normvec_x = (aaa*self.object_cosalpha[oi]
-                             + bbb*self.object_sinalpha[oi])/len_normvec
-                normvec_y = (-aaa*self.object_sinalpha[oi]
+                             - bbb*self.object_sinalpha[oi])/len_normvec
+                normvec_y = (aaa*self.object_sinalpha[oi]
                              + bbb*self.object_cosalpha[oi])/len_normvec
                 normvec_z = ccc/len_normvec
                 len_normvec_xy = sqrt(normvec_x**2 + normvec_y**2)
-- 
2.43.0


From b4dbac52e9e11f37782d344355590eb4d2d94fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:41 +0000
Subject: [PATCH 47/47] fix: marks for cells outside of channels depend on the
 cell width along y

---
 hyvr/geo/channel_ae.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyvr/geo/channel_ae.pyx b/hyvr/geo/channel_ae.pyx
index df3734b..8c53445 100644
--- a/hyvr/geo/channel_ae.pyx
+++ b/hyvr/geo/channel_ae.pyx
@@ -268,7 +268,7 @@ cdef class ChannelAE(AERealization):
                     #
                     #     y(x) = sqrt(radius**2 - x**2)
                     #
-                    ny = int(sqrt(radius**2 - (i*grid.dx)**2))
+                    ny = int(sqrt(radius**2 - (i*grid.dx)**2)/grid.dy)
                     for j in range(ny):
                         if y_idx-j >= 0 and y_idx+j < grid.ny:
                             self.object_dont_check[oi,x_idx+i, y_idx+j] = 1
-- 
2.43.0

