From c52e7de66682d7721ce02540999de72d01e4dae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 01/27] fix: align the Petrosian profile with repeated areas in
 calculate_petrosian

---
 petrofit/petrosian/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0e8d28c..094889c 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -79,8 +79,11 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     petrosian_list = np.insert(petrosian_list, 0, np.nan)
 
     # Match input
-    _, unique_indices = np.unique(area_list, return_inverse=True)
-    petrosian_list = petrosian_list[unique_indices]
+    _, first_indices, unique_indices = np.unique(
+        area_list, return_index=True, return_inverse=True
+    )
+    match_indices = first_indices[unique_indices]
+    petrosian_list = petrosian_list[match_indices]
 
     if area_err is not None or flux_err is not None:
         # Convert input to array
@@ -118,7 +121,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         petrosian_err = np.insert(petrosian_err, 0, np.nan)
 
         # Match input
-        petrosian_err = petrosian_err[unique_indices]
+        petrosian_err = petrosian_err[match_indices]
 
         return petrosian_list, petrosian_err
     return petrosian_list, None
-- 
2.43.0


From 7408b06413ff3025066af0cbb79a64c9181fce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 02/27] fix: do not truncate the Petrosian profile of integer
 areas

---
 petrofit/petrosian/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 094889c..5005ea0 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -69,7 +69,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
 
     # Compute the surface brightness at the edge of each aperture
     zero_mask = np.where(area_diff > 0)
-    I_at_r = np.zeros_like(area_diff)
+    I_at_r = np.zeros_like(area_diff, dtype=float)
     I_at_r[zero_mask] = flux_diff[zero_mask] / area_diff[zero_mask]
 
     # Compute the Petrosian value at each radius
@@ -99,7 +99,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         flux_diff_err = np.sqrt(flux_err[:-1] ** 2 + flux_err[1:] ** 2)
 
         # Compute the error in the surface brightness at the edge of each aperture
-        I_at_r_err = np.zeros_like(area_diff)
+        I_at_r_err = np.zeros_like(area_diff, dtype=float)
         I_at_r_err[zero_mask] = abs(I_at_r[zero_mask]) * np.sqrt(
             (flux_diff_err[zero_mask] / flux_diff[zero_mask]) ** 2
             + (area_diff_err[zero_mask] / area_diff[zero_mask]) ** 2
@@ -111,7 +111,7 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
         )
 
         # Compute the error in the Petrosian value at each radius
-        petrosian_err = np.zeros_like(area_diff)
+        petrosian_err = np.zeros_like(area_diff, dtype=float)
         petrosian_err[zero_mask] = abs(petrosian_list[1:][zero_mask]) * np.sqrt(
             (I_at_r_err[zero_mask] / I_at_r[zero_mask]) ** 2
             + (I_avg_within_r_err[zero_mask] / I_avg_within_r[zero_mask]) ** 2
-- 
2.43.0


From 9645b402dbc201bc9bf03ab2b9e7bd3790d55f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 03/27] fix: return nan from fraction_to_r when r_epsilon is
 below the measured radii

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 5005ea0..8ebe4ba 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -291,7 +291,7 @@ def fraction_to_r(
 
     r_epsilon = r_petrosian * epsilon
 
-    if r_epsilon > max(r_list):
+    if r_epsilon > max(r_list) or r_epsilon < min(r_list):
         return np.nan, np.nan
 
     f = interp1d(
-- 
2.43.0


From 2b9f60d8363a10ecbae15e9e52739aed2984a650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 04/27] fix: return a nan error from fraction_to_r when
 r_epsilon +/- its error is out of range

---
 petrofit/petrosian/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 8ebe4ba..32c5d63 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -321,6 +321,12 @@ def fraction_to_r(
     )
     r_epsilon_err = r_petrosian_err
 
+    if not (
+        min(r_list) <= r_epsilon - r_epsilon_err <= max(r_list)
+        and min(r_list) <= r_epsilon + r_epsilon_err <= max(r_list)
+    ):
+        return r_frac, np.nan
+
     # Compute the fractional_flux_err error
     f_lower = interp1d(
         r_list,
-- 
2.43.0


From e911c81464986e34e91114a7dba66eabe684c26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 05/27] fix: use the requested interpolation for fraction_to_r
 errors

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 32c5d63..ccb7658 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -349,13 +349,13 @@ def fraction_to_r(
     fractional_flux_lower = fractional_flux - fractional_flux_err
 
     r_list_lower, flux_list_lower = get_interpolated_values(
-        r_list, flux_list - flux_err
+        r_list, flux_list - flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_upper, flux_list_lower, growing=True)
     r_frac_upper = np.nan if idx is None else r_list_lower[idx]
 
     r_list_upper, flux_list_upper = get_interpolated_values(
-        r_list, flux_list + flux_err
+        r_list, flux_list + flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_lower, flux_list_upper, growing=True)
     r_frac_lower = np.nan if idx is None else r_list_upper[idx]
-- 
2.43.0


From 1c58bf3b5608b75a1f73b3703f235e9c7e1d408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 06/27] fix: support interp_kind=None in Petrosian.total_flux
 and half_flux

---
 petrofit/petrosian/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index ccb7658..a42e5ba 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -793,7 +793,11 @@ class Petrosian:
         if not min(self.r_list) <= r_total_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_total_flux)
         return float(total_flux)
 
@@ -821,7 +825,11 @@ class Petrosian:
         if not min(self.r_list) <= r_half_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_half_flux)
         return float(total_flux)
 
-- 
2.43.0


From 74c0b3b6abfb0f1547650054a4f8a9a7f0a25be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 07/27] fix: Petrosian.half_flux_err used attributes that do
 not exist

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index a42e5ba..fffe523 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -839,13 +839,13 @@ class Petrosian:
         Returns the photometric uncertainty at `r_half_flux` or np.nan if out of range.
         Note that this includes errors in estimating `r_half_flux`.
         """
-        r_half_flux_err = self.r_half_flux_err
+        r_half_flux_err = self.r_half_light_err
 
         if self.flux_err is None or np.isnan(self.half_flux):
             return np.nan
 
         f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_half_flux)
+        flux_err = f(self.r_half_light)
         return np.sqrt(flux_err**2 + r_half_flux_err**2)
 
     @property
-- 
2.43.0


From ffe39e6c56b2795fc9d40522391df58233f13750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 08/27] fix: segm_mask no longer appends to the caller's list
 of labels

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 83cd66f..40f4b5f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -224,7 +224,7 @@ def segm_mask(source, segm, mask_background=False):
     ):
         sources = [source]
     elif isinstance(source, list):
-        sources = source
+        sources = list(source)
     else:
         raise TypeError(
             "Input should be a label (int or photutils SourceCatalog) or a list of such items"
-- 
2.43.0


From e23ed235cee7baf97b7c8c3db48ae0c489f3baac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 09/27] fix: hst_flux_to_abmag accepts NumPy scalars and
 integer sequences

---
 petrofit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index ca7ff16..2b2974f 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -59,8 +59,8 @@ def make_radius_list(max_pix, n, log=False):
 
 def hst_flux_to_abmag(flux, header):
     """Convert HST flux to AB Mag"""
-    if not type(flux) in [int, float]:
-        flux = np.array(flux)
+    if np.ndim(flux) > 0:
+        flux = np.array(flux, dtype=float)
         flux[np.where(flux <= 0)] = np.nan
     elif flux <= 0:
         return np.nan
-- 
2.43.0


From 1ef000f81087e9411c483590e688f45a5891a8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 10/27] fix: cutout_subtract handles odd sizes and image edges
 and returns a copy

---
 petrofit/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 2b2974f..c87bbc2 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -230,10 +230,14 @@ def cutout_subtract(image, target, x, y):
     """
 
     dy, dx = target.shape
-    bounds = np.array([y - dy // 2, y + dy // 2, x - dx // 2, x + dx // 2])
-    bounds[bounds < 0] = 0
-    ymin, ymax, xmin, xmax = bounds
-    image[ymin:ymax, xmin:xmax] -= target
+    ny, nx = image.shape
+    y0, x0 = y - dy // 2, x - dx // 2
+    ymin, ymax = max(y0, 0), min(y0 + dy, ny)
+    xmin, xmax = max(x0, 0), min(x0 + dx, nx)
+
+    image = image.copy()
+    if ymin < ymax and xmin < xmax:
+        image[ymin:ymax, xmin:xmax] -= target[ymin - y0 : ymax - y0, xmin - x0 : xmax - x0]
     return image
 
 
-- 
2.43.0


From 3efdad73df9bab0dd0c1ae73973c0dd5de6e806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 11/27] fix: natural_sort accepts numbers and non-ASCII digits

---
 petrofit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index c87bbc2..3464c42 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -32,8 +32,8 @@ __all__ = [
 
 def natural_sort(l):
     """Sort the given list of strings or numbers without needing leading zeros"""
-    convert = lambda text: int(text) if text.isdigit() else text.lower()
-    alphanum_key = lambda key: [convert(c) for c in re.split("([0-9]+)", key)]
+    convert = lambda text: int(text) if re.fullmatch("[0-9]+", text) else text.lower()
+    alphanum_key = lambda key: [convert(c) for c in re.split("([0-9]+)", str(key))]
     return sorted(l, key=alphanum_key)
 
 
-- 
2.43.0


From a071a06b03187002f80beaf764262189c9c619f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 12/27] fix: estimate_epsilon reads an existing grid column for
 epsilon_fraction=0.5

---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index ba37500..0c29e1c 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -482,7 +482,7 @@ class PetrosianCorrection:
         eta = p.eta
 
         if epsilon_fraction == 0.5:
-            r_ep = row["c_r_eff"]
+            r_ep = row["c_r_50"]
         elif epsilon_fraction == 0.8:
             r_ep = row["c_r_80"]
         elif epsilon_fraction == 0.99:
-- 
2.43.0


From 3b1de5c4089779111360536cca5b1ffce1db6247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 13/27] fix: Nuker2D radius was scaled by sqrt(2)

---
 petrofit/modeling/models.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 2dba4e7..c27109b 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -594,9 +594,7 @@ class GenSersic2D(models.Sersic2D):
 @custom_model
 def Nuker2D(x, y, amplitude=1, r_break=1, x_0=0, y_0=0, alpha=2, betta=4, gamma=0):
     """Two dimensional Nuker2D model"""
-    x_maj = (x - x_0) + (y - y_0)
-    x_min = -(x - x_0) + (y - y_0)
-    r = np.sqrt((x_maj) ** 2 + (x_min) ** 2)
+    r = np.sqrt((x - x_0) ** 2 + (y - y_0) ** 2)
 
     r[np.where(r == 0)] = np.nan
 
-- 
2.43.0


From 959558a5ab7b7d7e55f7c046a16eab84121dafa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 14/27] fix: CoreSersic2D normalised the radius by r_eff twice

---
 petrofit/modeling/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index c27109b..40d1f7c 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -625,7 +625,7 @@ def CoreSersic2D(
     Core Sersic model as defined by Graham et al 2003.
     """
     bn = gammaincinv(2.0 * n, 0.5)
-    a, b = r_eff, (1 - ellip) * r_eff
+    a, b = 1, 1 - ellip
     cos_theta, sin_theta = np.cos(theta), np.sin(theta)
     x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
     x_min = -(x - x_0) * sin_theta + (y - y_0) * cos_theta
-- 
2.43.0


From db1ee244c841cb80ac5de8c8bf90648753a10975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 15/27] fix: refuse oversample=None while psf_oversample is
 greater than 1

---
 petrofit/modeling/models.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 40d1f7c..04c0e2a 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -270,7 +270,12 @@ class PSFConvolvedModel2D(FittableModel):
     @oversample.setter
     def oversample(self, oversample):
         psf_oversample = self._get_psf_factor()
-        if oversample is not None:
+        if oversample is None:
+            if psf_oversample > 1:
+                raise ValueError(
+                    "oversample should be equal to or an integer multiple of psf_oversample"
+                )
+        else:
             if isinstance(oversample, (tuple, list, np.ndarray)):
                 if len(oversample) != 4:
                     raise ValueError("oversample should be (x, y, size, factor).")
-- 
2.43.0


From 194fa71a4ad744ad5005aa50d0f8fa9ff80e3b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 16/27] fix: place and clip the oversampling window relative to
 the image

---
 petrofit/modeling/models.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 04c0e2a..1d8fc37 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -502,29 +502,30 @@ class PSFConvolvedModel2D(FittableModel):
                 )
 
                 # Compute window indices in main image frame at data resolution first
-                i_sub_min = int(np.round(sub_grid_origin[0]))
-                j_sub_min = int(np.round(sub_grid_origin[1]))
-                i_sub_max = i_sub_min + sub_grid_size
-                j_sub_max = j_sub_min + sub_grid_size
+                i_sub_0 = int(np.round(sub_grid_origin[0] - x.min()))
+                j_sub_0 = int(np.round(sub_grid_origin[1] - y.min()))
+                i_sub_min, i_sub_max = i_sub_0, i_sub_0 + sub_grid_size
+                j_sub_min, j_sub_max = j_sub_0, j_sub_0 + sub_grid_size
 
                 # Clip window indices
                 if i_sub_min < 0:
                     i_sub_min = 0
                 if j_sub_min < 0:
                     j_sub_min = 0
-                if i_sub_max > i.max():
-                    i_sub_max = i.max() + 1
-                if j_sub_max > j.max():
-                    j_sub_max = j.max() + 1
-
-                # Convert to PSF resolution
-                i_sub_min *= psf_factor
-                j_sub_min *= psf_factor
-                i_sub_max *= psf_factor
-                j_sub_max *= psf_factor
-
-                # Add oversampled window to image
-                model_image[j_sub_min:j_sub_max, i_sub_min:i_sub_max] = sub_model_image
+                if i_sub_max > grid_size:
+                    i_sub_max = grid_size
+                if j_sub_max > grid_size:
+                    j_sub_max = grid_size
+
+                # Add the part of the oversampled window inside the image (at PSF resolution)
+                if i_sub_min < i_sub_max and j_sub_min < j_sub_max:
+                    model_image[
+                        j_sub_min * psf_factor : j_sub_max * psf_factor,
+                        i_sub_min * psf_factor : i_sub_max * psf_factor,
+                    ] = sub_model_image[
+                        (j_sub_min - j_sub_0) * psf_factor : (j_sub_max - j_sub_0) * psf_factor,
+                        (i_sub_min - i_sub_0) * psf_factor : (i_sub_max - i_sub_0) * psf_factor,
+                    ]
 
         # PSF convolve
         # ------------
-- 
2.43.0


From e536ae2d9d388778f925de940227922bed776579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:11 +0000
Subject: [PATCH 17/27] fix: fit_model does not hand masked pixels to the
 fitter

---
 petrofit/modeling/fitting.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 385e541..c43de14 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -92,8 +92,14 @@ def fit_model(
             Fitter used to estimate and set model parameters.
     """
 
+    # Masked pixels (i.e. sigma clipped) are not fit
+    invalid = np.isnan(image)
+    if isinstance(image, np.ma.MaskedArray):
+        invalid = np.isnan(image.data) | np.ma.getmaskarray(image)
+        image = image.data
+
     # Make x and y grid to fit to
-    y_arange, x_arange = np.where(~(np.isnan(image)))
+    y_arange, x_arange = np.where(~invalid)
 
     z = image[(y_arange, x_arange)]
 
-- 
2.43.0


From 8c099b2a70ac3b944907cbb61c91f84c122e8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 18/27] fix: fit_model passes the optimiser options to
 DogBoxLSQFitter too

---
 petrofit/modeling/fitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index c43de14..d19f644 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -4,6 +4,7 @@ from astropy.modeling import models, fitting
 from astropy.modeling.fitting import (
     LevMarLSQFitter,
     TRFLSQFitter,
+    DogBoxLSQFitter,
     LMLSQFitter,
     LinearLSQFitter,
 )
@@ -114,7 +115,7 @@ def fit_model(
     # Fit model to grid
     fitter_instance = fitter(calc_uncertainties=calc_uncertainties)
 
-    if fitter in [TRFLSQFitter, LevMarLSQFitter, LMLSQFitter]:
+    if fitter in [TRFLSQFitter, DogBoxLSQFitter, LevMarLSQFitter, LMLSQFitter]:
         fitted_model = fitter_instance(
             model,
             x_arange,
-- 
2.43.0


From 030a98b8e962918fa0bd05c256433d04037b0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 19/27] fix: GenSersic2D no longer relies on an attribute
 astropy's Sersic2D dropped

---
 petrofit/modeling/models.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 1d8fc37..f07a363 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -579,12 +579,7 @@ class GenSersic2D(models.Sersic2D):
     def evaluate(cls, x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0):
         """Two dimensional Sersic profile function."""
 
-        if cls._gammaincinv is None:
-            from scipy.special import gammaincinv
-
-            cls._gammaincinv = gammaincinv
-
-        bn = cls._gammaincinv(2.0 * n, 0.5)
+        bn = gammaincinv(2.0 * n, 0.5)
         a, b = r_eff, (1 - ellip) * r_eff
         cos_theta, sin_theta = np.cos(theta), np.sin(theta)
         x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
-- 
2.43.0


From cff2d1a77d3999b15771215a580b17e973cc2361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 20/27] fix: plot_cog draws the flux error band only when there
 are flux errors

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index fffe523..6aa04ef 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1155,7 +1155,7 @@ class Petrosian:
             label="Data",
         )
 
-        if err_alpha is not None and self.has_petrosian_err and err_alpha > 0:
+        if err_alpha is not None and self.flux_err is not None and err_alpha > 0:
             ax.fill_between(
                 self.r_list,
                 self.flux_list - self.flux_err,
-- 
2.43.0


From 29a298c461fd9c78f2236b943f5c894b7dfb4fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 21/27] fix: Petrosian plots set the ticks of the axes they
 were given

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 6aa04ef..acbd172 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1071,7 +1071,7 @@ class Petrosian:
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         if show_legend:
@@ -1214,7 +1214,7 @@ class Petrosian:
             fontsize=ax_fontsize,
         )
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         ax.set_ylim(0, None)
-- 
2.43.0


From f70aa015023e76f11c8ed4f6c5514d38a2159674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 22/27] fix: plot_target accepts objects with a data attribute,
 as documented

---
 petrofit/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index 3464c42..d5e8b31 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -196,6 +196,9 @@ def plot_target(
     region is determined by the `size` parameter centered at the target position.
     """
 
+    if not isinstance(image, np.ndarray):
+        image = image.data
+
     if size is None:
         size = max(image.shape)
     x, y = position
-- 
2.43.0


From 4a67f0b1a54bb52b69e3ffb68ba51594e5c3d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 23/27] fix: fit_gaussian2d starts from the brightest valid
 pixel of images with NaN pixels

---
 petrofit/modeling/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index d19f644..d3e0fce 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -319,7 +319,7 @@ def fit_gaussian2d(image):
 
     # Create model to fit
     model = models.Gaussian2D(
-        amplitude=image.max(), x_mean=x_mean, y_mean=y_mean, fixed={}
+        amplitude=np.nanmax(image), x_mean=x_mean, y_mean=y_mean, fixed={}
     )
 
     # Fit model to grid
-- 
2.43.0


From 7976d160c871e5180d16ac62bc0cd443fd5a8d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 24/27] fix: measure_fwhm raised whenever its plot was
 requested (the default)

---
 petrofit/modeling/fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index d3e0fce..3cd8bcd 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -543,10 +543,10 @@ def measure_fwhm(image, plot=True, printout=True):
 
     if plot:
 
-        fig, [ax0, ax1, ax2, ax3] = plot_fit(image, fitted_line)
+        fig, [ax0, ax2, ax3] = plt.subplots(1, 3, figsize=[18, 6])
 
         # Make x and y grid to plot to
-        y_arange, x_arange = np.mgrid[: image.shape[0], : image.shape[1]]
+        y_arange, x_arange = [np.arange(size) for size in image.shape]
 
         # Plot input image with FWHM and center
         # -------------------------------------
@@ -565,6 +565,7 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot X fit
         # ----------
 
+        ax2.plot(x_arange, fitted_line(x_arange, y_mean), label="X Fit")
         ax2.axvline(x_mean, linestyle="-", label="Center")
         ax2.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
         ax2.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
@@ -575,6 +576,7 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot Y fit
         # ----------
 
+        ax3.plot(y_arange, fitted_line(x_mean, y_arange), label="Y Fit")
         ax3.axvline(y_mean, linestyle="-", label="Center")
         ax3.axvline(y_mean - y_fwhm / 2, c="g", linestyle="--", label="Y FWHM")
         ax3.axvline(y_mean + y_fwhm / 2, c="g", linestyle="--")
-- 
2.43.0


From af695d186dcd9a8db8e8edf24962a0c3093ebc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:31 +0000
Subject: [PATCH 25/27] fix: source_photometry's bound mode clips at sigma, not
 sigma standard deviations

---
 petrofit/segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 40f4b5f..88e488f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -660,8 +660,8 @@ def source_photometry(
                     )
 
                     fit_bg_image = masked_stats_image
-                    fit_bg_image[np.where(fit_bg_image > mean + std * sigma)] = np.nan
-                    fit_bg_image[np.where(fit_bg_image < mean - std * sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
                     raise (
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
-- 
2.43.0


From 4c1e74beb268f84e9ee8c99f9f82b519d470ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:16 +0000
Subject: [PATCH 26/27] fix: a PSF of integers is rotated without being
 truncated to integers

---
 petrofit/modeling/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index f07a363..acee8d0 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -534,7 +534,7 @@ class PSFConvolvedModel2D(FittableModel):
             
             psf_p = psf_p[0] if isinstance(psf_p, (list, np.ndarray)) else psf_p 
             if psf_p != 0:
-                psf = rotate(psf, psf_p, reshape=False)
+                psf = rotate(psf, psf_p, reshape=False, output=float)
             model_image = convolve(model_image, psf, mode="same")
 
         if psf_factor > 1:
-- 
2.43.0


From f08f1aaed1771be1499a70326791900f932dd036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:15 +0000
Subject: [PATCH 27/27] fix: oversampling windows keep fractional means for
 models that return integers

---
 petrofit/modeling/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index acee8d0..2d07ad0 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -517,6 +517,9 @@ class PSFConvolvedModel2D(FittableModel):
                 if j_sub_max > grid_size:
                     j_sub_max = grid_size
 
+                # Work on a copy that can hold fractional values (window means)
+                model_image = model_image * 1.0
+
                 # Add the part of the oversampled window inside the image (at PSF resolution)
                 if i_sub_min < i_sub_max and j_sub_min < j_sub_max:
                     model_image[
-- 
2.43.0

