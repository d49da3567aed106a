From 9ae3a2f82b2543189123c483e543e67c63de9eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 01/28] fix: calculate_petrosian truncated the profile to
 integers for integer inputs

The result buffers take the dtype of the input areas, so integer areas
(e.g. method='center' photometry of an int image) gave 0/1 profiles.
---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 0e8d28c..10a9462 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -52,8 +52,8 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     """
 
     # Convert input to array
-    area_list = np.array(area_list)
-    flux_list = np.array(flux_list)
+    area_list = np.array(area_list, dtype=float)
+    flux_list = np.array(flux_list, dtype=float)
 
     # Validate input
     assert len(area_list) == len(flux_list)
-- 
2.43.0


From 88008c79d35534c17d5c7bc78c1426f1d0c939d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 02/28] fix: calculate_petrosian shifted the profile when an
 aperture area repeats

The inverse of np.unique indexes the unique areas, not the profile, so every
value after a repeated area was taken from an earlier radius.
---
 petrofit/petrosian/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 10a9462..599707d 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -79,7 +79,10 @@ def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
     petrosian_list = np.insert(petrosian_list, 0, np.nan)
 
     # Match input
-    _, unique_indices = np.unique(area_list, return_inverse=True)
+    _, first_indices, unique_indices = np.unique(
+        area_list, return_index=True, return_inverse=True
+    )
+    unique_indices = first_indices[unique_indices]
     petrosian_list = petrosian_list[unique_indices]
 
     if area_err is not None or flux_err is not None:
-- 
2.43.0


From 8a7133621567e87837bbc7dd68523f1d2b436ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 03/28] fix: Petrosian.half_flux_err read attributes that do
 not exist

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 599707d..db2ccb8 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -825,13 +825,13 @@ class Petrosian:
         Returns the photometric uncertainty at `r_half_flux` or np.nan if out of range.
         Note that this includes errors in estimating `r_half_flux`.
         """
-        r_half_flux_err = self.r_half_flux_err
+        r_half_flux_err = self.r_half_light_err
 
         if self.flux_err is None or np.isnan(self.half_flux):
             return np.nan
 
         f = interp1d(self.r_list, self.flux_err, kind="nearest")
-        flux_err = f(self.r_half_flux)
+        flux_err = f(self.r_half_light)
         return np.sqrt(flux_err**2 + r_half_flux_err**2)
 
     @property
-- 
2.43.0


From 3d9ff19b419e4690f90339841942c64d4e5f3a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 04/28] fix: total_flux and half_flux raised when interp_kind
 is None

fraction_to_r falls back to a cubic curve of growth for interp_kind=None;
do the same when reading the flux at the radius it returned.
---
 petrofit/petrosian/core.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index db2ccb8..4ad4fa5 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -787,7 +787,11 @@ class Petrosian:
         if not min(self.r_list) <= r_total_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_total_flux)
         return float(total_flux)
 
@@ -815,7 +819,11 @@ class Petrosian:
         if not min(self.r_list) <= r_half_flux <= max(self.r_list):
             return np.nan
 
-        f = interp1d(self.r_list, self.flux_list, kind=self.interp_kind)
+        f = interp1d(
+            self.r_list,
+            self.flux_list,
+            kind="cubic" if self.interp_kind is None else self.interp_kind,
+        )
         total_flux = f(r_half_flux)
         return float(total_flux)
 
-- 
2.43.0


From d12c4ea47ac7214cd61673612bfaf47a97cda183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 05/28] fix: fraction_to_r ignored interp_kind and interp_num
 in its error estimate

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 4ad4fa5..af248ea 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -343,13 +343,13 @@ def fraction_to_r(
     fractional_flux_lower = fractional_flux - fractional_flux_err
 
     r_list_lower, flux_list_lower = get_interpolated_values(
-        r_list, flux_list - flux_err
+        r_list, flux_list - flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_upper, flux_list_lower, growing=True)
     r_frac_upper = np.nan if idx is None else r_list_lower[idx]
 
     r_list_upper, flux_list_upper = get_interpolated_values(
-        r_list, flux_list + flux_err
+        r_list, flux_list + flux_err, kind=interp_kind, num=interp_num
     )
     idx = closest_value_index(fractional_flux_lower, flux_list_upper, growing=True)
     r_frac_lower = np.nan if idx is None else r_list_upper[idx]
-- 
2.43.0


From b5f11afd3c36b00a2cdfd9fca72578d1a5eeb6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 06/28] fix: fraction_to_r raised instead of returning nan out
 of the measured range

r_epsilon below the first radius, and r_epsilon +/- its error beyond either
end of the radius list, were evaluated outside of the interpolation table.
---
 petrofit/petrosian/core.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index af248ea..8c278c0 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -291,7 +291,7 @@ def fraction_to_r(
 
     r_epsilon = r_petrosian * epsilon
 
-    if r_epsilon > max(r_list):
+    if r_epsilon > max(r_list) or r_epsilon < min(r_list):
         return np.nan, np.nan
 
     f = interp1d(
@@ -321,6 +321,13 @@ def fraction_to_r(
     )
     r_epsilon_err = r_petrosian_err
 
+    # The error can not be estimated if r_epsilon +/- its error is out of range
+    if (
+        r_epsilon + r_epsilon_err > max(r_list)
+        or r_epsilon - r_epsilon_err < min(r_list)
+    ):
+        return r_frac, np.nan
+
     # Compute the fractional_flux_err error
     f_lower = interp1d(
         r_list,
-- 
2.43.0


From f63d3fc82f1ae254abfd1b56e021c6ef6e30eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 07/28] fix: Petrosian.plot and plot_cog styled the current
 axes instead of the given ax

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 8c278c0..54f151c 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1072,7 +1072,7 @@ class Petrosian:
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         if show_legend:
@@ -1215,7 +1215,7 @@ class Petrosian:
             fontsize=ax_fontsize,
         )
 
-        mpl_tick_frame(minorticks=True, tick_fontsize=tick_fontsize)
+        mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
 
         ax.set_xlim(0, None)
         ax.set_ylim(0, None)
-- 
2.43.0


From b7834a177f024e22e457fae0c43f4e440f6a62a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 08/28] fix: hst_flux_to_abmag raised for numpy scalars and
 integer arrays

np.where is not defined for 0-d arrays and nan can not be stored in an
integer array.
---
 petrofit/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index ca7ff16..cc73872 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -60,8 +60,8 @@ def make_radius_list(max_pix, n, log=False):
 def hst_flux_to_abmag(flux, header):
     """Convert HST flux to AB Mag"""
     if not type(flux) in [int, float]:
-        flux = np.array(flux)
-        flux[np.where(flux <= 0)] = np.nan
+        flux = np.array(flux, dtype=float)
+        flux[flux <= 0] = np.nan
     elif flux <= 0:
         return np.nan
 
-- 
2.43.0


From f62f349b59cca77860a9803a56808183bb27daf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 09/28] fix: cutout_subtract modified its input and failed for
 odd or clipped cutouts

The docstring promises a copy, odd sized cutouts lost a row and a column of
the window, and a cutout that extends past the image could not be subtracted.
---
 petrofit/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/petrofit/utils.py b/petrofit/utils.py
index cc73872..56d8003 100644
--- a/petrofit/utils.py
+++ b/petrofit/utils.py
@@ -230,10 +230,11 @@ def cutout_subtract(image, target, x, y):
     """
 
     dy, dx = target.shape
-    bounds = np.array([y - dy // 2, y + dy // 2, x - dx // 2, x + dx // 2])
-    bounds[bounds < 0] = 0
-    ymin, ymax, xmin, xmax = bounds
-    image[ymin:ymax, xmin:xmax] -= target
+    y0, x0 = y - dy // 2, x - dx // 2
+    ymin, ymax = np.clip([y0, y0 + dy], 0, image.shape[0])
+    xmin, xmax = np.clip([x0, x0 + dx], 0, image.shape[1])
+    image = image.copy()
+    image[ymin:ymax, xmin:xmax] -= target[ymin - y0 : ymax - y0, xmin - x0 : xmax - x0]
     return image
 
 
-- 
2.43.0


From 1371f2dfc3083ff5dc571d64779e9fe6788447de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 10/28] fix: segm_mask appended the background label to the
 caller's list

A second call with the same list and mask_background=True kept the background.
---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 83cd66f..40f4b5f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -224,7 +224,7 @@ def segm_mask(source, segm, mask_background=False):
     ):
         sources = [source]
     elif isinstance(source, list):
-        sources = source
+        sources = list(source)
     else:
         raise TypeError(
             "Input should be a label (int or photutils SourceCatalog) or a list of such items"
-- 
2.43.0


From 489405703b7a5916c16b05918351418f4729059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 11/28] fix: source_photometry sigma_type='bound' scaled sigma
 by the image std

In this mode sigma is documented as a value, and is used as one two lines
below, where the image is clipped at -sigma.
---
 petrofit/segmentation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 40f4b5f..88e488f 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -660,8 +660,8 @@ def source_photometry(
                     )
 
                     fit_bg_image = masked_stats_image
-                    fit_bg_image[np.where(fit_bg_image > mean + std * sigma)] = np.nan
-                    fit_bg_image[np.where(fit_bg_image < mean - std * sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
+                    fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
                     raise (
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
-- 
2.43.0


From 785c3335611b4a8fd32018dc3aa05ce8f55c8944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 12/28] fix: source_photometry raised a string for an unknown
 sigma_type

---
 petrofit/segmentation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/segmentation.py b/petrofit/segmentation.py
index 88e488f..ee56383 100644
--- a/petrofit/segmentation.py
+++ b/petrofit/segmentation.py
@@ -663,7 +663,7 @@ def source_photometry(
                     fit_bg_image[np.where(fit_bg_image > mean + sigma)] = np.nan
                     fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan
                 else:
-                    raise (
+                    raise ValueError(
                         "background image masking sigma type not understood, try 'clip' or 'bound'"
                     )
 
-- 
2.43.0


From 6de1ac3f6239b344e107bfbe3530d74e018dd8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 13/28] fix: model_to_image rejected numpy arrays for size and
 center

The type was compared with the function np.array, not with np.ndarray.
---
 petrofit/modeling/fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 385e541..622b8ea 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -146,7 +146,7 @@ def _validate_image_size(size):
         "Input size (pixels) should be an integers or a tuple of two integers."
     )
 
-    if type(size) in [list, tuple, np.array]:
+    if type(size) in [list, tuple, np.ndarray]:
         assert len(size) == 2, error_message
         x_size, y_size = size
 
@@ -173,7 +173,7 @@ def model_center_to_image_origin(center, size):
     x_size, y_size = _validate_image_size(size)
 
     center_error_message = "Center should be a tuple of two integers."
-    assert type(center) in [list, tuple, np.array], center_error_message
+    assert type(center) in [list, tuple, np.ndarray], center_error_message
     assert len(center) == 2, center_error_message
 
     origin = np.array(center) - np.floor_divide(np.array([x_size, y_size]), 2)
-- 
2.43.0


From 5d72f83730c1323927e939da8eeaf0dc03b062e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 14/28] fix: fit_model returned the fitter class instead of the
 fitter it ran

fit_info, and with it the covariance requested by calc_uncertainties, was lost.
---
 petrofit/modeling/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index 622b8ea..f9bc7fc 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -123,7 +123,7 @@ def fit_model(
     else:
         fitted_model = fitter_instance(model, x_arange, y_arange, z, weights=w)
 
-    return fitted_model, fitter
+    return fitted_model, fitter_instance
 
 
 def _validate_image_size(size):
-- 
2.43.0


From b189d16d3efe2094c09f6e33211a7b2425f8ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 15/28] fix: fit_model let masked pixels pull non-linear fits

The fitters other than LinearLSQFitter ignore the mask, so the sigma clipping
of fit_background was lost and the clipped pixels entered as zero-valued data.
---
 petrofit/modeling/fitting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index f9bc7fc..a3abfbb 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -92,6 +92,10 @@ def fit_model(
             Fitter used to estimate and set model parameters.
     """
 
+    # Masked pixels (such as sigma clipped ones) are not data
+    if isinstance(image, np.ma.MaskedArray):
+        image = image.astype(float).filled(np.nan)
+
     # Make x and y grid to fit to
     y_arange, x_arange = np.where(~(np.isnan(image)))
 
-- 
2.43.0


From b63e42398232929d2bf094c7934f431308a293d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 16/28] fix: measure_fwhm raised unless plot=False

plot_fit takes the model first and returns its three axes, not a figure and
four axes with the 1D profiles.
---
 petrofit/modeling/fitting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/petrofit/modeling/fitting.py b/petrofit/modeling/fitting.py
index a3abfbb..19d0784 100644
--- a/petrofit/modeling/fitting.py
+++ b/petrofit/modeling/fitting.py
@@ -540,10 +540,9 @@ def measure_fwhm(image, plot=True, printout=True):
 
     if plot:
 
-        fig, [ax0, ax1, ax2, ax3] = plot_fit(image, fitted_line)
+        plot_fit(fitted_line, image)
 
-        # Make x and y grid to plot to
-        y_arange, x_arange = np.mgrid[: image.shape[0], : image.shape[1]]
+        fig, [ax0, ax2, ax3] = plt.subplots(1, 3, figsize=[18, 6])
 
         # Plot input image with FWHM and center
         # -------------------------------------
@@ -562,6 +561,7 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot X fit
         # ----------
 
+        ax2.plot(image[int(np.round(y_mean)), :], label="Data")
         ax2.axvline(x_mean, linestyle="-", label="Center")
         ax2.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
         ax2.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
@@ -572,6 +572,7 @@ def measure_fwhm(image, plot=True, printout=True):
         # Plot Y fit
         # ----------
 
+        ax3.plot(image[:, int(np.round(x_mean))], label="Data")
         ax3.axvline(y_mean, linestyle="-", label="Center")
         ax3.axvline(y_mean - y_fwhm / 2, c="g", linestyle="--", label="Y FWHM")
         ax3.axvline(y_mean + y_fwhm / 2, c="g", linestyle="--")
-- 
2.43.0


From 0b0f0fe176c4004415d7107dc861726a8c17d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 17/28] fix: estimate_epsilon raised KeyError for
 epsilon_fraction=0.5

The corrected half light radius is written to the grid as c_r_50.
---
 petrofit/petrosian/correction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index ba37500..0c29e1c 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -482,7 +482,7 @@ class PetrosianCorrection:
         eta = p.eta
 
         if epsilon_fraction == 0.5:
-            r_ep = row["c_r_eff"]
+            r_ep = row["c_r_50"]
         elif epsilon_fraction == 0.8:
             r_ep = row["c_r_80"]
         elif epsilon_fraction == 0.99:
-- 
2.43.0


From da158463dcc815198b58f62b844e077e9546bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 18/28] fix: estimate_epsilon did not name the unsupported
 epsilon_fraction

---
 petrofit/petrosian/correction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/petrofit/petrosian/correction.py b/petrofit/petrosian/correction.py
index 0c29e1c..aefca13 100644
--- a/petrofit/petrosian/correction.py
+++ b/petrofit/petrosian/correction.py
@@ -489,7 +489,9 @@ class PetrosianCorrection:
             r_ep = row["c_r_99"]
         else:
             raise ValueError(
-                "Input epsilon_fraction={} is not supported, choose from [0.5, 0.8, 0.99]"
+                "Input epsilon_fraction={} is not supported, choose from [0.5, 0.8, 0.99]".format(
+                    epsilon_fraction
+                )
             )
 
         if eta not in self.eta_keys.keys():
-- 
2.43.0


From d12f397edb02863afba5f8ccc6024446bd920f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 19/28] fix: radial_photometry rounded fluxes and errors to 6
 decimals

Images in units such as erg/s/cm2 have total fluxes far below 1e-6, which
were all returned as 0.
---
 petrofit/photometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/photometry.py b/petrofit/photometry.py
index c3a3907..951364c 100644
--- a/petrofit/photometry.py
+++ b/petrofit/photometry.py
@@ -209,9 +209,9 @@ def radial_photometry(
         )
 
         aperture_area = float(np.round(aperture_area, 6))
-        photometric_value = float(np.round(photometric_value, 6))
+        photometric_value = float(photometric_value[0])
         photometric_err = (
-            float(np.round(photometric_err, 6)) if photometric_err.size > 0 else np.nan
+            float(photometric_err[0]) if photometric_err.size > 0 else np.nan
         )
 
         if np.isnan(photometric_value):
-- 
2.43.0


From dd9fe76fdd1a5f8f69298e31e0693f450d964185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 20/28] fix: PSFConvolvedModel2D placed the oversampling window
 relative to (0, 0)

The window is given in the coordinates the model is evaluated on, but its
indices were not relative to the corner of the grid.
---
 petrofit/modeling/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 2dba4e7..7d1b5fd 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -476,8 +476,8 @@ class PSFConvolvedModel2D(FittableModel):
 
                 # Compute the corner of the sub-grid
                 sub_grid_origin = (
-                    np.round(sub_grid_x0) - sub_grid_size // 2,
-                    np.round(sub_grid_y0) - sub_grid_size // 2,
+                    np.round(sub_grid_x0 - x.min()) - sub_grid_size // 2 + x.min(),
+                    np.round(sub_grid_y0 - y.min()) - sub_grid_size // 2 + y.min(),
                 )
 
                 # Make an oversampled sub-grid for window
@@ -497,8 +497,8 @@ class PSFConvolvedModel2D(FittableModel):
                 )
 
                 # Compute window indices in main image frame at data resolution first
-                i_sub_min = int(np.round(sub_grid_origin[0]))
-                j_sub_min = int(np.round(sub_grid_origin[1]))
+                i_sub_min = int(np.round(sub_grid_origin[0] - x.min()))
+                j_sub_min = int(np.round(sub_grid_origin[1] - y.min()))
                 i_sub_max = i_sub_min + sub_grid_size
                 j_sub_max = j_sub_min + sub_grid_size
 
-- 
2.43.0


From faf385bb3296b8efd5b24e4f07804b96373f5857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 21/28] fix: PSFConvolvedModel2D raised when the oversampling
 window leaves the image

The window indices were clipped to the image but the window was not.
---
 petrofit/modeling/models.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 7d1b5fd..1991c29 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -502,6 +502,9 @@ class PSFConvolvedModel2D(FittableModel):
                 i_sub_max = i_sub_min + sub_grid_size
                 j_sub_max = j_sub_min + sub_grid_size
 
+                # Corner of the window before it is clipped
+                i_sub_corner, j_sub_corner = i_sub_min, j_sub_min
+
                 # Clip window indices
                 if i_sub_min < 0:
                     i_sub_min = 0
@@ -512,6 +515,20 @@ class PSFConvolvedModel2D(FittableModel):
                 if j_sub_max > j.max():
                     j_sub_max = j.max() + 1
 
+                # If the window is outside the image there is nothing to replace
+                i_sub_max = max(i_sub_min, i_sub_max)
+                j_sub_max = max(j_sub_min, j_sub_max)
+
+                # Crop the window like its indices
+                sub_model_image = sub_model_image[
+                    (j_sub_min - j_sub_corner)
+                    * psf_factor : (j_sub_max - j_sub_corner)
+                    * psf_factor,
+                    (i_sub_min - i_sub_corner)
+                    * psf_factor : (i_sub_max - i_sub_corner)
+                    * psf_factor,
+                ]
+
                 # Convert to PSF resolution
                 i_sub_min *= psf_factor
                 j_sub_min *= psf_factor
-- 
2.43.0


From 78fe09a547e01ff52a33fbe15563c6d9bde412d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 22/28] fix: oversample=None was accepted while the PSF is
 oversampled

The model could not be evaluated afterwards.
---
 petrofit/modeling/models.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 1991c29..4bf5441 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -292,6 +292,11 @@ class PSFConvolvedModel2D(FittableModel):
                 raise ValueError(
                     "oversample should be equal to or an integer multiple of psf_oversample"
                 )
+        elif psf_oversample != 1:
+            raise ValueError(
+                "oversample should be equal to or an integer multiple of psf_oversample. "
+                "Set PSFConvolvedModel2D.psf_oversample value first."
+            )
         self._oversample = oversample
 
     @property
-- 
2.43.0


From dfe21a5f89dd78c390c73212a0c60cd1d37295aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 23/28] fix: Nuker2D measured radii sqrt(2) times too long

The rotated axes are not normalised, so the amplitude was not the intensity
at r_break.
---
 petrofit/modeling/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 4bf5441..27e0bb0 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -618,7 +618,7 @@ def Nuker2D(x, y, amplitude=1, r_break=1, x_0=0, y_0=0, alpha=2, betta=4, gamma=
     """Two dimensional Nuker2D model"""
     x_maj = (x - x_0) + (y - y_0)
     x_min = -(x - x_0) + (y - y_0)
-    r = np.sqrt((x_maj) ** 2 + (x_min) ** 2)
+    r = np.sqrt(((x_maj) ** 2 + (x_min) ** 2) / 2)
 
     r[np.where(r == 0)] = np.nan
 
-- 
2.43.0


From e5bde6fb2335801bfd767bac08abdbdbda6bbd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 24/28] fix: CoreSersic2D divided its radius by r_eff

The profile compares r with r_break and r_eff, so r has to be in the units of
both; the intensity at r_break is then the amplitude.
---
 petrofit/modeling/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index 27e0bb0..c97dfea 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -649,7 +649,7 @@ def CoreSersic2D(
     Core Sersic model as defined by Graham et al 2003.
     """
     bn = gammaincinv(2.0 * n, 0.5)
-    a, b = r_eff, (1 - ellip) * r_eff
+    a, b = 1, 1 - ellip
     cos_theta, sin_theta = np.cos(theta), np.sin(theta)
     x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
     x_min = -(x - x_0) * sin_theta + (y - y_0) * cos_theta
-- 
2.43.0


From 1ffda0a6da3f68e03b7a19fff9f00434570c5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 25/28] fix: GenSersic2D could not be evaluated (relied on a
 removed astropy class attribute)

---
 petrofit/modeling/models.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/petrofit/modeling/models.py b/petrofit/modeling/models.py
index c97dfea..69554bc 100644
--- a/petrofit/modeling/models.py
+++ b/petrofit/modeling/models.py
@@ -595,12 +595,7 @@ class GenSersic2D(models.Sersic2D):
     def evaluate(cls, x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0):
         """Two dimensional Sersic profile function."""
 
-        if cls._gammaincinv is None:
-            from scipy.special import gammaincinv
-
-            cls._gammaincinv = gammaincinv
-
-        bn = cls._gammaincinv(2.0 * n, 0.5)
+        bn = gammaincinv(2.0 * n, 0.5)
         a, b = r_eff, (1 - ellip) * r_eff
         cos_theta, sin_theta = np.cos(theta), np.sin(theta)
         x_maj = (x - x_0) * cos_theta + (y - y_0) * sin_theta
-- 
2.43.0


From 75de02e438f89feec4b3531b7059c26fed15d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 26/28] fix: document the actual default interp_kind of
 calculate_petrosian_r

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 54f151c..e03b76d 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -160,7 +160,7 @@ def calculate_petrosian_r(
         `'cubic'`, `'previous'`, or `'next'`. `'zero'`, `'slinear'`, `'quadratic'` and `'cubic'` refer to a spline
         interpolation of zeroth, first, second or third order; `'previous'` and `'next'` simply return the
         previous or next value of the point; `'nearest-up'` and `'nearest'` differ when interpolating half-integers
-        (e.g. 0.5, 1.5) in that `'nearest-up'` rounds up and `'nearest'` rounds down. Default is `'linear'`.
+        (e.g. 0.5, 1.5) in that `'nearest-up'` rounds up and `'nearest'` rounds down. Default is `'cubic'`.
 
     interp_num : int
         Number of interpolation function sampling radii.
-- 
2.43.0


From 1e77f8a6084dd34d86ef645e35e9918f1a8f049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 27/28] fix: plot_cog raised a TypeError when only area errors
 are given

---
 petrofit/petrosian/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index e03b76d..631eea4 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1156,7 +1156,7 @@ class Petrosian:
             label="Data",
         )
 
-        if err_alpha is not None and self.has_petrosian_err and err_alpha > 0:
+        if err_alpha is not None and self.flux_err is not None and err_alpha > 0:
             ax.fill_between(
                 self.r_list,
                 self.flux_list - self.flux_err,
-- 
2.43.0


From ab60d7f06c5275c8e4ab413c40eb47b10d7493c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 28/28] fix: the radius axis label vanished when no radius unit
 is given

---
 petrofit/petrosian/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/petrofit/petrosian/core.py b/petrofit/petrosian/core.py
index 631eea4..7c7b573 100644
--- a/petrofit/petrosian/core.py
+++ b/petrofit/petrosian/core.py
@@ -1067,7 +1067,7 @@ class Petrosian:
         ax.axhline(0, c="black")
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(r"Petrosian Index $\eta(r)$", fontsize=ax_fontsize)
@@ -1207,7 +1207,7 @@ class Petrosian:
 
         ax.set_title(title, fontsize=ax_fontsize)
         ax.set_xlabel(
-            "Aperture Radius" + " [{}]".format(radius_unit) if radius_unit else "",
+            "Aperture Radius" + (" [{}]".format(radius_unit) if radius_unit else ""),
             fontsize=ax_fontsize,
         )
         ax.set_ylabel(
-- 
2.43.0

