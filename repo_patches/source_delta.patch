From 46a10b795193a91e1af4fa713c29fd608a0420e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:10 +0000
Subject: [PATCH 001/132] fix: CountBeyondThreshold with both thresholds
 combines the conditions element-wise

---
 rubin_sim/maf/metrics/simple_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index f2b5bde..4fdba37 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -303,7 +303,7 @@ class CountBeyondThreshold(BaseMetric):
             count = len(
                 np.where(
                     (data_slice[self.colname] > self.lower_threshold)
-                    and (data_slice[self.colname] < self.upper_threshold)
+                    & (data_slice[self.colname] < self.upper_threshold)
                 )[0]
             )
         return count
-- 
2.43.0


From de41c2cfd1a65c73577a5c03160bb377f899cf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:53 +0000
Subject: [PATCH 002/132] fix: OneDSlicer includes the right edge in the last
 bin, as documented

---
 rubin_sim/maf/slicers/one_d_slicer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index 55d091d..b3c3393 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -153,9 +153,10 @@ class OneDSlicer(BaseSlicer):
         data_sorted = sim_data[self.slice_col_name][indxs]
 
         # Setting up slices such that left_edge <= data < right_edge
-        # in each slice.
+        # in each slice, except that the last slice includes its right edge.
         left = np.searchsorted(data_sorted, self.bins[0:-1], "left")
         right = np.searchsorted(data_sorted, self.bins[1:], "left")
+        right[-1:] = np.searchsorted(data_sorted, self.bins[-1:], "right")
 
         self.sim_idxs = [indxs[le:ri] for le, ri in zip(left, right)]
 
-- 
2.43.0


From 51603ad0005ab09899a6bab467f93b30b1d2dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:53 +0000
Subject: [PATCH 003/132] fix: OneDSlicer warns, rather than raises, when both
 bins and bin_min/max/size are given

---
 rubin_sim/maf/slicers/one_d_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index b3c3393..89b0279 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -66,7 +66,7 @@ class OneDSlicer(BaseSlicer):
         # Forget binmin/max/stepsize if bins was set
         if self.bins is not None:
             if bin_min is not None or bin_max is not None or bin_size is not None:
-                warnings.warning(
+                warnings.warn(
                     f"Both bins and one of the bin_min/bin_max/bin_size was specified. "
                     f"Using bins ({self.bins} values only."
                 )
-- 
2.43.0


From 256fac08c836734bea1ee0953a96d43a01a12c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:53 +0000
Subject: [PATCH 004/132] fix: NDSlicer equality compares all of the bins, not
 only the first few

---
 rubin_sim/maf/slicers/nd_slicer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rubin_sim/maf/slicers/nd_slicer.py b/rubin_sim/maf/slicers/nd_slicer.py
index 91c9db1..073b590 100644
--- a/rubin_sim/maf/slicers/nd_slicer.py
+++ b/rubin_sim/maf/slicers/nd_slicer.py
@@ -139,9 +139,6 @@ class NDSlicer(BaseSlicer):
         if isinstance(other_slicer, NDSlicer):
             if other_slicer.n_d != self.n_d:
                 return False
-            for i in range(self.n_d):
-                if not np.array_equal(other_slicer.slice_points["bins"][i], self.slice_points["bins"][i]):
-                    return False
-            return True
+            return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
         else:
             return False
-- 
2.43.0


From 58ca3196e9b78a412ffdea236ed9ec2da1361af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:53 +0000
Subject: [PATCH 005/132] fix: TimeIntervalSlicer puts each visit in the
 interval that contains it, and leaves empty intervals empty

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index e5cca06..c650873 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -73,7 +73,8 @@ class TimeIntervalSlicer(BaseSlicer):
             pd.DataFrame(
                 {
                     "visit_idx": np.arange(len(visit_mjds)),
-                    "sid": np.digitize(visit_mjds, mjd_bin_edges),
+                    # digitize counts from 1, slices count from 0.
+                    "sid": np.digitize(visit_mjds, mjd_bin_edges) - 1,
                 }
             )
             .groupby("sid")
@@ -95,8 +96,11 @@ class TimeIntervalSlicer(BaseSlicer):
 
             try:
                 _ = idxs[0]
-            except (TypeError, IndexError):
+            except TypeError:
                 idxs = [idxs]
+            except IndexError:
+                # No visits in this slice.
+                pass
 
             slice_points = {
                 "sid": islice,
-- 
2.43.0


From a3498b691b8ba836eec592e48671d7b9a2412c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:53 +0000
Subject: [PATCH 006/132] fix: VisitIntervalSlicer slice metadata describes the
 visit in the slice, for unsorted visits too

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index c650873..bb1f821 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -262,10 +262,11 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
 
         self.sim_idxs = np.argsort(sim_data[self.mjd_column_name])
         self.slice_points["sid"] = np.arange(self.nslice)
-        self.slice_points["mjd"] = sim_data[self.mjd_column_name]
-        self.slice_points["duration"] = sim_data[self.duration_column_name]
+        # Slices are in time order, so their metadata must be as well.
+        for key, column_name in (("mjd", self.mjd_column_name), ("duration", self.duration_column_name)):
+            self.slice_points[key] = np.asarray(sim_data[column_name])[self.sim_idxs]
         for column_name in self.extra_column_names:
-            self.slice_points[column_name] = sim_data[column_name]
+            self.slice_points[column_name] = np.asarray(sim_data[column_name])[self.sim_idxs]
         self._run_maps(maps)
 
         @wraps(self._slice_sim_data)
@@ -277,7 +278,7 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
                 "duration": self.slice_points["duration"][islice],
             }
             for column_name in self.extra_column_names:
-                slice_points[column_name] = self.slice_points[column_name]
+                slice_points[column_name] = self.slice_points[column_name][islice]
 
             return {"idxs": idxs, "slice_point": slice_points}
 
-- 
2.43.0


From 60fe9ba127248dda47e1499925cb8cb2f13f1aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:20 +0000
Subject: [PATCH 007/132] fix: accumulating metrics count the visits up to the
 end of each bin, not one more

---
 rubin_sim/maf/metrics/vector_metrics.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/metrics/vector_metrics.py b/rubin_sim/maf/metrics/vector_metrics.py
index 2f357da..059d6ae 100644
--- a/rubin_sim/maf/metrics/vector_metrics.py
+++ b/rubin_sim/maf/metrics/vector_metrics.py
@@ -81,8 +81,8 @@ class AccumulateMetric(VectorMetric):
 
         result = self.function.accumulate(data_slice[self.col])
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
+        # indices counts the visits up to each bin edge.
+        result = result[np.maximum(indices - 1, 0)]
         result[np.where(indices == 0)] = self.badval
         return result
 
@@ -93,8 +93,8 @@ class AccumulateCountMetric(AccumulateMetric):
         to_count = np.ones(data_slice.size, dtype=int)
         result = self.function.accumulate(to_count)
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
+        # indices counts the visits up to each bin edge.
+        result = result[np.maximum(indices - 1, 0)]
         result[np.where(indices == 0)] = self.badval
         return result
 
@@ -145,8 +145,8 @@ class AccumulateM5Metric(AccumulateMetric):
 
         result = np.add.accumulate(flux)
         indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
-        result = result[indices]
+        # indices counts the visits up to each bin edge.
+        result = result[np.maximum(indices - 1, 0)]
         result = 1.25 * np.log10(result)
         result[np.where(indices == 0)] = self.badval
         return result
-- 
2.43.0


From b983047b0a82dbd968e82422470c91564a438b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:19 +0000
Subject: [PATCH 008/132] fix: ParallaxCoverageMetric wraps the shifted angles
 at 2 pi

---
 rubin_sim/maf/metrics/calibration_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 87e7584..cc4ff10 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -375,7 +375,7 @@ class ParallaxCoverageMetric(BaseMetric):
         result = 0.0
         if np.max(theta) >= self.theta_range:
             # Check that things are in different quadrants
-            theta = (theta + np.pi) % 2.0 * np.pi
+            theta = (theta + np.pi) % (2.0 * np.pi)
             theta = theta - np.min(theta)
             if np.max(theta) >= self.theta_range:
                 result = 1
-- 
2.43.0


From f828d6a1694eaca679578655db6dc27101206cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:19 +0000
Subject: [PATCH 009/132] fix: astrometry metrics find the stellar template
 magnitudes

---
 rubin_sim/maf/metrics/calibration_metrics.py | 11 +++++------
 rubin_sim/maf/metrics/dcr_metric.py          |  3 +--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index cc4ff10..9b24b1b 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -7,7 +7,6 @@ __all__ = (
 )
 
 import numpy as np
-import rubin_scheduler.utils as utils
 from scipy.optimize import curve_fit
 
 import rubin_sim.maf.utils as mafUtils
@@ -78,7 +77,7 @@ class ParallaxMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.comment = (
@@ -216,7 +215,7 @@ class ProperMotionMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.baseline = baseline
@@ -359,7 +358,7 @@ class ParallaxCoverageMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         caption = "Parallax factor coverage for an r=%.2f star (0 is bad, 0.5-1 is good). " % (rmag)
         caption += "One expects the parallax factor coverage to vary because stars on the ecliptic "
@@ -437,7 +436,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
         r-band magnitude of the fiducual star that is being used (mag).
     SedTemplate : `str`
         The SED template to use for fiducia star colors,
-        passed to rubin_scheduler.utils.stellarMags.
+        passed to rubin_sim.maf.utils.stellar_mags.
         Default 'flat'
     tol : `float`
         Tolerance for how well curve_fit needs to work before
@@ -487,7 +486,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             for f in ["u", "g", "r", "i", "z", "y"]:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
 
     def _positions(self, x, a, b):
diff --git a/rubin_sim/maf/metrics/dcr_metric.py b/rubin_sim/maf/metrics/dcr_metric.py
index 23d9d67..9e14272 100644
--- a/rubin_sim/maf/metrics/dcr_metric.py
+++ b/rubin_sim/maf/metrics/dcr_metric.py
@@ -1,7 +1,6 @@
 __all__ = ("DcrPrecisionMetric",)
 
 import numpy as np
-import rubin_scheduler.utils as utils
 
 import rubin_sim.maf.utils as mafUtils
 
@@ -41,7 +40,7 @@ class DcrPrecisionMetric(BaseMetric):
             for f in self.filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         cols = [
             "ra_dcr_amp",
             "dec_dcr_amp",
-- 
2.43.0


From 3277ae1c5b5fd70fec8c440718aee7981cc818b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:41 +0000
Subject: [PATCH 010/132] fix: collapse_night sorts on the given time column

---
 rubin_sim/maf/utils/maf_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/utils/maf_utils.py b/rubin_sim/maf/utils/maf_utils.py
index 47dc9a2..c23687f 100644
--- a/rubin_sim/maf/utils/maf_utils.py
+++ b/rubin_sim/maf/utils/maf_utils.py
@@ -86,7 +86,7 @@ def collapse_night(
         )
 
     night_slice = np.concatenate([night_slice[f] for f in night_slice])
-    night_slice.sort(order=["observationStartMJD"])
+    night_slice.sort(order=[mjd_col])
 
     return night_slice
 
-- 
2.43.0


From df6356ea1b91afdd1926bb39d094f64b477bd6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:41 +0000
Subject: [PATCH 011/132] fix: NgalScaleMetric ignores the visits in other
 bands, as documented

---
 rubin_sim/maf/metrics/scaling_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/scaling_metrics.py b/rubin_sim/maf/metrics/scaling_metrics.py
index 7a9a884..38886e5 100644
--- a/rubin_sim/maf/metrics/scaling_metrics.py
+++ b/rubin_sim/maf/metrics/scaling_metrics.py
@@ -57,7 +57,7 @@ class NgalScaleMetric(BaseMetric):
     def run(self, data_slice, slice_point):
         # I'm a little confused why there's a dust cut and an M5 cut,
         # but whatever
-        a_x = self.ax1[data_slice[self.filter_col][0]] * slice_point["ebv"]
+        a_x = self.ax1[self.filtername] * slice_point["ebv"]
         if a_x > self.a_max:
             return 0
 
@@ -66,7 +66,7 @@ class NgalScaleMetric(BaseMetric):
         if coadd_m5 < self.m5min:
             return 0
 
-        theta = np.median(data_slice[self.seeing_col])
+        theta = np.median(data_slice[self.seeing_col][in_filt])
         # N gals per arcmin2
         ngal_per_arcmin2 = 57 * (0.75 / theta) ** 1.5
 
-- 
2.43.0


From 920a1f6741b044a61ebd9806a4f3a390cefcae9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:41 +0000
Subject: [PATCH 012/132] fix: ExgalM5WithCuts passes its band column on to the
 co-added depth

---
 rubin_sim/maf/metrics/weak_lensing_systematics_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
index 54e0c4e..07a2c65 100644
--- a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
+++ b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
@@ -42,7 +42,7 @@ class ExgalM5WithCuts(BaseMetric):
         self.lsst_filter = lsst_filter
         # I thought about inheriting from ExGalM5 instead, but the columns
         # specification is more complicated
-        self.exgal_m5 = ExgalM5(m5_col=m5_col, units=units)
+        self.exgal_m5 = ExgalM5(m5_col=m5_col, filter_col=filter_col, units=units)
         super().__init__(
             col=[self.m5_col, self.filter_col],
             metric_name=metric_name,
-- 
2.43.0


From dc2cdf69eb82e003834a0d4610de205c015e99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:41 +0000
Subject: [PATCH 013/132] fix: SurfaceBrightLimitMetric refuses to co-add
 different bands

---
 rubin_sim/maf/metrics/surfb_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/surfb_metric.py b/rubin_sim/maf/metrics/surfb_metric.py
index 0a9e20d..6874816 100644
--- a/rubin_sim/maf/metrics/surfb_metric.py
+++ b/rubin_sim/maf/metrics/surfb_metric.py
@@ -150,7 +150,7 @@ class SurfaceBrightLimitMetric(BaseMetric):
     def run(self, data_slice, slice_point):
         filtername = np.unique(data_slice[self.filter_col])
         if np.size(filtername) > 1:
-            ValueError("Can only coadd depth in single filter, got filters %s" % filtername)
+            raise ValueError("Can only coadd depth in single filter, got filters %s" % filtername)
         filtername = filtername[0]
 
         # Scale up readnoise if the visit was split into multiple snaps
-- 
2.43.0


From 6e390463896aa8e0fa793fa18df86d7b63d3d6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:34 +0000
Subject: [PATCH 014/132] fix: GeneralUniformityMetric scales the values by
 their range

---
 rubin_sim/maf/metrics/cadence_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index 5e29bd9..194472a 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -145,7 +145,10 @@ class GeneralUniformityMetric(BaseMetric):
             max_value = data_slice[self.col].max()
         else:
             max_value = self.max_value
-        scaled_values = (data_slice[self.col] - min_value) / max_value
+        # If there is no range of values, there is no uniformity
+        if max_value == min_value:
+            return 1
+        scaled_values = (data_slice[self.col] - min_value) / (max_value - min_value)
         scaled_values.sort()  # Just to be sure
         n_cum = np.arange(0, scaled_values.size) / float(scaled_values.size - 1)
         d_max = np.max(np.abs(n_cum - scaled_values))
-- 
2.43.0


From 3b3852bc8de42ec209bd98929d6884cb2231fde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:34 +0000
Subject: [PATCH 015/132] fix: NightgapsMetric with all gaps handles visits in
 a single night

---
 rubin_sim/maf/metrics/tgaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/tgaps.py b/rubin_sim/maf/metrics/tgaps.py
index 62c81be..e027e8f 100644
--- a/rubin_sim/maf/metrics/tgaps.py
+++ b/rubin_sim/maf/metrics/tgaps.py
@@ -245,7 +245,7 @@ class NightgapsMetric(BaseMetric):
         if data_slice.size < 2:
             return self.badval
         nights = np.sort(np.unique(data_slice[self.night_col]))
-        if self.all_gaps:
+        if self.all_gaps and nights.size > 1:
             all_diffs = []
             for i in np.arange(1, nights.size, 1):
                 all_diffs.append((nights - np.roll(nights, i))[i:])
-- 
2.43.0


From f622dbd970526f69e91f483adc754fab455a9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:48 +0000
Subject: [PATCH 016/132] fix: PairFractionMetric counts both visits of a pair
 exactly at a gap limit

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 00450f6..bb21e83 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -48,7 +48,7 @@ class PairFractionMetric(BaseMetric):
         # Check which ones have a forard match
         t_plus = times + self.max_gap
         t_minus = times + self.min_gap
-        ind1 = np.searchsorted(times, t_plus)
+        ind1 = np.searchsorted(times, t_plus, side="right")
         ind2 = np.searchsorted(times, t_minus)
         # If ind1 and ind2 are the same, there is no pairable image for
         # that exposure
@@ -58,7 +58,7 @@ class PairFractionMetric(BaseMetric):
         t_plus = times - self.max_gap
         t_minus = times - self.min_gap
         ind1 = np.searchsorted(times, t_plus)
-        ind2 = np.searchsorted(times, t_minus)
+        ind2 = np.searchsorted(times, t_minus, side="right")
 
         diff2 = ind1 - ind2
 
-- 
2.43.0


From ff5fc2a394e500d8104f1a0c0c1cc77bb131d93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:48 +0000
Subject: [PATCH 017/132] fix: VisitGroupsMetric counts each visit of a night
 once, and none for two visits too far apart

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 32 +++++---------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index bb21e83..057a651 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -185,8 +185,6 @@ class VisitGroupsMetric(BaseMetric):
         for n in uniquenights:
             condition = data_slice[self.nights] == n
             times = np.sort(data_slice[self.times][condition])
-            nvisits = 0
-            ntooclose = 0
             # Calculate difference between each visit and time of previous
             # visit (tnext- tnow)
             timediff = np.diff(times)
@@ -196,29 +194,13 @@ class VisitGroupsMetric(BaseMetric):
                 False,
             )
             timetooclose = np.where(timediff < self.delta_tmin, True, False)
-            if len(timegood) > 1:
-                # Count visits for all but last index in timediff
-                for tg1, ttc1, tg2, ttc2 in zip(
-                    timegood[:-1], timetooclose[:-1], timegood[1:], timetooclose[1:]
-                ):
-                    if tg1:
-                        nvisits += 1
-                        if not tg2:
-                            nvisits += 1
-                    if ttc1:
-                        ntooclose += 1
-                        if not tg2 and not ttc2:
-                            ntooclose += 1
-                # Take care of last timediff
-                if timegood[-1]:
-                    nvisits += 2  # close out visit sequence
-                if timetooclose[-1]:
-                    ntooclose += 1
-                    if not timegood[-2] and not timetooclose[-2]:
-                        ntooclose += 1
-            else:
-                if timegood.size > 0:
-                    nvisits += 2
+            # Visits separated by a good interval from the previous or next
+            # visit count fully; the others which are too close to the
+            # previous or next visit count as half.
+            good = np.concatenate([[False], timegood]) | np.concatenate([timegood, [False]])
+            tooclose = np.concatenate([[False], timetooclose]) | np.concatenate([timetooclose, [False]])
+            nvisits = np.sum(good)
+            ntooclose = np.sum(tooclose & ~good)
             # Count up all visits for night.
             if nvisits > 0:
                 nvisits = nvisits + ntooclose / 2.0
-- 
2.43.0


From 0d46fef6a649bee2e4656c69debbee8ababb3e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:48 +0000
Subject: [PATCH 018/132] fix: VisitGroupsMetric sequence of lunations is not
 broken by nights before a group in the lunation

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 057a651..f155c59 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -314,10 +314,10 @@ class VisitGroupsMetric(BaseMetric):
                 if len(nw) >= self.min_n_nights:
                     cur_sequence += 1
                     break
-                # Otherwise we're not in a sequence (anymore, or still).
-                else:
-                    max_sequence = max(max_sequence, cur_sequence)
-                    cur_sequence = 0
+            # Otherwise we're not in a sequence (anymore, or still).
+            else:
+                max_sequence = max(max_sequence, cur_sequence)
+                cur_sequence = 0
         # Pick up last sequence if were in a sequence at last lunation.
         max_sequence = max(max_sequence, cur_sequence)
         return max_sequence
-- 
2.43.0


From 0a6da77314ea0885308e365b9a8fb4b68ebec21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:48 +0000
Subject: [PATCH 019/132] fix: TransientMetric uses the survey start that is
 given

---
 rubin_sim/maf/metrics/transient_metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/transient_metrics.py b/rubin_sim/maf/metrics/transient_metrics.py
index fe66128..d95b656 100644
--- a/rubin_sim/maf/metrics/transient_metrics.py
+++ b/rubin_sim/maf/metrics/transient_metrics.py
@@ -196,6 +196,8 @@ class TransientMetric(BaseMetric):
                 n_trans_max -= 1
             if self.survey_start is None:
                 survey_start = data_slice[self.mjd_col].min()
+            else:
+                survey_start = self.survey_start
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
             # Which lightcurve does each point belong to
-- 
2.43.0


From d538b26edd25f67a5d83c921390b1891d533f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:48 +0000
Subject: [PATCH 020/132] fix: TransientMetric assigns visits to the
 phase-shifted light curve they belong to

---
 rubin_sim/maf/metrics/transient_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/transient_metrics.py b/rubin_sim/maf/metrics/transient_metrics.py
index d95b656..9d1bd4e 100644
--- a/rubin_sim/maf/metrics/transient_metrics.py
+++ b/rubin_sim/maf/metrics/transient_metrics.py
@@ -201,7 +201,7 @@ class TransientMetric(BaseMetric):
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
             # Which lightcurve does each point belong to
-            lc_number = np.floor((data_slice[self.mjd_col] - survey_start) / self.trans_duration)
+            lc_number = np.floor((data_slice[self.mjd_col] - survey_start + tshift) / self.trans_duration)
 
             lc_mags = self.light_curve(time, data_slice[self.filter_col])
 
-- 
2.43.0


From f9b1ee2eb6d6ce577f2561e65df7a9966ef94284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:48 +0000
Subject: [PATCH 021/132] fix: PhaseGapMetric handles a single period

---
 rubin_sim/maf/metrics/phase_gap_metric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/phase_gap_metric.py b/rubin_sim/maf/metrics/phase_gap_metric.py
index cf739d1..c226da5 100644
--- a/rubin_sim/maf/metrics/phase_gap_metric.py
+++ b/rubin_sim/maf/metrics/phase_gap_metric.py
@@ -54,9 +54,8 @@ class PhaseGapMetric(BaseMetric):
         if step == 0:
             periods = np.array([self.period_min])
         else:
-            periods = np.arange(self.n_periods)
-            periods = periods / np.max(periods) * (self.period_max - self.period_min) + self.period_min
-        max_gap = np.zeros(self.n_periods, float)
+            periods = np.linspace(self.period_min, self.period_max, self.n_periods)
+        max_gap = np.zeros(len(periods), float)
 
         for i, period in enumerate(periods):
             # For each period, calculate the phases.
-- 
2.43.0


From 04f2fb5b830c49023627293e22d1f967d99407ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:08 +0000
Subject: [PATCH 022/132] fix: TransientMetric requires each of its criteria,
 on visits above the detection limit

---
 rubin_sim/maf/metrics/transient_metrics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/transient_metrics.py b/rubin_sim/maf/metrics/transient_metrics.py
index 9d1bd4e..d75ee77 100644
--- a/rubin_sim/maf/metrics/transient_metrics.py
+++ b/rubin_sim/maf/metrics/transient_metrics.py
@@ -212,6 +212,7 @@ class TransientMetric(BaseMetric):
             detected = np.zeros(data_slice.size, dtype=int)
             detected[np.where(lc_mags < data_slice[self.m5_col] + self.detect_m5_plus)] += 1
             detect_thresh += 1
+            above_limit = detected > 0
 
             # If we demand points on the rise
             if self.n_pre_peak > 0:
@@ -219,6 +220,7 @@ class TransientMetric(BaseMetric):
                 ord = np.argsort(data_slice[self.mjd_col])
                 data_slice = data_slice[ord]
                 detected = detected[ord]
+                above_limit = above_limit[ord]
                 lc_number = lc_number[ord]
                 time = time[ord]
                 ulc_number = np.unique(lc_number)
@@ -242,6 +244,7 @@ class TransientMetric(BaseMetric):
                 ord = np.argsort(data_slice[self.mjd_col])
                 data_slice = data_slice[ord]
                 detected = detected[ord]
+                above_limit = above_limit[ord]
                 lc_number = lc_number[ord]
                 time = time[ord]
                 ulc_number = np.unique(lc_number)
@@ -250,13 +253,16 @@ class TransientMetric(BaseMetric):
                 detect_thresh += self.n_filters
 
                 for le, ri in zip(left, right):
-                    points = np.where(detected[le:ri] > 0)
+                    points = np.where(above_limit[le:ri])
+                    n_filters_good = 0
                     ufilters = np.unique(data_slice[self.filter_col][le:ri][points])
                     phase_sections = np.floor(time[le:ri][points] / self.trans_duration * self.n_per_lc)
                     for filt_name in ufilters:
                         good = np.where(data_slice[self.filter_col][le:ri][points] == filt_name)
                         if np.size(np.unique(phase_sections[good])) >= self.n_per_lc:
-                            detected[le:ri] += 1
+                            n_filters_good += 1
+                    # More filters than needed do not replace other criteria.
+                    detected[le:ri] += min(n_filters_good, self.n_filters)
 
             # Find the unique number of light curves that passed the required
             # number of conditions
-- 
2.43.0


From 083637163a070b66f67da5cb24bf9977da15da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:55 +0000
Subject: [PATCH 023/132] fix: multiband depth models subtract each band's mean
 depth from that band

---
 rubin_sim/maf/metrics/uniformity_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index 97d1659..bcd9c59 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -126,7 +126,7 @@ class SingleLinearMultibandModelMetric(BaseMetric):
         ).T
         for i, lsst_filter in enumerate(self.bands):
             if lsst_filter in self.mean_depth:
-                depths[i] -= self.mean_depth[lsst_filter]
+                depths[0, i] -= self.mean_depth[lsst_filter]
         # Don't raise Exceptions in the middle of metrics -
         # assert depths.shape[0] >= 1
         if depths.shape[0] < 1:
@@ -296,7 +296,7 @@ class NestedLinearMultibandModelMetric(BaseMetric):
             # if provided, subtract the mean
             for i, lsst_filter in enumerate(lsst_filters):
                 if lsst_filter in self.mean_depth:
-                    depths[i] -= self.mean_depth[lsst_filter]
+                    depths[0, i] -= self.mean_depth[lsst_filter]
 
             # now assemble the results
             model_arr = np.array([model_dict[x] if x in model_dict else 0.0 for x in lsst_filters])
-- 
2.43.0


From 511ae6549d0ece48c7928d413b697b65d4352aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:55 +0000
Subject: [PATCH 024/132] fix: ColorSlopeMetric uses the given band and time
 columns throughout

---
 rubin_sim/maf/metrics/color_slope_metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/color_slope_metrics.py b/rubin_sim/maf/metrics/color_slope_metrics.py
index b69bc10..b954313 100644
--- a/rubin_sim/maf/metrics/color_slope_metrics.py
+++ b/rubin_sim/maf/metrics/color_slope_metrics.py
@@ -109,7 +109,9 @@ class ColorSlopeMetric(BaseMetric):
 
         super().__init__(col=cols, units=units, metric_name=metric_name, **kwargs)
 
-        self.sequence_checker = CheckColorSlope(color_length=color_length, slope_length=slope_length)
+        self.sequence_checker = CheckColorSlope(
+            color_length=color_length, slope_length=slope_length, filter_col=filter_col, mjd_col=time_col
+        )
 
     def run(self, data_slice, slice_point=None):
         result = 0
-- 
2.43.0


From 67fd6acda4f1501351c6cb2fe67ac7660c1bf699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:55 +0000
Subject: [PATCH 025/132] fix: GalPlaneSeasonGapsTimescaleMetric does not
 reorder the times of the visits it is given

---
 rubin_sim/maf/metrics/galplane_time_sampling_metrics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
index e00a8f4..69048b0 100644
--- a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
+++ b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
@@ -213,8 +213,7 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
         ):
             return self.badval
         # Find the length of the gaps between each season
-        times = data_slice[self.mjd_col]
-        times.sort()
+        times = np.sort(data_slice[self.mjd_col])
         # data = np.sort(data_slice[self.mjd_col], order=self.mjd_col)
         # SlicePoints ra/dec are always in radians -
         # convert to degrees to calculate season
-- 
2.43.0


From 38a7ef40e3fc755cfbcb16270c610653c1723753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:55 +0000
Subject: [PATCH 026/132] fix: GalPlaneSeasonGapsTimescaleMetric applies its
 magnitude limit

---
 rubin_sim/maf/metrics/galplane_time_sampling_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
index 69048b0..fdbeaeb 100644
--- a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
+++ b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
@@ -213,7 +213,8 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
         ):
             return self.badval
         # Find the length of the gaps between each season
-        times = np.sort(data_slice[self.mjd_col])
+        match = np.where(data_slice[self.m5_col] >= self.mag_limit)[0]
+        times = np.sort(data_slice[self.mjd_col][match])
         # data = np.sort(data_slice[self.mjd_col], order=self.mjd_col)
         # SlicePoints ra/dec are always in radians -
         # convert to degrees to calculate season
-- 
2.43.0


From e37e7f49ca345fdf7fa7bb6c0bdc9fd0983eb574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:55 +0000
Subject: [PATCH 027/132] fix: GalPlaneSeasonGapsTimescaleMetric asks for the
 priority map it uses

---
 rubin_sim/maf/metrics/galplane_time_sampling_metrics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
index fdbeaeb..25b77fd 100644
--- a/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
+++ b/rubin_sim/maf/metrics/galplane_time_sampling_metrics.py
@@ -200,7 +200,12 @@ class GalPlaneSeasonGapsTimescaleMetric(BaseMetric):
             tau_reduce_name = f"reduce_Tau_{tau:.1f}".replace(".", "_")
             newmethod = help_set_reduce_func(self, None, tau)
             setattr(self, tau_reduce_name, MethodType(newmethod, tau_reduce_name))
-        super().__init__(col=[self.mjd_col, self.m5_col], metric_name=metric_name, **kwargs)
+        super().__init__(
+            col=[self.mjd_col, self.m5_col],
+            metric_name=metric_name,
+            maps=["GalacticPlanePriorityMap"],
+            **kwargs,
+        )
         for i, tau in enumerate(self.tau_var):
             self.reduce_order[f"reduce_Tau_{tau:.1f}".replace(".", "_").replace("reduce", "")] = i
 
-- 
2.43.0


From 4bffff62fc59ca83a892adc116620b9b83b34958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:14 +0000
Subject: [PATCH 028/132] fix: SFUncertMetric uses the weights that are given

---
 rubin_sim/maf/metrics/agnstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/agnstructure.py b/rubin_sim/maf/metrics/agnstructure.py
index 8835399..e8dcbd1 100644
--- a/rubin_sim/maf/metrics/agnstructure.py
+++ b/rubin_sim/maf/metrics/agnstructure.py
@@ -69,6 +69,8 @@ class SFUncertMetric(BaseMetric):
             # If weight is none, set weight so that sum over bins = 1
             self.weight = np.ones(len(self.bins) - 1)
             self.weight /= self.weight.sum()
+        else:
+            self.weight = weight
         self.metric_name = metric_name
         self.mag = mag
         self.snr_cut = snr_cut
-- 
2.43.0


From 3e927fa6c398e8cc253b38d5904a0c30d4873b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:42 +0000
Subject: [PATCH 029/132] fix: NestedLinearMultibandModelMetric stores one
 value for each model

---
 rubin_sim/maf/metrics/uniformity_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/uniformity_metrics.py b/rubin_sim/maf/metrics/uniformity_metrics.py
index bcd9c59..68d8f74 100644
--- a/rubin_sim/maf/metrics/uniformity_metrics.py
+++ b/rubin_sim/maf/metrics/uniformity_metrics.py
@@ -302,7 +302,7 @@ class NestedLinearMultibandModelMetric(BaseMetric):
             model_arr = np.array([model_dict[x] if x in model_dict else 0.0 for x in lsst_filters])
             cst = model_dict["cst"] if "cst" in model_dict else 0.0
 
-            result_arr[binnumber] = self.post_processing_fn(cst + np.dot(depths, model_arr))
+            result_arr[binnumber] = self.post_processing_fn(cst + np.dot(depths[0], model_arr))
 
         # returns array where each element of the original
         # input arr_of_model_dicts contains a scalar value resulting
-- 
2.43.0


From d709eaa5915ef595c354bc1a3059a57fb350aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 030/132] fix: MetricBundleGroup compares the maps of the
 bundles it groups

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index bdb893b..8d0a6eb 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -165,7 +165,7 @@ class MetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
+        if sorted(metric_bundle1.maps_list) != sorted(metric_bundle2.maps_list):
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
-- 
2.43.0


From 41e94cf70a6f6b84efe6ef93570bdad956071725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 031/132] fix: MetricBundleGroup runs each bundle in one group,
 in which all bundles are compatible

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index 8d0a6eb..f7a3a7a 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -200,10 +200,12 @@ class MetricBundleGroup:
                             # stop and go on to the
                             # next subset list.
                             break
-                    # Otherwise, we reached the end of the subset
-                    # and they were all compatible.
-                    found_compatible = True
-                    compatible_list.append(k)
+                    else:
+                        # Otherwise, we reached the end of the subset
+                        # and they were all compatible.
+                        found_compatible = True
+                        compatible_list.append(k)
+                        break
             if not found_compatible:
                 # Didn't find a pre-existing compatible set; make a new one.
                 compatible_lists.append(
-- 
2.43.0


From a6ef270477c3ee6e611964f1481ec0b3e83f1beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 032/132] fix: MetricBundleGroup keeps the reduced values of
 every bundle

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index f7a3a7a..cefd854 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -586,7 +586,7 @@ class MetricBundleGroup:
                     # Add the new metricBundle to our metricBundleGroup
                     # dictionary.
                     name = newmetricbundle.metric.name
-                    if name in self.bundle_dict:
+                    if name in self.bundle_dict or name in reduce_bundle_dict:
                         name = newmetricbundle.file_root
                     reduce_bundle_dict[name] = newmetricbundle
                     if self.save_early:
-- 
2.43.0


From 2a8fffabc02c8186ef8708dcdafd9629013b7f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 033/132] fix: MetricBundle accepts a single map

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 22a0dc0..b2b00e2 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -155,7 +155,7 @@ class MetricBundle:
         # Set the 'maps' to apply to the slicer, if applicable.
         if maps_list is not None:
             if isinstance(maps_list, maps.BaseMap):
-                self.known_cols = [
+                self.maps_list = [
                     maps_list,
                 ]
             else:
-- 
2.43.0


From 9574b0bd2e0f384793359bd7577816bd73bad9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 034/132] fix: MetricBundle accepts a single plotter

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index b2b00e2..7eefe44 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -368,7 +368,7 @@ class MetricBundle:
             The plotter or plotters to use to generate visuals for this metric.
         """
         if plot_funcs is not None:
-            if plot_funcs is isinstance(plot_funcs, plots.BasePlotter):
+            if isinstance(plot_funcs, plots.BasePlotter):
                 self.plot_funcs = [plot_funcs]
             else:
                 self.plot_funcs = []
-- 
2.43.0


From 1a588f4f871536fd3646710213f1f1db4725578b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 035/132] fix: MetricBundle.output_json passes the run name on

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 7eefe44..210bc84 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -549,7 +549,7 @@ class MetricBundle:
         io = self.slicer.output_json(
             self.metric_values,
             metric_name=self.metric.name,
-            simDataName=self.run_name,
+            sim_data_name=self.run_name,
             info_label=self.info_label,
             plot_dict=self.plot_dict,
         )
-- 
2.43.0


From 5c48ee1a6d63777a5ac3bd5e491cca237d4fa895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 036/132] fix: MetricBundle.read builds a missing info label

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 210bc84..0f2d78b 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -601,7 +601,7 @@ class MetricBundle:
             if "summary_values" in header:
                 self.summary_values = header["summary_values"]
         if self.info_label is None:
-            self._build_metadata()
+            self._build_metadata(None)
         path, head = os.path.split(filename)
         self.file_root = head.replace(".npz", "")
         self.set_plot_funcs(None)
-- 
2.43.0


From 28a773e644d619eb3a3f5c5441ef1f42f53a2076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:52 +0000
Subject: [PATCH 037/132] fix: HealpixSlicer read from disk equals the one
 saved

---
 rubin_sim/maf/slicers/healpix_slicer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rubin_sim/maf/slicers/healpix_slicer.py b/rubin_sim/maf/slicers/healpix_slicer.py
index 12a6323..313a82c 100644
--- a/rubin_sim/maf/slicers/healpix_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_slicer.py
@@ -138,6 +138,10 @@ class HealpixSlicer(BaseSpatialSlicer):
             "lon_col": lon_col,
             "lat_col": lat_col,
             "radius": radius,
+            "badval": badval,
+            "use_cache": use_cache,
+            "use_camera": use_camera,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
         }
         self.use_cache = use_cache
         if use_cache:
-- 
2.43.0


From 9f40b5c74bbe83fdbdd93eb1444451b01711e832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:52 +0000
Subject: [PATCH 038/132] fix: UserPointsSlicer read from disk equals the one
 saved

---
 rubin_sim/maf/slicers/user_points_slicer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/slicers/user_points_slicer.py b/rubin_sim/maf/slicers/user_points_slicer.py
index 8f02ff0..ce54226 100644
--- a/rubin_sim/maf/slicers/user_points_slicer.py
+++ b/rubin_sim/maf/slicers/user_points_slicer.py
@@ -114,6 +114,9 @@ class UserPointsSlicer(BaseSpatialSlicer):
             "lon_col": lon_col,
             "lat_col": lat_col,
             "radius": radius,
+            "badval": badval,
+            "use_camera": use_camera,
+            "rot_sky_pos_col_name": rot_sky_pos_col_name,
         }
         self.plot_funcs = [BaseSkyMap, BaseHistogram]
 
-- 
2.43.0


From f4f89dd220302f5e7c2095b57752bb4bb44b7c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:52 +0000
Subject: [PATCH 039/132] fix: BaseSlicer.output_json handles integer values,
 as documented

---
 rubin_sim/maf/slicers/base_slicer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 4141858..e4f27a4 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -282,7 +282,7 @@ class BaseSlicer(metaclass=SlicerRegistry):
             the data is [ [lon, lat, value], [lon, lat, value] ..].
         """
         # Bail if this is not a good data type for JSON.
-        if not (metric_values.dtype == "float") or (metric_values.dtype == "int"):
+        if not ((metric_values.dtype == "float") or (metric_values.dtype == "int")):
             warnings.warn("Cannot generate JSON.")
             io = StringIO()
             json.dump(["Cannot generate JSON for this file."], io)
@@ -374,7 +374,7 @@ class BaseSlicer(metaclass=SlicerRegistry):
                 metric.append([metric_values[0]])
         # Write out JSON output.
         io = StringIO()
-        json.dump([header, metric], io)
+        json.dump([header, metric], io, default=lambda x: x.item())
         return io
 
     def read_data(self, infilename):
-- 
2.43.0


From 105ef06c827932821d71e50cd619c596296eba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:52 +0000
Subject: [PATCH 040/132] fix: BaseSlicer.output_json handles unmasked values
 in bins

---
 rubin_sim/maf/slicers/base_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index e4f27a4..89bb6d6 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -369,7 +369,7 @@ class BaseSlicer(metaclass=SlicerRegistry):
                     bin_left = self.slice_points["bins"][i]
                     value = metric_values[i]
                     metric.append([bin_left, value])
-                metric.append(self.slice_points["bins"][i + 1][0])
+                metric.append([self.slice_points["bins"][i + 1], 0])
             elif self.slicer_name == "UniSlicer":
                 metric.append([metric_values[0]])
         # Write out JSON output.
-- 
2.43.0


From 0524ca9dab7268e4c2ec1a0c710cbf21dd61885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 041/132] fix: SaturationStacker flags the visits in which the
 sky saturates, not visits of other bands

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 7f394bd..989f1e3 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -114,7 +114,7 @@ class SaturationStacker(BaseStacker):
                 sim_data[self.airmass_col][in_filt] - 1.0
             )
             # Explicitly make sure if sky has saturated we return NaN
-            sim_data["saturation_mag"][np.where(remaining_counts_peak < 0)] = np.nan
+            sim_data["saturation_mag"][in_filt[remaining_counts_peak < 0]] = np.nan
 
         return sim_data
 
-- 
2.43.0


From d41172847835c4b139c8dc9aa5fd415ee335f2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 042/132] fix: SaturationStacker accepts zeropoints without
 extinction values

---
 rubin_sim/maf/stackers/general_stackers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 989f1e3..bd35a2a 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -81,11 +81,12 @@ class SaturationStacker(BaseStacker):
         self.km = km
 
     def _run(self, sim_data, cols_present=False):
-        if self.zeropoints is None:
+        if self.zeropoints is None or self.km is None:
             zp_inst, k_atm = load_inst_zeropoints()
-            self.zeropoints = zp_inst
-        if self.km is None:
-            self.km = k_atm
+            if self.zeropoints is None:
+                self.zeropoints = zp_inst
+            if self.km is None:
+                self.km = k_atm
         for filtername in np.unique(sim_data[self.filter_col]):
             in_filt = np.where(sim_data[self.filter_col] == filtername)[0]
             # Calculate the length of the on-sky time per EXPOSURE
-- 
2.43.0


From a93dd4db4f0316bfcd26b50efc03ec781a10ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 043/132] fix: Dcr2Stacker uses the zenith distance stacker it
 is given

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index bd35a2a..a001057 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -591,7 +591,7 @@ class Dcr2Stacker(BaseStacker):
         if zstacker is None:
             self.zstacker = ZenithDistStacker(alt_col=alt_col, degrees=self.degrees)
         else:
-            self.ztacker = zstacker
+            self.zstacker = zstacker
 
         if pastacker is None:
             self.pastacker = ParallacticAngleStacker(
-- 
2.43.0


From 063dadda523a411b0da6d9edf4cf5aa2253c50af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 044/132] fix: ZenithDistStacker in radians has units

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index a001057..6fcc0f3 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -279,7 +279,7 @@ class ZenithDistStacker(BaseStacker):
         if self.degrees:
             self.units = ["degrees"]
         else:
-            self.unit = ["radians"]
+            self.units = ["radians"]
         self.cols_req = [self.alt_col]
 
     def _run(self, sim_data, cols_present=False):
-- 
2.43.0


From a1278ae38438ee8a1069bcaa20e13fbb80163253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 045/132] fix: NFollowStacker does not swap the latitude and
 longitude of the observatories

---
 rubin_sim/maf/stackers/n_follow_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/n_follow_stacker.py b/rubin_sim/maf/stackers/n_follow_stacker.py
index 692eb9b..b0948e9 100644
--- a/rubin_sim/maf/stackers/n_follow_stacker.py
+++ b/rubin_sim/maf/stackers/n_follow_stacker.py
@@ -171,8 +171,8 @@ class NFollowStacker(BaseStacker):
                 alt, az = ra_dec2_alt_az(
                     ra,
                     dec,
-                    obs_lon,
                     obs_lat,
+                    obs_lon,
                     sim_data[self.mjd_col] + step / 24.0,
                     altonly=True,
                 )
-- 
2.43.0


From 1455c59e6e56316d54366deacdcb5460be6e46f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 046/132] fix: M5OptimalStacker uses the seeing term of the
 five sigma depth

---
 rubin_sim/maf/stackers/m5_optimal_stacker.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/stackers/m5_optimal_stacker.py b/rubin_sim/maf/stackers/m5_optimal_stacker.py
index 58fe538..52f086d 100644
--- a/rubin_sim/maf/stackers/m5_optimal_stacker.py
+++ b/rubin_sim/maf/stackers/m5_optimal_stacker.py
@@ -113,12 +113,12 @@ class M5OptimalStacker(BaseStacker):
                 np.where((sim_data[self.moon_alt_col] > 0) | (sim_data[self.sun_alt_col] > np.radians(-18.0)))
             ] = 0
             # Using Approximation that FWHM~X^0.6.
-            # So seeing term in m5 of: 0.25 * log (7.0/FWHMeff )
-            # Goes to 0.15 log(FWHM_min / FWHM_eff) in the difference
+            # So seeing term in m5 of: 2.5 * log (0.7/FWHMeff )
+            # Goes to 1.5 log(X_min / X) in the difference
             m5_optimal = (
                 sim_data[self.m5_col]
                 - 0.5 * delta_sky
-                - 0.15 * np.log10(min_airmass_possible / sim_data[self.airmass_col])
+                - 1.5 * np.log10(min_airmass_possible / sim_data[self.airmass_col])
                 - k_atm[filter_name] * (min_airmass_possible - sim_data[self.airmass_col])
             )
             good = np.where(sim_data[self.filter_col] == filter_name)
-- 
2.43.0


From 40a9271f53e499cad1ef7802ab49a4d9a7469ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 047/132] fix: M5OptimalStacker asks for the depth column it
 uses

---
 rubin_sim/maf/stackers/m5_optimal_stacker.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/stackers/m5_optimal_stacker.py b/rubin_sim/maf/stackers/m5_optimal_stacker.py
index 52f086d..393e9ff 100644
--- a/rubin_sim/maf/stackers/m5_optimal_stacker.py
+++ b/rubin_sim/maf/stackers/m5_optimal_stacker.py
@@ -85,6 +85,7 @@ class M5OptimalStacker(BaseStacker):
             dec_col,
             sky_bright_col,
             seeing_col,
+            m5_col,
             filter_col,
             moon_alt_col,
             sun_alt_col,
-- 
2.43.0


From d0ae68cd5370b754c6a747f0f7557b08a2bcce3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 048/132] fix: EclipticStacker reads the times of the visits as
 MJD

---
 rubin_sim/maf/stackers/coord_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index eab5663..8f86411 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -176,7 +176,7 @@ class EclipticStacker(BaseStacker):
             sim_data["eclipLat"] = coord_ecl.lat.rad
 
             if self.subtract_sun_lon:
-                times = Time(sim_data[self.mjd_col])
+                times = Time(sim_data[self.mjd_col], format="mjd")
                 sun = get_sun(times)
                 sun_ecl = sun.geocentricmeanecliptic
                 lon = wrap_ra(coord_ecl.lon.rad - sun_ecl.lon.rad)
-- 
2.43.0


From d8099227363ed6583d07721a760daeabf0a08e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 049/132] fix: GalacticStacker labels its coordinates with the
 units they have

---
 rubin_sim/maf/stackers/coord_stackers.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index 8f86411..836f466 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -96,13 +96,11 @@ class GalacticStacker(BaseStacker):
         self.ra_col = ra_col
         self.dec_col = dec_col
         self.degrees = degrees
-        if self.degrees:
-            self.units = ["degrees", "degrees"]
-        else:
-            self.units = ["radians", "radians"]
+        # gall/b are in radians, whatever the units of ra_col and dec_col.
+        self.units = ["radians", "radians"]
 
     def _run(self, sim_data, cols_present=False):
-        # raCol and DecCol in radians, gall/b in radians.
+        # gall/b in radians.
         if cols_present:
             # Column already present in data;
             # assume it is correct and does not need recalculating.
-- 
2.43.0


From c0f292fdc88d58576997b9ed95adbe8c0a09242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 050/132] fix: TeffStacker lists the units of its column

---
 rubin_sim/maf/stackers/teff_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/teff_stacker.py b/rubin_sim/maf/stackers/teff_stacker.py
index e311431..e5629d3 100644
--- a/rubin_sim/maf/stackers/teff_stacker.py
+++ b/rubin_sim/maf/stackers/teff_stacker.py
@@ -127,7 +127,7 @@ class TeffStacker(BaseStacker):
         if self.normed and self.exptime_col not in self.cols_req:
             self.cols_req.append(self.exptime_col)
 
-        self.units = "" if self.normed else "seconds"
+        self.units = ["" if self.normed else "seconds"]
 
     def _run(self, sim_data, cols_present=False):
         if cols_present:
-- 
2.43.0


From 67d4da3f0d6b71e71b6725cb0d3123cb14f85282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 051/132] fix: equivalent stackers with methods of their own
 compare equal

---
 rubin_sim/maf/stackers/base_stacker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/stackers/base_stacker.py b/rubin_sim/maf/stackers/base_stacker.py
index 1702e0f..ea074fb 100644
--- a/rubin_sim/maf/stackers/base_stacker.py
+++ b/rubin_sim/maf/stackers/base_stacker.py
@@ -100,6 +100,9 @@ class BaseStacker(metaclass=StackerRegistry):
             if not key.startswith("_") and key != "registry" and key != "run" and key != "next":
                 if not hasattr(other_stacker, key):
                     return False
+                # Methods belong to the class, which is the same.
+                if inspect.ismethod(getattr(self, key)):
+                    continue
                 # If the attribute is from numpy, assume it's an array
                 # and test it
                 if type(getattr(self, key)).__module__ == np.__name__:
-- 
2.43.0


From d1e292b121f923e192d99812e5fe47c17aabfafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 052/132] fix: SNRStacker uses the flux ratio to the depth

---
 rubin_sim/maf/stackers/mo_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/mo_stackers.py b/rubin_sim/maf/stackers/mo_stackers.py
index 819de25..a79b114 100644
--- a/rubin_sim/maf/stackers/mo_stackers.py
+++ b/rubin_sim/maf/stackers/mo_stackers.py
@@ -429,7 +429,7 @@ class SNRStacker(BaseMoStacker):
         # hval = current H value (useful if cloning over H range),
         # href = reference H value from orbit.
         # Without cloning, href = hval.
-        xval = np.power(10, 0.5 * (sso_obs[self.app_mag_col] - sso_obs[self.m5_col]))
+        xval = np.power(10, 0.4 * (sso_obs[self.app_mag_col] - sso_obs[self.m5_col]))
         sso_obs["SNR"] = 1.0 / np.sqrt((0.04 - self.gamma) * xval + self.gamma * xval * xval)
         completeness = 1.0 / (1 + np.exp((sso_obs[self.app_mag_col] - sso_obs[self.m5_col]) / self.sigma))
         if not hasattr(self, "_rng"):
-- 
2.43.0


From feb0b3794feee611ec2c3dfffa75538e72b1c296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 053/132] fix: CometAppMagStacker has the geocentric distance
 in cm

---
 rubin_sim/maf/stackers/mo_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/mo_stackers.py b/rubin_sim/maf/stackers/mo_stackers.py
index a79b114..742495b 100644
--- a/rubin_sim/maf/stackers/mo_stackers.py
+++ b/rubin_sim/maf/stackers/mo_stackers.py
@@ -347,7 +347,7 @@ class CometAppMagStacker(BaseMoStacker):
         radius_aperture = sso_obs[self.seeing_col] * self.ap_scale
         rho = 725e5 * sso_obs[self.delta_col] * radius_aperture
         # Calculate the expected apparent of the comet coma = sun + correction
-        delta = sso_obs[self.delta_col] * KM_PER_AU * 1000  # delta in cm
+        delta = sso_obs[self.delta_col] * KM_PER_AU * 1e5  # delta in cm
         dm = -2.5 * np.log10(afrho * rho / (2 * sso_obs[self.rh_col] * delta) ** 2)
         coma = np.zeros(len(sso_obs), float)
         # This calculates a coma mag that scales with the sun's color in
-- 
2.43.0


From 54ed4052626c34db05c147411ed4e78660381aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 054/132] fix: DiscoveryMetric finds tracklets in observations
 not in time order

---
 rubin_sim/maf/metrics/mo_metrics.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index a06e2a1..2ce833b 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -436,7 +436,7 @@ class DiscoveryMetric(BaseMoMetric):
             & (n_idx_many_end + 1 - n_idx_many > self.n_obs_per_night)
             & (times_end - times_start > self.t_max)
         )[0]
-        for i, j, c in zip(vis_sort[n_idx_many][check], vis_sort[n_idx_many_end][check], check):
+        for i, j, c in zip(n_idx_many[check], n_idx_many_end[check], check):
             t = sso_obs[self.mjd_col][vis][vis_sort][i : j + 1]
             dtimes = (np.roll(t, 1 - self.n_obs_per_night) - t)[:-1]
             tidx = np.where((dtimes >= self.t_min) & (dtimes <= self.t_max))[0]
@@ -445,25 +445,19 @@ class DiscoveryMetric(BaseMoMetric):
         # 'good' provides mask for observations which could count as
         # 'good to make tracklets' against sso_obs[vis_sort][n_idx_many].
         # Now identify tracklets which can make tracks.
-        good_idx = vis_sort[n_idx_many][good == 1]
-        good_idx_ends = vis_sort[n_idx_many_end][good == 1]
+        good_idx = n_idx_many[good == 1]
+        good_idx_ends = n_idx_many_end[good == 1]
         # print 'good tracklets', nights[good_idx]
         if len(good_idx) < self.n_nights_per_window:
             return self.badval
-        delta_nights = (
-            np.roll(sso_obs[self.night_col][vis][good_idx], 1 - self.n_nights_per_window)
-            - sso_obs[self.night_col][vis][good_idx]
-        )
+        delta_nights = np.roll(nights[good_idx], 1 - self.n_nights_per_window) - nights[good_idx]
         # Identify the index in sso_obs[vis][good_idx] (sorted by mjd)
         # where the discovery opportunity starts.
         start_idxs = np.where((delta_nights >= 0) & (delta_nights <= self.t_window))[0]
         # Identify the index where the discovery opportunity ends.
         end_idxs = np.zeros(len(start_idxs), dtype="int")
         for i, sIdx in enumerate(start_idxs):
-            in_window = np.where(
-                sso_obs[self.night_col][vis][good_idx] - sso_obs[self.night_col][vis][good_idx][sIdx]
-                <= self.t_window
-            )[0]
+            in_window = np.where(nights[good_idx] - nights[good_idx][sIdx] <= self.t_window)[0]
             end_idxs[i] = in_window.max()
         # Convert back to index based on sso_obs[vis] (sorted by expMJD).
         start_idxs = good_idx[start_idxs]
-- 
2.43.0


From 3fb62ab005b2dd46632a47ade017cd3aba659bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 055/132] fix: DiscoveryVelocityMetric reads the SNR limit of
 its parent

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 2ce833b..941d215 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -680,7 +680,7 @@ class DiscoveryVelocityMetric(BaseChildMetric):
     def __init__(self, parent_discovery_metric, badval=-999, **kwargs):
         super().__init__(parent_discovery_metric, badval=badval, **kwargs)
         self.i = 0
-        self.snr_limit = parent_discovery_metric.snrLimit
+        self.snr_limit = parent_discovery_metric.snr_limit
 
     def run(self, sso_obs, orb, hval, metric_values):
         if self.i >= len(metric_values["start"]):
-- 
2.43.0


From f795268ed9d887afacf5b94f7e24cd97c2e459d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 056/132] fix: ActivityOverTimeMetric counts its windows, not
 their edges

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 941d215..383d379 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -730,7 +730,7 @@ class ActivityOverTimeMetric(BaseMoMetric):
         self.window = window
         self.survey_years = survey_years
         self.window_bins = np.arange(0, self.survey_years * 365 + self.window / 2.0, self.window)
-        self.n_windows = len(self.window_bins)
+        self.n_windows = len(self.window_bins) - 1
         self.units = "%.1f Day Windows" % (self.window)
 
     def run(self, sso_obs, orb, hval):
-- 
2.43.0


From cdccc741a324fafc6da3192f4823aa1497649e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 057/132] fix: MagicDiscoveryMetric counts the visible
 observations

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 383d379..0a9ad48 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -864,7 +864,7 @@ class MagicDiscoveryMetric(BaseMoMetric):
         vis = _set_vis(sso_obs, self.snr_limit, self.snr_col, self.vis_col)
         if len(vis) < self.n_obs:
             return self.badval
-        t_nights = np.sort(sso_obs[self.night_col])[vis]
+        t_nights = np.sort(sso_obs[self.night_col][vis])
         u_nights = np.unique(t_nights)
         indx_w = np.searchsorted(t_nights, u_nights, "left")
         indx_p = np.searchsorted(t_nights - self.t_window, u_nights, "left")
-- 
2.43.0


From a5227289c6a15414e0a85a7377bf3039067e464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 058/132] fix: HighVelocityNightsMetric reports the time of a
 visible, trailed detection

---
 rubin_sim/maf/metrics/mo_metrics.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 0a9ad48..ab4e4e9 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -957,18 +957,14 @@ class HighVelocityNightsMetric(BaseMoMetric):
         if len(high_velocity_obs) == 0:
             return 0
         nights = sso_obs[self.night_col][vis][high_velocity_obs]
-        n = np.unique(nights)
-        n_idx = np.searchsorted(nights, n)
-        # Count the number of observations per night (except last night)
-        obs_per_night = (n_idx - np.roll(n_idx, 1))[1:]
-        # Add the number of observations on the last night.
-        obs_last_night = np.array([len(nights) - n_idx[-1]])
-        obs_per_night = np.concatenate((obs_per_night, obs_last_night))
+        # Count the number of observations per night
+        n, obs_per_night = np.unique(nights, return_counts=True)
         # Find the nights with at least nObsPerNight visits
         # (this is already looking at only high velocity observations).
         n_with_x_obs = n[np.where(obs_per_night >= self.n_obs_per_night)]
         if len(n_with_x_obs) > 0:
-            found = sso_obs[np.where(sso_obs[self.night_col] == n_with_x_obs[0])][self.mjd_col][0]
+            times = sso_obs[self.mjd_col][vis][high_velocity_obs]
+            found = times[np.where(nights == n_with_x_obs[0])].min()
         else:
             found = self.badval
         return found
-- 
2.43.0


From b36b3ba1940cfbb3fc08e9bd66be0b91931088a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 059/132] fix: InstantaneousColorMetric compares the time
 between the observations in either order

---
 rubin_sim/maf/metrics/mo_metrics.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index ab4e4e9..2f6bcff 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -1322,9 +1322,7 @@ class InstantaneousColorMetric(BaseMoMetric):
             return 0
         d_time = self.n_hours / 24.0
         # Calculate the time between the closest pairs of observations.
-        in_order = np.searchsorted(timesb_one, timesb_two, "right")
-        in_order = np.where(in_order - 1 > 0, in_order - 1, 0)
-        dt_pairs = timesb_two - timesb_one[in_order]
+        dt_pairs = np.min(np.abs(np.subtract.outer(timesb_two, timesb_one)), axis=1)
         if len(np.where(dt_pairs < d_time)[0]) >= self.n_pairs:
             found = 1
         else:
-- 
2.43.0


From 337d4e58c80da849053f17973a1b7763064faad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 060/132] fix: pha_dndh_grav can be evaluated

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 451d8a1..98c9c8e 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -77,7 +77,7 @@ def pha_dndh_granvik(hvalues, **kwargs):
 
 
 def pha_dndh_grav(hvalues, **kwargs):
-    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff[hvalues][-1])) / 0.1
+    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff(hvalues)[-1])) / 0.1
     y1 = 23.5 * np.power(10, 0.35 * (hvalues - 18.5))
     dndh = y1 * binratio
     return dndh
-- 
2.43.0


From ba795a97986ad1444f604ce826a271222e0ae027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 061/132] fix: completeness summaries use the H distribution
 index they are given

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 98c9c8e..fd6c04f 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -352,7 +352,7 @@ class MoCompletenessMetric(BaseMoMetric):
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, Hindex=self.hindex)
+            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, hindex=self.hindex)
             summary_val = np.empty(len(completeness_int), dtype=[("name", np.str_, 20), ("value", float)])
             summary_val["value"] = completeness_int
             for i, Hval in enumerate(h_vals):
@@ -447,7 +447,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         completeness = completeness_h.swapaxes(0, 1)
         if self.cumulative:
             for i, t in enumerate(self.times):
-                completeness[i] = integrate_over_h(completeness[i], h_vals)
+                completeness[i] = integrate_over_h(completeness[i], h_vals, hindex=self.hindex)
         # To save the summary statistic, we must pick out a given H value.
         if self.hval is None:
             hidx = len(h_vals) // 2
-- 
2.43.0


From 4ab523592ddbe1a60067aa357bfc62188e0ed8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 062/132] fix: MoCompletenessMetric bins objects by their H
 when H is not cloned

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index fd6c04f..6c12ca7 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -342,13 +342,13 @@ class MoCompletenessMetric(BaseMoMetric):
             min_h = h_vals.min()
             if hrange < self.min_hrange:
                 hrange = self.min_hrange
-                min_h = h_vals.min() - hrange / 2.0
+                min_h = (h_vals.min() + h_vals.max()) / 2.0 - hrange / 2.0
             stepsize = hrange / float(self.nbins)
             bins = np.arange(min_h, min_h + hrange + stepsize / 2.0, stepsize)
+            n_all, b = np.histogram(h_vals, bins)
+            condition = np.where(metric_val_h[0].filled(0) >= self.threshold)[0]
+            n_found, b = np.histogram(np.asarray(h_vals)[condition], bins)
             h_vals = bins[:-1]
-            n_all, b = np.histogram(metric_val_h[0], bins)
-            condition = np.where(metric_val_h[0] >= self.threshold)[0]
-            n_found, b = np.histogram(metric_val_h[0][condition], bins)
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-- 
2.43.0


From edc3edbbd74440d88b594213a5ce739066b9c7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 063/132] fix: MoCompletenessAtTimeMetric can choose its H
 value

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 6c12ca7..b5bab3e 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -395,12 +395,13 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         self.hval = hval
         self.times = times
         self.hindex = hindex
+        h_label = "" if hval is None else "@H=%.2f" % hval
         if cumulative is None:
             # if metric_name does not start with 'differential',
             # then cumulative->True
             if "metric_name" not in kwargs:
                 self.cumulative = True
-                metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                metric_name = "CumulativeCompleteness@Time" + h_label
             else:
                 #  'metric_name' in kwargs:
                 metric_name = kwargs.pop("metric_name")
@@ -417,9 +418,9 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
                     warnings.warn(f"Completeness metric_name is {metric_name} but cumulative is True")
             else:
                 if self.cumulative:
-                    metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "CumulativeCompleteness@Time" + h_label
                 else:
-                    metric_name = "DifferentialCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "DifferentialCompleteness@Time" + h_label
         self._set_labels()
         super().__init__(metric_name=metric_name, units=self.units, **kwargs)
 
-- 
2.43.0


From 51964a4713e3fb8ed3cf1adccb19627db7bc192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 064/132] fix: moving object bundles run with their own
 stackers only

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 5a51260..543a560 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -531,7 +531,7 @@ class MoMetricBundleGroup:
         all_stackers = []
         uniq_maps = []
         all_maps = []
-        for b in b_dict.values():
+        for b in [b_dict[k] for k in compatible_list]:
             all_stackers += b.stacker_list
             all_maps += b.maps_list
         for s in all_stackers:
-- 
2.43.0


From c369a7be361ba49ae2dadf8641d44d289933e4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 065/132] fix: moving object bundles are grouped with bundles
 they are compatible with

---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 543a560..c454b24 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -468,6 +468,8 @@ class MoMetricBundleGroup:
                             # so stop and go onto the next subset.
                             found_compatible = False
                             break
+                    if found_compatible:
+                        break
                 checked_all = True
             if found_compatible:
                 compatible_list.append(k)
-- 
2.43.0


From c97b66f24b525cf964f007b754f2b23110dd518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:52 +0000
Subject: [PATCH 066/132] fix: MoObjSlicer selects observations of objects with
 string ids

---
 rubin_sim/maf/slicers/mo_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/mo_slicer.py b/rubin_sim/maf/slicers/mo_slicer.py
index 70b367d..0524030 100644
--- a/rubin_sim/maf/slicers/mo_slicer.py
+++ b/rubin_sim/maf/slicers/mo_slicer.py
@@ -129,7 +129,7 @@ class MoObjSlicer(BaseSlicer):
         # Find the matching orbit.
         orb = self.orbits.iloc[idx]
         # Find the matching observations.
-        if self.obs["obj_id"].dtype == "object":
+        if not pd.api.types.is_numeric_dtype(self.obs["obj_id"]):
             obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
         else:
             obs = self.obs.query("obj_id == %d" % (orb["obj_id"]))
-- 
2.43.0


From 2643caecc02bd65d26bf89a813ca4a04c76a962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 067/132] fix: calc_m5 solves the noise equation for any gain

---
 rubin_sim/phot_utils/signaltonoise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/signaltonoise.py b/rubin_sim/phot_utils/signaltonoise.py
index fcaab27..6497b76 100644
--- a/rubin_sim/phot_utils/signaltonoise.py
+++ b/rubin_sim/phot_utils/signaltonoise.py
@@ -292,7 +292,7 @@ def calc_m5(skysed, total_bandpass, hardware, phot_params, fwhm_eff=0.83):
     v_n = calc_total_non_source_noise_sq(skysed, hardware, phot_params, fwhm_eff)
 
     counts_5sigma = (snr**2) / 2.0 / phot_params.gain + numpy.sqrt(
-        (snr**4) / 4.0 / phot_params.gain + (snr**2) * v_n
+        (snr**4) / 4.0 / phot_params.gain**2 + (snr**2) * v_n
     )
 
     # renormalize flatsource so that it has the required counts to be a
-- 
2.43.0


From a9cc30f6c6e3237b63285311e0e40ea039591121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 068/132] fix: Sed comparison does not depend on the order of
 the two seds

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ca1523c..5211d44 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -426,7 +426,7 @@ class Sed:
 
         if self.flambda is None and other.flambda is not None:
             return False
-        if other.flambda is not None and self.flambda is None:
+        if self.flambda is not None and other.flambda is None:
             return False
         if self.flambda is not None:
             try:
-- 
2.43.0


From 02c1e2df53d21d3634e15e1229f088fe57a21e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 069/132] fix: a cleared Sed keeps the AB zeropoint

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 5211d44..15888d3 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -652,7 +652,7 @@ class Sed:
         self.wavelen = None
         self.fnu = None
         self.flambda = None
-        self.zp = -8.9
+        self.zp = -2.5 * numpy.log10(3631)
         self.name = None
         return
 
-- 
2.43.0


From b98197748982b5b1d5e468f64b1be70fe0a0c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 070/132] fix: Sed.multiply_sed works for wavelength grids of
 different lengths

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 15888d3..00a2215 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1150,7 +1150,7 @@ class Sed:
 
         # Check if the wavelength arrays are equal
         # (in which case do not resample)
-        if numpy.all(self.wavelen == other_sed.wavelen):
+        if numpy.array_equal(self.wavelen, other_sed.wavelen):
             flambda = self.flambda * other_sed.flambda
             new_sed = Sed(self.wavelen, flambda=flambda)
         else:
-- 
2.43.0


From 47bfe242d13b330ebdcff5f59d4ce5c175a4e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 071/132] fix: Bandpass.multiply_throughputs works for
 wavelength grids of different lengths

---
 rubin_sim/phot_utils/bandpass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 02abb87..7ca0a85 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -339,7 +339,7 @@ class Bandpass:
         This method does not affect self.
         """
         # Resample wavelen_other/sb_other to match this bandpass.
-        if not np.all(self.wavelen == wavelen_other):
+        if not np.array_equal(self.wavelen, wavelen_other):
             wavelen_other, sb_other = self.resample_bandpass(
                 wavelen=wavelen_other,
                 sb=sb_other,
-- 
2.43.0


From 171be82a73704f38f44d18c3a04ea18070b3ef80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 072/132] fix: Bandpass.read_throughput of a list of files

---
 rubin_sim/phot_utils/bandpass.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 7ca0a85..c0d6ab2 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -146,6 +146,7 @@ class Bandpass:
                 "Was given list of files, instead of a single file. Using read_throughputList instead"
             )
             self.read_throughput_list(component_list=filename)
+            return
         # Filename is single file, now try to open file and read data.
         try:
             if filename.endswith(".gz"):
-- 
2.43.0


From 71551bb699e8405348a2dc2edba9c5c6b7589265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 073/132] fix: Sed.set_sed copies the arrays it is given

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 00a2215..34e26fd 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -480,8 +480,8 @@ class Sed:
             elif (isinstance(fnu, numpy.ndarray) is False) or (len(fnu) != len(self.wavelen)):
                 raise ValueError("(No Flambda) - Fnu must be numpy array of same length as Wavelen.")
             # Convert fnu to flambda.
-            self.wavelen, self.flambda = self.fnu_toflambda(wavelen, fnu)
-            self.fnu = fnu
+            self.fnu = numpy.copy(fnu)
+            self.fnu_toflambda()
         self.name = name
         return
 
-- 
2.43.0


From c8866e9d876abb4148bf86ebbd4538adf18ecd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 074/132] fix: dust extinction is defined at 5.9 inverse
 microns

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 34e26fd..59b8251 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -981,7 +981,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
@@ -1043,7 +1043,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
-- 
2.43.0


From 07195fc68f7424e59a98031e6657eb999d7f9382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 075/132] fix: Sed.renormalize_sed in fnu

---
 rubin_sim/phot_utils/sed.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 59b8251..3e54475 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1433,7 +1433,7 @@ class Sed:
             wavelen_step = self._phys_params.wavelenstep
 
         if normflux == "flambda":
-            update_self = self._check_use_self(wavelen, flambda)
+            update_self = self._check_use_self(wavelen, fnu if flambda is None else flambda)
             if update_self:
                 wavelen = self.wavelen
                 flambda = self.flambda
@@ -1476,7 +1476,7 @@ class Sed:
             flambda = flambda * konst
             wavelen, fnu = self.flambda_tofnu(wavelen, flambda)
         elif normflux == "fnu":
-            update_self = self._check_use_self(wavelen, fnu)
+            update_self = self._check_use_self(wavelen, flambda if fnu is None else fnu)
             if update_self:
                 wavelen = self.wavelen
                 if self.fnu is None:
@@ -1489,7 +1489,7 @@ class Sed:
                 if fnu is None:
                     if flambda is None:
                         raise Exception("If passing wavelength, must also pass fnu or flambda.")
-                    wavelen, fnu = self.flambda_tofnu(wavelen, fnu)
+                    wavelen, fnu = self.flambda_tofnu(wavelen, flambda)
                 # Make a copy of the input data.
                 else:
                     fnu = numpy.copy(fnu)
@@ -1502,7 +1502,7 @@ class Sed:
                     + "is outside defined wavelength range."
                 )
             if gap == 0:
-                fnu_atpt = numpy.interp(lambdanorm, wavelen, flambda, left=None, right=None)
+                fnu_atpt = numpy.interp(lambdanorm, wavelen, fnu, left=None, right=None)
                 gapval = fnu_atpt
             else:
                 lambdapt = numpy.arange(lambdanorm - gap, lambdanorm + gap, wavelen_step, dtype=float)
@@ -1516,7 +1516,7 @@ class Sed:
                 )
             konst = normvalue / gapval
             fnu = fnu * konst
-            wavelen, flambda = self.fnutoflambda(wavelen, fnu)
+            wavelen, flambda = self.fnu_toflambda(wavelen, fnu)
         if update_self:
             self.wavelen = wavelen
             self.flambda = flambda
-- 
2.43.0


From 096c566debb4a9ccf25f0a71346c6a12c987d12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:51 +0000
Subject: [PATCH 076/132] fix: Sed.write_sed with fnu

---
 rubin_sim/phot_utils/sed.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 3e54475..2aae35b 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1565,7 +1565,6 @@ class Sed:
             print("# Wavelength(nm)  Flambda(ergs/cm^s/s/nm)", file=f)
         for i in range(0, len(wavelen), 1):
             if print_fnu:
-                fnu = self.flambda_tofnu(wavelen=wavelen, flambda=flambda)
                 print(wavelen[i], flambda[i], fnu[i], file=f)
             else:
                 print("%.2f %.7g" % (wavelen[i], flambda[i]), file=f)
-- 
2.43.0


From f1c3d60cec6b387a1305207bc1b04047766eb618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 077/132] fix: Sed.setup_phi_array uses the grid the bandpasses
 are resampled to

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 2aae35b..8446d21 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1593,7 +1593,7 @@ class Sed:
         phiarray = numpy.empty(
             (
                 len(bandpasslist),
-                numpy.size(numpy.arange(wavelen_min, wavelen_max + wavelen_step, wavelen_step)),
+                numpy.size(numpy.arange(wavelen_min, wavelen_max + wavelen_step / 2.0, wavelen_step)),
             ),
             dtype="float",
         )
-- 
2.43.0


From f174f10f71352fe5feb468dabf572f1d2ac947e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:04 +0000
Subject: [PATCH 078/132] fix: default wavelength step of Sed.multiply_sed and
 renormalize_sed

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 8446d21..4bbaf49 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1146,7 +1146,7 @@ class Sed:
         """
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         # Check if the wavelength arrays are equal
         # (in which case do not resample)
@@ -1430,7 +1430,7 @@ class Sed:
         # Start normalizing wavelen/flambda.
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         if normflux == "flambda":
             update_self = self._check_use_self(wavelen, fnu if flambda is None else flambda)
-- 
2.43.0


From c0537a9406aec6f2bf36c0ce72802af9182aa340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:15 +0000
Subject: [PATCH 079/132] fix: ChebyValues names the coefficients it misses

---
 rubin_sim/moving_objects/cheby_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index 6137443..f865fc5 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -53,7 +53,7 @@ class ChebyValues:
         # Check that expected values were received.
         missing_keys = set(self.coeff_keys) - set(self.coeffs)
         if len(missing_keys) > 0:
-            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list[missing_keys]))
+            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list(missing_keys)))
         self.coeffs["meanRA"] = self.coeffs["ra"].swapaxes(0, 1)[0]
         self.coeffs["meanDec"] = self.coeffs["dec"].swapaxes(0, 1)[0]
 
-- 
2.43.0


From 863d287b8c5332ca97c40079640867e35ac75b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:15 +0000
Subject: [PATCH 080/132] fix: ChebyValues refuses unknown objects and leaves
 the list of objects alone

---
 rubin_sim/moving_objects/cheby_values.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index f865fc5..2a3129b 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -189,8 +189,12 @@ class ChebyValues:
         else:
             if isinstance(obj_ids, str) or isinstance(obj_ids, int):
                 obj_ids = np.array([obj_ids])
+            if not np.all(np.isin(obj_ids, self.coeffs["obj_id"])):
+                raise ValueError(
+                    "Did not find expected match between obj_ids provided and ephemeride obj_ids."
+                )
             obj_match = np.isin(self.coeffs["obj_id"], obj_ids)
-            ephemerides["obj_id"] = obj_ids
+            ephemerides["obj_id"] = np.array(obj_ids)
         # Now find ephemeris values.
         ephemerides["time"] = np.zeros((len(ephemerides["obj_id"]), ntimes), float) + times
         for k in self.ephemeris_keys:
@@ -223,9 +227,4 @@ class ChebyValues:
                 for k in self.ephemeris_keys:
                     ephemerides[k][i][it] = ephemeris[k]
                 ephemerides["obj_id"][i] = self.coeffs["obj_id"][obj_match][segmentIdx]
-        if obj_ids is not None:
-            if set(ephemerides["obj_id"]) != set(obj_ids):
-                raise ValueError(
-                    "Did not find expected match between obj_ids provided and ephemeride obj_ids."
-                )
         return ephemerides
-- 
2.43.0


From b5493751ab2ecbbb0a4e67f4eb0e2d9f27f852f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:15 +0000
Subject: [PATCH 081/132] fix: ChebyFits records the residuals of the magnitude
 fit

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index a056d31..d0fe438 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -534,7 +534,7 @@ class ChebyFits:
                 self.resids["t_end"].append(t_segment_end)
                 self.resids["pos"].append(max_pos_resid)
                 self.resids["geo_dist"].append(max_resids["geo_dist"])
-                self.resids["vmag"].append(max_resids["geo_dist"])
+                self.resids["vmag"].append(max_resids["vmag"])
                 self.resids["elongation"].append(max_resids["elongation"])
 
     def _subdivide_segment(self, orbit_obj, ephs):
-- 
2.43.0


From 6e66f14e54a6686130abc3ccb85b2e1decad1029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:15 +0000
Subject: [PATCH 082/132] fix: ChebyFits reports failures and appends to files

---
 rubin_sim/moving_objects/cheby_fits.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index d0fe438..63d2bd8 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -276,7 +276,7 @@ class ChebyFits:
             counter += 1
         if (self.t_span % length) > num_tolerance or (length <= 0):
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
             raise ValueError(
                 "Could not find a suitable length for the timespan (start %f, span %f), "
@@ -380,7 +380,7 @@ class ChebyFits:
             counter += 1
         if counter > max_iterations or length <= 0:
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
             error_message = "Could not find good segment length to meet skyTolerance %f" % (
                 self.sky_tolerance
@@ -605,7 +605,7 @@ class ChebyFits:
         )
 
         if append:
-            open_mode = "aw"
+            open_mode = "a"
         else:
             open_mode = "w"
         # Write a header to the coefficients file, if writing to a new file:
-- 
2.43.0


From 2e58343f5883750b0e7ad49e3cddab83fca009d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 083/132] fix: Orbits comparison looks at every column

---
 rubin_sim/moving_objects/orbits.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index e33f0bf..7aae021 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -80,15 +80,16 @@ class Orbits:
         if isinstance(other_orbits, Orbits):
             if self.orb_format != other_orbits.orb_format:
                 return False
+            if len(self) != len(other_orbits):
+                return False
             for col in self.data_cols[self.orb_format]:
                 if not np.all(self.orbits[col].values == other_orbits.orbits[col].values):
                     return False
-                else:
-                    return True
+            return True
         else:
             return False
 
-    def __neq__(self, other_orbits):
+    def __ne__(self, other_orbits):
         if self == other_orbits:
             return False
         else:
-- 
2.43.0


From 02b510e1341c2e3c295d1223165ed95e0be014ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 084/132] fix: Orbits.set_orbits leaves the dataframe it is
 given alone

---
 rubin_sim/moving_objects/orbits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 7aae021..5724c4a 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -127,7 +127,8 @@ class Orbits:
         elif isinstance(orbits, pd.DataFrame):
             # This was a pandas dataframe ..
             # but we probably want to drop the index and recount.
-            orbits.reset_index(drop=True, inplace=True)
+            # (in a copy; the dataframe belongs to the caller).
+            orbits = orbits.reset_index(drop=True)
 
         if "index" in orbits:
             del orbits["index"]
-- 
2.43.0


From 057ad2c047660c96a1c1f34262281d9dbcec7c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 085/132] fix: Orbits.read_orbits finds the header of files
 with a delimiter

---
 rubin_sim/moving_objects/orbits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 5724c4a..2543622 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -308,7 +308,7 @@ class Orbits:
             with open(orbit_file, "r") as fp:
                 headervalues = None
                 for line in fp:
-                    values = line.split()
+                    values = [value.strip() for value in line.strip().split(delim)]
                     try:
                         # If it is a valid orbit line,
                         # we expect column 3 to be a number.
-- 
2.43.0


From 4be49c331275c088a8d2c9ec45a68e7bf6bf5a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 086/132] fix: Orbits.read_orbits recognizes S3MID and
 objid(int)

---
 rubin_sim/moving_objects/orbits.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index 2543622..ab0197c 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -431,7 +431,8 @@ class Orbits:
             "!!OID",
             "!!S3MID",
             "OID",
-            "S3MID" "objid(int)",
+            "S3MID",
+            "objid(int)",
             "full_name",
             "#name",
         ]
-- 
2.43.0


From e4df676dab5b3636f9837e4a942d204023abff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 087/132] fix: Orbits.read_orbits refuses negative inclinations

---
 rubin_sim/moving_objects/orbits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/orbits.py b/rubin_sim/moving_objects/orbits.py
index ab0197c..fbb1101 100644
--- a/rubin_sim/moving_objects/orbits.py
+++ b/rubin_sim/moving_objects/orbits.py
@@ -486,7 +486,9 @@ class Orbits:
             if np.min(orbits["inc"]) < 0:
                 negative_incs = np.where(orbits["inc"].values < 0)[0]
                 negative_ids = orbits["obj_id"].values[negative_incs]
-                ValueError("Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids)
+                raise ValueError(
+                    "Negative orbital inclinations not supported. Problem obj_ids=%s" % negative_ids
+                )
 
         # Validate and assign orbits to self.
         self.set_orbits(orbits)
-- 
2.43.0


From e00e2c016456425b4eef61f553606534542b3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 088/132] fix: basic ephemerides report errors of OpenOrb

---
 rubin_sim/moving_objects/ooephemerides.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/rubin_sim/moving_objects/ooephemerides.py b/rubin_sim/moving_objects/ooephemerides.py
index 8cbb6d7..53a786f 100644
--- a/rubin_sim/moving_objects/ooephemerides.py
+++ b/rubin_sim/moving_objects/ooephemerides.py
@@ -600,12 +600,7 @@ class PyOrbEphemerides:
         # t = time.time()
         eph_times = self._convert_times(times, time_scale=time_scale)
         if eph_type.lower() == "basic":
-            oorb_ephs, err = oo.pyoorb.oorb_ephemeris_basic(
-                in_orbits=self.oorb_elem,
-                in_obscode=obscode,
-                in_date_ephems=eph_times,
-                in_dynmodel=eph_mode,
-            )
+            oorb_ephs = self._generate_oorb_ephs_basic(eph_times, obscode=obscode, eph_mode=eph_mode)
             ephs = self._convert_oorb_ephs_basic(oorb_ephs, by_object=by_object)
         elif eph_type.lower() == "full":
             oorb_ephs = self._generate_oorb_ephs_full(eph_times, obscode=obscode, eph_mode=eph_mode)
-- 
2.43.0


From 7f2765c8b922c893529e5a026a599e16173adf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 089/132] fix: rectangular field of view works across RA=0 and
 with pointings in radians

---
 rubin_sim/moving_objects/base_obs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 0e2ae63..0125f13 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -395,8 +395,16 @@ class BaseObs:
         return self._sso_in_rectangle_fov(ephems, obs_data, self.x_tol, self.y_tol)
 
     def _sso_in_rectangle_fov(self, ephems, obs_data, x_tol, y_tol):
-        delta_dec = np.abs(ephems["dec"] - obs_data[self.obs_dec])
-        delta_ra = np.abs((ephems["ra"] - obs_data[self.obs_ra]) * np.cos(np.radians(obs_data[self.obs_dec])))
+        if not self.obs_degrees:
+            obs_ra = np.degrees(obs_data[self.obs_ra])
+            obs_dec = np.degrees(obs_data[self.obs_dec])
+        else:
+            obs_ra = obs_data[self.obs_ra]
+            obs_dec = obs_data[self.obs_dec]
+        delta_dec = np.abs(ephems["dec"] - obs_dec)
+        # RA wraps at 360 degrees.
+        delta_ra = (ephems["ra"] - obs_ra + 180.0) % 360.0 - 180.0
+        delta_ra = np.abs(delta_ra * np.cos(np.radians(obs_dec)))
         idx_obs = np.where((delta_dec <= y_tol) & (delta_ra <= x_tol))[0]
         return idx_obs
 
-- 
2.43.0


From 07327bb0971652afd6567d552532d87a4a5468f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:10 +0000
Subject: [PATCH 090/132] fix: circular field of view works for a single visit

---
 rubin_sim/moving_objects/base_obs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 0125f13..97f69f5 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -371,7 +371,8 @@ class BaseObs:
                 obs_data[self.obs_ra],
                 obs_data[self.obs_dec],
             )
-        idx_obs = np.where(sep <= r_fov)[0]
+        # (angular_separation returns a float for a single visit)
+        idx_obs = np.where(np.atleast_1d(sep) <= r_fov)[0]
         return idx_obs
 
     def sso_in_rectangle_fov(self, ephems, obs_data):
-- 
2.43.0


From caa06a323b313b946086034922eb71b115a90336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 091/132] fix: rubin_sim.selfcal can be imported before
 rubin_sim.maf

---
 rubin_sim/selfcal/offsets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index 3ebc040..7805fbb 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -2,8 +2,6 @@ __all__ = ["NoOffset", "OffsetSNR", "BaseOffset"]
 
 import numpy as np
 
-from ..maf.utils.astrometry_utils import m52snr
-
 # from lsst.sims.selfcal.clouds.Arma import ArmaSf, Clouds
 
 
@@ -97,6 +95,9 @@ class OffsetSNR(BaseOffset):
 
     def calc_mag_errors(self, magnitudes, m5, err_only=False):
         """ """
+        # Imported here as rubin_sim.maf imports rubin_sim.selfcal.
+        from ..maf.utils.astrometry_utils import m52snr
+
         snr = m52snr(magnitudes, m5)
         # via good old https://www.eso.org/~ohainaut/ccd/sn.html
         magnitude_errors = 2.5 * np.log10(1.0 + 1.0 / snr)
-- 
2.43.0


From 4854495d3ff571d07c07439bb1b447eb0aa216bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:45 +0000
Subject: [PATCH 092/132] fix: NoOffset can be added to magnitudes

---
 rubin_sim/selfcal/offsets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index 7805fbb..be9fcd4 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -22,7 +22,7 @@ class NoOffset(BaseOffset):
         self.newkey = "dmag_zero"
 
     def __call__(self, stars, visits, **kwargs):
-        dmag = np.zeros(stars.size, dtype=list(zip([self.newkey], [float])))
+        dmag = np.zeros(np.size(stars), dtype=float)
         return dmag
 
 
-- 
2.43.0


From ff6c6bceb54ba6cd98c129b92860a9d375421561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:38 +0000
Subject: [PATCH 093/132] fix: sky templates use the edge grid point for points
 below the grid

---
 rubin_sim/skybrightness/interp_components.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/interp_components.py b/rubin_sim/skybrightness/interp_components.py
index 887e9bc..73cb1e9 100644
--- a/rubin_sim/skybrightness/interp_components.py
+++ b/rubin_sim/skybrightness/interp_components.py
@@ -221,7 +221,8 @@ class BaseSingleInterp:
         indx_r = np.empty(points.size, dtype=int)
 
         indx_r[order] = np.searchsorted(grid, points[order])
-        indx_l = indx_r - 1
+        # Points below the grid use the first grid point
+        indx_l = np.maximum(indx_r - 1, 0)
 
         # If points off the grid were requested, just use the edge grid point
         off_grid = np.where(indx_r == grid.size)
-- 
2.43.0


From e296fb4f4c4e7141b2304376be5e62e444b81c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:38 +0000
Subject: [PATCH 094/132] fix: SkyModel.set_params accepts single values, as in
 its defaults

---
 rubin_sim/skybrightness/sky_model.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index b0518f5..a3fdb5d 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -602,13 +602,13 @@ class SkyModel:
         self.eclip_lon = convert_func(eclip_lon)
         self.eclip_lat = convert_func(eclip_lat)
         self.sun_eclip_lon = convert_func(sun_eclip_lon)
-        self.azs = convert_func(azs)
+        self.azs = np.atleast_1d(convert_func(azs))
         if alts is not None:
-            self.airmass = 1.0 / np.cos(np.pi / 2.0 - convert_func(alts))
-            self.alts = convert_func(alts)
+            self.alts = np.atleast_1d(convert_func(alts))
+            self.airmass = 1.0 / np.cos(np.pi / 2.0 - self.alts)
         else:
-            self.airmass = airmass
-            self.alts = np.pi / 2.0 - np.arccos(1.0 / airmass)
+            self.airmass = np.atleast_1d(airmass)
+            self.alts = np.pi / 2.0 - np.arccos(1.0 / self.airmass)
         self.moon_targ_sep = haversine(self.azs, self.alts, moon_az, self.moon_alt)
         self.npts = np.size(self.airmass)
         self._init_points()
-- 
2.43.0


From ee9427635220663e8ef00de6945b2203d6a22ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:38 +0000
Subject: [PATCH 095/132] fix: SkyModel.set_params moon separation uses the
 azimuth in radians

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index a3fdb5d..8271ecd 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -609,7 +609,7 @@ class SkyModel:
         else:
             self.airmass = np.atleast_1d(airmass)
             self.alts = np.pi / 2.0 - np.arccos(1.0 / self.airmass)
-        self.moon_targ_sep = haversine(self.azs, self.alts, moon_az, self.moon_alt)
+        self.moon_targ_sep = haversine(self.azs, self.alts, self.moon_az, self.moon_alt)
         self.npts = np.size(self.airmass)
         self._init_points()
 
-- 
2.43.0


From 9139dea37117985310374fc685772dbb8d140eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:38 +0000
Subject: [PATCH 096/132] fix: SkyModel.return_mags works on spectra set with
 set_params

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 8271ecd..0ebd55a 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -759,7 +759,7 @@ class SkyModel:
                 min_wave = bandpasses[key].wavelen[is_through].min()
                 max_wave = bandpasses[key].wavelen[is_through].max()
                 in_band = np.where((self.wave >= min_wave) & (self.wave <= max_wave))
-                for i, ra in enumerate(self.ra):
+                for i in range(self.npts):
                     # Check that there is flux in the band,
                     # otherwise calc_mag fails
                     if np.max(self.spec[i, in_band]) > 0:
-- 
2.43.0


From 0bac67dc580a3ce1cabda4add5c02a995734b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:38 +0000
Subject: [PATCH 097/132] fix: SkyModel masks the points that miss a component,
 not others

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 0ebd55a..606a7b6 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -685,7 +685,7 @@ class SkyModel:
                     self.spec[self.mask, :] = np.nan
                     return
                 if np.max(result["spec"]) > 0:
-                    mask[np.where(np.sum(result["spec"], axis=1) == 0)] = 0
+                    mask[self.good_pix[np.where(np.sum(result["spec"], axis=1) == 0)[0]]] = 0
                 self.spec[self.good_pix] += result["spec"]
                 if not hasattr(self, "wave"):
                     self.wave = result["wave"]
-- 
2.43.0


From 355f97e69a1d33f6eff83edfdacd75e9663a0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 098/132] fix: TripletMetric applies the limits on the ratio of
 the intervals

---
 rubin_sim/maf/maf_contrib/triplet_metric.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/triplet_metric.py b/rubin_sim/maf/maf_contrib/triplet_metric.py
index e8ac639..644d703 100644
--- a/rubin_sim/maf/maf_contrib/triplet_metric.py
+++ b/rubin_sim/maf/maf_contrib/triplet_metric.py
@@ -53,9 +53,13 @@ class TripletMetric(BaseMetric):
                 # calculate the window to look for all possible third points
                 minmax2 = [timeb + delmin, timeb + delmax]
                 index3 = np.where((times > minmax2[0]) & (times < minmax2[1]))[0]
-                newadd = np.size(index3)
-                total = total + newadd  # add all triplets with same
-                # first two observations to total
+                # add the triplets with an acceptable ratio of intervals
+                for lastindex in index3:
+                    delt1 = timeb - time
+                    delt2 = times[lastindex] - timeb
+                    ratio = np.max([delt1, delt2]) / np.min([delt1, delt2])
+                    if self.ratiomin < ratio < self.ratiomax:
+                        total = total + 1
         return total
 
 
-- 
2.43.0


From 56c6ec2e8a1b100030586140227e2f45311c1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 099/132] fix: TripletBandMetric reduce order uses the names of
 the reduce functions

---
 rubin_sim/maf/maf_contrib/triplet_metric.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/triplet_metric.py b/rubin_sim/maf/maf_contrib/triplet_metric.py
index 644d703..1d5a04d 100644
--- a/rubin_sim/maf/maf_contrib/triplet_metric.py
+++ b/rubin_sim/maf/maf_contrib/triplet_metric.py
@@ -80,12 +80,13 @@ class TripletBandMetric(BaseMetric):
         self.ratiomin = kwargs.pop("RatioMin", 1)
         super(TripletBandMetric, self).__init__(col=[self.time_col, self.filter_col], **kwargs)
         self.reduce_order = {
-            "Bandu": 0,
-            "Bandg": 1,
-            "Bandr": 2,
-            "Bandi": 3,
-            "Bandz": 4,
-            "Bandy": 5,
+            "bandu": 0,
+            "bandg": 1,
+            "bandr": 2,
+            "bandi": 3,
+            "bandz": 4,
+            "bandy": 5,
+            "bandall": 6,
         }
 
     def run(self, data_slice, slice_point=None):
-- 
2.43.0


From 8dfca4fd7c956e4a979979dbd2f312daece7a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 100/132] fix: GRBTransientMetric reduce order uses the names
 of the reduce functions

---
 .../maf/maf_contrib/grb_transient_metric.py      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index 89eb910..000be74 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -113,14 +113,14 @@ class GRBTransientMetric(metrics.BaseMetric):
         self.n_phase_check = n_phase_check
         self.peak_time = 0.0
         self.reduce_order = {
-            "Bandu": 0,
-            "Bandg": 1,
-            "Bandr": 2,
-            "Bandi": 3,
-            "Bandz": 4,
-            "Bandy": 5,
-            "Band1FiltAvg": 6,
-            "BandanyNfilters": 7,
+            "bandu": 0,
+            "bandg": 1,
+            "bandr": 2,
+            "bandi": 3,
+            "bandz": 4,
+            "bandy": 5,
+            "band1_filt_avg": 6,
+            "bandany_nfilters": 7,
         }
 
     def light_curve(self, time, filters):
-- 
2.43.0


From a1eec62172d8f4a942f519a9dceda809fa1dd9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 101/132] fix: GRBTransientMetric accepts a survey start

---
 rubin_sim/maf/maf_contrib/grb_transient_metric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index 000be74..7fcf6b0 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -160,6 +160,8 @@ class GRBTransientMetric(metrics.BaseMetric):
                 n_trans_max -= 1
             if self.survey_start is None:
                 survey_start = data_slice[self.mjd_col].min()
+            else:
+                survey_start = self.survey_start
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
             # Which lightcurve does each point belong to
-- 
2.43.0


From 5457f6a1ff81d4d40f217a988ff15fcd99b2c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 102/132] fix: GRBTransientMetric counts the light curves of
 every phase

---
 .../maf/maf_contrib/grb_transient_metric.py   | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index 7fcf6b0..0a37591 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -151,6 +151,15 @@ class GRBTransientMetric(metrics.BaseMetric):
         n_trans_max = np.floor(self.survey_duration / (self.trans_duration / 365.25))
         tshifts = np.arange(self.n_phase_check) * self.trans_duration / float(self.n_phase_check)
         n_trans_max = 0
+        bandcounter = {
+            "u": 0,
+            "g": 0,
+            "r": 0,
+            "i": 0,
+            "z": 0,
+            "y": 0,
+            "any": 0,
+        }  # define zeroed out counter
         for tshift in tshifts:
             # Compute the total number of back-to-back transients
             # are possible to detect
@@ -165,7 +174,7 @@ class GRBTransientMetric(metrics.BaseMetric):
             time = (data_slice[self.mjd_col] - survey_start + tshift) % self.trans_duration
 
             # Which lightcurve does each point belong to
-            lc_number = np.floor((data_slice[self.mjd_col] - survey_start) / self.trans_duration)
+            lc_number = np.floor((data_slice[self.mjd_col] - survey_start + tshift) / self.trans_duration)
 
             lc_mags = self.light_curve(time, data_slice[self.filter_col])
 
@@ -176,16 +185,6 @@ class GRBTransientMetric(metrics.BaseMetric):
             detected = np.zeros(data_slice.size, dtype=int)
             detected[np.where(lc_mags < data_slice[self.m5_col] + self.detect_m5_plus)] += 1
 
-            bandcounter = {
-                "u": 0,
-                "g": 0,
-                "r": 0,
-                "i": 0,
-                "z": 0,
-                "y": 0,
-                "any": 0,
-            }  # define zeroed out counter
-
             # make sure things are sorted by time
             ord = np.argsort(data_slice[self.mjd_col])
             data_slice = data_slice[ord]
-- 
2.43.0


From a57f919620247ebf18424b25936b35c51dca0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 103/132] fix: GRBTransientMetric single-filter average leaves
 out the any-filter count

---
 rubin_sim/maf/maf_contrib/grb_transient_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/grb_transient_metric.py b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
index 0a37591..45b2e08 100644
--- a/rubin_sim/maf/maf_contrib/grb_transient_metric.py
+++ b/rubin_sim/maf/maf_contrib/grb_transient_metric.py
@@ -225,7 +225,7 @@ class GRBTransientMetric(metrics.BaseMetric):
 
     def reduce_band1_filt_avg(self, bandfraction):
         "Average fraction detected in single filter"
-        return np.mean(list(bandfraction.values()))
+        return np.mean([bandfraction[band] for band in bandfraction if band != "any"])
 
     def reduce_bandany_nfilters(self, bandfraction):
         "Fraction of events detected in Nfilters or more"
-- 
2.43.0


From dba2afa27dd32c3e587c09ef7b4a146eea66c485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 104/132] fix: PeriodicMetric works with current numpy

---
 rubin_sim/maf/maf_contrib/periodic_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/periodic_metric.py b/rubin_sim/maf/maf_contrib/periodic_metric.py
index 658bca6..eab28d0 100644
--- a/rubin_sim/maf/maf_contrib/periodic_metric.py
+++ b/rubin_sim/maf/maf_contrib/periodic_metric.py
@@ -38,7 +38,7 @@ class PeriodicMetric(BaseMetric):
         window_val = np.zeros_like(window_frq, dtype="float")
         for x, frq in enumerate(window_frq):
             window_val[x] = np.sum(np.cos(-2.0 * np.pi * frq * use_jd))
-        window_val /= np.float(use_jd.size)
+        window_val /= float(use_jd.size)
         secondpeak = np.sort(window_val)[-2]
         totalsum = (np.sum(window_val) - np.sort(window_val)[-1]) / (frq_pts - 1)
         data = np.asarray([secondpeak, totalsum])
-- 
2.43.0


From d9b4e89e39e71d4fd3e21a14fa6caa277b249dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:13 +0000
Subject: [PATCH 105/132] fix: PeriodicStarModulationMetric fits each interval
 with enough visits, and its own bands

---
 rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py b/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py
index 909a950..f1f75b4 100644
--- a/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py
+++ b/rubin_sim/maf/maf_contrib/periodic_star_modulation_metric.py
@@ -188,7 +188,7 @@ class PeriodicStarModulationMetric(BaseMetric):
                     # Suppress warnings about failing on covariance
                     fit_obj = PeriodicStar(t_subrun["filter"])
                     # check if we have enough points
-                    if np.size(true_params) >= np.size(fit_obj):
+                    if np.size(true_params) >= t_subrun.size:
                         parm_vals = true_params * 0 + np.inf
                     else:
                         with warnings.catch_warnings():
@@ -209,7 +209,7 @@ class PeriodicStarModulationMetric(BaseMetric):
 
                 # Throw out any magnitude fits if there are no
                 # observations in that filter
-                ufilters = np.unique(data_slice[self.filter_col])
+                ufilters = np.unique(t_subrun["filter"])
                 if ufilters.size < 9:
                     for key in list(self.filter2index.keys()):
                         if key not in ufilters:
-- 
2.43.0


From 9fb4f21793a939e8b2d24d32b0507aff1c512131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 106/132] fix: FilterPairTGapsMetric accepts slices without
 visits in one of the filters

---
 rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py b/rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py
index ac0e9df..cc41b13 100644
--- a/rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py
+++ b/rubin_sim/maf/maf_contrib/filter_pair_t_gaps_metric.py
@@ -152,6 +152,8 @@ class FilterPairTGapsMetric(BaseMetric):
             else:
                 time_col0 = data_slice[self.mjd_col][idx0]
                 time_col1 = data_slice[self.mjd_col][idx1]
+                if len(time_col0) == 0 or len(time_col1) == 0:
+                    return np.array([])
 
                 time_col0 = time_col0.reshape((len(time_col0), 1))
                 time_col1 = time_col1.reshape((len(time_col1), 1))
-- 
2.43.0


From 72b78237231d51efbecc78c890dbf0048ee868bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:22 +0000
Subject: [PATCH 107/132] fix: AnomalousOverheadFunc applies negative slew
 locations

---
 rubin_sim/sim_archive/prenight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/sim_archive/prenight.py b/rubin_sim/sim_archive/prenight.py
index 0b0dbb8..b2774e7 100644
--- a/rubin_sim/sim_archive/prenight.py
+++ b/rubin_sim/sim_archive/prenight.py
@@ -182,7 +182,7 @@ class AnomalousOverheadFunc:
             )
 
         slew_overhead_offset: float
-        if self.slew_scale > 0 or self.slew_loc > 0:
+        if self.slew_scale > 0 or self.slew_loc != 0:
             # we are actually using slew time scattering, so
             # get the model slewtime.
             if slewtime is not None:
-- 
2.43.0


From 8908c65239ed0ad632b6ef004e078eab7090ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:22 +0000
Subject: [PATCH 108/132] fix: fetch_sim_for_nights leaves the stackers and
 arguments it is given unchanged

---
 rubin_sim/sim_archive/sim_archive.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/sim_archive/sim_archive.py b/rubin_sim/sim_archive/sim_archive.py
index 9b8fc21..bde20f5 100644
--- a/rubin_sim/sim_archive/sim_archive.py
+++ b/rubin_sim/sim_archive/sim_archive.py
@@ -469,9 +469,8 @@ def fetch_sim_for_nights(
     if len(stackers) == 0:
         if isinstance(get_sim_data_kwargs, dict) and "stackers" in get_sim_data_kwargs:
             stackers = get_sim_data_kwargs["stackers"]
-        else:
-            stackers = []
-    assert isinstance(stackers, list)
+    # Stackers are added below: work on a copy.
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
@@ -480,9 +479,7 @@ def fetch_sim_for_nights(
         stackers.append(maf.DayObsISOStacker())
 
     if opsim_rp.getExtension() in (".db", ".sqlite3"):
-        if get_sim_data_kwargs is None:
-            get_sim_data_kwargs = {}
-        assert isinstance(get_sim_data_kwargs, dict)
+        get_sim_data_kwargs = {} if get_sim_data_kwargs is None else dict(get_sim_data_kwargs)
         get_sim_data_kwargs["stackers"] = stackers
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
-- 
2.43.0


From dec318ab206adc104b477daeb7df767ae9ca88bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:47 +0000
Subject: [PATCH 109/132] fix: StringCountMetric with clip_end leaves the
 visits unchanged

---
 rubin_sim/maf/metrics/string_count_metric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/string_count_metric.py b/rubin_sim/maf/metrics/string_count_metric.py
index f8c5b1a..876d11a 100644
--- a/rubin_sim/maf/metrics/string_count_metric.py
+++ b/rubin_sim/maf/metrics/string_count_metric.py
@@ -66,9 +66,11 @@ class StringCountMetric(BaseMetric):
                         replace_col.append(val)
                 else:
                     replace_col.append(val)
-            data_slice[self.col] = replace_col
+            values = replace_col
+        else:
+            values = data_slice[self.col]
 
-        counter = Counter(data_slice[self.col])
+        counter = Counter(values)
         # convert to a numpy array
         lables = list(counter.keys())
         # Numpy can't handle empty string as a dtype
-- 
2.43.0


From 409b71c2239dff6c36f4c6aead90607e3cd18cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:57 +0000
Subject: [PATCH 110/132] fix: VisitIntervalSlicer declares its extra columns
 as needed

---
 rubin_sim/maf/slicers/time_interval_slicers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index bb1f821..d28c592 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -253,7 +253,7 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
         self.mjd_column_name = mjd_column_name
         self.duration_column_name = duration_column_name
         self.extra_column_names = extra_column_names
-        self.columns_needed = [mjd_column_name, duration_column_name]
+        self.columns_needed = [mjd_column_name, duration_column_name] + list(extra_column_names)
         self.sim_idxs = None  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
-- 
2.43.0


From 61a46d52c2035e49e17bf3f850fa2f7fe49fd9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:57 +0000
Subject: [PATCH 111/132] fix: Coaddm5Metric declares the filter column when it
 selects a filter

---
 rubin_sim/maf/metrics/simple_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index 4fdba37..1c6875f 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -94,7 +94,10 @@ class Coaddm5Metric(BaseMetric):
         self.filter_name = filter_name
         self.filter_col = filter_col
         self.m5_col = m5_col
-        super().__init__(col=m5_col, metric_name=metric_name, units=units, **kwargs)
+        cols = [m5_col]
+        if filter_name is not None:
+            cols.append(filter_col)
+        super().__init__(col=cols, metric_name=metric_name, units=units, **kwargs)
 
     @staticmethod
     def coadd(single_visit_m5s):
-- 
2.43.0


From 7dff0cd420f44e715bfa6d5f9e180fa184cdec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 112/132] fix: bd_colors gives the L3 magnitudes as a
 dictionary

---
 rubin_sim/maf/metrics/brown_dwarf_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/brown_dwarf_metric.py b/rubin_sim/maf/metrics/brown_dwarf_metric.py
index 7ba5719..ee27fb6 100644
--- a/rubin_sim/maf/metrics/brown_dwarf_metric.py
+++ b/rubin_sim/maf/metrics/brown_dwarf_metric.py
@@ -22,7 +22,7 @@ def bd_colors(spec_type):
     result["L0"] = {"i": 16.00, "z": 14.52, "y": 13.58}
     result["L1"] = {"i": 16.41, "z": 14.93, "y": 13.97}
     result["L2"] = {"i": 16.73, "z": 15.30, "y": 14.33}
-    result["L3"] = ({"i": 17.4, "z": 15.88, "y": 14.89},)
+    result["L3"] = {"i": 17.4, "z": 15.88, "y": 14.89}
     result["L4"] = {"i": 18.35, "z": 16.68, "y": 15.66}
     result["L5"] = {"i": 18.71, "z": 16.94, "y": 15.87}
     result["L6"] = {"i": 19.27, "z": 17.35, "y": 16.27}
-- 
2.43.0


From b6f40a5a58fb4835b7debcbc87086b127feb1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 113/132] fix: LVDwarfsMetric counts the stars at the depth of
 the visits

---
 rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py b/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
index 5add365..e2edc6e 100644
--- a/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
+++ b/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
@@ -329,7 +329,7 @@ class LVDwarfsMetric(BaseMetric):
         # (this is a bit of a hack to get the starDensityMetric to
         # calculate the nstars at this mag exactly)
         star_i5 = min(27.9, i5)
-        self.star_density_metric.magLimit = star_i5
+        self.star_density_metric.mag_limit = star_i5
 
         nstar_sqarcsec = self.star_density_metric.run(data_slice, slice_point)
 
-- 
2.43.0


From 423004d972f4e874a96cd16f863c747d053de5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 114/132] fix: SNSLMetric skips seasons with a single night and
 uses mjd_col

---
 rubin_sim/maf/metrics/sn_sl_metric.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/sn_sl_metric.py b/rubin_sim/maf/metrics/sn_sl_metric.py
index ff51795..f36f4a3 100644
--- a/rubin_sim/maf/metrics/sn_sl_metric.py
+++ b/rubin_sim/maf/metrics/sn_sl_metric.py
@@ -206,9 +206,13 @@ class SNSLMetric(metrics.BaseMetric):
                 n_lensed_s_ne__ia += 0
             else:
                 # Find the cadence (days) between visits within the season
-                cadence = np.diff(night_slice["observationStartMJD"][s_idx])
+                cadence = np.diff(night_slice[self.mjd_col][s_idx])
                 # But only the values between nights, not within nights
-                cadence = np.median(cadence[np.where(cadence > 0.4)])
+                cadence = cadence[np.where(cadence > 0.4)]
+                if np.size(cadence) == 0:
+                    # Only one night in this season
+                    continue
+                cadence = np.median(cadence)
                 # Season length in years
                 season_length = seasons[s_idx][-1] - seasons[s_idx][0]
                 n_lensed_s_ne__ia += self.n_lensed(area, cadence, season_length)
-- 
2.43.0


From f253dc8284b8b3eeb7783d399d7547c6662cb676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:34 +0000
Subject: [PATCH 115/132] fix: QSONumberCountsMetric returns badval without
 visits in its filter

---
 rubin_sim/maf/metrics/qso_number_counts_metric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/metrics/qso_number_counts_metric.py b/rubin_sim/maf/metrics/qso_number_counts_metric.py
index a1a927b..d3d998c 100644
--- a/rubin_sim/maf/metrics/qso_number_counts_metric.py
+++ b/rubin_sim/maf/metrics/qso_number_counts_metric.py
@@ -120,6 +120,9 @@ class QSONumberCountsMetric(BaseMetric):
 
         # For the data_slice, get the 5 sigma limiting magnitude.
         d_s = data_slice[data_slice[self.filter_col] == self.lsst_filter]
+        # If there are no visits in this filter, there is nothing to count.
+        if len(d_s) == 0:
+            return self.badval
         mlim5 = self.exgal_m5.run(d_s, slice_point)
 
         # Get the slicer pixel area.
-- 
2.43.0


From ea88f2c69450ef745b07293fa0d5627d51166e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:15 +0000
Subject: [PATCH 116/132] fix: the dwarf luminosity function is read in y band

---
 rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py b/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
index e2edc6e..81108d9 100644
--- a/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
+++ b/rubin_sim/maf/maf_contrib/lv_dwarfs/lv_dwarfs_metrics.py
@@ -58,7 +58,7 @@ def make__fake_old_galaxy_lf(int_b, mu, filtername):
         Filter in which to produce the simulated luminosity function.
     """
     if filtername == "y":
-        filtername == "Y"
+        filtername = "Y"
     model_bmag = 6.856379  # integrated B mag of the model LF being read
     # Read a simulated luminosity function of [M/H]=-1.5, 10 Gyr stellar
     # population:
-- 
2.43.0


From 2ef542bce602171e4b0da68f0e3c22164aed1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:47 +0000
Subject: [PATCH 117/132] fix: galplane_priority_map serves the maps that were
 asked for

---
 rubin_sim/maf/maps/galactic_plane_priority_maps.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maps/galactic_plane_priority_maps.py b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
index fa32a39..f625aad 100644
--- a/rubin_sim/maf/maps/galactic_plane_priority_maps.py
+++ b/rubin_sim/maf/maps/galactic_plane_priority_maps.py
@@ -94,7 +94,9 @@ def galplane_priority_map(
         raise RuntimeError("Currently only available with nside=64")
 
     # Do we need to read from disk?
-    if not hasattr(galplane_priority_map, "maps"):
+    # (the maps held from a previous call may be those of another source)
+    source = (map_path, use_alt_maps)
+    if getattr(galplane_priority_map, "source", None) != source:
         galplane_priority_map.nside = 64
         galplane_priority_map.filterlist = ["u", "g", "r", "i", "z", "y", "sum"]
         if map_path is not None:
@@ -115,6 +117,7 @@ def galplane_priority_map(
                 science_maps += list(galplane_priority_map.maps[f].dtype.names)
             science_maps = list(set(science_maps))
             galplane_priority_map.science_maps = science_maps
+        galplane_priority_map.source = source
 
     galplane_priority_map.keys = [
         gp_priority_map_components_to_keys(f, s)
@@ -173,7 +176,7 @@ class GalacticPlanePriorityMap(BaseMap):
     """
 
     def __init__(self, interp=False, nside=64, map_path=None):
-        self.keynames = galplane_priority_map(get_keys=True)
+        self.keynames = galplane_priority_map(get_keys=True, map_path=map_path)
         self.interp = interp
         self.nside = nside
         self.map_path = map_path
-- 
2.43.0


From d714c0231bafa70bb6c4dd3065e473cc24c88ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 118/132] fix: StaticProbesFoMEmulatorMetricSimple interpolates
 the figure of merit

---
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index 89eb1c6..f207c41 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -170,7 +170,7 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
             ]
 
         elif self.year == 6:
-            areas = [10000, 15000, 2000]
+            areas = [10000, 15000, 20000]
             depths = [25.9, 26.1, 26.3]
             fom_arr = [
                 [2.346060e02, 2.414678e02, 2.852043e02],
@@ -191,10 +191,8 @@ class StaticProbesFoMEmulatorMetricSimple(BaseMetric):
             return self.badval
 
         # Interpolate FoM to the actual values for this sim
-        areas = [[i] * 3 for i in areas]
-        depths = [depths] * 3
-        f = interpolate.RectBivateateSpline(np.ravel(areas), np.ravel(depths), np.ravel(fom_arr))
-        fom = f(area, median_depth)[0]
+        f = interpolate.RectBivariateSpline(areas, depths, fom_arr, kx=1, ky=1)
+        fom = f(area, median_depth)[0][0]
         return fom
 
 
-- 
2.43.0


From 6b531b69bd63f7e651b391a6cdd29102ed82180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 119/132] fix: TotalPowerMetric uses the map without its
 monopole

---
 rubin_sim/maf/metrics/cosmology_summary_metrics.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/cosmology_summary_metrics.py b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
index f207c41..f56980b 100644
--- a/rubin_sim/maf/metrics/cosmology_summary_metrics.py
+++ b/rubin_sim/maf/metrics/cosmology_summary_metrics.py
@@ -78,9 +78,8 @@ class TotalPowerMetric(BaseMetric):
         if self.remove_monopole:
             data = hp.remove_monopole(data, verbose=False, bad=self.mask_val)
         if self.remove_dipole:
-            cl = hp.anafast(hp.remove_dipole(data_slice[self.colname]))
-        else:
-            cl = hp.anafast(data_slice[self.colname])
+            data = hp.remove_dipole(data, bad=self.mask_val)
+        cl = hp.anafast(data)
         ell = np.arange(np.size(cl))
         condition = np.where((ell <= self.lmax) & (ell >= self.lmin))[0]
         totalpower = np.sum(cl[condition] * (2 * ell[condition] + 1))
-- 
2.43.0


From 03684a5a04c18961c54803a520c982f7bf8ccd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 120/132] fix: GalaxyCountsMetricExtended reads the filter
 column it was given

---
 .../lss_obs_strategy/galaxy_counts_metric_extended.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py b/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py
index 94a8aac..de1d4be 100644
--- a/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py
+++ b/rubin_sim/maf/maf_contrib/lss_obs_strategy/galaxy_counts_metric_extended.py
@@ -100,7 +100,7 @@ class GalaxyCountsMetricExtended(BaseMetric):
         # Specific band (e.g. r-band) will be provided by the sql constraint.
         if self.include_dust_extinction:
             # include dust extinction when calculating the co-added depth
-            self.coaddmetric = ExgalM5(m5_col=self.m5_col)
+            self.coaddmetric = ExgalM5(m5_col=self.m5_col, filter_col=self.filter_col)
         else:
             self.coaddmetric = Coaddm5Metric(m5_col=self.m5_col)
 
-- 
2.43.0


From e0678a1b743caed8fb951099d7dde835db0d6953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:20 +0000
Subject: [PATCH 121/132] fix: GalaxyCountsMetric is given the dust at the
 position it needs

---
 rubin_sim/maf/maf_contrib/lss_metrics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/maf_contrib/lss_metrics.py b/rubin_sim/maf/maf_contrib/lss_metrics.py
index ac59f3f..e50c451 100644
--- a/rubin_sim/maf/maf_contrib/lss_metrics.py
+++ b/rubin_sim/maf/maf_contrib/lss_metrics.py
@@ -15,10 +15,15 @@ class GalaxyCountsMetric(BaseMetric):
 
     def __init__(self, m5_col="fiveSigmaDepth", nside=128, metric_name="GalaxyCounts", **kwargs):
         self.m5_col = m5_col
-        super(GalaxyCountsMetric, self).__init__(col=self.m5_col, metric_name=metric_name, **kwargs)
         # Use the extinction corrected coadded depth metric to calculate
         # the depth at each point.
         self.coaddmetric = ExgalM5(m5_col=self.m5_col)
+        super(GalaxyCountsMetric, self).__init__(
+            col=list(self.coaddmetric.col_name_arr),
+            metric_name=metric_name,
+            maps=self.coaddmetric.maps,
+            **kwargs,
+        )
         # Total of 41253.0 galaxies across the sky (at what magnitude?).
         # This didn't seem to work quite right for me..
         self.scale = 41253.0 / hp.nside2npix(nside) / 5000.0
@@ -34,7 +39,7 @@ class GalaxyCountsMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
         # Calculate the coadded depth.
-        coaddm5 = self.coaddmetric.run(data_slice)
+        coaddm5 = self.coaddmetric.run(data_slice, slice_point)
         # Calculate the number of galaxies.
         # From Carroll et al, 2014 SPIE (http://arxiv.org/abs/1501.04733)
         # I'm not entirely certain this gives a properly calibrated number
-- 
2.43.0


From acdde2e6608e7fddeb06eb73759b0aa43d3aba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 122/132] fix: the latest prenight simulation of the prototype
 archive is the latest

---
 rubin_sim/sim_archive/prototype.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index e1b19d0..c08d225 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -802,9 +802,7 @@ def find_latest_prenight_sim_for_nights(
         if not set(tags).issubset(sim["tags"]):
             continue
         if best_sim is not None:
-            if sim["exec_date"] < best_sim["exec_date"]:
-                continue
-            if sim["date_index"] < best_sim["date_index"]:
+            if (sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"]):
                 continue
         best_sim = sim
 
-- 
2.43.0


From 4bb506ee486a58624cd4268a9bdc02ef76cd861b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 123/132] fix: the prototype fetch_sim_for_nights leaves the
 arguments it is given unchanged

---
 rubin_sim/sim_archive/prototype.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index c08d225..565f4a3 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -879,13 +879,11 @@ def fetch_sim_for_nights(
 
     assert isinstance(opsim_rp, ResourcePath)
 
-    if get_sim_data_kwargs is None:
-        get_sim_data_kwargs = {}
-    assert isinstance(get_sim_data_kwargs, dict)
+    get_sim_data_kwargs = {} if get_sim_data_kwargs is None else dict(get_sim_data_kwargs)
 
     # Limit visits returned to the nights we requested
-    if "stackers" not in get_sim_data_kwargs:
-        get_sim_data_kwargs["stackers"] = []
+    # (stackers are added below: work on a copy).
+    get_sim_data_kwargs["stackers"] = list(get_sim_data_kwargs.get("stackers", []))
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in get_sim_data_kwargs["stackers"]]
     if not dayobsiso_requested:
         # We want it to filter out dates that were not requested,
-- 
2.43.0


From ce8c3d72bede32e4b6d0cde2e587b2f54b9dd03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 124/132] fix: _fetch_sim_for_nights leaves the stackers and
 arguments it is given unchanged

---
 rubin_sim/sim_archive/future_vsarch.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/sim_archive/future_vsarch.py b/rubin_sim/sim_archive/future_vsarch.py
index 7df68fb..d76197c 100644
--- a/rubin_sim/sim_archive/future_vsarch.py
+++ b/rubin_sim/sim_archive/future_vsarch.py
@@ -376,9 +376,8 @@ def _fetch_sim_for_nights(
     if len(stackers) == 0:
         if isinstance(get_sim_data_kwargs, dict) and "stackers" in get_sim_data_kwargs:
             stackers = get_sim_data_kwargs["stackers"]
-        else:
-            stackers = []
-    assert isinstance(stackers, list)
+    # Stackers are added below: work on a copy.
+    stackers = list(stackers)
 
     dayobsiso_requested = maf.DayObsISOStacker in [s.__class__ for s in stackers]
     if not dayobsiso_requested:
@@ -387,9 +386,7 @@ def _fetch_sim_for_nights(
         stackers.append(maf.DayObsISOStacker())
 
     if opsim_rp.getExtension() in (".db", ".sqlite3"):
-        if get_sim_data_kwargs is None:
-            get_sim_data_kwargs = {}
-        assert isinstance(get_sim_data_kwargs, dict)
+        get_sim_data_kwargs = {} if get_sim_data_kwargs is None else dict(get_sim_data_kwargs)
         get_sim_data_kwargs["stackers"] = stackers
         visits_recarray = get_sim_data(opsim_rp, **get_sim_data_kwargs)
         visits = pd.DataFrame(visits_recarray)
-- 
2.43.0


From bf837463a3d70c1bcec03b180317cd36da589686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:04 +0000
Subject: [PATCH 125/132] fix: get_sim_metadata accepts a date string

---
 rubin_sim/sim_archive/prenightindex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rubin_sim/sim_archive/prenightindex.py b/rubin_sim/sim_archive/prenightindex.py
index e81f6dc..b2f418f 100644
--- a/rubin_sim/sim_archive/prenightindex.py
+++ b/rubin_sim/sim_archive/prenightindex.py
@@ -381,6 +381,10 @@ def _get_sim_metadata_from_metadata_index(
         simulations are found with the same UUID (indicating a problem in the
         metadata database).
     """
+    # Accept ISO style string for day_obs
+    if isinstance(day_obs, str):
+        day_obs = day_obs.replace("-", "")
+
     day_obs = int(
         f"{day_obs.year:04d}{day_obs.month:02d}{day_obs.day:02d}" if isinstance(day_obs, date) else day_obs
     )
-- 
2.43.0


From d9c5d24ccbf44c7acc1ab5c4a6532334664624f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 126/132] fix: selecting a whole subgroup works on the metric
 selection page

---
 rubin_sim/maf/web/maf_run_results.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index 5198b84..1577061 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -110,8 +110,13 @@ class MafRunResults:
         """
         metric_ids = set()
         for group_subgroup in group_list:
-            group = group_subgroup.split("_")[0]
-            subgroup = group_subgroup.split("_")[-1].replace("+", " ")
+            # The web server hands over the values of the page as bytes.
+            if isinstance(group_subgroup, bytes):
+                group_subgroup = group_subgroup.decode()
+            sep = "__" if "__" in group_subgroup else "_"
+            group, _, subgroup = group_subgroup.partition(sep)
+            if subgroup not in self.groups.get(group, []):
+                subgroup = subgroup.replace("+", " ")
             m_ids = self.metric_ids_in_subgroup(group, subgroup)
             for m_id in m_ids:
                 metric_ids.add(m_id)
-- 
2.43.0


From 2569de2952bd1921a3ba71fe8a07efbc69ac06ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 127/132] fix: get_json returns the JSON string

---
 rubin_sim/maf/web/maf_run_results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index 1577061..e943dc0 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -145,7 +145,7 @@ class MafRunResults:
         io = m_b.output_json()
         if io is None:
             return None
-        return io.get_value()
+        return io.getvalue()
 
     def get_npz(self, metric):
         """
-- 
2.43.0


From dfb24e15a0a18cb3a2beecfccffdedcd64e3664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 128/132] fix: the data links of the result pages work

---
 rubin_sim/maf/show_maf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/show_maf.py b/rubin_sim/maf/show_maf.py
index ca460b4..cdff650 100755
--- a/rubin_sim/maf/show_maf.py
+++ b/rubin_sim/maf/show_maf.py
@@ -66,22 +66,22 @@ class MetricResultsPageHandler(web.RequestHandler):
 class DataHandler(web.RequestHandler):
     def get(self):
         runId = int(self.request.arguments["runId"][0])
-        metricId = int(self.request.arguments["metric_id"][0])
+        metricId = int(self.request.arguments["metricId"][0])
         if "datatype" in self.request.arguments:
             datatype = self.request.arguments["datatype"][0].lower()
             datatype = datatype.decode("utf-8")
         else:
             datatype = "npz"
-        run = runlist.getRun(runId)
-        metric = run.metricIdsToMetrics([metricId])
+        run = runlist.get_run(runId)
+        metric = run.metric_ids_to_metrics([metricId])
         if datatype == "npz":
-            npz = run.getNpz(metric)
+            npz = run.get_npz(metric)
             if npz is None:
                 self.write("No npz file available.")
             else:
                 self.redirect(npz)
         elif datatype == "json":
-            jsn = run.getJson(metric)
+            jsn = run.get_json(metric)
             if jsn is None:
                 self.write("No JSON file available.")
             else:
-- 
2.43.0


From e4586f94ae6f992b899244d8a8b36b2c94fa6fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 129/132] fix: the result pages show the metric names and info
 labels

---
 rubin_sim/maf/web/maf_run_results.py        | 2 +-
 rubin_sim/maf/web/templates/macros.html     | 4 ++--
 rubin_sim/maf/web/templates/multicolor.html | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/web/maf_run_results.py b/rubin_sim/maf/web/maf_run_results.py
index e943dc0..14c6be3 100644
--- a/rubin_sim/maf/web/maf_run_results.py
+++ b/rubin_sim/maf/web/maf_run_results.py
@@ -423,7 +423,7 @@ class MafRunResults:
         metric_info["Metric Name"] = metric["metric_name"]
         if with_slicer_name:
             metric_info["Slicer"] = metric["slicer_name"]
-        metric_info["InfoL abel"] = metric["metric_info_label"]
+        metric_info["Info Label"] = metric["metric_info_label"]
         if with_data_link:
             metric_info["Data"] = []
             metric_info["Data"].append(metric["metric_datafile"])
diff --git a/rubin_sim/maf/web/templates/macros.html b/rubin_sim/maf/web/templates/macros.html
index 89e3b6e..b1ddb6f 100644
--- a/rubin_sim/maf/web/templates/macros.html
+++ b/rubin_sim/maf/web/templates/macros.html
@@ -199,7 +199,7 @@
       {% for m in slicermetrics %}
   	  {% set mInfo = run.metric_info(m, with_data_link=False, with_slicer_name=False) %}
 	  <th>
-	   {{mInfo['MetricName']}}
+	   {{mInfo['Metric Name']}}
 	  </th>
       {% endfor %}
       </tr>
@@ -208,7 +208,7 @@
       {% for m in slicermetrics %}
 	  {% set mInfo = run.metric_info(m, with_data_link=False, with_slicer_name=False) %}
 	  <th>
-	   {{mInfo['InfoLabel']}}
+	   {{mInfo['Info Label']}}
 	  </th>
       {% endfor %}
       </tr>
diff --git a/rubin_sim/maf/web/templates/multicolor.html b/rubin_sim/maf/web/templates/multicolor.html
index 6c78637..2a9c24e 100644
--- a/rubin_sim/maf/web/templates/multicolor.html
+++ b/rubin_sim/maf/web/templates/multicolor.html
@@ -110,8 +110,8 @@
      {% if combohist|length > 0 %}
       <div id='metricset'>
 	{% set metricInfo = run.metric_info(m) %}
-        {{ metricInfo['MetricName']|escape }} ({{metricInfo['Slicer']|escape}})
-	</br> <div id='indent'> {{metricInfo['InfoLabel']|escape}} </div> </br>
+        {{ metricInfo['Metric Name']|escape }} ({{metricInfo['Slicer']|escape}})
+	</br> <div id='indent'> {{metricInfo['Info Label']|escape}} </div> </br>
 	{% for plotfile, thumbfile in zip(combohist['plotFile'], combohist['thumbFile']) %}
         <a href="{{plotfile}}"> <img class="thumbnail" src='{{thumbfile}}'></a>
 	 {% endfor %}
@@ -123,7 +123,7 @@
    <div id='metricset'>
    {% for h in hourglassMetrics %}
       {% set metricInfo = run.metric_info(h) %}
-      {# {{metricInfo['InfoLabel']|escape}} </br> #}
+      {# {{metricInfo['Info Label']|escape}} </br> #}
       {% set hourglassplots = run.plots_for_metric(h) %}
       {% set hourglassdict = run.plot_dict(hourglassplots) %}
       {% set hourglass = hourglassdict['Hourglass'] %}
-- 
2.43.0


From 00bcad8543541029e501f2a0ed5f00fedcd63114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 130/132] fix: add_run_to_database finds the directory it is
 given

---
 rubin_sim/maf/db/tracking_db.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/maf/db/tracking_db.py b/rubin_sim/maf/db/tracking_db.py
index e8a13ee..5563c09 100644
--- a/rubin_sim/maf/db/tracking_db.py
+++ b/rubin_sim/maf/db/tracking_db.py
@@ -282,7 +282,6 @@ def add_run_to_database(
     """
     trackingDb = TrackingDb(database=tracking_db_file)
 
-    maf_dir = os.path.relpath(maf_dir, start=os.path.dirname(trackingDb.tracking_db_dir))
     if not os.path.isdir(maf_dir):
         raise ValueError("There is no directory containing MAF outputs at %s." % (maf_dir))
 
-- 
2.43.0


From 9371cdf424f251e1207cda67719fd960ac772acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 131/132] fix: kilonovae at given positions are the same for
 the same seed, one at each position

---
 rubin_sim/maf/maf_contrib/kne_metrics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rubin_sim/maf/maf_contrib/kne_metrics.py b/rubin_sim/maf/maf_contrib/kne_metrics.py
index 931defc..2b71057 100644
--- a/rubin_sim/maf/maf_contrib/kne_metrics.py
+++ b/rubin_sim/maf/maf_contrib/kne_metrics.py
@@ -454,6 +454,10 @@ def generate_kn_pop_slicer(
 
     if ra is None:
         ra, dec = uniform_sphere(n_events, seed=seed)
+    else:
+        # One event at each position, the same for the same seed.
+        np.random.seed(seed)
+        n_events = len(ra)
 
     peak_times = np.random.uniform(low=t_start, high=t_end, size=n_events)
     file_indx = np.floor(np.random.uniform(low=0, high=n_files, size=n_events)).astype(int)
-- 
2.43.0


From d2bc556bf88169e78da8f90eeff1f063106b5044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 132/132] fix: microlensing events are drawn by the density of
 their own pixel

---
 rubin_sim/maf/maf_contrib/microlensing_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/maf_contrib/microlensing_metric.py b/rubin_sim/maf/maf_contrib/microlensing_metric.py
index c4cdc38..ba7597b 100644
--- a/rubin_sim/maf/maf_contrib/microlensing_metric.py
+++ b/rubin_sim/maf/maf_contrib/microlensing_metric.py
@@ -580,7 +580,7 @@ def generate_microlensing_slicer(
     cumm_dist = np.cumsum(dist)
     cumm_dist = cumm_dist / np.max(cumm_dist)
     uniform_draw = rng.uniform(size=n_events)
-    indexes = np.floor(np.interp(uniform_draw, cumm_dist, np.arange(cumm_dist.size)))
+    indexes = np.ceil(np.interp(uniform_draw, cumm_dist, np.arange(cumm_dist.size)))
     hp_ids = order[indexes.astype(int)]
     gal_l, gal_b = hpid2_ra_dec(nside, hp_ids, nest=True)
     c = SkyCoord(l=gal_l * u.deg, b=gal_b * u.deg, frame="galactic").transform_to("icrs")
-- 
2.43.0

