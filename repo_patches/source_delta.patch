From f35fb347655607d32502751e7a37e477a0564d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 01/64] fix: pass VirtualBSEImage.normalize_intensity()
 arguments in the right order

dtype_out and show_progressbar were swapped, so dtype_out was ignored (or raised).
---
 src/kikuchipy/signals/virtual_bse_image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/virtual_bse_image.py b/src/kikuchipy/signals/virtual_bse_image.py
index 872f48b..1a0bed8 100644
--- a/src/kikuchipy/signals/virtual_bse_image.py
+++ b/src/kikuchipy/signals/virtual_bse_image.py
@@ -75,8 +75,8 @@ class VirtualBSEImage(KikuchipySignal2D):
         return super().normalize_intensity(
             num_std,
             divide_by_square_root,
-            show_progressbar,
             dtype_out,
+            show_progressbar,
             inplace,
             lazy_output,
         )
-- 
2.43.0


From 65f3f11e2ff226007df1aefa0c091689d40c343c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 02/64] fix: default kernel of
 adaptive_histogram_equalization() is (height/4, width/4)

The kernel shape was given in (width, height) order to scikit-image.
---
 src/kikuchipy/signals/_kikuchipy_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/_kikuchipy_signal.py b/src/kikuchipy/signals/_kikuchipy_signal.py
index 30c474c..cc2cc25 100644
--- a/src/kikuchipy/signals/_kikuchipy_signal.py
+++ b/src/kikuchipy/signals/_kikuchipy_signal.py
@@ -438,7 +438,7 @@ class KikuchipySignal2D(Signal2D):
             )
 
         # Determine window size (shape of contextual region)
-        sig_shape = self.axes_manager.signal_shape
+        sig_shape = self._signal_shape_rc
         if kernel_size is None:
             kernel_size = (sig_shape[0] // 4, sig_shape[1] // 4)
         elif isinstance(kernel_size, numbers.Number):
-- 
2.43.0


From 808bfe1d09360d59c338ea15ae500897e0f10b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 03/64] fix: default std of EBSD.get_dynamic_background() is
 width/8, as documented

signal_shape[-1] is the pattern height.
---
 src/kikuchipy/signals/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 36fee54..0b6041e 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -739,7 +739,7 @@ class EBSD(KikuchipySignal2D):
             Whether it is lazy is determined from ``lazy_output``.
         """
         if std is None:
-            std = self.axes_manager.signal_shape[-1] / 8
+            std = self.axes_manager.signal_shape[0] / 8
 
         # Get filter function and set up necessary keyword arguments
         if filter_domain == "frequency":
-- 
2.43.0


From 40a903c30b0bc75eb18a25cdf9b8f062fe63ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 04/64] fix: chunk overlap depth for even windows in neighbour
 dot products

An even window reaches window.origin points backwards, but the overlap was only
window.n_neighbours, so neighbours in the previous chunk were left out.
---
 src/kikuchipy/signals/util/_dask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/util/_dask.py b/src/kikuchipy/signals/util/_dask.py
index 4012401..1b209bd 100644
--- a/src/kikuchipy/signals/util/_dask.py
+++ b/src/kikuchipy/signals/util/_dask.py
@@ -212,7 +212,9 @@ def _get_chunk_overlap_depth(window, axes_manager, chunksize: tuple) -> dict:
     sig_dim = axes_manager.signal_dimension
     nav_shape = axes_manager.navigation_shape[::-1]
     is_chunked = ~np.equal(chunksize[:-sig_dim], nav_shape)
-    overlap_depth = {i: n for i, n in enumerate(window.n_neighbours) if is_chunked[i]}
+    # An even window reaches one point further towards its start than its
+    # end, so the origin gives the depth needed in both directions
+    overlap_depth = {i: n for i, n in enumerate(window.origin) if is_chunked[i]}
     return overlap_depth
 
 
-- 
2.43.0


From 62b3731312a6bce1046a9fba5d18d2f5ee1f189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 05/64] fix: keep patterns whole when processing lazy signals
 chunk by chunk

With chunk borders running through the signal dimensions, chunk functions were
applied to parts of patterns.
---
 src/kikuchipy/signals/util/_dask.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/util/_dask.py b/src/kikuchipy/signals/util/_dask.py
index 1b209bd..86416fb 100644
--- a/src/kikuchipy/signals/util/_dask.py
+++ b/src/kikuchipy/signals/util/_dask.py
@@ -140,7 +140,9 @@ def get_dask_array(
     else:
         dtype = np.dtype(dtype)
     if signal._lazy or isinstance(signal.data, da.Array):
-        dask_array = signal.data
+        # Patterns are processed one by one, so chunks must contain whole patterns
+        sig_axes = signal.axes_manager.signal_indices_in_array
+        dask_array = signal.data.rechunk({i: -1 for i in sig_axes})
         if kwargs.pop("rechunk", False):
             new_chunks = _reduce_chunks(
                 dask_array=dask_array,
-- 
2.43.0


From a5ab458f08be2a05b22fea57a2be1a171ef83c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:08 +0000
Subject: [PATCH 06/64] fix: do not change the detector of other signals in
 EBSD.downsample()

The detector was updated in place, also with inplace=False, and also when
shared with other signals.
---
 src/kikuchipy/signals/ebsd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 0b6041e..fd87aa4 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1196,9 +1196,11 @@ class EBSD(KikuchipySignal2D):
             static_bg_new = _downsample2d(static_bg, factor, omin, omax, dtype_out)
             attrs["static_background"] = static_bg_new
 
-        detector: EBSDDetector = attrs["detector"]
+        # Other signals may share this detector
+        detector: EBSDDetector = attrs["detector"].deepcopy()
         detector.shape = sig_shape_new
         detector.binning *= factor
+        attrs["detector"] = detector
 
         map_kw = {
             "show_progressbar": show_progressbar,
-- 
2.43.0


From 8dd77e623460ac0693f2245ae4bc8b41fc7b98fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 07/64] fix: keep axes calibration and metadata in signals
 returned by EBSD methods

fft_filter(), average_neighbour_patterns() and get_dynamic_background() dropped
the axes' names, scales and units and the metadata when returning a new signal.
---
 src/kikuchipy/signals/ebsd.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index fd87aa4..f3b2b64 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -778,9 +778,9 @@ class EBSD(KikuchipySignal2D):
             **kwargs,
         )
 
-        attrs = self._get_custom_attributes()
+        new_kw = self._get_new_signal_kwargs()
         if lazy_output or (lazy_output is None and self._lazy):
-            s_out = LazyEBSD(background_patterns, **attrs)
+            s_out = LazyEBSD(background_patterns, **new_kw)
         else:
             background_return = np.empty(
                 shape=background_patterns.shape, dtype=dtype_out
@@ -793,7 +793,7 @@ class EBSD(KikuchipySignal2D):
                 pbar.register()
 
             background_patterns.store(background_return, compute=True)
-            s_out = EBSD(background_return, **attrs)
+            s_out = EBSD(background_return, **new_kw)
 
             try:
                 pbar.unregister()
@@ -930,7 +930,7 @@ class EBSD(KikuchipySignal2D):
                 self.data = filtered_patterns
             s_out = None
         else:
-            s_out = LazyEBSD(filtered_patterns, **self._get_custom_attributes())
+            s_out = LazyEBSD(filtered_patterns, **self._get_new_signal_kwargs())
             if not return_lazy:
                 s_out.compute()
 
@@ -1097,7 +1097,7 @@ class EBSD(KikuchipySignal2D):
                 self.data = averaged_patterns
             s_out = None
         else:
-            s_out = LazyEBSD(averaged_patterns, **self._get_custom_attributes())
+            s_out = LazyEBSD(averaged_patterns, **self._get_new_signal_kwargs())
             if not return_lazy:
                 s_out.compute()
 
@@ -3089,6 +3089,17 @@ class EBSD(KikuchipySignal2D):
 
         return metric
 
+    def _get_new_signal_kwargs(self) -> dict:
+        """Return axes, metadata, and custom attributes for a new signal
+        with data of the same shape.
+        """
+        return {
+            "axes": list(self.axes_manager.as_dictionary().values()),
+            "metadata": self.metadata.as_dictionary(),
+            "original_metadata": self.original_metadata.as_dictionary(),
+            **self._get_custom_attributes(),
+        }
+
     @staticmethod
     def _get_sum_signal(
         signal, out_signal_axes: list | None = None
-- 
2.43.0


From f0cd932e80e051dfb09aed9b57d5e0efa6d2108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 08/64] fix: distance to origin of two-dimensional windows with
 an axis of length 1

The singleton axis was removed, so circular windows of such shapes raised.
---
 src/kikuchipy/filters/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/filters/window.py b/src/kikuchipy/filters/window.py
index 698b11d..b1cebd5 100644
--- a/src/kikuchipy/filters/window.py
+++ b/src/kikuchipy/filters/window.py
@@ -409,7 +409,7 @@ def distance_to_origin(
     coordinates = np.ogrid[tuple(slice(None, i) for i in shape)]
     if len(origin) == 2:
         squared = [(i - o) ** 2 for i, o in zip(coordinates, origin)]
-        distance = np.sqrt(np.add.outer(*squared).squeeze())
+        distance = np.sqrt(squared[0] + squared[1])
     else:
         distance = abs(coordinates[0] - origin[0])
     return distance
-- 
2.43.0


From df1e2e4b48040e738c9c46a80760fe0ca3ec1b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 09/64] fix: average neighbour patterns with non-integer window
 coefficients

The sums of window coefficients were truncated to integers, giving NaN or wrong
averages.
---
 src/kikuchipy/signals/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index f3b2b64..58887c7 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1027,7 +1027,7 @@ class EBSD(KikuchipySignal2D):
         # Get sum of window data for each pattern, to normalize with
         # after correlation
         window_sums = correlate(
-            input=np.ones(nav_shape, dtype=int),
+            input=np.ones(nav_shape),
             weights=averaging_window,
             mode="constant",
         )
-- 
2.43.0


From c30d3dec518f7bb1a378d17a05bd65b125cd9ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 10/64] fix: average neighbour patterns in chunked maps shorter
 than the window

The overlap depth could be larger than the map, which Dask does not allow.
---
 src/kikuchipy/signals/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 58887c7..c8749ae 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1059,7 +1059,7 @@ class EBSD(KikuchipySignal2D):
         overlap_depth = {}
         for i in range(nav_dim):
             if i < window_dim and dask_array.chunks[i][0] < dask_array.shape[i]:
-                overlap_depth[i] = (window_shape[i] // 2) + 1
+                overlap_depth[i] = min((window_shape[i] // 2) + 1, nav_shape[i])
             else:
                 overlap_depth[i] = 1
         overlap_depth.update(
-- 
2.43.0


From f61dcdd3862ad3e5ac3549ed605855a3c8b29f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 11/64] fix: return a signal from
 average_neighbour_patterns(inplace=False) always

None was returned when a window with a single coefficient was passed.
---
 src/kikuchipy/signals/ebsd.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index c8749ae..f4e47fc 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1020,7 +1020,14 @@ class EBSD(KikuchipySignal2D):
                 f"A window of shape {window_shape} was passed, no averaging is "
                 "therefore performed"
             )
-            return
+            if inplace:
+                return
+            s_out = self.deepcopy()
+            if lazy_output and not self._lazy:
+                s_out = s_out.as_lazy()
+            elif lazy_output is False and self._lazy:
+                s_out.compute(show_progressbar=show_progressbar)
+            return s_out
         elif len(nav_shape) > len(window_shape):
             averaging_window = averaging_window.reshape(window_shape + (1,))
 
-- 
2.43.0


From 40caabadac94821ec70f201eeae7aa5643a1581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 12/64] fix: average neighbour patterns with a 1D window in a
 chunked 2D map

The overlap depth was looked up in the window shape before its second dimension
was added.
---
 src/kikuchipy/signals/ebsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index f4e47fc..2ef0b0f 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1029,7 +1029,8 @@ class EBSD(KikuchipySignal2D):
                 s_out.compute(show_progressbar=show_progressbar)
             return s_out
         elif len(nav_shape) > len(window_shape):
-            averaging_window = averaging_window.reshape(window_shape + (1,))
+            window_shape += (1,)
+            averaging_window = averaging_window.reshape(window_shape)
 
         # Get sum of window data for each pattern, to normalize with
         # after correlation
-- 
2.43.0


From 4bd6b6ab0e6f9d8aaba0a273935aaa6477a44e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 13/64] fix: keep twist and the PC navigation shape in
 EBSDDetector.crop()

---
 src/kikuchipy/detectors/_ebsd_detector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/detectors/_ebsd_detector.py b/src/kikuchipy/detectors/_ebsd_detector.py
index c9d7e12..90091a0 100644
--- a/src/kikuchipy/detectors/_ebsd_detector.py
+++ b/src/kikuchipy/detectors/_ebsd_detector.py
@@ -1023,12 +1023,13 @@ class EBSDDetector:
 
         return self.__class__(
             shape=(ny_new, nx_new),
-            pc=np.dstack((pcx_new, pcy_new, pcz_new)),
+            pc=np.stack((pcx_new, pcy_new, pcz_new), axis=-1),
             tilt=self.tilt,
             sample_tilt=self.sample_tilt,
-            binning=int(self._binning),
+            binning=self._binning,
             px_size=self.px_size,
             azimuthal=self.azimuthal,
+            twist=self.twist,
         )
 
     def deepcopy(self) -> Self:
-- 
2.43.0


From 838327bbd8858ac7287e285b03847283c53fc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 14/64] fix: use exact window sums in neighbour averaging only
 where truncated sums are 0

---
 src/kikuchipy/signals/ebsd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 2ef0b0f..2c5ab42 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -1035,10 +1035,16 @@ class EBSD(KikuchipySignal2D):
         # Get sum of window data for each pattern, to normalize with
         # after correlation
         window_sums = correlate(
-            input=np.ones(nav_shape),
+            input=np.ones(nav_shape, dtype=int),
             weights=averaging_window,
             mode="constant",
         )
+        if np.any(window_sums == 0):
+            # Truncated sums of non-integer coefficients can normalize
+            # (patterns are rescaled afterwards) unless they are 0
+            window_sums = correlate(
+                input=np.ones(nav_shape), weights=averaging_window, mode="constant"
+            )
 
         # Add signal dimensions to window array to enable its use with
         # Dask's map_overlap()
-- 
2.43.0


From 70ec710512e540b6e33acd9fedffab5b8a48a9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:33 +0000
Subject: [PATCH 15/64] fix: keep crystal map, detector and background aligned
 with sliced, cropped and extracted patterns

- EBSD.crop() accepts calibrated (float) start and end, as documented
- negative indices, steps and reversed slices in inav, isig and crop()
- a crystal map which cannot be sliced is set to None, as logged
- extract_grid() returns the asked grid shape and a crystal map of that shape
- deep copies of signals keep crystal maps in which not all points are in the data
- other signals sharing the detector are not changed by crop()
---
 src/kikuchipy/signals/_kikuchipy_signal.py | 12 +++-
 src/kikuchipy/signals/ebsd.py              | 71 ++++++++++----------
 src/kikuchipy/signals/util/_crystal_map.py | 77 ++++++++++++++++++++++
 src/kikuchipy/signals/util/array_tools.py  | 33 ++++------
 4 files changed, 136 insertions(+), 57 deletions(-)

diff --git a/src/kikuchipy/signals/_kikuchipy_signal.py b/src/kikuchipy/signals/_kikuchipy_signal.py
index cc2cc25..ccd6cb2 100644
--- a/src/kikuchipy/signals/_kikuchipy_signal.py
+++ b/src/kikuchipy/signals/_kikuchipy_signal.py
@@ -28,6 +28,7 @@ import warnings
 import dask.array as da
 from hyperspy.signals import Signal2D
 import numpy as np
+from orix.crystal_map import CrystalMap
 from packaging.version import Version
 from skimage.util.dtype import dtype_range
 import yaml
@@ -39,6 +40,7 @@ from kikuchipy.pattern._pattern import (
     normalize_intensity,
     rescale_intensity,
 )
+from kikuchipy.signals.util._crystal_map import _deepcopy_crystal_map
 from kikuchipy.signals.util._overwrite_hyperspy_methods import (
     insert_doc_disclaimer,
 )
@@ -492,7 +494,7 @@ class KikuchipySignal2D(Signal2D):
             attr = self.__getattribute__(name)
             if make_deepcopy:
                 try:
-                    dictionary[name] = deepcopy(attr)
+                    dictionary[name] = _deepcopy_attribute(attr)
                 except ValueError:  # pragma: no cover
                     _logger.debug(f"Could not deepcopy attribute {name}")
                     dictionary[name] = attr
@@ -539,7 +541,7 @@ class KikuchipySignal2D(Signal2D):
                     elif unmake_lazy and isinstance(value, da.Array):
                         value = value.compute()
                     if make_deepcopy:
-                        value = deepcopy(value)
+                        value = _deepcopy_attribute(value)
                     self.__setattr__("_" + name, value)
                 except ValueError:  # pragma: no cover
                     _logger.debug(f"Could not set attribute {name}")
@@ -597,6 +599,12 @@ class KikuchipySignal2D(Signal2D):
                     pass
 
 
+def _deepcopy_attribute(attr: Any) -> Any:
+    if isinstance(attr, CrystalMap):
+        return _deepcopy_crystal_map(attr)
+    return deepcopy(attr)
+
+
 class LazyKikuchipySignal2D(LazySignal2D, KikuchipySignal2D):
     """General class for lazy image signals in kikuchipy, extending
     HyperSpy's LazySignal2D class with some methods for carrying over
diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 2c5ab42..dd3f9d7 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -82,6 +82,7 @@ from kikuchipy.pattern.chunk import fft_filter as fft_filter_chunk
 from kikuchipy.signals._kikuchipy_signal import KikuchipySignal2D, LazyKikuchipySignal2D
 from kikuchipy.signals.util._crystal_map import (
     _equal_phase,
+    _extract_grid_from_crystal_map,
     _get_indexed_points_in_data_in_xmap,
     _xmap_is_compatible_with_signal,
 )
@@ -329,10 +330,7 @@ class EBSD(KikuchipySignal2D):
 
         # Crystal map
         if self.xmap is not None:
-            mask = np.zeros(nav_shape, dtype=bool)
-            mask[idx_tuple] = True
-            mask = mask.ravel()
-            xmap_new = self.xmap[mask].deepcopy()
+            xmap_new = _extract_grid_from_crystal_map(self.xmap, idx, nav_shape)
         else:
             xmap_new = None
 
@@ -2743,43 +2741,36 @@ class EBSD(KikuchipySignal2D):
         # This method is called by crop_signal(), so attributes are
         # handled correctly by that method as well
 
-        old_shape = self.data.shape
-
-        super().crop(*args, **kwargs)
-
         # Get input parameters
-        params = get_parameters(super().crop, ["start", "end"], args, kwargs)
+        params = get_parameters(super().crop, ["axis", "start", "end"], args, kwargs)
+        axis = self.axes_manager[params["axis"]]
+        idx_data = axis.index_in_array
+        size_old = axis.size
+        # Calibrated values are converted to indices
+        start, end = [axis._get_index(params[k]) for k in ["start", "end"]]
 
-        # End if not all parameters of interest could be found or if
-        # there is nothing to do
-        if params is None or all(p is None for p in params.values()):
-            return
-
-        # Determine which data axis changed
-        new_shape = self.data.shape
-        diff_data = np.array(old_shape) - np.array(new_shape)
-        if not diff_data.any():
-            return
-        idx_data = np.atleast_1d(diff_data).nonzero()[0][0]
+        super().crop(*args, **kwargs)
 
+        # End if there is nothing to do
         am = self.axes_manager
-        nav_ndim = am.navigation_dimension
+        if self.data.shape[idx_data] == size_old:
+            return
 
         # Update attributes
+        nav_ndim = am.navigation_dimension
         attrs = self._get_custom_attributes()
         if idx_data in am.signal_indices_in_array:
             # Slice static background and update detector shape...
             sig_slices = 2 * [slice(None)]
-            sig_slices[idx_data - nav_ndim] = slice(params["start"], params["end"])
+            sig_slices[idx_data - nav_ndim] = slice(start, end)
             sig_slices = tuple(sig_slices)
-            # TODO: Update PC values
             attrs = _update_custom_attributes(
                 attrs, sig_slices=sig_slices, new_sig_shape=am.signal_shape[::-1]
             )
         else:
             # ... or slice crystal map and detector PC values
             nav_slices = nav_ndim * [slice(None)]
-            nav_slices[idx_data] = slice(params["start"], params["end"])
+            nav_slices[idx_data] = slice(start, end)
             nav_slices = tuple(nav_slices)
             attrs = _update_custom_attributes(attrs, nav_slices=nav_slices)
 
@@ -3348,17 +3339,15 @@ def _update_custom_attributes(
             _logger.debug("Could not slice EBSD.static_background attribute array")
 
         # Make slices into extent (top, bottom, left, right)
-        extent = [
-            sig_slices[0].start,
-            sig_slices[0].stop,
-            sig_slices[1].start,
-            sig_slices[1].stop,
-        ]
-        for i, new in enumerate([0, new_sig_shape[0], 0, new_sig_shape[1]]):
-            if extent[i] is None:
-                extent[i] = new
-
         det = attributes["detector"]
+        extent = []
+        for sig_slice, old_size in zip(sig_slices, det.shape):
+            start, stop, step = sig_slice.indices(old_size)
+            if step != 1:
+                # Pixels are skipped or reversed: make cropping fail
+                stop = start
+            extent += [start, stop]
+
         try:
             attributes["detector"] = det.crop(extent)
         except ValueError:
@@ -3372,6 +3361,7 @@ def _update_custom_attributes(
                 sample_tilt=det.sample_tilt,
                 tilt=det.tilt,
                 azimuthal=det.azimuthal,
+                twist=det.twist,
                 px_size=det.px_size,
                 binning=det.binning,
             )
@@ -3387,9 +3377,18 @@ def _update_custom_attributes(
                     xmap._y = None
                 else:
                     xmap._x = None
-            attributes["xmap"] = xmap
+
+            # A crystal map cannot be reversed, and its shape might be
+            # another one after skipping points
+            nav_slices_iter = np.atleast_1d(np.array(nav_slices, dtype=object))
+            if any(isinstance(i, slice) and (i.step or 1) < 0 for i in nav_slices_iter):
+                raise ValueError
+            if new_nav_shape and xmap.shape != new_nav_shape:
+                raise ValueError
         except (IndexError, TypeError, ValueError):
             _logger.debug("Could not slice EBSD.xmap attribute, setting it to None")
+            xmap = None
+        attributes["xmap"] = xmap
 
         if attributes["detector"].navigation_shape != (1,):
             pc = attributes["detector"].pc[nav_slices]
@@ -3399,6 +3398,8 @@ def _update_custom_attributes(
                     "[0.5, 0.5, 0.5]"
                 )
                 pc = [0.5, 0.5, 0.5]
+            # Other signals may share this detector
+            attributes["detector"] = attributes["detector"].deepcopy()
             attributes["detector"].pc = pc
 
     return attributes
diff --git a/src/kikuchipy/signals/util/_crystal_map.py b/src/kikuchipy/signals/util/_crystal_map.py
index b15845e..08eca56 100644
--- a/src/kikuchipy/signals/util/_crystal_map.py
+++ b/src/kikuchipy/signals/util/_crystal_map.py
@@ -19,6 +19,7 @@
 and an :class:`~kikuchipy.signals.EBSD` signal.
 """
 
+from copy import deepcopy
 import warnings
 
 import numpy as np
@@ -62,6 +63,82 @@ def _xmap_is_compatible_with_signal(
 
 
 # TODO: Move to orix' Phase.__eq__
+def _deepcopy_crystal_map(xmap: CrystalMap) -> CrystalMap:
+    """Return a deep copy of a crystal map.
+
+    Properties of a map in which not all points are in the data cannot
+    be deep copied directly, since property arrays of all points are
+    then set only in points in the data.
+    """
+    prop = xmap.prop
+    is_in_data = prop.is_in_data
+    prop.is_in_data = np.ones_like(is_in_data)
+    try:
+        xmap_new = deepcopy(xmap)
+    finally:
+        prop.is_in_data = is_in_data
+    return xmap_new
+
+
+def _extract_grid_from_crystal_map(
+    xmap: CrystalMap, idx: np.ndarray, nav_shape: tuple[int, ...]
+) -> CrystalMap | None:
+    """Return a new crystal map of points in a regular grid.
+
+    Parameters
+    ----------
+    xmap
+        Crystal map of shape *nav_shape*.
+    idx
+        Array of indices of shape (n dimensions,) + grid shape.
+    nav_shape
+        Navigation shape (n rows, n columns) or (n columns,).
+
+    Returns
+    -------
+    xmap_new
+        Crystal map of the shape of the grid, or ``None`` if this shape
+        cannot be described by coordinates.
+    """
+    # Position of all grid points among points in the data, with -1 if
+    # they are not in the data
+    n_points = int(np.prod(nav_shape))
+    if xmap.size == n_points:
+        pos = np.arange(n_points)
+    else:
+        pos = np.full(n_points, -1)
+        pos[xmap.row * nav_shape[-1] + xmap.col] = np.arange(xmap.size)
+    pos = pos.reshape(nav_shape)[tuple(idx)].ravel()
+    in_data = pos >= 0
+
+    kw = {
+        "rotations": xmap.rotations[pos],
+        "phase_id": np.where(in_data, xmap.phase_id[pos], -1),
+        "phase_list": xmap.phases.deepcopy(),
+        "prop": {name: xmap.prop[name][pos] for name in xmap.prop},
+        "scan_unit": xmap.scan_unit,
+        "is_in_data": in_data,
+    }
+
+    if len(nav_shape) == 2:
+        names = ["y", "x"]
+    else:
+        names = ["y" if xmap.x is None else "x"]
+    for relative in [False, True]:
+        # Coordinates not being a multiple of the new step size might
+        # give another shape, in which case we let them start at 0
+        for name, idx_i in zip(names, idx):
+            step = xmap._step_sizes[name]
+            if relative:
+                origin = -idx_i.min() * step
+            else:
+                origin = np.min(xmap._coordinates[name])
+            kw[name] = idx_i.ravel() * step + origin
+        xmap_new = CrystalMap(**kw)
+        if xmap_new.shape == idx.shape[1:]:
+            return xmap_new
+
+
 def _equal_phase(phase1: Phase, phase2: Phase) -> tuple[bool, str | None]:
     if phase1.name != phase2.name:
         return False, "names"
diff --git a/src/kikuchipy/signals/util/array_tools.py b/src/kikuchipy/signals/util/array_tools.py
index 6fd19b0..a4017d2 100644
--- a/src/kikuchipy/signals/util/array_tools.py
+++ b/src/kikuchipy/signals/util/array_tools.py
@@ -78,27 +78,20 @@ def grid_indices(
             "`grid_shape` and `nav_shape` must both signify either a 1D or 2D grid"
         )
 
-    # Get spacing in each dimension
-    spacing = np.ceil(np.array(nav_shape) / (np.array(grid_shape) + 1))
-    spacing = spacing.astype(int)
+    # Get spacing and indices in each dimension
+    spacing = np.zeros(ndim, dtype=int)
+    idx_1d = []
+    for i, (n_grid, n_nav) in enumerate(zip(grid_shape, nav_shape)):
+        spacing_i = int(np.ceil(n_nav / (n_grid + 1)))
+        if n_grid > 1:
+            # All indices must fit
+            spacing_i = max(min(spacing_i, (n_nav - 1) // (n_grid - 1)), 1)
+        extent = spacing_i * (n_grid - 1)
+        start = min((n_nav - extent + 1) // 2, n_nav - 1 - extent)
+        spacing[i] = spacing_i
+        idx_1d.append(start + spacing_i * np.arange(n_grid))
 
-    idx_1d_all = np.arange(np.prod(nav_shape)).reshape(nav_shape)
-    if ndim == 2:
-        idx_1d = idx_1d_all[:: spacing[0], :: spacing[1]][1:, 1:]
-    else:
-        idx_1d = idx_1d_all[:: spacing[0]][1:]
-
-    idx_2d = np.stack(np.unravel_index(idx_1d, nav_shape))
-    if ndim == 2:
-        subtract_to_center = (idx_2d[:, 0, 0] - (nav_shape - idx_2d[:, -1, -1])) // 2
-    else:
-        subtract_to_center = (idx_2d[:, 0] - (nav_shape - idx_2d[:, -1])) // 2
-
-    if ndim == 2:
-        idx_2d[0] -= subtract_to_center[0]
-        idx_2d[1] -= subtract_to_center[1]
-    else:
-        idx_2d[0] -= subtract_to_center[0]
+    idx_2d = np.stack(np.meshgrid(*idx_1d, indexing="ij"))
 
     out = idx_2d
     if return_spacing:
-- 
2.43.0


From c11b56e74b73d97376ff211f02824e725626c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:22 +0000
Subject: [PATCH 16/64] fix: crystal maps of single rows or columns can be
 sliced again

---
 src/kikuchipy/signals/ebsd.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index dd3f9d7..4494c2f 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -3373,7 +3373,18 @@ def _update_custom_attributes(
 
             # Remove singleton dimension to make a 1D crystal map
             if new_nav_shape is not None and len(new_nav_shape) < len(xmap.shape):
-                if xmap.shape[0] == 1:
+                axis = "x" if xmap.shape[0] == 1 else "y"
+                if 1 < xmap.size == int(np.prod(new_nav_shape)):
+                    # A new map can be sliced again
+                    xmap = CrystalMap(
+                        rotations=xmap.rotations,
+                        phase_id=xmap.phase_id,
+                        phase_list=xmap.phases,
+                        prop={name: xmap.prop[name] for name in xmap.prop},
+                        scan_unit=xmap.scan_unit,
+                        **{axis: getattr(xmap, axis)},
+                    )
+                elif axis == "x":
                     xmap._y = None
                 else:
                     xmap._x = None
-- 
2.43.0


From 491824717548f1bb66b7531cb1ff6933a3996528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:23 +0000
Subject: [PATCH 17/64] fix: consider all four corners in EBSDDetector.r_max

---
 src/kikuchipy/detectors/_ebsd_detector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kikuchipy/detectors/_ebsd_detector.py b/src/kikuchipy/detectors/_ebsd_detector.py
index 90091a0..8d74ead 100644
--- a/src/kikuchipy/detectors/_ebsd_detector.py
+++ b/src/kikuchipy/detectors/_ebsd_detector.py
@@ -826,9 +826,9 @@ class EBSDDetector:
         supplementary material to :cite:`britton2016tutorial`.
         """
         corners = np.zeros(self.navigation_shape + (4,))
-        corners[..., 0] = self.x_min**2 + self.y_min**2  # Upper left
-        corners[..., 1] = self.x_max**2 + self.y_min**2  # Upper right
-        corners[..., 2] = self.x_max**2 + self.y_max**2  # Lower right
+        corners[..., 0] = self.x_min**2 + self.y_max**2  # Upper left
+        corners[..., 1] = self.x_max**2 + self.y_max**2  # Upper right
+        corners[..., 2] = self.x_max**2 + self.y_min**2  # Lower right
         corners[..., 3] = self.x_min**2 + self.y_min**2  # Lower left
         return np.atleast_2d(np.sqrt(np.max(corners, axis=-1)))
 
-- 
2.43.0


From 6e6b85db64896512323fbec7ded681f054bf09d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 18/64] fix: accept a list of outliers in
 EBSDDetector.estimate_xtilt_ztilt()

---
 src/kikuchipy/detectors/_ebsd_detector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/detectors/_ebsd_detector.py b/src/kikuchipy/detectors/_ebsd_detector.py
index 8d74ead..c8105f6 100644
--- a/src/kikuchipy/detectors/_ebsd_detector.py
+++ b/src/kikuchipy/detectors/_ebsd_detector.py
@@ -1300,8 +1300,8 @@ class EBSDDetector:
         )
 
         pc = self.pc
-        if isinstance(is_outlier, np.ndarray):
-            pc = pc[~is_outlier]
+        if is_outlier is not None:
+            pc = pc[~np.asarray(is_outlier)]
         pc = pc.reshape((-1, 3))
 
         pc_centered = pc - pc.mean(axis=0)
-- 
2.43.0


From be20d4a97cb5fcacfb26f51e8d72dbf78a3fded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:14 +0000
Subject: [PATCH 19/64] fix: sample tilt from a plane fitted to PCs of a tilted
 detector

---
 src/kikuchipy/detectors/_ebsd_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/detectors/_ebsd_detector.py b/src/kikuchipy/detectors/_ebsd_detector.py
index c8105f6..44c9eb5 100644
--- a/src/kikuchipy/detectors/_ebsd_detector.py
+++ b/src/kikuchipy/detectors/_ebsd_detector.py
@@ -1573,7 +1573,7 @@ class EBSDDetector:
             "fit_pc() assumes azimuthal and twist angles are zero when estimating"
             " sample_tilt, but"
         )
-        new_detector.sample_tilt = 90 - x_tilt_deg - new_detector.tilt
+        new_detector.sample_tilt = 90 - x_tilt_deg + new_detector.tilt
 
         if plot:
             if figure_kwargs is None:
-- 
2.43.0


From 528ce21dbeba2625365f14cb079b04fbe8fb586c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 20/64] fix: accept outliers in the navigation shape in
 EBSDDetector.extrapolate_pc()

---
 src/kikuchipy/detectors/_ebsd_detector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/detectors/_ebsd_detector.py b/src/kikuchipy/detectors/_ebsd_detector.py
index 44c9eb5..8ead101 100644
--- a/src/kikuchipy/detectors/_ebsd_detector.py
+++ b/src/kikuchipy/detectors/_ebsd_detector.py
@@ -1393,7 +1393,7 @@ class EBSDDetector:
         pc = self.pc_flattened
 
         if is_outlier is not None:
-            is_inlier = ~np.asarray(is_outlier)
+            is_inlier = ~np.asarray(is_outlier).ravel()
             pc = pc[is_inlier]
             pc_indices = pc_indices[is_inlier]
 
-- 
2.43.0


From bb97035d3fa9d54d98094c739d37f0b6512a0430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 21/64] fix: project master patterns with one projection center
 in two dimensions

A detector with navigation shape (1, 1) was treated as one with several
projection centers: all rotations but the first were projected with direction
cosines read out of bounds.
---
 src/kikuchipy/signals/ebsd_master_pattern.py  | 11 +++++++----
 src/kikuchipy/signals/util/_master_pattern.py |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/kikuchipy/signals/ebsd_master_pattern.py b/src/kikuchipy/signals/ebsd_master_pattern.py
index bdab1c3..2e99397 100644
--- a/src/kikuchipy/signals/ebsd_master_pattern.py
+++ b/src/kikuchipy/signals/ebsd_master_pattern.py
@@ -189,7 +189,10 @@ class EBSDMasterPattern(KikuchiMasterPattern):
         """
         self._is_suitable_for_projection(raise_if_not=True)
 
-        if rotations.shape != detector.navigation_shape and len(detector.pc) > 1:
+        if (
+            rotations.shape != detector.navigation_shape
+            and detector.navigation_size > 1
+        ):
             raise ValueError(
                 "`detector.navigation_shape` must be equal to `rotations.shape`, or the"
                 " detector must have exactly one projection center"
@@ -232,8 +235,8 @@ class EBSDMasterPattern(KikuchiMasterPattern):
 
         # Get direction cosines for each detector pixel relative to the
         # source point
-        nav_shape_det = detector.navigation_shape
-        if nav_shape_det == (1,):
+        has_single_pc = detector.navigation_size == 1
+        if has_single_pc:
             # Single set of direction cosines as NumPy array
             dc = _get_direction_cosines_from_detector(detector)
         else:
@@ -264,7 +267,7 @@ class EBSDMasterPattern(KikuchiMasterPattern):
             dtype=dtype_out,
         )
 
-        if nav_shape_det == (1,):
+        if has_single_pc:
             simulated = da.map_blocks(
                 _project_patterns_from_master_pattern_with_fixed_pc,
                 rot,
diff --git a/src/kikuchipy/signals/util/_master_pattern.py b/src/kikuchipy/signals/util/_master_pattern.py
index 7621aa5..c176cdf 100644
--- a/src/kikuchipy/signals/util/_master_pattern.py
+++ b/src/kikuchipy/signals/util/_master_pattern.py
@@ -99,7 +99,7 @@ def _get_direction_cosines_from_detector(
     dc
         Flattened direction cosines.
     """
-    if detector.navigation_shape == (1,):
+    if detector.navigation_size == 1:
         pcz = np.float64(detector.pcz.squeeze())
         gnomonic_bounds = detector.gnomonic_bounds.squeeze().astype(np.float64)
         func = _get_direction_cosines_for_fixed_pc
-- 
2.43.0


From df07cfc619239ce583b7bb2b0fb96d67cb129d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 22/64] fix: crystal map shape of patterns projected with
 two-dimensional rotations

CrystalMap() understands columns as multiple rotations per point, so only the
rotations in the first column ended up in the map.
---
 src/kikuchipy/signals/ebsd_master_pattern.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/signals/ebsd_master_pattern.py b/src/kikuchipy/signals/ebsd_master_pattern.py
index 2e99397..b21175e 100644
--- a/src/kikuchipy/signals/ebsd_master_pattern.py
+++ b/src/kikuchipy/signals/ebsd_master_pattern.py
@@ -286,9 +286,18 @@ class EBSDMasterPattern(KikuchiMasterPattern):
             )
         simulated = simulated.reshape(nav_shape + sig_shape)
 
-        # Add crystal map and detector to keyword arguments
+        # Add crystal map and detector to keyword arguments. Two
+        # dimensional rotations must be flattened, since columns are
+        # otherwise understood as multiple rotations per map point.
+        kwargs_xmap = {}
+        if nav_dim == 2:
+            kwargs_xmap["y"], kwargs_xmap["x"] = np.indices(nav_shape).reshape(2, -1)
         kwargs_new = dict(
-            xmap=CrystalMap(phase_list=PhaseList(self.phase), rotations=rotations),
+            xmap=CrystalMap(
+                phase_list=PhaseList(self.phase),
+                rotations=rotations.reshape(nav_size),
+                **kwargs_xmap,
+            ),
             detector=detector,
         )
 
-- 
2.43.0


From 4eb01e54768f0394e85eef2f5861543a6a6ea447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 23/64] fix: data race when adding reflectors to a kinematical
 master pattern

Reflectors were added in parallel to the same pixels, so that contributions
could be lost when two threads updated a pixel at the same time.
---
 src/kikuchipy/simulations/kikuchi_pattern_simulator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/simulations/kikuchi_pattern_simulator.py b/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
index eaea42d..6a75f42 100644
--- a/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
+++ b/src/kikuchipy/simulations/kikuchi_pattern_simulator.py
@@ -688,8 +688,10 @@ def get_pattern(intensity, xyz_hemi, xyz_reflector, theta_reflector):
     n = xyz_hemi.shape[0]
     m = xyz_reflector.shape[0]
     pattern = np.zeros(n, dtype=np.float64)
-    for i in nb.prange(m):
-        for j in range(n):
+    # Loop over pixels in parallel, so that no two threads update the same
+    # pixel
+    for j in nb.prange(n):
+        for i in range(m):
             D = vec_dot(xyz_reflector[i], xyz_hemi[j])
             if np.abs(D) <= 1e-7:
                 pattern[j] = pattern[j] + 0.5 * intensity[i]
-- 
2.43.0


From 6306b7afd028a32e2405d75654d602e863c0eb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 24/64] fix: rotate the single hemisphere of a centrosymmetric
 master pattern to get the other

Inversion symmetry gives I(x, y, -z) = I(-x, -y, z), not I(x, y, z): the latter
also needs a mirror plane normal to z, which -1, 2/m, -3 and -3m lack.
---
 src/kikuchipy/signals/_kikuchi_master_pattern.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/kikuchipy/signals/_kikuchi_master_pattern.py b/src/kikuchipy/signals/_kikuchi_master_pattern.py
index 77827ee..12dc6ec 100644
--- a/src/kikuchipy/signals/_kikuchi_master_pattern.py
+++ b/src/kikuchipy/signals/_kikuchi_master_pattern.py
@@ -342,6 +342,13 @@ class KikuchiMasterPattern(KikuchipySignal2D, hs.signals.Signal2D):
             master_upper, master_lower = master_patterns
         else:
             master_upper = master_lower = master_patterns
+            # A single hemisphere is only used like this when the point
+            # group contains inversion, I(x, y, z) = I(-x, -y, -z), so
+            # the other is the given one rotated 180 degrees
+            if self.hemisphere == "upper":
+                master_lower = master_patterns[::-1, ::-1].copy()
+            elif self.hemisphere == "lower":
+                master_upper = master_patterns[::-1, ::-1].copy()
         return master_upper, master_lower
 
     # --- Inherited methods from KikuchipySignal2D overwritten
-- 
2.43.0


From eb0468a81335ae7158887b3cf0f9dabe326a5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:42 +0000
Subject: [PATCH 25/64] fix: project patterns with varying projection centers
 in more than one chunk

Rotations (n, 4) were aligned with the last axes of the direction cosines
(n, n pixels, 3), so that more than one navigation chunk raised an error.
---
 src/kikuchipy/signals/ebsd_master_pattern.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/signals/ebsd_master_pattern.py b/src/kikuchipy/signals/ebsd_master_pattern.py
index b21175e..ff8a0a1 100644
--- a/src/kikuchipy/signals/ebsd_master_pattern.py
+++ b/src/kikuchipy/signals/ebsd_master_pattern.py
@@ -277,11 +277,17 @@ class EBSDMasterPattern(KikuchiMasterPattern):
                 **kwargs_da,
             )
         else:
-            simulated = da.map_blocks(
+            # Name axes, since the navigation axes of the two arrays are
+            # not aligned when their number of axes differ
+            kwargs_da.pop("chunks")
+            simulated = da.blockwise(
                 _project_patterns_from_master_pattern_with_varying_pc,
+                "ij",
                 rot,
+                "ik",
                 dc,
-                drop_axis=2,
+                "ijl",
+                concatenate=True,
                 **kwargs_da,
             )
         simulated = simulated.reshape(nav_shape + sig_shape)
-- 
2.43.0


From 8f99f8c3eeb74fc8cde87ef892bb66262a077fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 26/64] fix: dictionary indexing with a metric where lower is
 better or with scores outside [-1, 1]

---
 src/kikuchipy/indexing/_dictionary_indexing.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/kikuchipy/indexing/_dictionary_indexing.py b/src/kikuchipy/indexing/_dictionary_indexing.py
index 626d7e2..939e64c 100644
--- a/src/kikuchipy/indexing/_dictionary_indexing.py
+++ b/src/kikuchipy/indexing/_dictionary_indexing.py
@@ -94,14 +94,14 @@ def _dictionary_indexing(
     else:
         negative_sign = -metric.sign
 
-        simulation_indices = np.zeros((n_experimental, keep_n), dtype=np.int32)
-        scores = np.full((n_experimental, keep_n), negative_sign, dtype=metric.dtype)
+        simulation_indices = np.zeros((n_experimental, 0), dtype=np.int32)
+        scores = np.zeros((n_experimental, 0), dtype=metric.dtype)
 
         dictionary_is_lazy = isinstance(dictionary, da.Array)
 
         chunk_starts = np.cumsum([0] + [n_per_iteration] * (n_iterations - 1))
         chunk_ends = np.cumsum([n_per_iteration] * n_iterations)
-        chunk_ends[-1] = max(chunk_ends[-1], dictionary_size)
+        chunk_ends[-1] = min(chunk_ends[-1], dictionary_size)
         for start, end in tqdm(zip(chunk_starts, chunk_ends), total=n_iterations):
             dictionary_chunk = dictionary[start:end]
             if dictionary_is_lazy:
@@ -154,8 +154,8 @@ def _dictionary_indexing(
         simulation_indices_all[nav_mask] = simulation_indices
         if keep_n == 1:
             rot = rot.flatten()
-            scores_all = scores_all.squeeze()
-            simulation_indices_all = simulation_indices_all.squeeze()
+            scores_all = scores_all[:, 0]
+            simulation_indices_all = simulation_indices_all[:, 0]
         xmap_kw["rotations"] = rot
         xmap_kw["prop"] = {
             "scores": scores_all,
@@ -194,8 +194,9 @@ def _match_chunk(
 
     similarities = metric.match(experimental, simulated)
 
-    simulation_indices = similarities.argtopk(keep_n, axis=-1)
-    scores = similarities.topk(keep_n, axis=-1)
+    # A negative number returns the lowest, sorted in ascending order
+    simulation_indices = similarities.argtopk(metric.sign * keep_n, axis=-1)
+    scores = similarities.topk(metric.sign * keep_n, axis=-1)
     out_shape = (-1, keep_n)
     simulation_indices = simulation_indices.reshape(out_shape)
     scores = scores.reshape(out_shape)
-- 
2.43.0


From ba438e648b397358afb9238aae4377fd2cc54fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 27/64] fix: merging of crystal maps with different steps,
 phases or points in the data

---
 src/kikuchipy/indexing/_merge_crystal_maps.py | 69 +++++++++++++------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/src/kikuchipy/indexing/_merge_crystal_maps.py b/src/kikuchipy/indexing/_merge_crystal_maps.py
index ce0f03a..1c1479e 100644
--- a/src/kikuchipy/indexing/_merge_crystal_maps.py
+++ b/src/kikuchipy/indexing/_merge_crystal_maps.py
@@ -98,9 +98,16 @@ def merge_crystal_maps(
     if navigation_masks is None:
         all_is_in_data = [xmap.is_in_data.all() for xmap in crystal_maps]
         if not all(all_is_in_data):
+            all_slices = [xmap._data_slices_from_coordinates() for xmap in crystal_maps]
+            if len({xmap._original_shape for xmap in crystal_maps}) == 1:
+                # Same extent for all so that maps stay aligned
+                slices = tuple(
+                    slice(min(i.start for i in axis), max(i.stop for i in axis))
+                    for axis in zip(*all_slices)
+                )
+                all_slices = [slices] * n_maps
             navigation_masks = []
-            for xmap in crystal_maps:
-                slice_i = xmap._data_slices_from_coordinates()
+            for xmap, slice_i in zip(crystal_maps, all_slices):
                 is_in_data2d_i = xmap.is_in_data.reshape(xmap._original_shape)[slice_i]
                 navigation_masks.append(~is_in_data2d_i)
 
@@ -191,6 +198,18 @@ def merge_crystal_maps(
         comb_shape += (n_scores_per_point,)
     comb_shape += (n_maps,)
 
+    # Rotations, scores and simulation indices in each map of shape (M, N)
+    # or (M,) if only one score is available, which may be stored as
+    # (M, 1)
+    def get_rotations(xmap: CrystalMap) -> np.ndarray:
+        return xmap.rotations.data.reshape((xmap.size,) + comb_shape[1:-1] + (4,))
+
+    def get_prop(xmap: CrystalMap, name: str) -> np.ndarray:
+        values = xmap.prop[name]
+        if n_scores_per_point == 1:
+            values = values.reshape(xmap.size)
+        return values
+
     # Combined (unsorted) scores array of shape (M, N, K) or (M, K)
     scores_dtype = crystal_maps[0].prop[scores_prop].dtype
     combined_scores = np.full(
@@ -198,20 +217,24 @@ def merge_crystal_maps(
     )
     for i, (mask, xmap) in enumerate(zip(navigation_masks1d, crystal_maps)):
         if mask is not None:
-            combined_scores[mask, ..., i] = xmap.prop[scores_prop]
+            combined_scores[mask, ..., i] = get_prop(xmap, scores_prop)
         else:
-            combined_scores[..., i] = xmap.prop[scores_prop]
+            combined_scores[..., i] = get_prop(xmap, scores_prop)
 
     # Best score in each map point
     if n_scores_per_point > 1:  # (M, N, K) -> (M, K)
-        best_scores = combined_scores[:, :mean_n_best].squeeze()
-        if len(best_scores.shape) > 2:
+        best_scores = combined_scores[:, :mean_n_best]
+        if best_scores.shape[1] > 1:
             best_scores = np.nanmean(best_scores, axis=1)
+        else:
+            best_scores = best_scores[:, 0]
     else:  # (M, K)
         best_scores = combined_scores
 
-    # Phase of best score in each map point
-    phase_id = np.nanargmax(sign * best_scores, axis=1)
+    # Map of best score in each map point and the phase ID to fill in
+    # for that map
+    best_map = np.nanargmax(sign * best_scores, axis=1)
+    phase_id = np.zeros(map_size, dtype=int)
 
     # Set the phase ID of points marked as not-indexed in all maps to -1
     not_indexed = np.zeros((n_maps, map_size), dtype=bool)
@@ -223,6 +246,7 @@ def merge_crystal_maps(
         else:
             not_indexed[i, xmap.phase_id == -1] = True
     not_indexed = np.logical_and.reduce(not_indexed)
+    best_map[not_indexed] = -1
     phase_id[not_indexed] = -1
 
     # Get the new crystal map's rotations, scores and indices,
@@ -237,7 +261,7 @@ def merge_crystal_maps(
     if -1 in phase_id:
         phase_list.add_not_indexed()
     for i, (nav_mask1d, xmap) in enumerate(zip(navigation_masks1d, crystal_maps)):
-        phase_mask = phase_id == i
+        phase_mask = best_map == i
 
         if phase_mask.any():
             phase_ids = xmap.phases_in_data.ids
@@ -248,9 +272,7 @@ def merge_crystal_maps(
                 # If they are equal, do not duplicate it in the phase
                 # list but update the phase ID
                 equal_phases, different = _equal_phase(phase, phase_list[phase.name])
-                if equal_phases:
-                    phase_id[phase_mask] = phase_list.id_from_name(phase.name)
-                else:
+                if not equal_phases:
                     name = phase.name
                     phase.name = name + str(i)
                     warnings.warn(
@@ -261,26 +283,29 @@ def merge_crystal_maps(
                     phase_list.add(phase)
             else:
                 phase_list.add(phase)
+            phase_id[phase_mask] = phase_list.id_from_name(phase.name)
         else:
             continue
 
         if nav_mask1d is not None:
             phase_mask2 = phase_mask[nav_mask1d]
-            new_rotations[phase_mask] = xmap.rotations[phase_mask2].data
-            new_scores[phase_mask] = xmap.prop[scores_prop][phase_mask2]
+            new_rotations[phase_mask] = get_rotations(xmap)[phase_mask2]
+            new_scores[phase_mask] = get_prop(xmap, scores_prop)[phase_mask2]
         else:
             # Old behavior
-            new_rotations[phase_mask] = xmap.rotations[phase_mask].data
-            new_scores[phase_mask] = xmap.prop[scores_prop][phase_mask]
+            new_rotations[phase_mask] = get_rotations(xmap)[phase_mask]
+            new_scores[phase_mask] = get_prop(xmap, scores_prop)[phase_mask]
 
         if simulation_indices_prop is not None:
             if nav_mask1d is not None:
-                new_indices[phase_mask] = xmap.prop[simulation_indices_prop][
+                new_indices[phase_mask] = get_prop(xmap, simulation_indices_prop)[
                     phase_mask2
                 ]
             else:
                 # Old behavior
-                new_indices[phase_mask] = xmap.prop[simulation_indices_prop][phase_mask]
+                new_indices[phase_mask] = get_prop(xmap, simulation_indices_prop)[
+                    phase_mask
+                ]
 
     # To get the combined, best, sorted scores and simulation indices
     # from all maps (phases), we collapse the second and (potentially)
@@ -306,9 +331,9 @@ def merge_crystal_maps(
         for i, (nav_mask1d, xmap) in enumerate(zip(navigation_masks1d, crystal_maps)):
             if nav_mask1d is not None:
                 sim_idx_i = np.full(comb_shape[:-1], np.nan)
-                sim_idx_i[nav_mask1d] = xmap.prop[simulation_indices_prop]
+                sim_idx_i[nav_mask1d] = get_prop(xmap, simulation_indices_prop)
             else:
-                sim_idx_i = xmap.prop[simulation_indices_prop]
+                sim_idx_i = get_prop(xmap, simulation_indices_prop)
             comb_sim_idx_list.append(sim_idx_i)
 
         comb_sim_idx = np.dstack(comb_sim_idx_list)
@@ -339,9 +364,9 @@ def merge_crystal_maps(
         props[simulation_indices_prop] = new_indices
         props[f"merged_{simulation_indices_prop}"] = merged_simulated_indices
 
-    step_sizes = (crystal_maps[0].dx, crystal_maps[0].dy)
+    step_sizes = (crystal_maps[0].dy, crystal_maps[0].dx)
     coords, _ = create_coordinate_arrays(
-        map_shape, step_sizes=step_sizes[: len(map_shape)]
+        map_shape, step_sizes=step_sizes[-len(map_shape) :]
     )
 
     return CrystalMap(
-- 
2.43.0


From a16b72eeb4161a79183f0b3beccfa8a96759e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 28/64] fix: refinement in threads sharing bounds and arguments
 between patterns

---
 .../indexing/_refinement/_solvers.py          | 37 ++++++++++++++++---
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/kikuchipy/indexing/_refinement/_solvers.py b/src/kikuchipy/indexing/_refinement/_solvers.py
index 0899b25..5539ca7 100644
--- a/src/kikuchipy/indexing/_refinement/_solvers.py
+++ b/src/kikuchipy/indexing/_refinement/_solvers.py
@@ -177,6 +177,10 @@ def _refine_orientation_solver_scipy(
     params = (pattern,) + (direction_cosines,) + fixed_parameters + (squared_norm,)
     method_name = method.__name__
 
+    # These are shared with other patterns, potentially being refined in
+    # other threads
+    method_kwargs = method_kwargs.copy()
+
     if n_pseudo_symmetry_ops == 0:
         if method_name == "minimize":
             if trust_region_passed:
@@ -195,7 +199,10 @@ def _refine_orientation_solver_scipy(
                 **method_kwargs,
             )
         else:  # Is always "basinhopping", due to prior check of method name
-            method_kwargs["minimizer_kwargs"].update(args=params)
+            method_kwargs["minimizer_kwargs"] = {
+                **method_kwargs["minimizer_kwargs"],
+                "args": params,
+            }
             res = method(
                 func=_refine_orientation_objective_function,
                 x0=rotation[0],
@@ -227,7 +234,10 @@ def _refine_orientation_solver_scipy(
                     **method_kwargs,
                 )
             else:  # Is always "basinhopping", due to prior check of method name
-                method_kwargs["minimizer_kwargs"].update(args=params)
+                method_kwargs["minimizer_kwargs"] = {
+                    **method_kwargs["minimizer_kwargs"],
+                    "args": params,
+                }
                 res = method(
                     func=_refine_orientation_objective_function,
                     x0=rotation[i],
@@ -299,6 +309,10 @@ def _refine_pc_solver_scipy(
     params = (pattern,) + (rotation,) + fixed_parameters + (squared_norm,)
     method_name = method.__name__
 
+    # These are shared with other patterns, potentially being refined in
+    # other threads
+    method_kwargs = method_kwargs.copy()
+
     if method_name == "minimize":
         if trust_region_passed:
             method_kwargs["bounds"] = bounds
@@ -316,7 +330,10 @@ def _refine_pc_solver_scipy(
             **method_kwargs,
         )
     else:  # Is always "basinhopping", due to prior check of method name
-        method_kwargs["minimizer_kwargs"].update(args=params)
+        method_kwargs["minimizer_kwargs"] = {
+            **method_kwargs["minimizer_kwargs"],
+            "args": params,
+        }
         res = method(
             func=_refine_pc_objective_function,
             x0=pc,
@@ -388,6 +405,10 @@ def _refine_orientation_pc_solver_scipy(
     params = (pattern,) + fixed_parameters + (squared_norm,)
     method_name = method.__name__
 
+    # These are shared with other patterns, potentially being refined in
+    # other threads
+    method_kwargs = method_kwargs.copy()
+
     if n_pseudo_symmetry_ops == 0:
         if method_name == "minimize":
             if trust_region_passed:
@@ -406,7 +427,10 @@ def _refine_orientation_pc_solver_scipy(
                 **method_kwargs,
             )
         else:  # Is always "basinhopping", due to prior check of method name
-            method_kwargs["minimizer_kwargs"].update(args=params)
+            method_kwargs["minimizer_kwargs"] = {
+                **method_kwargs["minimizer_kwargs"],
+                "args": params,
+            }
             res = method(
                 func=_refine_orientation_pc_objective_function,
                 x0=rot_pc[0],
@@ -438,7 +462,10 @@ def _refine_orientation_pc_solver_scipy(
                     **method_kwargs,
                 )
             else:  # Is always "basinhopping", due to prior check of method name
-                method_kwargs["minimizer_kwargs"].update(args=params)
+                method_kwargs["minimizer_kwargs"] = {
+                    **method_kwargs["minimizer_kwargs"],
+                    "args": params,
+                }
                 res = method(
                     func=_refine_orientation_pc_objective_function,
                     x0=rot_pc[i],
-- 
2.43.0


From 68e930afb237444db8fdac47efe4e0ecf49f791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 29/64] fix: dictionary indexing leaving masks in the metric
 passed

---
 src/kikuchipy/signals/ebsd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index 4494c2f..ba007d7 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -3078,6 +3078,8 @@ class EBSD(KikuchipySignal2D):
                 "kikuchipy.indexing.SimilarityMetric"
             )
 
+        # Leave the passed metric as is so that it can be used again
+        metric = copy.copy(metric)
         metric.n_experimental_patterns = max(self.axes_manager.navigation_size, 1)
         metric.n_dictionary_patterns = max(n_dictionary_patterns, 1)
 
-- 
2.43.0


From be5dbcd9fc37050bb5d7255dd06b9f3d6845582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 30/64] fix: delayed refinement with NLopt using arguments of
 later refinements

---
 src/kikuchipy/indexing/_refinement/_refinement.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/kikuchipy/indexing/_refinement/_refinement.py b/src/kikuchipy/indexing/_refinement/_refinement.py
index 3f9ac0f..390757a 100644
--- a/src/kikuchipy/indexing/_refinement/_refinement.py
+++ b/src/kikuchipy/indexing/_refinement/_refinement.py
@@ -915,8 +915,8 @@ class _RefinementSetup:
     fixed_parameters: tuple
     # Arguments to pass to Dask and to solver functions
     chunk_func: Callable
-    map_blocks_kwargs: dict = {}
-    solver_kwargs: dict = {}
+    map_blocks_kwargs: dict
+    solver_kwargs: dict
 
     def __init__(
         self,
@@ -937,6 +937,8 @@ class _RefinementSetup:
     ):
         """Set up EBSD refinement."""
         self.mode = mode
+        self.map_blocks_kwargs = {}
+        self.solver_kwargs = {}
 
         self.set_optimization_parameters(
             rtol=rtol,
@@ -1017,10 +1019,6 @@ class _RefinementSetup:
             {"drop_axis": drop_axis, "new_axis": (1,), "dtype": np.float64}
         )
 
-        # Have no idea how this can happen, but it does in tests...
-        if self.package == "scipy" and "opt" in self.map_blocks_kwargs:
-            del self.map_blocks_kwargs["opt"]
-
         chunk_funcs = {
             "ori": {
                 "nlopt": _refine_orientation_chunk_nlopt,
-- 
2.43.0


From b9c762e8bb4dca0bfb495c22a6af3da09c5c8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 31/64] fix: refinement scaling hemispheres of integer master
 patterns differently

---
 src/kikuchipy/indexing/_refinement/_refinement.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/indexing/_refinement/_refinement.py b/src/kikuchipy/indexing/_refinement/_refinement.py
index 390757a..55328fa 100644
--- a/src/kikuchipy/indexing/_refinement/_refinement.py
+++ b/src/kikuchipy/indexing/_refinement/_refinement.py
@@ -1313,6 +1313,9 @@ def _get_master_pattern_data(
     scale = (npx - 1) / 2
     dtype_desired = np.float32
     if mpu.dtype != dtype_desired:
-        mpu = rescale_intensity(mpu, dtype_out=dtype_desired)
-        mpl = rescale_intensity(mpl, dtype_out=dtype_desired)
+        # Use the same intensity range to keep the relative intensities
+        # between hemispheres
+        in_range = (min(mpu.min(), mpl.min()), max(mpu.max(), mpl.max()))
+        mpu = rescale_intensity(mpu, in_range=in_range, dtype_out=dtype_desired)
+        mpl = rescale_intensity(mpl, in_range=in_range, dtype_out=dtype_desired)
     return mpu, mpl, npx, npy, scale
-- 
2.43.0


From 2ba2551bae2b4925a7472e900dfa33143cfba3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 32/64] fix: refinement changing arguments passed by the user

---
 src/kikuchipy/indexing/_refinement/_refinement.py | 4 +++-
 src/kikuchipy/signals/ebsd.py                     | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/indexing/_refinement/_refinement.py b/src/kikuchipy/indexing/_refinement/_refinement.py
index 55328fa..7290694 100644
--- a/src/kikuchipy/indexing/_refinement/_refinement.py
+++ b/src/kikuchipy/indexing/_refinement/_refinement.py
@@ -1121,6 +1121,8 @@ class _RefinementSetup:
         else:
             if method_kwargs is None:
                 method_kwargs = {}
+            else:
+                method_kwargs = method_kwargs.copy()
 
             if method == "minimize" and "method" not in method_kwargs:
                 self.method_name = "Nelder-Mead"
@@ -1217,7 +1219,7 @@ class _RefinementSetup:
         pc_lower = 3 * [-2]
         pc_upper = 3 * [2]
 
-        trust_region = np.asarray(trust_region)
+        trust_region = np.array(trust_region, dtype=np.float64)
 
         if self.mode == "ori":
             trust_region = np.deg2rad(trust_region)
diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index ba007d7..acfe71e 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -3034,6 +3034,8 @@ class EBSD(KikuchipySignal2D):
         else:
             if chunk_kwargs is None:
                 chunk_kwargs = {}
+            else:
+                chunk_kwargs = chunk_kwargs.copy()
             if "chunk_shape" not in chunk_kwargs:
                 chunk_shape = patterns.chunksize[0]
                 if chunk_shape == patterns.shape[0]:
-- 
2.43.0


From 3efeed0a4cdeacd6a50e7ca2c7722505d9a81a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 33/64] fix: merging of crystal maps of different extents is
 rejected

---
 src/kikuchipy/indexing/_merge_crystal_maps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/indexing/_merge_crystal_maps.py b/src/kikuchipy/indexing/_merge_crystal_maps.py
index 1c1479e..e8d42a2 100644
--- a/src/kikuchipy/indexing/_merge_crystal_maps.py
+++ b/src/kikuchipy/indexing/_merge_crystal_maps.py
@@ -99,7 +99,8 @@ def merge_crystal_maps(
         all_is_in_data = [xmap.is_in_data.all() for xmap in crystal_maps]
         if not all(all_is_in_data):
             all_slices = [xmap._data_slices_from_coordinates() for xmap in crystal_maps]
-            if len({xmap._original_shape for xmap in crystal_maps}) == 1:
+            all_shapes = {(xmap.shape, xmap._original_shape) for xmap in crystal_maps}
+            if len(all_shapes) == 1:
                 # Same extent for all so that maps stay aligned
                 slices = tuple(
                     slice(min(i.start for i in axis), max(i.stop for i in axis))
-- 
2.43.0


From b96dd5860c813691146202dd41aaa513303b46bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 34/64] fix: dictionary indexing keeping all matches of a
 chunked dictionary

---
 src/kikuchipy/indexing/_dictionary_indexing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/kikuchipy/indexing/_dictionary_indexing.py b/src/kikuchipy/indexing/_dictionary_indexing.py
index 939e64c..e0e8d2f 100644
--- a/src/kikuchipy/indexing/_dictionary_indexing.py
+++ b/src/kikuchipy/indexing/_dictionary_indexing.py
@@ -194,6 +194,10 @@ def _match_chunk(
 
     similarities = metric.match(experimental, simulated)
 
+    if keep_n >= similarities.shape[-1] and isinstance(similarities, da.Array):
+        # Dask cannot return all indices from more than one chunk
+        similarities = similarities.rechunk({-1: -1})
+
     # A negative number returns the lowest, sorted in ascending order
     simulation_indices = similarities.argtopk(metric.sign * keep_n, axis=-1)
     scores = similarities.topk(metric.sign * keep_n, axis=-1)
-- 
2.43.0


From 65d1680484d171a9cd7fa6cd0ff5ff45633e99da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:52 +0000
Subject: [PATCH 35/64] fix: strings with non-ASCII characters written to and
 read from h5ebsd files

---
 src/kikuchipy/io/plugins/_h5ebsd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/io/plugins/_h5ebsd.py b/src/kikuchipy/io/plugins/_h5ebsd.py
index e6a796e..6c5d60a 100644
--- a/src/kikuchipy/io/plugins/_h5ebsd.py
+++ b/src/kikuchipy/io/plugins/_h5ebsd.py
@@ -70,7 +70,10 @@ def _hdf5group2dict(
                 val = val[0]
                 key = key.lstrip()  # EDAX has some leading whitespaces
             if isinstance(val, bytes):
-                val = val.decode("latin-1")
+                try:
+                    val = val.decode("utf-8")
+                except UnicodeDecodeError:
+                    val = val.decode("latin-1")
         # Check whether to extract subgroup or write value to dictionary
         if isinstance(val, h5py.Group) and recursive:
             dictionary[key] = {}
@@ -107,8 +110,8 @@ def _dict2hdf5group(dictionary: dict, group: h5py.Group, **kwargs) -> None:
             _dict2hdf5group(val, group.create_group(key), **kwargs)
             continue  # Jump to next item in dictionary
         elif isinstance(val, str):
-            ddtype = "S" + str(len(val) + 1)
             val = val.encode()
+            ddtype = "S" + str(len(val) + 1)
         elif ddtype == np.dtype("O"):
             try:
                 if isinstance(val, (np.ndarray, da.Array)):
-- 
2.43.0


From 6fcd98bdee41e40de8fdddea7d3113a812024e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 36/64] fix: possible deadlock when saving a lazy static
 background to an h5ebsd file

---
 src/kikuchipy/io/plugins/_h5ebsd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/_h5ebsd.py b/src/kikuchipy/io/plugins/_h5ebsd.py
index 6c5d60a..cbacd3c 100644
--- a/src/kikuchipy/io/plugins/_h5ebsd.py
+++ b/src/kikuchipy/io/plugins/_h5ebsd.py
@@ -104,6 +104,10 @@ def _dict2hdf5group(dictionary: dict, group: h5py.Group, **kwargs) -> None:
         Keyword arguments passed to :meth:`h5py:Group.require_dataset`.
     """
     for key, val in dictionary.items():
+        if isinstance(val, da.Array):
+            # Threads computing the array may deadlock with this thread
+            # if it holds the lock of h5py while waiting for them
+            val = val.compute()
         ddtype = type(val)
         dshape = (1,)
         if isinstance(val, dict):
@@ -114,7 +118,7 @@ def _dict2hdf5group(dictionary: dict, group: h5py.Group, **kwargs) -> None:
             ddtype = "S" + str(len(val) + 1)
         elif ddtype == np.dtype("O"):
             try:
-                if isinstance(val, (np.ndarray, da.Array)):
+                if isinstance(val, np.ndarray):
                     ddtype = val.dtype
                 else:
                     ddtype = val[0].dtype
-- 
2.43.0


From 9a5aa67dceb8d23e2121e05e957457dbee12cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 37/64] fix: origin of signals after the first read from a file

---
 src/kikuchipy/io/_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/io/_io.py b/src/kikuchipy/io/_io.py
index 3aca21f..f13088e 100644
--- a/src/kikuchipy/io/_io.py
+++ b/src/kikuchipy/io/_io.py
@@ -129,10 +129,10 @@ def load(
     file_reader = importlib.import_module(reader["api"]).file_reader
     signal_dicts = file_reader(filename, lazy=lazy, **kwargs)
     out = []
+    directory, filename = os.path.split(os.path.abspath(filename))
+    filename, extension = os.path.splitext(filename)
     for signal in signal_dicts:
         out.append(_dict2signal(signal, lazy=lazy))
-        directory, filename = os.path.split(os.path.abspath(filename))
-        filename, extension = os.path.splitext(filename)
         out[-1].tmp_parameters.folder = directory
         out[-1].tmp_parameters.filename = filename
         out[-1].tmp_parameters.extension = extension.replace(".", "")
-- 
2.43.0


From 2483a9c7f546c6a402533955575b85a28e309ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 38/64] fix: no static background read from kikuchipy h5ebsd
 files without one

---
 src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py b/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py
index c8042d2..ac1554e 100644
--- a/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py
+++ b/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py
@@ -127,7 +127,10 @@ class KikuchipyH5EBSDReader(H5EBSDReader):
         scan_dict["xmap"] = xmap
 
         # --- Static background
-        scan_dict["static_background"] = header.get("static_background")
+        static_bg = header.get("static_background")
+        if np.ndim(static_bg) == 0:  # -1 is written when there is none
+            static_bg = None
+        scan_dict["static_background"] = static_bg
 
         # --- Detector
         pc = np.dstack(
-- 
2.43.0


From 137b518d620bcc5df163f9108d8e64a0080034cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 39/64] fix: NORDIF line scans and single patterns have the
 same axes read lazily or not

---
 src/kikuchipy/io/plugins/nordif/_api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/nordif/_api.py b/src/kikuchipy/io/plugins/nordif/_api.py
index f812e7b..f680a71 100644
--- a/src/kikuchipy/io/plugins/nordif/_api.py
+++ b/src/kikuchipy/io/plugins/nordif/_api.py
@@ -139,7 +139,7 @@ def file_reader(
         file.seek(0)
         data = np.fromfile(file, dtype="uint8", count=data_size)
         try:
-            data = data.reshape((ny, nx, sy, sx)).squeeze()
+            data = data.reshape((ny, nx, sy, sx))
         except ValueError:
             warnings.warn(
                 "Pattern size and scan size larger than file size! Will attempt to "
@@ -157,6 +157,10 @@ def file_reader(
             dtype=np.dtype("uint8"),
         )
 
+    # Only keep the scan dimensions with more than one pattern
+    is_single = [n == 1 for n in (ny, nx)]
+    keep = [not i for i in is_single] + [True, True]
+    data = data.squeeze(axis=tuple(i for i in range(2) if is_single[i]))
     scan["data"] = data
 
     units = ["um"] * 4
@@ -174,6 +178,9 @@ def file_reader(
             "set_scan_calibration()"
         )
 
+    names = [name for name, keep_i in zip(names, keep) if keep_i]
+    scales = scales[keep]
+
     # Create axis instances for each axis
     axes = [
         {
-- 
2.43.0


From 4cdcd97c80d61ee0e27aa6662694f9a228f298ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 40/64] fix: extension passed to EBSD.save() decides the file
 format

---
 src/kikuchipy/signals/ebsd.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/kikuchipy/signals/ebsd.py b/src/kikuchipy/signals/ebsd.py
index acfe71e..dadf42f 100644
--- a/src/kikuchipy/signals/ebsd.py
+++ b/src/kikuchipy/signals/ebsd.py
@@ -66,7 +66,7 @@ from kikuchipy.indexing.similarity_metrics._normalized_dot_product import (
     NormalizedDotProductMetric,
 )
 from kikuchipy.indexing.similarity_metrics._similarity_metric import SimilarityMetric
-from kikuchipy.io._io import _save
+from kikuchipy.io._io import WRITE_EXTENSIONS, _save
 from kikuchipy.pattern._pattern import (
     _downsample2d,
     _dynamic_background_frequency_space_setup,
@@ -2658,21 +2658,25 @@ class EBSD(KikuchipySignal2D):
         """
         if filename is not None:
             fname = Path(filename)
+            if extension:
+                fname = fname.with_suffix("." + extension.lstrip("."))
         else:
             tmp_params = self.tmp_parameters
             if tmp_params.has_item("filename") and tmp_params.has_item("folder"):
-                fname = Path(tmp_params.folder) / tmp_params.filename
-                extension = tmp_params.extension if not extension else extension
+                if not extension and tmp_params.has_item("extension"):
+                    extension = tmp_params.extension.lstrip(".")
+                    if extension.lower() not in WRITE_EXTENSIONS + ["hspy", "zspy"]:
+                        extension = None
+                extension = extension.lstrip(".") if extension else "h5"
+                fname = Path(tmp_params.folder) / f"{tmp_params.filename}.{extension}"
             elif self.metadata.has_item("General.original_filename"):
                 fname = Path(self.metadata.General.original_filename)
+                if extension:
+                    fname = fname.with_suffix("." + extension.lstrip("."))
             else:
                 raise ValueError("filename not given")
-        if extension is not None:
-            ext = extension
-        else:
-            ext = fname.suffix[1:]
-        if ext.lower() in ["hspy", "zspy"]:
-            super().save(filename, overwrite=overwrite, **kwargs)
+        if fname.suffix[1:].lower() in ["hspy", "zspy"]:
+            super().save(fname, overwrite=overwrite, **kwargs)
             return
         _save(fname, self, overwrite=overwrite, **kwargs)
 
-- 
2.43.0


From 3063657c4e5a8baf6d27cb752a8bd889ef02f72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 41/64] fix: save the crystal map of a single pattern

---
 src/kikuchipy/signals/util/_crystal_map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/signals/util/_crystal_map.py b/src/kikuchipy/signals/util/_crystal_map.py
index 08eca56..e618d37 100644
--- a/src/kikuchipy/signals/util/_crystal_map.py
+++ b/src/kikuchipy/signals/util/_crystal_map.py
@@ -45,8 +45,9 @@ def _xmap_is_compatible_with_signal(
         )
         xmap_scale = list(xmap._step_sizes.values())[-len(navigation_axes) :]
 
-    compatible = xmap.shape == nav_shape
-    if compatible and not np.allclose(xmap_scale, nav_scale, atol=1e-6):
+    # A single pattern has no navigation axes
+    compatible = xmap.shape == nav_shape or (nav_shape == () and xmap.size == 1)
+    if compatible and nav_shape and not np.allclose(xmap_scale, nav_scale, atol=1e-6):
         xmap_scale2 = list(map(float, xmap_scale))
         warnings.warn(
             f"Crystal map step size(s) {xmap_scale2} and signal's step size(s) "
-- 
2.43.0


From 42bbb3d24e8b1378056fa476207943655363933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 42/64] fix: NORDIF file lost when overwritten with patterns
 read lazily from it

---
 src/kikuchipy/io/plugins/nordif/_api.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/kikuchipy/io/plugins/nordif/_api.py b/src/kikuchipy/io/plugins/nordif/_api.py
index f680a71..86dc33a 100644
--- a/src/kikuchipy/io/plugins/nordif/_api.py
+++ b/src/kikuchipy/io/plugins/nordif/_api.py
@@ -24,6 +24,8 @@ import logging
 import os
 from pathlib import Path
 import re
+import shutil
+import tempfile
 from typing import TYPE_CHECKING
 import warnings
 
@@ -449,6 +451,25 @@ def file_writer(filename: str, signal: "EBSD | LazyEBSD") -> None:
     signal
         Signal instance.
     """
+    if not (signal._lazy and os.path.isfile(filename)):
+        _write_patterns(filename, signal)
+        return
+
+    # Patterns might be read from the file to overwrite, so write them to
+    # another file before replacing it
+    filename = os.path.realpath(filename)
+    fd, filename_new = tempfile.mkstemp(dir=os.path.dirname(filename))
+    os.close(fd)
+    try:
+        _write_patterns(filename_new, signal)
+        shutil.copymode(filename, filename_new)
+        os.replace(filename_new, filename)
+    except BaseException:
+        os.remove(filename_new)
+        raise
+
+
+def _write_patterns(filename: str, signal: "EBSD | LazyEBSD") -> None:
     with open(filename, "wb") as file:
         if signal._lazy:
             for pattern in signal._iterate_signal(iterpath="flyback"):
-- 
2.43.0


From b717276e426f38f7fa7d6303e945164bcbf5acc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:39 +0000
Subject: [PATCH 43/64] fix: h5ebsd file left open after a failed save

---
 src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py b/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py
index ac1554e..67a6d3d 100644
--- a/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py
+++ b/src/kikuchipy/io/plugins/kikuchipy_h5ebsd/_api.py
@@ -259,7 +259,11 @@ class KikuchipyH5EBSDWriter:
         self.scan_groups = self.get_scan_groups()
 
         if self.file_exists:
-            self.check_file()
+            try:
+                self.check_file()
+            except OSError:
+                self.file.close()
+                raise
 
     def __repr__(self) -> str:
         return f"{self.__class__.__name__}: {self.filename}"
@@ -497,4 +501,7 @@ def file_writer(
         Keyword arguments passed to :meth:`h5py.Group.require_dataset`.
     """
     writer = KikuchipyH5EBSDWriter(filename, signal, add_scan)
-    writer.write(scan_number, **kwargs)
+    try:
+        writer.write(scan_number, **kwargs)
+    finally:
+        writer.file.close()
-- 
2.43.0


From e002f15ade9ad8aa664c0e951504de5aced55565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 44/64] fix: sample tilt read from Bruker h5ebsd files

---
 src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py b/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py
index a7ab28f..60283e4 100644
--- a/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py
+++ b/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py
@@ -177,7 +177,7 @@ class BrukerH5EBSDReader(H5EBSDReader):
             shape=(sy, sx),
             px_size=px_size,
             tilt=header_dset.get("CameraTilt", 0.0),
-            sample_tilt=header_dset.get("Sample Tilt", 0.0),
+            sample_tilt=header_dset.get("SampleTilt", 0.0),
             pc=pc,
         )
 
-- 
2.43.0


From 4443dfdcb8aefe5265a53bb8d3acf46b92d968bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 45/64] fix: order of projection centers in a region of
 interest in Bruker h5ebsd files

---
 src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py b/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py
index 60283e4..6d293fe 100644
--- a/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py
+++ b/src/kikuchipy/io/plugins/bruker_h5ebsd/_api.py
@@ -172,6 +172,9 @@ class BrukerH5EBSDReader(H5EBSDReader):
             )
         )
         if pc.size > 3:
+            if indices is not None:
+                # Same order as the patterns
+                pc = pc[indices]
             pc = pc.reshape((ny, nx, 3))
         scan_dict["detector"] = EBSDDetector(
             shape=(sy, sx),
-- 
2.43.0


From 9b1a53b62997e9739176973e208497650147fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 46/64] fix: axes scales of line scans in EDAX binary files

---
 src/kikuchipy/io/plugins/edax_binary/_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/edax_binary/_api.py b/src/kikuchipy/io/plugins/edax_binary/_api.py
index a7f5f04..7e21721 100644
--- a/src/kikuchipy/io/plugins/edax_binary/_api.py
+++ b/src/kikuchipy/io/plugins/edax_binary/_api.py
@@ -205,7 +205,7 @@ class EDAXBinaryFileReader:
             data = data.rechunk(chunks)
 
         units = ["um"] * ndim
-        scales = [header["dy"], header["dx"]] + [1, 1][:nav_dim]
+        scales = [header["dy"], header["dx"]][-nav_dim:] + [1, 1]
         axes_names = ["y", "x"][-nav_dim:] + ["dy", "dx"]
         axes: list[dict] = []
         for i in range(ndim):
-- 
2.43.0


From 538e9773cf4abda52e89d23da8cc445cda8c86ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 47/64] fix: order of patterns in a directory without
 coordinates in file names

---
 src/kikuchipy/io/plugins/ebsd_directory/_api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/ebsd_directory/_api.py b/src/kikuchipy/io/plugins/ebsd_directory/_api.py
index 6b182c4..914dae9 100644
--- a/src/kikuchipy/io/plugins/ebsd_directory/_api.py
+++ b/src/kikuchipy/io/plugins/ebsd_directory/_api.py
@@ -85,7 +85,8 @@ def file_reader(
     Adapted from https://blog.dask.org/2019/06/20/load-image-data.
     """
     # Read all filenames
-    filenames = glob.glob(filename)
+    # Sorted, since files are found in arbitrary order
+    filenames = sorted(glob.glob(filename))
     n_patterns = len(filenames)
     _logger.debug(f"{n_patterns} patterns found in directory")
     ext = os.path.splitext(filename)[1]
-- 
2.43.0


From 3d7280aa9e4c31ccaa295ee4eacb8db0eafa36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:05 +0000
Subject: [PATCH 48/64] fix: axes of Lambert master patterns of several sets
 read from EMsoft files

---
 src/kikuchipy/io/plugins/_emsoft_master_pattern.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/kikuchipy/io/plugins/_emsoft_master_pattern.py b/src/kikuchipy/io/plugins/_emsoft_master_pattern.py
index 6a4d036..375bf42 100644
--- a/src/kikuchipy/io/plugins/_emsoft_master_pattern.py
+++ b/src/kikuchipy/io/plugins/_emsoft_master_pattern.py
@@ -167,10 +167,9 @@ class EMsoftMasterPatternReader(abc.ABC):
         if projection == "lambert" and diff_type != "ECP":
             if self.hemisphere == "both":
                 sum_axis = 1
-                data_shape = (data_shape[0],) + data_shape[2:]
             else:
                 sum_axis = 0
-                data_shape = data_shape[1:]
+            data_shape = (data_shape[0],) + data_shape[2:]
             data = data.sum(axis=sum_axis).astype(data.dtype)
 
         # Remove 1-dimensions
-- 
2.43.0


From e224ca3cdd8e2a6974adc0e5dadeb5b1cea2a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 49/64] fix: navigation shape of Oxford binary files with one
 column or an origin off the grid

---
 src/kikuchipy/io/plugins/oxford_binary/_api.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/kikuchipy/io/plugins/oxford_binary/_api.py b/src/kikuchipy/io/plugins/oxford_binary/_api.py
index 66ed813..6cf4df5 100644
--- a/src/kikuchipy/io/plugins/oxford_binary/_api.py
+++ b/src/kikuchipy/io/plugins/oxford_binary/_api.py
@@ -300,24 +300,26 @@ class OxfordBinaryFileReader:
             Step size between rows and columns.
         """
         pattern_starts = self.pattern_starts[self.pattern_is_present]
+        if pattern_starts.size == 1:
+            return 1, 1, 1
         first_footer = self.get_single_pattern_footer(pattern_starts[0])
         second_footer = self.get_single_pattern_footer(pattern_starts[1])
         last_footer = self.get_single_pattern_footer(pattern_starts[-1])
 
         first_y = first_footer["beam_y"][0][0]
+        second_y = second_footer["beam_y"][0][0]
         last_y = last_footer["beam_y"][0][0]
         first_x = first_footer["beam_x"][0][0]
         second_x = second_footer["beam_x"][0][0]
         last_x = last_footer["beam_x"][0][0]
 
         step_size = second_x - first_x  # um
+        if abs(second_y - first_y) > abs(step_size):
+            # Only one column
+            step_size = second_y - first_y
 
-        first_yi = np.around(first_y / step_size)
-        last_yi = np.around(last_y / step_size)
-        nrows = int(abs(last_yi - first_yi)) + 1
-        first_xi = np.around(first_x / step_size)
-        last_xi = np.around(last_x / step_size)
-        ncols = int(abs(last_xi - first_xi)) + 1
+        nrows = int(abs(np.around((last_y - first_y) / step_size))) + 1
+        ncols = int(abs(np.around((last_x - first_x) / step_size))) + 1
 
         return nrows, ncols, step_size
 
-- 
2.43.0


From 4072409df911276db0ed48f21235c582b49e1d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:40 +0000
Subject: [PATCH 50/64] fix: order of patterns in Oxford binary files with some
 patterns missing

---
 src/kikuchipy/io/plugins/oxford_binary/_api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kikuchipy/io/plugins/oxford_binary/_api.py b/src/kikuchipy/io/plugins/oxford_binary/_api.py
index 6cf4df5..7d7a513 100644
--- a/src/kikuchipy/io/plugins/oxford_binary/_api.py
+++ b/src/kikuchipy/io/plugins/oxford_binary/_api.py
@@ -395,9 +395,10 @@ class OxfordBinaryFileReader:
         if lazy:
             data = da.from_array(data)
 
-        is_sorted = np.allclose(np.diff(self.pattern_order), 1)
-        if not is_sorted and self.all_patterns_present:
-            data = data[self.pattern_order]
+        order = self.pattern_order[self.pattern_is_present]
+        is_sorted = np.allclose(np.diff(order), 1)
+        if not is_sorted:
+            data = data[order]
 
         if data.shape != self.data_shape:
             with dask.config.set(**{"array.slicing.split_large_chunks": False}):
-- 
2.43.0


From 8bb621f21d6a392f9e9519ecfef1f69369cce006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 51/64] fix: number of patterns in Oxford binary files with
 small, few or many patterns

---
 .../io/plugins/oxford_binary/_api.py          | 47 +++++--------------
 1 file changed, 13 insertions(+), 34 deletions(-)

diff --git a/src/kikuchipy/io/plugins/oxford_binary/_api.py b/src/kikuchipy/io/plugins/oxford_binary/_api.py
index 7d7a513..d4027ca 100644
--- a/src/kikuchipy/io/plugins/oxford_binary/_api.py
+++ b/src/kikuchipy/io/plugins/oxford_binary/_api.py
@@ -531,16 +531,9 @@ class OxfordBinaryFileReader:
 
         return scan
 
-    def guess_number_of_patterns(self, min_assumed_n_pixels: int = 1600) -> int:
-        """Guess the number of patterns in the file based upon an
-        assumed lower bound for the number of pattern pixels and the
-        file size.
-
-        Parameters
-        ----------
-        min_assumed_n_pixels
-            Assumed lower bound for the number of pattern pixels.
-            Default is 1600 pixels.
+    def guess_number_of_patterns(self) -> int:
+        """Guess the number of patterns in the file from the pattern
+        starts.
 
         Returns
         -------
@@ -548,31 +541,17 @@ class OxfordBinaryFileReader:
             Guess of the number of EBSD patterns in the file.
         """
         self.file.seek(self.pattern_starts_byte_position)
-        file_byte_size = os.path.getsize(self.file.name)
 
-        # Read assumed pattern starts
-        max_assumed_n_patterns = file_byte_size // (
-            min_assumed_n_pixels + self.pattern_header_size
-        )
-        assumed_pattern_starts = np.fromfile(
-            self.file, dtype=np.int64, count=max_assumed_n_patterns
-        )
-
-        # It is assumed that a jump in bytes from one pattern position
-        # to the next does not exceed a number of maximum bytes one
-        # pattern can take up in the file. The array index where
-        # this happens (plus 1) is assumed to be the number of patterns
-        # in the file.
-        diff_pattern_starts = np.diff(assumed_pattern_starts)
-        max_assumed_n_pixels = 1024 * 1344
-        # n pixels x 2 (can be uint16)
-        max_assumed_pattern_size = max_assumed_n_pixels * 2 + self.pattern_header_size
-        # 20x is chosen as a sufficiently high jump in bytes
-        pattern_start = abs(diff_pattern_starts) > 20 * max_assumed_pattern_size
-        n_patterns = np.nonzero(pattern_start)[0][0]
-
-        # Not sure why this is needed only for these versions...
-        if self.version < 5:
+        # It is assumed that the first pattern in the file follows
+        # directly after the last pattern start
+        first_pattern_position = os.path.getsize(self.file.name)
+        n_patterns = 0
+        while self.pattern_starts_byte_position + n_patterns * 8 < (
+            first_pattern_position
+        ):
+            pattern_start = struct.unpack("q", self.file.read(8))[0]
+            if pattern_start > 0:
+                first_pattern_position = min(first_pattern_position, pattern_start)
             n_patterns += 1
 
         _logger.debug(f"Guessed number of patterns: {n_patterns}")
-- 
2.43.0


From 531a99bc46b1e3e664e0b8b11d4e3cc689959af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 52/64] fix: NORDIF files with fewer patterns than expected can
 be read lazily

---
 src/kikuchipy/io/plugins/nordif/_api.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/nordif/_api.py b/src/kikuchipy/io/plugins/nordif/_api.py
index 86dc33a..1a089d7 100644
--- a/src/kikuchipy/io/plugins/nordif/_api.py
+++ b/src/kikuchipy/io/plugins/nordif/_api.py
@@ -29,6 +29,7 @@ import tempfile
 from typing import TYPE_CHECKING
 import warnings
 
+import dask.array as da
 from matplotlib.pyplot import imread
 import numpy as np
 from orix.crystal_map import CrystalMap
@@ -137,7 +138,16 @@ def file_reader(
 
     # Read data from file
     data_size = ny * nx * sy * sx
-    if not lazy:
+    if lazy and os.path.getsize(filename) < data_size:
+        warnings.warn(
+            "Pattern size and scan size larger than file size! Will attempt to "
+            "load by zero padding incomplete frames."
+        )
+        # Data is stored image by image
+        data = da.from_array(np.memmap(filename, dtype="uint8", mode="r"))
+        data = da.pad(data, [(0, data_size - data.size)])
+        data = data.reshape((ny, nx, sy, sx)).rechunk(chunks)
+    elif not lazy:
         file.seek(0)
         data = np.fromfile(file, dtype="uint8", count=data_size)
         try:
-- 
2.43.0


From abc58eb41243b0177b01732d1c5d82f2276e3c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 53/64] fix: line scans in h5ebsd files with fewer patterns
 than expected can be read

---
 src/kikuchipy/io/plugins/_h5ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/io/plugins/_h5ebsd.py b/src/kikuchipy/io/plugins/_h5ebsd.py
index cbacd3c..fcd8c38 100644
--- a/src/kikuchipy/io/plugins/_h5ebsd.py
+++ b/src/kikuchipy/io/plugins/_h5ebsd.py
@@ -383,7 +383,7 @@ class H5EBSDReader(abc.ABC):
                 data = da.pad(data.flatten(), pw)
             else:
                 data = np.pad(data.flatten(), pw)
-            data = data.reshape((ny, nx, sy, sx))
+            data = data.reshape((ny, nx, sy, sx)).squeeze()
 
         return data
 
-- 
2.43.0


From 1ab8c88a695f141c0b81ece89a9d21be084c3a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:11 +0000
Subject: [PATCH 54/64] fix: virtual backscatter electron imaging with offset
 detector axes

---
 src/kikuchipy/imaging/vbse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kikuchipy/imaging/vbse.py b/src/kikuchipy/imaging/vbse.py
index b6e3db8..fd2e944 100644
--- a/src/kikuchipy/imaging/vbse.py
+++ b/src/kikuchipy/imaging/vbse.py
@@ -302,16 +302,16 @@ class VirtualBSEImager:
         """
         rows = self.grid_rows
         cols = self.grid_cols
-        dc, dr = [i.scale for i in self._signal.axes_manager.signal_axes]
+        col_axis, row_axis = self._signal.axes_manager.signal_axes
 
         if isinstance(index, tuple):
             index = [index]
         index_arr = np.array(index)
 
-        min_col = cols[min(index_arr[:, 1])] * dc
-        max_col = (cols[max(index_arr[:, 1])] + cols[1]) * dc
-        min_row = rows[min(index_arr[:, 0])] * dr
-        max_row = (rows[max(index_arr[:, 0])] + rows[1]) * dr
+        min_col = cols[min(index_arr[:, 1])] * col_axis.scale + col_axis.offset
+        max_col = cols[max(index_arr[:, 1]) + 1] * col_axis.scale + col_axis.offset
+        min_row = rows[min(index_arr[:, 0])] * row_axis.scale + row_axis.offset
+        max_row = rows[max(index_arr[:, 0]) + 1] * row_axis.scale + row_axis.offset
 
         return hs.roi.RectangularROI(
             left=min_col, top=min_row, right=max_col, bottom=max_row
-- 
2.43.0


From 80c58147dcd1388e96b46b6d900085b2c5ef5051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:58 +0000
Subject: [PATCH 55/64] fix: grid, labels and tiles shown on a pattern in
 calibrated detector coordinates

---
 src/kikuchipy/imaging/vbse.py | 39 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/kikuchipy/imaging/vbse.py b/src/kikuchipy/imaging/vbse.py
index fd2e944..7f87852 100644
--- a/src/kikuchipy/imaging/vbse.py
+++ b/src/kikuchipy/imaging/vbse.py
@@ -119,11 +119,16 @@ class VirtualBSEImager:
         return tile_labels_arr
 
     @property
-    def _tile_shape(self) -> tuple[int, int]:
-        signal_shape_arr = np.array(self._signal._signal_shape_rc)
-        grid_shape_arr = np.array(self.grid_shape)
-        tile_shape = tuple(signal_shape_arr // grid_shape_arr)
-        return tile_shape
+    def _tile_size(self) -> NDArray[np.float64]:
+        # Width and height in pixels, in the order of signal axes
+        return np.array([self.grid_cols[1], self.grid_rows[1]])
+
+    @property
+    def _signal_scale_offset(self) -> tuple[NDArray[np.float64], NDArray[np.float64]]:
+        axes = self._signal.axes_manager.signal_axes
+        scale = np.array([i.scale for i in axes], dtype=np.float64)
+        offset = np.array([i.offset for i in axes], dtype=np.float64)
+        return scale, offset
 
     # ------------------------ Dunder methods ------------------------ #
 
@@ -350,17 +355,19 @@ class VirtualBSEImager:
             A single pattern with the markers added.
         """
         axes_manager = self._signal.axes_manager
-        dc, dr = [i.scale for i in axes_manager.signal_axes]
-        rows = self.grid_rows
-        cols = self.grid_cols
+        scale, offset = self._signal_scale_offset
+        dc, dr = scale
+        c0, r0 = offset
+        rows = (self.grid_rows - 0.5) * dr + r0
+        cols = (self.grid_cols - 0.5) * dc + c0
         kwargs.setdefault("ec", "w")
         markers = []
-        markers.append(hs.plot.markers.HorizontalLines((rows - 0.5) * dr, **kwargs))
-        markers.append(hs.plot.markers.VerticalLines((cols - 0.5) * dc, **kwargs))
+        markers.append(hs.plot.markers.HorizontalLines(rows, **kwargs))
+        markers.append(hs.plot.markers.VerticalLines(cols, **kwargs))
 
         if visible_indices:
             text_markers = hs.plot.markers.Texts(
-                self._flat_tile_coordinates,
+                self._flat_tile_coordinates * scale + offset,
                 texts=self._tile_labels,
                 horizontalalignment="left",
                 verticalalignment="top",
@@ -370,12 +377,15 @@ class VirtualBSEImager:
 
         if rgb_channels is not None:
             rgb_tile_coords = self._get_rgb_tile_coordinates(rgb_channels)
-            tile_height, tile_width = self._tile_shape
+            tile_width, tile_height = self._tile_size * scale
             kwargs.update({"fc": "none", "zorder": 3, "linewidth": 2})
             for i, color in enumerate(["r", "g", "b"]):
                 kwargs["ec"] = color
                 marker = hs.plot.markers.Rectangles(
-                    rgb_tile_coords[i], tile_width, tile_height, **kwargs
+                    rgb_tile_coords[i] * scale + offset,
+                    tile_width,
+                    tile_height,
+                    **kwargs,
                 )
                 markers.append(marker)
 
@@ -390,8 +400,7 @@ class VirtualBSEImager:
         self, rgb_channels: list[tuple] | list[list[tuple]]
     ) -> NDArray[np.float64]:
         tile_coords = self._tile_coordinates
-        tile_height, tile_width = self._tile_shape
-        offset = -0.5 + np.array([tile_height, tile_width]) / 2
+        offset = -0.5 + self._tile_size / 2
         rbg_tile_coords = np.zeros(3, dtype=object)
         for i, channel_coords in enumerate(rgb_channels):
             if isinstance(channel_coords, tuple):
-- 
2.43.0


From 87b83f415aef45cb7d66695d9b1dc494a6549190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:50 +0000
Subject: [PATCH 56/64] fix: removal of dynamic background from an integer
 pattern, and from one to be used again

---
 src/kikuchipy/pattern/_pattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kikuchipy/pattern/_pattern.py b/src/kikuchipy/pattern/_pattern.py
index 0c97635..24db52d 100644
--- a/src/kikuchipy/pattern/_pattern.py
+++ b/src/kikuchipy/pattern/_pattern.py
@@ -567,6 +567,9 @@ def remove_dynamic_background(
     else:
         dtype_out = np.dtype(dtype_out)
 
+    # A floating point copy, since background is removed in-place
+    pattern = pattern.astype(np.result_type(pattern.dtype, np.float32))
+
     if filter_domain == "frequency":
         (
             fft_shape,
-- 
2.43.0


From 4361ca78a4671fe175f9724235566486f1cb69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 57/64] fix: keyword arguments to the inverse FFT of a shifted
 spectrum

---
 src/kikuchipy/pattern/_pattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/pattern/_pattern.py b/src/kikuchipy/pattern/_pattern.py
index 24db52d..5a6d570 100644
--- a/src/kikuchipy/pattern/_pattern.py
+++ b/src/kikuchipy/pattern/_pattern.py
@@ -302,7 +302,7 @@ def ifft(
         fft_use = ifft2
 
     if shift:
-        pattern = fft_use(ifftshift(fft_pattern, **kwargs))
+        pattern = fft_use(ifftshift(fft_pattern), **kwargs)
     else:
         pattern = fft_use(fft_pattern, **kwargs)
 
-- 
2.43.0


From f4988fafdc5d46adb8429050d279356922d7524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 58/64] fix: making a window circular changing the array it was
 made from

---
 src/kikuchipy/filters/window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/filters/window.py b/src/kikuchipy/filters/window.py
index b1cebd5..943be57 100644
--- a/src/kikuchipy/filters/window.py
+++ b/src/kikuchipy/filters/window.py
@@ -178,7 +178,7 @@ class Window(np.ndarray):
                 "dask.array.Array, or a valid string"
             )
 
-        obj = np.asarray(data).view(cls)
+        obj = np.array(data).view(cls)
         obj._name = name
 
         if exclude_window_corners:
-- 
2.43.0


From 5c949e67361278ca7f205faba020e943bfca420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:11 +0000
Subject: [PATCH 59/64] fix: arguments of a window depending on the order of
 its keywords

---
 src/kikuchipy/filters/window.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/filters/window.py b/src/kikuchipy/filters/window.py
index 943be57..ad76e58 100644
--- a/src/kikuchipy/filters/window.py
+++ b/src/kikuchipy/filters/window.py
@@ -18,6 +18,7 @@
 
 from __future__ import annotations
 
+from inspect import signature
 from typing import Sequence
 
 from dask.array import Array
@@ -25,6 +26,7 @@ import matplotlib.figure as mfigure
 from matplotlib.pyplot import subplots
 from numba import njit
 import numpy as np
+from scipy.signal import windows
 from scipy.signal.windows import get_window
 
 
@@ -167,7 +169,7 @@ class Window(np.ndarray):
                 window_func = get_window
                 window_kwargs["fftbins"] = kwargs.pop("fftbins", False)
                 window_kwargs["Nx"] = kwargs.pop("Nx", shape[0])
-                window_kwargs["window"] = (window,) + tuple(kwargs.values())
+                window_kwargs["window"] = (window,) + _get_window_args(window, kwargs)
             data = window_func(**window_kwargs)
             if len(shape) == 2 and data.ndim == 1:
                 window_kwargs["Nx"] = shape[1]
@@ -385,6 +387,21 @@ class Window(np.ndarray):
             return fig
 
 
+def _get_window_args(name: str, kwargs: dict) -> tuple:
+    """Return positional arguments of a window in SciPy from keyword
+    arguments, in the order of the window's signature if all are named
+    there, otherwise in the order given.
+    """
+    func = getattr(windows, name, None)
+    if func is not None:
+        parameters = signature(func).parameters
+        names = [i for i in parameters if i not in ["M", "sym", "xp", "device"]]
+        if set(kwargs).issubset(names):
+            n_args = max([names.index(i) for i in kwargs], default=-1) + 1
+            return tuple(kwargs.get(i, parameters[i].default) for i in names[:n_args])
+    return tuple(kwargs.values())
+
+
 def distance_to_origin(
     shape: tuple[int] | tuple[int, int],
     origin: tuple[int] | tuple[int, int] | None = None,
-- 
2.43.0


From c378c8ee81ecaca1b7887c7d72b81847216d3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:41 +0000
Subject: [PATCH 60/64] fix: crystal map from Hough indexing of a single
 pattern

---
 src/kikuchipy/indexing/_hough_indexing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kikuchipy/indexing/_hough_indexing.py b/src/kikuchipy/indexing/_hough_indexing.py
index 5b0b9d6..cdf57b9 100644
--- a/src/kikuchipy/indexing/_hough_indexing.py
+++ b/src/kikuchipy/indexing/_hough_indexing.py
@@ -79,8 +79,10 @@ def xmap_from_hough_indexing_data(
     xmap
         Crystal map.
     """
-    if navigation_shape is None:
+    if navigation_shape is None or len(navigation_shape) == 0:
         navigation_shape = (data.shape[1],)
+        if step_sizes is not None and len(step_sizes) == 0:
+            step_sizes = None
     elif len(navigation_shape) > 2 or not all(
         isinstance(n_i, int) for n_i in navigation_shape
     ):
-- 
2.43.0


From 5dc21766f4cccea410f41b871e47c3f9d8610363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:41 +0000
Subject: [PATCH 61/64] fix: Hough indexing data passed by the user changed
 when making a crystal map

---
 src/kikuchipy/indexing/_hough_indexing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kikuchipy/indexing/_hough_indexing.py b/src/kikuchipy/indexing/_hough_indexing.py
index cdf57b9..c353914 100644
--- a/src/kikuchipy/indexing/_hough_indexing.py
+++ b/src/kikuchipy/indexing/_hough_indexing.py
@@ -99,7 +99,7 @@ def xmap_from_hough_indexing_data(
     phase_id = data_index["phase"]
     not_indexed = phase_id == -1
 
-    rot_arr = data_index["quat"]
+    rot_arr = data_index["quat"].copy()
     rot_arr[not_indexed] = [1, 0, 0, 0]
     rot = Rotation(rot_arr)
 
-- 
2.43.0


From 33614a0b352a70b0e32e994f1ddff07f2866b752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:40 +0000
Subject: [PATCH 62/64] fix: projection from master patterns which are not
 square, read out of bounds

---
 src/kikuchipy/signals/ebsd_master_pattern.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/kikuchipy/signals/ebsd_master_pattern.py b/src/kikuchipy/signals/ebsd_master_pattern.py
index ff8a0a1..0b43981 100644
--- a/src/kikuchipy/signals/ebsd_master_pattern.py
+++ b/src/kikuchipy/signals/ebsd_master_pattern.py
@@ -368,6 +368,8 @@ class EBSDMasterPattern(KikuchiMasterPattern):
             point group, or the point group does not have inversion
             symmetry but only one of the hemispheres are available in
             the signal.
+        ValueError
+            If the master pattern is not square.
         """
         suitable = True
         error: Exception | None = None
@@ -376,6 +378,12 @@ class EBSDMasterPattern(KikuchiMasterPattern):
                 "Master pattern must be in the square Lambert projection"
             )
             suitable = False
+        sig_shape = self._signal_shape_rc
+        if suitable and sig_shape[0] != sig_shape[1]:
+            error = ValueError(
+                f"Master pattern must be square, but has signal shape {sig_shape}"
+            )
+            suitable = False
         pg = self.phase.point_group
         if pg is None:
             error = AttributeError(
-- 
2.43.0


From 235e49df57897736a403697ea750b4b21968a55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:35 +0000
Subject: [PATCH 63/64] fix: process ending when a detector is at no distance
 from the source point

An optimizer may reach PCz = 0 exactly, and compiled functions then read out of
bounds. There is no correlation there, and projecting onto such a detector is
refused.
---
 .../indexing/_refinement/_objective_functions.py          | 7 +++++++
 src/kikuchipy/signals/util/_master_pattern.py             | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/kikuchipy/indexing/_refinement/_objective_functions.py b/src/kikuchipy/indexing/_refinement/_objective_functions.py
index adf2927..05cd72f 100644
--- a/src/kikuchipy/indexing/_refinement/_objective_functions.py
+++ b/src/kikuchipy/indexing/_refinement/_objective_functions.py
@@ -28,6 +28,7 @@ from kikuchipy.indexing.similarity_metrics._normalized_cross_correlation import
     _ncc_single_patterns_1d_float32_exp_centered,
 )
 from kikuchipy.signals.util._master_pattern import (
+    MIN_PCZ,
     _get_direction_cosines_for_fixed_pc,
     _project_single_pattern_from_master_pattern,
 )
@@ -103,6 +104,9 @@ def _refine_pc_objective_function(x: np.ndarray, *args) -> float:
     -------
         Normalized cross-correlation score.
     """
+    if abs(x[2]) < MIN_PCZ:
+        return 1.0  # No correlation
+
     gn_bds = get_gnomonic_bounds(args[8], args[9], x[0], x[1], x[2])
 
     dc = _get_direction_cosines_for_fixed_pc(
@@ -161,6 +165,9 @@ def _refine_orientation_pc_objective_function(x: np.ndarray, *args) -> float:
     -------
         normalized cross-correlation score.
     """
+    if abs(x[5]) < MIN_PCZ:
+        return 1.0  # No correlation
+
     gn_bds = get_gnomonic_bounds(args[7], args[8], x[3], x[4], x[5])
 
     dc = _get_direction_cosines_for_fixed_pc(
diff --git a/src/kikuchipy/signals/util/_master_pattern.py b/src/kikuchipy/signals/util/_master_pattern.py
index c176cdf..5a2f099 100644
--- a/src/kikuchipy/signals/util/_master_pattern.py
+++ b/src/kikuchipy/signals/util/_master_pattern.py
@@ -78,6 +78,8 @@ SQRT_PI = np.sqrt(np.pi)
 SQRT_PI_HALF = np.sqrt(np.pi / 2)
 SQRT_PI_OVER_2 = SQRT_PI / 2
 TWO_OVER_SQRT_PI = 2 / SQRT_PI
+# Patterns cannot be projected onto a detector closer to the source point
+MIN_PCZ = 1e-300
 
 
 def _get_direction_cosines_from_detector(
@@ -171,6 +173,9 @@ def _get_direction_cosines_for_fixed_pc(
     A previous version of this algorithm was adapted from EMsoft, see
     :cite:`callahan2013dynamical`.
     """
+    if np.abs(pcz) < MIN_PCZ:
+        raise ValueError("PCz cannot be 0")
+
     x_scale = (gnomonic_bounds[1] - gnomonic_bounds[0]) / ncols
     y_scale = (gnomonic_bounds[3] - gnomonic_bounds[2]) / nrows
 
@@ -254,6 +259,9 @@ def _get_direction_cosines_for_varying_pc(
     This function is optimized with Numba, so care must be taken with
     array shapes and data types.
     """
+    if np.any(np.abs(pcz) < MIN_PCZ):
+        raise ValueError("PCz cannot be 0")
+
     idx_1d = np.arange(nrows * ncols)[signal_mask]
     rows = idx_1d // ncols
     cols = np.mod(idx_1d, ncols)
-- 
2.43.0


From ebd60203d82b65df1c3d8917f7b0423d20cb92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:30 +0000
Subject: [PATCH 64/64] fix: average projection center in side and top views of
 detectors

Both views used the specimen-scintillator distance of the first pattern
with the mean PCx and PCy, and failed for PCs of two dimensions.
---
 src/kikuchipy/draw/_ebsd_detector_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kikuchipy/draw/_ebsd_detector_plot.py b/src/kikuchipy/draw/_ebsd_detector_plot.py
index 123987d..24fb17b 100644
--- a/src/kikuchipy/draw/_ebsd_detector_plot.py
+++ b/src/kikuchipy/draw/_ebsd_detector_plot.py
@@ -195,7 +195,7 @@ def plot_detector_sample_geometry_side_view(
 
     # Dimensions in mm and angles in radians
     height = detector.height
-    L = detector.specimen_scintillator_distance[0]
+    L = detector.pc_average[2] * height
     beam_length = height * 0.5
     half_sample_length = height * 0.3
     sigma = np.deg2rad(detector.sample_tilt)
@@ -350,7 +350,7 @@ def plot_detector_sample_geometry_top_view(
     # Dimensions in microns and angles in radians
     width = detector.width
     height = detector.height
-    L = detector.specimen_scintillator_distance[0]
+    L = detector.pc_average[2] * height
     sample_size = height * 0.6
     sigma = np.deg2rad(detector.sample_tilt)
     theta = np.deg2rad(detector.tilt)
-- 
2.43.0

