From c06b72d6f5f76e56433a260e620cc0f6fe7b7e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 01/41] fix: load reducer and fitter modules with find_spec
 (find_module is gone in Python 3.12)

---
 CHECLabPy/spectrum_fitters/__init__.py  | 2 +-
 CHECLabPy/waveform_reducers/__init__.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/spectrum_fitters/__init__.py b/CHECLabPy/spectrum_fitters/__init__.py
index 575a152..62a8bc2 100644
--- a/CHECLabPy/spectrum_fitters/__init__.py
+++ b/CHECLabPy/spectrum_fitters/__init__.py
@@ -8,7 +8,7 @@ import pkgutil
 import inspect
 
 for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+    module = loader.find_spec(name).loader.load_module(name)
 
     for name, value in inspect.getmembers(module):
         if name.startswith('__'):
diff --git a/CHECLabPy/waveform_reducers/__init__.py b/CHECLabPy/waveform_reducers/__init__.py
index 4c780a9..3f83731 100644
--- a/CHECLabPy/waveform_reducers/__init__.py
+++ b/CHECLabPy/waveform_reducers/__init__.py
@@ -15,7 +15,7 @@ import pkgutil
 import inspect
 
 for loader, name, is_pkg in pkgutil.walk_packages(__path__):
-    module = loader.find_module(name).load_module(name)
+    module = loader.find_spec(name).loader.load_module(name)
 
     for key, value in inspect.getmembers(module):
         if name.startswith('__'):
-- 
2.43.0


From 0e84ed0922ef10fbb169c0447c5cbe39b3b989ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 02/41] fix: use builtin bool and int as dtypes (np.bool and
 np.int no longer exist)

---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 CHECLabPy/calib/pixel_masks.py       | 6 +++---
 CHECLabPy/core/io/simtel.py          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index b291737..7ad6476 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -50,7 +50,7 @@ class AmplitudeMatcher:
         self.starting_dacs = starting_dacs.ravel()
 
         if bad_hv is None:
-            self.sp_mask = np.zeros(n_superpixels, dtype=np.bool)
+            self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
                 bad_hv.reshape((n_superpixels, 4)).all(1)
diff --git a/CHECLabPy/calib/pixel_masks.py b/CHECLabPy/calib/pixel_masks.py
index eab3dfc..71db956 100644
--- a/CHECLabPy/calib/pixel_masks.py
+++ b/CHECLabPy/calib/pixel_masks.py
@@ -28,9 +28,9 @@ class PixelMasks:
         path : str
             OPTIONAL specify a particular pixel mask file to load
         """
-        self.dead = np.zeros(N_PIXELS, dtype=np.bool)
-        self.low = np.zeros(N_PIXELS, dtype=np.bool)
-        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=np.bool)
+        self.dead = np.zeros(N_PIXELS, dtype=bool)
+        self.low = np.zeros(N_PIXELS, dtype=bool)
+        self.bad_hv = np.zeros(N_SUPERPIXELS, dtype=bool)
         self._load_file(path=path, merge=False)
 
     def _load_file(self, path=None, merge=False):
diff --git a/CHECLabPy/core/io/simtel.py b/CHECLabPy/core/io/simtel.py
index fdc695b..dd8e3dd 100644
--- a/CHECLabPy/core/io/simtel.py
+++ b/CHECLabPy/core/io/simtel.py
@@ -68,8 +68,8 @@ class SimtelReader(WaveformReader):
         pix_x = engineering_geom.pix_x.value
         pix_y = engineering_geom.pix_y.value
         row, col = get_row_column(pix_x, pix_y)
-        camera_2d = np.zeros((n_rows, n_columns), dtype=np.int)
-        camera_2d[row, col] = np.arange(self.n_pixels, dtype=np.int)
+        camera_2d = np.zeros((n_rows, n_columns), dtype=int)
+        camera_2d[row, col] = np.arange(self.n_pixels, dtype=int)
         self.pixel_order = camera_2d[self.mapping['row'], self.mapping['col']]
 
         self.reference_pulse_path = self._camera_config.GetReferencePulsePath()
-- 
2.43.0


From 9de0dcf568948f7bb6f40218bb1abeba851b7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 03/41] fix: use datetime.now in extract_dl1 (pd.datetime no
 longer exists)

---
 CHECLabPy/scripts/extract_dl1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index c5b665b..737c133 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -3,6 +3,7 @@ Executable for processing the R1 waveforms, and storing the reduced parameters
 into a HDF5 file, readable as a `pandas.DataFrame`.
 """
 import argparse
+from datetime import datetime
 import numpy as np
 import pandas as pd
 from tqdm import tqdm
@@ -138,7 +139,7 @@ class DL1Extractor:
             source=self.source,
             run_id=self.reader.run_id,
             is_mc=self.reader.is_mc,
-            date_generated=pd.datetime.now(),
+            date_generated=datetime.now(),
             input_path=self.reader.path,
             n_modules=self.reader.n_modules,
             n_pixels=self.reader.n_pixels,
-- 
2.43.0


From b33396b2ed4ea7d26c749038570403d9c5b100da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 04/41] fix: obtain the next line color through get_next_color
 in SpectrumFitPlotter

---
 CHECLabPy/plotting/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/spe.py b/CHECLabPy/plotting/spe.py
index ffe3146..17bb1b4 100644
--- a/CHECLabPy/plotting/spe.py
+++ b/CHECLabPy/plotting/spe.py
@@ -14,7 +14,7 @@ class SpectrumFitPlotter(Plotter):
     def plot(self, hist_x, hist_y, hist_edges, fit_x, fit_y, values, errors, initial):
         for i in range(self.n_illuminations):
             label = f"λ_{i} = {values[f'lambda_{i}']:.3f} ± {errors[f'lambda_{i}']:.3f} p.e."
-            color = next(self.ax._get_lines.prop_cycler)['color']
+            color = self.ax._get_lines.get_next_color()
             self.ax.hist(
                 hist_x,  weights=hist_y[i], bins=hist_edges,
                 histtype='step', color=color
-- 
2.43.0


From 6721f57e7a146102ca666199eff1bdc5ea4fc6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 05/41] fix: HDF5Appender keeps the byte counts of the data
 already in the file

---
 CHECLabPy/core/io/hdf5_appender.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index 78d7268..d52fd18 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -36,6 +36,10 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
 
         self._generate_contents_list()
 
+        # Bytes of the tables already in the file
+        for key in self.dataframe_keys:
+            self.n_bytes[key] = self.get_n_bytes(key)
+
         if parse(self.version).release[0] < parse(__version__).release[0]:
             warnings.warn(
                 "WARNING: HDF5 file created with older version of CHECLabPy",
@@ -72,13 +76,11 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
         the metadata. This is method is automatically called when HDF5Writer
         is used in a context manager (i.e. `with HDF5Writer(path) as writer:`)
         """
-        total_bytes = self.get_metadata()['total_bytes']
         for key in self.keys:
             self._append_to_store(key)
             self.add_metadata(key=key, n_bytes=self.n_bytes[key])
-            total_bytes += self.n_bytes[key]
         self.add_metadata(
-            total_bytes=total_bytes,
+            total_bytes=sum(self.n_bytes.values()),
             version=__version__,
         )
         self._save_metadata()
-- 
2.43.0


From eb08b5e7b697a8c1acc60eae7f1df65a160143a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 06/41] fix: HDF5Writer.write also overwrites rows that have
 not been flushed yet

---
 CHECLabPy/core/io/hdf5_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/io/hdf5_writer.py b/CHECLabPy/core/io/hdf5_writer.py
index 2383f28..5ae7b1e 100644
--- a/CHECLabPy/core/io/hdf5_writer.py
+++ b/CHECLabPy/core/io/hdf5_writer.py
@@ -125,6 +125,8 @@ class HDF5Writer:
         """
         for key, value in kwargs.items():
             self.keys.add(key)
+            self.df_list[key] = []  # Overwrite rows still waiting in memory
+            self.df_list_n_bytes[key] = 0
             self.store[key] = value
             self.n_bytes[key] = value.memory_usage(index=True, deep=True).sum()
 
-- 
2.43.0


From 4a4cc9b279452b82ece505a59dca362e96a7bde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 07/41] fix: HDF5Reader opens files with a key that has no
 default metadata

---
 CHECLabPy/core/io/hdf5_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_reader.py b/CHECLabPy/core/io/hdf5_reader.py
index 57ccb84..facacb9 100644
--- a/CHECLabPy/core/io/hdf5_reader.py
+++ b/CHECLabPy/core/io/hdf5_reader.py
@@ -48,7 +48,7 @@ class HDF5Reader:
             key = key[1:]
             try:
                 n_bytes = self.store.get_storer(key).attrs.metadata['n_bytes']
-            except KeyError:
+            except (KeyError, AttributeError):
                 n_bytes = 0
             if key in ['mapping']:
                 continue
-- 
2.43.0


From a6728616231fe3e9f98c5331e43f78a7e2df07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 08/41] fix: number of rows and column names of DataFrames
 stored by HDF5Writer.write

---
 CHECLabPy/core/io/hdf5_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/core/io/hdf5_reader.py b/CHECLabPy/core/io/hdf5_reader.py
index facacb9..0c2525e 100644
--- a/CHECLabPy/core/io/hdf5_reader.py
+++ b/CHECLabPy/core/io/hdf5_reader.py
@@ -169,7 +169,10 @@ class HDF5Reader:
         -------
         int
         """
-        return self.store.get_storer(key).nrows
+        storer = self.store.get_storer(key)
+        if not storer.is_table:
+            return len(self.store[key])
+        return storer.nrows
 
     def get_n_bytes(self, key):
         """
@@ -199,7 +202,10 @@ class HDF5Reader:
         -------
         int
         """
-        return self.store.get_storer(key).attrs.non_index_axes[0][1]
+        storer = self.store.get_storer(key)
+        if not storer.is_table:
+            return list(self.store[key].columns)
+        return storer.attrs.non_index_axes[0][1]
 
     def select(self, key, **kwargs):
         """
-- 
2.43.0


From 97e8778f54b8fcf985c155fa9511e3e2c390d2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 09/41] fix: loaded or updated spectrum parameters reach the
 next fit

---
 CHECLabPy/core/spectrum_fitter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/core/spectrum_fitter.py b/CHECLabPy/core/spectrum_fitter.py
index 746c03f..7447113 100644
--- a/CHECLabPy/core/spectrum_fitter.py
+++ b/CHECLabPy/core/spectrum_fitter.py
@@ -168,6 +168,7 @@ class SpectrumFitter:
                 d.pop('limits')
             if 'fixed' in d and not d['fixed']:
                 d.pop('fixed')
+            self.parameters.update(self.parameters)
             if d:
                 print(f"WARNING: Unused SpectrumFitter config parameters:\n{d}")
 
@@ -252,6 +253,7 @@ class SpectrumFitter:
                 param.initial = self.fit_result_values[f"{param.name}{illumination}"]
             else:
                 param.initial = self.fit_result_values[param.name]
+        self.parameters.update(self.parameters)
 
     def apply(self, *charges):
         """
-- 
2.43.0


From b8821e7265e80feac192213826f12fa10628e988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 10/41] fix: extract_spe stores the pixels in order for any
 number of processes

---
 CHECLabPy/scripts/extract_spe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index efc908a..92dec9f 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -153,9 +153,9 @@ def main():
     df_values = pd.DataFrame(list(pixel_fitter.pixel_values.values()))
     df_errors = pd.DataFrame(list(pixel_fitter.pixel_errors.values()))
     df_arrays = pd.DataFrame(list(pixel_fitter.pixel_arrays.values()))
-    df_values = df_values.set_index('pixel')
-    df_errors = df_errors.set_index('pixel')
-    df_arrays = df_arrays.set_index('pixel')
+    df_values = df_values.set_index('pixel').sort_index()
+    df_errors = df_errors.set_index('pixel').sort_index()
+    df_arrays = df_arrays.set_index('pixel').sort_index()
 
     with HDF5Writer(output_path) as writer:
         with warnings.catch_warnings():
-- 
2.43.0


From 182601bf31a1d047e6f3249f3b3ebe9104ade447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 11/41] fix: BaselineSubtractor does not average empty entries
 for short sources

---
 CHECLabPy/utils/waveform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index 72bf977..c8892b9 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -18,11 +18,16 @@ class BaselineSubtractor:
         self.iev = 0
 
         self.baseline_waveforms = np.zeros((n_base, n_pixels, n_base_samples))
+        n_filled = 0
         for waveforms in source:
             iev = waveforms.iev
             if iev >= n_base:
                 break
             self.baseline_waveforms[iev] = waveforms[:, :n_base_samples]
+            n_filled = iev + 1
+        if 0 < n_filled < n_base:  # Source has fewer than n_base events
+            self.n_base = n_filled
+            self.baseline_waveforms = self.baseline_waveforms[:n_filled]
         self.baseline = np.mean(self.baseline_waveforms, axis=(0, 2))
 
     def update_baseline(self, waveforms):
-- 
2.43.0


From 2d1fc0a0634bb7875ba4f97e8d1a172cd4bf9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 12/41] fix: obtain_dead_pixel_list_r1 takes the event number
 from the waveforms

---
 CHECLabPy/utils/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/waveform.py b/CHECLabPy/utils/waveform.py
index c8892b9..fbe9ab7 100644
--- a/CHECLabPy/utils/waveform.py
+++ b/CHECLabPy/utils/waveform.py
@@ -174,7 +174,7 @@ def obtain_dead_pixel_list_r1(source, threshold_percent=0.1, max_events=100):
     n_samples = source.n_samples
     array = np.zeros((n_events, n_pixels, n_samples))
     for waveforms in source:
-        iev = source.index
+        iev = waveforms.iev
         if iev >= n_events:
             break
         array[iev] = waveforms
-- 
2.43.0


From 8b8dc4755b680b9b6c01c582ae04966a3fdf68b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 13/41] fix: AmplitudeMatcher uses the superpixel mask obtained
 from a pixel mask

---
 CHECLabPy/calib/amplitude_matcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 7ad6476..d1fb7d9 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -53,7 +53,7 @@ class AmplitudeMatcher:
             self.sp_mask = np.zeros(n_superpixels, dtype=bool)
         else:
             if bad_hv.size == n_pixels:
-                bad_hv.reshape((n_superpixels, 4)).all(1)
+                bad_hv = bad_hv.reshape((n_superpixels, 4)).all(1)
             self.sp_mask = bad_hv.ravel()
 
         self.illumination_profile = illumination_profile
-- 
2.43.0


From e26784635e31d7e192aa79cdddd106c1b133287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 14/41] fix: AmplitudeMatcher returns the final DACs in the
 documented shape

---
 CHECLabPy/calib/amplitude_matcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index d1fb7d9..2867414 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -175,7 +175,8 @@ class AmplitudeMatcher:
             self.global_stage += 1
 
         if self.global_stage == GLOBALSTAGE.FINISH:
-            return self.current_dac, average_amplitude_pix, True
+            final_dac = self.current_dac.reshape((32, 16))
+            return final_dac, average_amplitude_pix, True
 
         next_dac = self._get_next_dac(distance, direction)
         finished = (self.stage == STAGE.FINISH).all()
-- 
2.43.0


From 131de1a6837cbc07f386e0e0dcf5de46528a6de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 15/41] fix: AmplitudeMatcher finishes superpixels that hit the
 aim exactly

---
 CHECLabPy/calib/amplitude_matcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 2867414..5ac9d91 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -111,6 +111,10 @@ class AmplitudeMatcher:
                 stage[isp] = STAGE.FINISH
                 continue
 
+            if distance[isp] == 0:  # Exactly matched, no direction to step
+                stage[isp] = STAGE.FINISH
+                continue
+
             if iteration == 0:
                 previous_distance[isp] = distance[isp]
 
-- 
2.43.0


From acc58bb25b14a990194389e80ceb2136fc1553cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 16/41] fix: time correction by a whole number of samples
 divided by zero

---
 CHECLabPy/calib/time_calibrator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/calib/time_calibrator.py b/CHECLabPy/calib/time_calibrator.py
index 63c4314..40ed92e 100644
--- a/CHECLabPy/calib/time_calibrator.py
+++ b/CHECLabPy/calib/time_calibrator.py
@@ -1,7 +1,7 @@
 import pandas as pd
 from CHECLabPy.calib import get_calib_data
 from numba import njit, prange, float64, float32
-from math import floor, ceil
+from math import floor
 
 
 @njit([
@@ -16,7 +16,7 @@ def apply_t_cor(waveforms, t_cor):
         for isample in prange(n_samples):
             x = isample - correction
             x1 = floor(x)
-            x2 = ceil(x)
+            x2 = x1 + 1
             if x1 < 0:
                 x1 = 0
                 x2 = 1
-- 
2.43.0


From c17e348f60b394bb372e3d274600d37095519f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 17/41] fix: obtain the TargetCalib mapping from the metadata
 dict of a mapping

---
 CHECLabPy/core/io/dl1_reader.py | 3 +--
 CHECLabPy/utils/mapping.py      | 4 ++--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/core/io/dl1_reader.py b/CHECLabPy/core/io/dl1_reader.py
index e7a68a7..34c3a66 100644
--- a/CHECLabPy/core/io/dl1_reader.py
+++ b/CHECLabPy/core/io/dl1_reader.py
@@ -89,8 +89,7 @@ class DL1Reader(HDF5Reader):
         Obtain the TargetCalib mapping class
         """
         from target_calib import CameraConfiguration
-        version = self.mapping.metadata.version
-        camera_config = CameraConfiguration(version)
+        camera_config = CameraConfiguration(self.camera_version)
         return camera_config.GetMapping(self.n_modules == 1)
 
     @property
diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index a0dfd14..9ca40f3 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -70,8 +70,8 @@ def get_tc_mapping_from_clp_mapping(mapping):
 
     """
     from target_calib import Mapping
-    cfgfile = mapping.metadata.cfgfile
-    is_single_module = mapping.metadata.is_single_module
+    cfgfile = mapping.metadata['cfgfile']
+    is_single_module = mapping.metadata['is_single_module']
     return Mapping(cfgfile, is_single_module)
 
 
-- 
2.43.0


From 8d94b92fca8038fb8be024b424c0326be513476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 18/41] fix: ChargeResolutionPlotter reads the column that
 ChargeResolution produces

---
 CHECLabPy/plotting/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/plotting/resolutions.py b/CHECLabPy/plotting/resolutions.py
index 3584104..e943939 100644
--- a/CHECLabPy/plotting/resolutions.py
+++ b/CHECLabPy/plotting/resolutions.py
@@ -44,7 +44,7 @@ class ChargeResolutionPlotter(Plotter):
     def plot_pixel(self, pixel, label=''):
         df_pixel = self.df_pixel.loc[self.df_pixel['pixel'] == pixel]
         x = df_pixel['true']
-        y = df_pixel['rmse']
+        y = df_pixel['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
@@ -53,7 +53,7 @@ class ChargeResolutionPlotter(Plotter):
 
     def plot_camera(self, label=''):
         x = self.df_camera['true']
-        y = self.df_camera['rmse']
+        y = self.df_camera['charge_resolution']
         yerr = 1 / np.sqrt(x)
 
         x, y, yerr = bin_points(x, y, yerr)
-- 
2.43.0


From d0cbf61e3653af2ef124ec81933d7de51a341df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 19/41] fix: DL1 float columns keep one dtype for every flush
 of the buffer

---
 CHECLabPy/scripts/extract_dl1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 737c133..3ea8bad 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -18,7 +18,7 @@ class DL1Writer(HDF5Writer):
     def _prepare_before_append(df):
         df_float = df.select_dtypes(
             include=['float']
-        ).apply(pd.to_numeric, downcast='float')
+        ).astype(np.float32)
         df[df_float.columns] = df_float
         df['iev'] = df['iev'].astype(np.uint32)
         if 'first_cell_id' in df.columns:
-- 
2.43.0


From 01f7d9fbe151a1b7a71054db56c0a3bff7422481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 20/41] fix: WaveformCalibrator marks the calibrated waveforms
 as R1

---
 CHECLabPy/calib/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/calib/waveform.py b/CHECLabPy/calib/waveform.py
index 9043f5d..8f07691 100644
--- a/CHECLabPy/calib/waveform.py
+++ b/CHECLabPy/calib/waveform.py
@@ -16,7 +16,7 @@ class WaveformCalibrator:
         fci = np.full(self.n_pixels, fci, dtype=np.uint16)
         calibrated_wfs = waveforms.astype(np.float32, copy=True)
         self.calibrator.ApplyEvent(waveforms, fci, calibrated_wfs)
-        calibrated_wfs.r1 = True
+        calibrated_wfs.is_r1 = True
         return calibrated_wfs
 
     @classmethod
-- 
2.43.0


From 0a4981658a9179225a81d2284401bd11048839bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 21/41] fix: cross correlation peak at the edge read samples
 outside the waveform

---
 CHECLabPy/waveform_reducers/cross_correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CHECLabPy/waveform_reducers/cross_correlation.py b/CHECLabPy/waveform_reducers/cross_correlation.py
index 94078d9..6d7237b 100644
--- a/CHECLabPy/waveform_reducers/cross_correlation.py
+++ b/CHECLabPy/waveform_reducers/cross_correlation.py
@@ -16,6 +16,9 @@ from numba import guvectorize, float64, float32, int64
 )
 def extract_pulse_time(waveforms, peak_index, ret):
     n_samples = waveforms.size
+    if not 0 < peak_index < n_samples - 1:  # No sample on one of the sides
+        ret[0] = peak_index
+        return
     y0 = waveforms[peak_index - 1]
     y1 = waveforms[peak_index]
     y2 = waveforms[peak_index + 1]
-- 
2.43.0


From 5b5db6341db9037ec2cd21d40855c66559461608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:26 +0000
Subject: [PATCH 22/41] fix: pulse timing with the peak at the edge read
 samples outside the waveform

---
 CHECLabPy/waveform_reducers/timing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index ec6019c..c690500 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -27,6 +27,8 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         # __Obtain Pulse Time__
         #######################
         peakpos = np.argmax(wf[window_start:window_end]) + window_start
+        if not 0 < peakpos < n_samples - 1:  # No sample on one of the sides
+            continue
 
         y0 = wf[peakpos - 1]
         y1 = wf[peakpos]
-- 
2.43.0


From 5d63698c736e4bf57fadcef9efc28cda2343b29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 23/41] fix: annotate_tm_edge_label uses loc (DataFrame.ix no
 longer exists)

---
 CHECLabPy/plotting/camera.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index 2a14f7a..b6f8d9d 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -227,8 +227,8 @@ class CameraImage(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             pix_size = self._mapping.metadata['size']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
@@ -493,8 +493,8 @@ class CameraImageImshow(Plotter):
             kw = dict(fontsize=6, color='black', ha='center')
             m = self._mapping
             n_rows = m.metadata['n_rows']
-            f_tm_top = lambda g: m.ix[m.ix[g.index]['row'].idxmax(), 'slot']
-            f_tm_bottom = lambda g: m.ix[m.ix[g.index]['row'].idxmin(), 'slot']
+            f_tm_top = lambda g: m.loc[m.loc[g.index]['row'].idxmax(), 'slot']
+            f_tm_bottom = lambda g: m.loc[m.loc[g.index]['row'].idxmin(), 'slot']
             tm_top = np.unique(m.groupby('col').agg(f_tm_top)['slot'])
             tm_bottom = np.unique(m.groupby('col').agg(f_tm_bottom)['slot'])
             for tm in tm_top:
-- 
2.43.0


From dce9c46b7264024f0267ebb9135149c6f99dcd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 24/41] fix: highlight_pixels works for integer images and
 before an image is set

---
 CHECLabPy/plotting/camera.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/plotting/camera.py b/CHECLabPy/plotting/camera.py
index b6f8d9d..3f64016 100644
--- a/CHECLabPy/plotting/camera.py
+++ b/CHECLabPy/plotting/camera.py
@@ -209,7 +209,7 @@ class CameraImage(Plotter):
             The transparency
         """
 
-        lw_array = np.zeros_like(self.image)
+        lw_array = np.zeros(self.n_pixels)
         lw_array[pixels] = linewidth
         pixel_highlighting = copy(self.pixels)
         pixel_highlighting.set_facecolor('none')
-- 
2.43.0


From c01fb61b22a410e1fc329d8249bed6f33e3af54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:17 +0000
Subject: [PATCH 25/41] fix: HDF5Appender appends to a key that so far only
 holds metadata

---
 CHECLabPy/core/io/hdf5_appender.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/CHECLabPy/core/io/hdf5_appender.py b/CHECLabPy/core/io/hdf5_appender.py
index d52fd18..434ad90 100644
--- a/CHECLabPy/core/io/hdf5_appender.py
+++ b/CHECLabPy/core/io/hdf5_appender.py
@@ -57,6 +57,19 @@ class HDF5Appender(HDF5Reader, HDF5Writer):
     def __exit__(self, exc_type, exc_val, exc_tb):
         self.finish()
 
+    def _append_to_store(self, key, expectedrows=None):
+        if self.df_list[key] and key in self.store:
+            storer = self.store.get_storer(key)
+            if not storer.is_table and self.store[key].empty:
+                # Only metadata is stored for this key so far, replace the
+                # empty DataFrame holding it with a table
+                for name in self.metadata_keys.get(key, []):
+                    old_d = getattr(storer.attrs, name)
+                    new_d = self.metadata[key][name]
+                    self.metadata[key][name] = {**old_d, **new_d}
+                self.store.remove(key)
+        super()._append_to_store(key, expectedrows)
+
     def _save_metadata(self):
         print("Saving metadata to HDF5 file")
         for key, submeta in self.metadata.items():
-- 
2.43.0


From dd3eac969b17be07a81296f124bd2e76c6313111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:10 +0000
Subject: [PATCH 26/41] fix: saturation_sum took the switch of the t_event
 column as a sample

---
 CHECLabPy/waveform_reducers/saturation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/saturation.py b/CHECLabPy/waveform_reducers/saturation.py
index 188413e..7cefa10 100644
--- a/CHECLabPy/waveform_reducers/saturation.py
+++ b/CHECLabPy/waveform_reducers/saturation.py
@@ -18,9 +18,9 @@ class Saturation(WaveformReducer):
         Sum of the waveform samples from the start of the pulse to the end of
         the waveform.
         """
-        if "t_event" in self.kwargs:
-            t_event = self.kwargs['t_event']
-        else:
+        # A bool activates/deactivates the t_event column of Timing
+        t_event = self.kwargs.get("t_event", False)
+        if isinstance(t_event, bool):
             avg = np.mean(self.waveforms, axis=0)
             t_event = np.argmax(avg)
             n_samples = self.waveforms.shape[1]
-- 
2.43.0


From 1513a0156d174dae4533548e7963a47a0be50ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:52 +0000
Subject: [PATCH 27/41] fix: pulse timing divided by zero for a flat stretch at
 the searched level

---
 CHECLabPy/waveform_reducers/timing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index c690500..53810fc 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -64,7 +64,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi + 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 fwhm_r = xi + (half_max - yi) * (xj - xi) / (yj - yi)
                 break
 
@@ -73,13 +73,13 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
             xj = xi - 1
             yi = wf[xi]
             yj = wf[xj]
-            if yi >= half_max >= yj:
+            if yi >= half_max >= yj and yi > yj:
                 if not fwhm_l:  # Only set on first time
                     fwhm_l = xi + (half_max - yi) * (xj - xi) / (yj - yi)
-            if yi >= _90percent >= yj:
+            if yi >= _90percent >= yj and yi > yj:
                 if not rt_90:  # Only set on first time
                     rt_90 = xi + (_90percent - yi) * (xj - xi) / (yj - yi)
-            if yi >= _10percent >= yj:
+            if yi >= _10percent >= yj and yi > yj:
                 if not rt_10:  # Only set on first time
                     rt_10 = xi + (_10percent - yi) * (xj - xi) / (yj - yi)
             if fwhm_l and rt_90 and rt_10:
-- 
2.43.0


From 10f056ace00cdcba294288a118e41e9a4035992c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 28/41] fix: pulse timing close to the end of the waveform read
 the next pixel

---
 CHECLabPy/waveform_reducers/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/timing.py b/CHECLabPy/waveform_reducers/timing.py
index 53810fc..c3a01dd 100644
--- a/CHECLabPy/waveform_reducers/timing.py
+++ b/CHECLabPy/waveform_reducers/timing.py
@@ -45,7 +45,7 @@ def obtain_pulse_timing(waveforms, window_start, window_end):
         t_pulse = t + peakpos
         if not 0 <= t_pulse < n_samples:
             continue
-        i_pulse = int(np.round(t_pulse))
+        i_pulse = min(int(np.round(t_pulse)), n_samples - 1)
 
         ###############################
         # __Obtain FWHM and Rise Time__
-- 
2.43.0


From a9f6ea265d3264a8a9fe37b2c06abe883bf21110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:18 +0000
Subject: [PATCH 29/41] fix: AmplitudeMatcher does not alternate for ever
 between two equally distant DACs

---
 CHECLabPy/calib/amplitude_matcher.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/CHECLabPy/calib/amplitude_matcher.py b/CHECLabPy/calib/amplitude_matcher.py
index 5ac9d91..22d0399 100644
--- a/CHECLabPy/calib/amplitude_matcher.py
+++ b/CHECLabPy/calib/amplitude_matcher.py
@@ -123,6 +123,15 @@ class AmplitudeMatcher:
                 stage[isp] += 1
                 continue
 
+            # Equally far on the other side of the aim, avoid stepping back
+            # and forth between the two DACs
+            last_step = int(dac[isp]) - int(previous_dac[isp])
+            if (iteration > 0 and previous_distance[isp] == distance[isp]
+                    and last_step * direction[isp] < 0):
+                stage[isp] += 1
+                if stage[isp] == STAGE.FINISH:
+                    continue
+
             if stage[isp] == STAGE.STEP10:
                 next_dac[isp] += 10 * direction[isp]
             elif stage[isp] == STAGE.STEP5:
-- 
2.43.0


From 2768744fdcbe44f4c6e0d2bca95cb6f4657e1f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 30/41] fix: extract_spe stores the number of pixels, not the
 shape of the charges

---
 CHECLabPy/scripts/extract_spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/scripts/extract_spe.py b/CHECLabPy/scripts/extract_spe.py
index 92dec9f..fa08eff 100644
--- a/CHECLabPy/scripts/extract_spe.py
+++ b/CHECLabPy/scripts/extract_spe.py
@@ -170,7 +170,7 @@ def main():
             files=input_paths,
             fitter=fitter.__class__.__name__,
             n_illuminations=n_illuminations,
-            n_pixels=charges[0].shape,
+            n_pixels=charges[0].shape[1],
             initial=initial,
         )
 
-- 
2.43.0


From c75542e9e7a04eea0e3d18ca135cd09fdd860b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:11 +0000
Subject: [PATCH 31/41] fix: get_row_column handles grids that are not square
 or have a pixel at the origin

---
 CHECLabPy/utils/mapping.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/CHECLabPy/utils/mapping.py b/CHECLabPy/utils/mapping.py
index 9ca40f3..2f47ec0 100644
--- a/CHECLabPy/utils/mapping.py
+++ b/CHECLabPy/utils/mapping.py
@@ -203,16 +203,14 @@ def get_row_column(pix_x, pix_y):
     hist_xc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
     hist_yc = np.histogram2d(pix_x, pix_y, bins=[max_ncol, max_nrow])[0]
     # Find row and col with a complete number of pixels along them
-    full_col = np.bincount(hist_x.nonzero()[0]).argmax()
-    full_row = np.bincount(hist_y.nonzero()[0]).argmax()
+    full_col = np.bincount(hist_xc.nonzero()[0]).argmax()
+    full_row = np.bincount(hist_yc.nonzero()[1]).argmax()
     # Obtain coordinates of the pixels along this row and column
-    full_x = hist_x[:, full_col][hist_xc[:, full_col].nonzero()]
-    full_y = hist_y[full_row, :][hist_yc[full_row, :].nonzero()]
+    full_x = hist_x[:, full_row][hist_xc[:, full_row].nonzero()]
+    full_y = hist_y[full_col, :][hist_yc[full_col, :].nonzero()]
 
     # Define pixel bin edges based on full row and column of pixels
-    mid_dist = np.min(
-        np.sqrt((full_x - full_x[0]) ** 2 + (full_y - full_y[0]) ** 2)[1:]
-    ) / 2
+    mid_dist = dist / 2
     edges_x = np.array([*(full_x - mid_dist), full_x[-1] + mid_dist])
     edges_y = np.array([*(full_y - mid_dist), full_y[-1] + mid_dist])
 
-- 
2.43.0


From 4508426c7261c57b57e6eae647e5f0558b3463aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:15 +0000
Subject: [PATCH 32/41] fix: create_directory does not fail when another
 process creates the directory first

---
 CHECLabPy/utils/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/files.py b/CHECLabPy/utils/files.py
index 5041cb8..b55f19a 100644
--- a/CHECLabPy/utils/files.py
+++ b/CHECLabPy/utils/files.py
@@ -8,7 +8,7 @@ def create_directory(directory):
     if directory:
         if not os.path.exists(directory):
             print("Creating directory: {}".format(directory))
-            os.makedirs(directory)
+            os.makedirs(directory, exist_ok=True)
 
 
 def read_runlist_old(path):
-- 
2.43.0


From c4646c7e030942cd8373e9086c8ce7656c8bd495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 33/41] fix: generate_dl1_config keeps docstrings without a
 final line break inside the comment

---
 CHECLabPy/scripts/generate_dl1_config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CHECLabPy/scripts/generate_dl1_config.py b/CHECLabPy/scripts/generate_dl1_config.py
index a24c3a3..cf10d0c 100644
--- a/CHECLabPy/scripts/generate_dl1_config.py
+++ b/CHECLabPy/scripts/generate_dl1_config.py
@@ -36,14 +36,14 @@ def main():
             f.writelines("# {}\n".format(r.__name__))
             doc = r.__doc__
             if doc and not bare:
-                doc = re.sub(r'(\n\s*)', '\n#  ', doc).strip()[:-1]
-                f.writelines(doc)
+                doc = re.sub(r'(\n\s*)', '\n#  ', '\n' + doc.strip())[1:]
+                f.writelines(doc + "\n")
             for c in r.columns:
                 f.writelines("{}: {}\n".format(c, default.get(c, True)))
                 doc = column.registry[c].__doc__
                 if doc and not bare:
-                    doc = re.sub(r'(\n\s*)', '\n#    ', doc).strip()[:-1]
-                    f.writelines(doc)
+                    doc = re.sub(r'(\n\s*)', '\n#    ', '\n' + doc.strip())[1:]
+                    f.writelines(doc + "\n")
             f.writelines("\n")
 
     print("Config file created: {}".format(output_path))
-- 
2.43.0


From 123f7bfb0807894d6805428213ff037f38420d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:04 +0000
Subject: [PATCH 34/41] fix: keep the photoelectron peaks of the SiPM spectrum
 for large illuminations

The first peaks are negligible for a large lambda_, which ended the loop
before any of the significant ones was added.
---
 CHECLabPy/spectrum_fitters/gentile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/spectrum_fitters/gentile.py b/CHECLabPy/spectrum_fitters/gentile.py
index 776b118..f766520 100644
--- a/CHECLabPy/spectrum_fitters/gentile.py
+++ b/CHECLabPy/spectrum_fitters/gentile.py
@@ -110,7 +110,7 @@ def sipm_gentile_spe(x, eped, eped_sigma, spe, spe_sigma, opct, lambda_):
         # Skip insignificant probabilities
         if pk > pk_max:
             pk_max = pk
-        elif pk < 1e-4:
+        elif pk < 1e-4 and k > lambda_:
             break
 
         # Combine spread of pedestal and pe peaks
-- 
2.43.0


From 21f0e41a6a3ee62e546901713483e5dd9e2fde60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 35/41] fix: never overwrite an earlier pixel mask with one
 committed in the same minute

---
 CHECLabPy/calib/pixel_masks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CHECLabPy/calib/pixel_masks.py b/CHECLabPy/calib/pixel_masks.py
index 71db956..99979f4 100644
--- a/CHECLabPy/calib/pixel_masks.py
+++ b/CHECLabPy/calib/pixel_masks.py
@@ -69,6 +69,10 @@ class PixelMasks:
         """
         now = datetime.now().strftime("d%y%m%dT%H%M")
         path = get_calib_data(f"pixel_masks/{now}.dat")
+        n = 0
+        while os.path.exists(path):  # Keep the masks of the same minute
+            n += 1
+            path = get_calib_data(f"pixel_masks/{now}_{n}.dat")
         self._save_to_file(path)
 
     @property
-- 
2.43.0


From f23a233dc22719dc4f602e25ab376c616129c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:56 +0000
Subject: [PATCH 36/41] fix: keep the rows given to HDF5Writer.append, also if
 the frame is changed afterwards

---
 CHECLabPy/core/io/hdf5_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CHECLabPy/core/io/hdf5_writer.py b/CHECLabPy/core/io/hdf5_writer.py
index 5ae7b1e..9a73fe9 100644
--- a/CHECLabPy/core/io/hdf5_writer.py
+++ b/CHECLabPy/core/io/hdf5_writer.py
@@ -98,7 +98,7 @@ class HDF5Writer:
             Not required, but can speed up the file filling/generation
         """
         self.keys.add(key)
-        self.df_list[key].append(df)
+        self.df_list[key].append(df.copy())
         memory_usage = df.memory_usage(index=True, deep=True).sum()
         self.df_list_n_bytes[key] += memory_usage
         if self.df_list_n_bytes[key] >= 0.5E9:
-- 
2.43.0


From e252a76ee11745f726312d814a7b34934e43d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 37/41] fix: extract_dl1 never writes over the waveform file it
 reads

---
 CHECLabPy/scripts/extract_dl1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 3ea8bad..890f750 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -39,6 +39,8 @@ class DL1Writer(HDF5Writer):
                                                                      '.h5')
             if reader.is_mc:
                 output_path = reader.path.replace('.simtel.gz', '_dl1.h5')
+            if output_path == reader.path:  # Never overwrite the input file
+                output_path += '_dl1.h5'
 
         with cls(output_path) as writer:
             n_events_processed = 0
-- 
2.43.0


From 1667948944968e82410b1b4d93c68faf2f3cad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:09 +0000
Subject: [PATCH 38/41] fix: extract_dl1 refuses one output path for several
 files instead of keeping only the last

---
 CHECLabPy/scripts/extract_dl1.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CHECLabPy/scripts/extract_dl1.py b/CHECLabPy/scripts/extract_dl1.py
index 890f750..51dd9c0 100644
--- a/CHECLabPy/scripts/extract_dl1.py
+++ b/CHECLabPy/scripts/extract_dl1.py
@@ -205,6 +205,8 @@ def main():
 
     input_paths = args.input_paths
     n_files = len(input_paths)
+    if args.output_path and n_files > 1:
+        parser.error("a single output path cannot hold several input files")
     for i_path, input_path in enumerate(input_paths):
         print("PROGRESS: Reducing file {}/{}".format(i_path + 1, n_files))
         reader = WaveformReader.from_path(input_path, args.max_events)
-- 
2.43.0


From 757ba5b129ebe67ea32ba875e154a195b1d474b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 39/41] fix: compute charge statistics in double precision

The charges of a DL1 file are float32: their squares, and sums of those,
do not hold the digits needed for the standard deviation (7% off for
1000 +- 0.5 p.e.). Squares of small integer types overflow.
---
 CHECLabPy/utils/resolutions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/utils/resolutions.py b/CHECLabPy/utils/resolutions.py
index 4a0f9d2..c327e5e 100644
--- a/CHECLabPy/utils/resolutions.py
+++ b/CHECLabPy/utils/resolutions.py
@@ -69,7 +69,8 @@ class ChargeResolution:
         measured : ndarray
             1D array containing the measured charge for each entry
         """
-        diff2 = np.power(measured - true, 2)
+        # Squares of the smaller types overflow, or lose precision
+        diff2 = np.power(measured.astype(np.float64) - true, 2)
         df = pd.DataFrame(dict(
             pixel=pixel,
             true=true,
@@ -172,6 +173,8 @@ class ChargeStatistics:
         charge : ndarray
             1D array containing the measured charge for each entry
         """
+        # Squares of the smaller types overflow, or lose precision
+        charge = charge.astype(np.float64)
         df = pd.DataFrame(dict(
             pixel=pixel,
             amplitude=amplitude,
-- 
2.43.0


From 019d105da675e5873e2a8c7f03fa39ada08e274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 40/41] fix: standard deviation of equal charges is zero, not
 NaN

The variance is a difference of squares, which rounding can leave slightly
negative.
---
 CHECLabPy/utils/resolutions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CHECLabPy/utils/resolutions.py b/CHECLabPy/utils/resolutions.py
index c327e5e..afe9c2c 100644
--- a/CHECLabPy/utils/resolutions.py
+++ b/CHECLabPy/utils/resolutions.py
@@ -215,7 +215,7 @@ class ChargeStatistics:
         sum2 = df_p['sum2'].values
         n = df_p['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_p['mean'] = mean
         df_p['std'] = std
         df_c = self._df.copy().groupby('amplitude').sum().reset_index()
@@ -224,7 +224,7 @@ class ChargeStatistics:
         sum2 = df_c['sum2'].values
         n = df_c['n'].values
         mean = sum_ / n
-        std = np.sqrt((sum2 / n) - (mean**2))
+        std = np.sqrt(np.maximum((sum2 / n) - (mean**2), 0))
         df_c['mean'] = mean
         df_c['std'] = std
         return df_p, df_c
-- 
2.43.0


From ec456b8de28875b58fc9fbe647a375d14787e236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:15 +0000
Subject: [PATCH 41/41] fix: integrate only the samples of a window that lie in
 the waveform

A window starting before the first sample (t_extract or t_event smaller than
window_shift) was sliced with a negative index: the charge was that of samples
at the end of the waveform, or zero.
---
 CHECLabPy/waveform_reducers/average_wf.py | 2 ++
 CHECLabPy/waveform_reducers/saturation.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/CHECLabPy/waveform_reducers/average_wf.py b/CHECLabPy/waveform_reducers/average_wf.py
index ee758f7..91ec3f6 100644
--- a/CHECLabPy/waveform_reducers/average_wf.py
+++ b/CHECLabPy/waveform_reducers/average_wf.py
@@ -43,5 +43,7 @@ class AverageWF(WaveformReducer):
         start = self.t - self.window_shift
         end = start + self.window_size
 
+        # Only the part of the window inside the waveform contributes
+        start, end = max(start, 0), max(end, 0)
         charge = np.sum(self.waveforms[:, start:end], axis=1)
         return charge
diff --git a/CHECLabPy/waveform_reducers/saturation.py b/CHECLabPy/waveform_reducers/saturation.py
index 7cefa10..39c4433 100644
--- a/CHECLabPy/waveform_reducers/saturation.py
+++ b/CHECLabPy/waveform_reducers/saturation.py
@@ -28,7 +28,7 @@ class Saturation(WaveformReducer):
                 t_event = 10
             elif t_event > n_samples - 10:
                 t_event = n_samples - 10
-        start = t_event - self.window_shift
+        start = max(t_event - self.window_shift, 0)
 
         coeff = np.sum(self.waveforms[:, start:], axis=1)
         return coeff
-- 
2.43.0

