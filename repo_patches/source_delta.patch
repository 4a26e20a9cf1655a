From 42cbf0f6090bdb89015e3fed79c658ee504094ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:31 +0000
Subject: [PATCH 01/40] fix: detect request keywords only where they are
 requested

Axis names that contain an operation or period keyword (max_load, minute,
...) were parsed as operations, and a normalization followed by > or < kept
the bound in its name.
---
 SciDataTool/Functions/parser.py | 34 ++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/SciDataTool/Functions/parser.py b/SciDataTool/Functions/parser.py
index 44775bb..70a2fac 100644
--- a/SciDataTool/Functions/parser.py
+++ b/SciDataTool/Functions/parser.py
@@ -34,82 +34,82 @@ def read_input_strings(args, axis_data):
             elif "[" in elems[1]:
                 unit = elems[1].split("[")[0]
             elif ">" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split(">")[0]
             elif "<" in elems[1]:
-                unit = elems[1].split("[")[0]
+                unit = elems[1].split("<")[0]
             else:
                 unit = elems[1]
             name = elems[0]
             axis_str = axis_str.replace("->" + unit, "")
         # Detect max
-        if "max" in axis_str:
+        if "=max" in axis_str:
             elems = axis_str.split("=max")
             name = elems[0]
             extension = "max"
         # Detect min
-        elif "min" in axis_str:
+        elif "=min" in axis_str:
             elems = axis_str.split("=min")
             name = elems[0]
             extension = "min"
         # Detect rms sum
-        elif "rss" in axis_str:
+        elif "=rss" in axis_str:
             elems = axis_str.split("=rss")
             name = elems[0]
             extension = "rss"
         # Detect sum
-        elif "sum" in axis_str:
+        elif "=sum" in axis_str:
             elems = axis_str.split("=sum")
             name = elems[0]
             extension = "sum"
         # Detect rms mean
-        elif "rms" in axis_str:
+        elif "=rms" in axis_str:
             elems = axis_str.split("=rms")
             name = elems[0]
             extension = "rms"
         # Detect mean
-        elif "mean" in axis_str:
+        elif "=mean" in axis_str:
             elems = axis_str.split("=mean")
             name = elems[0]
             extension = "mean"
         # Detect integrate
-        elif "integrate_local" in axis_str:
+        elif "=integrate_local" in axis_str:
             elems = axis_str.split("=integrate_local")
             name = elems[0]
             extension = "integrate_local"
-        elif "integrate" in axis_str:
+        elif "=integrate" in axis_str:
             elems = axis_str.split("=integrate")
             name = elems[0]
             extension = "integrate"
         # Detect antiderivate
-        elif "antiderivate" in axis_str:
+        elif "=antiderivate" in axis_str:
             elems = axis_str.split("=antiderivate")
             name = elems[0]
             extension = "antiderivate"
         # Detect derivate
-        elif "derivate" in axis_str:
+        elif "=derivate" in axis_str:
             elems = axis_str.split("=derivate")
             name = elems[0]
             extension = "derivate"
         # Detect periods
-        elif "oneperiod" in axis_str:
+        elif "[oneperiod" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "oneperiod"
-        elif "antiperiod" in axis_str:
+        elif "[antiperiod" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "antiperiod"
-        elif "smallestperiod" in axis_str:
+        elif "[smallestperiod" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "smallestperiod"
         # Detect pattern
-        elif "pattern" in axis_str:
+        elif "pattern]" in axis_str:
             elems = axis_str.split("[")
             name = elems[0]
             extension = "pattern"
         # Detect axis_data input
-        elif "axis_data" in axis_str:
+        elif "=axis_data" in axis_str:
             elems = axis_str.split("=axis_data")
             name = elems[0]
             if name in axis_data:
-- 
2.43.0


From 5803ee4d5a1c46cd6eb1ec0d46fd2d27b593380e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:17 +0000
Subject: [PATCH 02/40] fix: order requested axes by their exact names

Axes were matched by substring, so a request on axes whose names contain one
another, or together with an unknown axis, depended on the argument order.
---
 SciDataTool/Functions/fix_axes_order.py | 33 ++++++++++++-------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/SciDataTool/Functions/fix_axes_order.py b/SciDataTool/Functions/fix_axes_order.py
index ea6db07..0aad83f 100644
--- a/SciDataTool/Functions/fix_axes_order.py
+++ b/SciDataTool/Functions/fix_axes_order.py
@@ -1,3 +1,5 @@
+import re
+
 from numpy import array
 from SciDataTool.Functions.Plot import fft_dict, ifft_dict
 
@@ -5,20 +7,17 @@ from SciDataTool.Functions.Plot import fft_dict, ifft_dict
 def fix_axes_order(axes_list, args):
     """Put args in same order as axes_list"""
     indices = []
-    for j, arg in enumerate(args):
-        for i, axis in enumerate(axes_list):
-            if (
-                axis in arg
-                or axis in fft_dict
-                and fft_dict[axis] in arg
-                or axis in ifft_dict
-                and ifft_dict[axis] in arg
-            ):
-                indices.append(i)
-                break
-    if len(indices) < len(args):
-        # axis was not in data -> keep same order
-        return args
-    else:
-        sort_indices = array(indices).argsort()
-        return [args[i] for i in sort_indices]
+    for arg in args:
+        # Name of the requested axis, without slices, operation and unit
+        name = re.split(r"->|[=\[<>{]", arg)[0]
+        if name in axes_list:
+            indices.append(axes_list.index(name))
+        elif name in fft_dict and fft_dict[name] in axes_list:
+            indices.append(axes_list.index(fft_dict[name]))
+        elif name in ifft_dict and ifft_dict[name] in axes_list:
+            indices.append(axes_list.index(ifft_dict[name]))
+        else:
+            # axis was not in data -> put it at the end
+            indices.append(len(axes_list))
+    sort_indices = array(indices, dtype=int).argsort(kind="stable")
+    return [args[i] for i in sort_indices]
-- 
2.43.0


From 4acf5f58b62f20d9eee5e68a09f3547795c6b674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:57 +0000
Subject: [PATCH 03/40] fix: keep axis symmetries when slicing over several
 periods

Index and interval requests beyond the stored period removed the symmetries
of the axis of the field, failed for the first sample of the next period,
ignored the sign of antiperiodic samples for negative indices and rebuilt
already extracted intervals.
---
 SciDataTool/Methods/DataND/_extract_slices.py     |  8 ++++++++
 SciDataTool/Methods/DataND/_get_field.py          | 14 +++-----------
 SciDataTool/Methods/DataND/_rebuild_symmetries.py | 10 ++++++----
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_extract_slices.py b/SciDataTool/Methods/DataND/_extract_slices.py
index 8311ad1..8e501f8 100644
--- a/SciDataTool/Methods/DataND/_extract_slices.py
+++ b/SciDataTool/Methods/DataND/_extract_slices.py
@@ -1,5 +1,7 @@
 from numpy import take
 
+from SciDataTool.Functions.symmetries import rebuild_symmetries
+
 
 def _extract_slices(self, values, axes_list):
     """Returns the values of the field (with symmetries and transformations).
@@ -29,6 +31,12 @@ def _extract_slices(self, values, axes_list):
                     axis_requested.indices is not None
                     and axis_requested.transform != "fft"
                 ):
+                    if axis_requested.name not in ["freqs", "wavenumber"] and (
+                        max(axis_requested.indices) >= values.shape[index]
+                        or min(axis_requested.indices) < 0
+                    ):
+                        # Requested indices are among other periods
+                        values = rebuild_symmetries(values, index, axis.symmetries)
                     values = take(values, axis_requested.indices, axis=index)
         if not is_match:  # Axis was not specified -> take slice at the first value
             axes_dict_other[axis.name] = [axis.get_values()[0], axis.unit]
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 95c5969..9e872f8 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -43,16 +43,8 @@ def _get_field(self, axes_list):
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
         elif axis_requested.transform == "fft" and "antiperiod" in axis_symmetries:
             # FFT case if axis is anti-periodic
-            nper = axis_symmetries["antiperiod"]
-            axis_symmetries["antiperiod"] = 2
-            values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            axis_symmetries["antiperiod"] = nper
-        elif (
-            axis_requested.indices is not None
-            and max(axis_requested.indices) > values.shape[axis_requested.index]
-        ):
-            # Slicing case where requested indices are among other periods
-            values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            self.axes[axis_requested.index].symmetries = dict()
+            values = rebuild_symmetries(
+                values, axis_requested.index, dict(axis_symmetries, antiperiod=2)
+            )
 
     return values
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 4a16f4f..4735d61 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -25,6 +25,9 @@ def _rebuild_symmetries(
     """
 
     for axis in axes_list:
+        if axis.indices is not None:
+            # Samples have already been extracted among all periods
+            continue
         if (
             axis.transform != "fft"
             and axis.is_pattern
@@ -88,10 +91,9 @@ def _rebuild_symmetries(
             axis_symmetries = self.axes[axis.index].symmetries
             if is_oneperiod:
                 if "antiperiod" in axis_symmetries:
-                    nper = axis_symmetries["antiperiod"]
-                    axis_symmetries["antiperiod"] = 2
-                    values = rebuild_symmetries_fct(values, axis.index, axis_symmetries)
-                    axis_symmetries["antiperiod"] = nper
+                    values = rebuild_symmetries_fct(
+                        values, axis.index, dict(axis_symmetries, antiperiod=2)
+                    )
             elif not is_smallestperiod and not is_antiperiod:
                 values = rebuild_symmetries_fct(values, axis.index, axis_symmetries)
     return values
-- 
2.43.0


From ac4318e65121411e476fd6e7a209e6917ce95d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:03 +0000
Subject: [PATCH 04/40] fix: repeat periodic axes that do not start at zero
 without gap

---
 SciDataTool/Functions/symmetries.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/symmetries.py b/SciDataTool/Functions/symmetries.py
index 068be3a..c8e8c47 100644
--- a/SciDataTool/Functions/symmetries.py
+++ b/SciDataTool/Functions/symmetries.py
@@ -54,7 +54,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     elif "antiperiod" in symmetries.keys():
@@ -70,7 +73,10 @@ def rebuild_symmetries_axis(values, symmetries):
                 values_new = concatenate(
                     (
                         values_new,
-                        values + (values_new[-1] - values_new[-2]) + values_new[-1],
+                        values
+                        - values[0]
+                        + (values_new[-1] - values_new[-2])
+                        + values_new[-1],
                     )
                 )
     return values_new
-- 
2.43.0


From cb46f8947f471886e1fbcf0ba61dca17d46c88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:16 +0000
Subject: [PATCH 05/40] fix: compare requested coordinates with the axis in the
 requested unit

---
 SciDataTool/Methods/RequestedAxis/get_axis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index 12a770c..cf49d77 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -116,8 +116,10 @@ def get_axis(self, axis, is_real):
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
+                    unit=self.unit,
                     operation=self.operation,
                     is_real=is_real,
+                    corr_unit=self.corr_unit,
                 )
                 if min(self.input_data) >= min(axis_values) and max(
                     self.input_data
@@ -128,8 +130,10 @@ def get_axis(self, axis, is_real):
                 else:
                     axis_values = axis.get_values(
                         is_oneperiod=True,
+                        unit=self.unit,
                         operation=self.operation,
                         is_real=is_real,
+                        corr_unit=self.corr_unit,
                     )
                     if min(self.input_data) >= min(axis_values) and max(
                         self.input_data
-- 
2.43.0


From 825240ec59a8dabedbdf96e09f596663d421de10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:58 +0000
Subject: [PATCH 06/40] fix: hand out copies and keep normalization vectors
 untouched by requests

Requests returned views of the stored values, axes and normalization vectors,
and a refused request could leave a normalization vector rebuilt.
---
 SciDataTool/Methods/Data1D/get_values.py      | 35 ++++++++-----------
 .../Methods/DataLinspace/get_values.py        | 33 +++++++----------
 SciDataTool/Methods/DataND/_get_field.py      |  2 +-
 SciDataTool/Methods/DataPattern/get_values.py |  4 +--
 SciDataTool/Methods/Norm_vector/normalize.py  |  2 +-
 5 files changed, 31 insertions(+), 45 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index d691c22..62526d9 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -49,8 +49,9 @@ def get_values(
             normalization = unit
             unit = "SI"
 
-    values = self.values
-    norm_vector = None
+    values = self.values.copy()
+    # Symmetries to be rebuilt
+    symmetries = None
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -66,26 +67,15 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = dict(self.symmetries, antiperiod=2)
         elif "period" in self.symmetries:
             pass
         else:
             pass
     else:
-        values = rebuild_symmetries_axis(values, self.symmetries)
-        if (
-            normalization is not None
-            and normalization in self.normalizations
-            and isinstance(self.normalizations[normalization], Norm_vector)
-        ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+        symmetries = self.symmetries
+    if symmetries is not None:
+        values = rebuild_symmetries_axis(values, symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -108,7 +98,13 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                norm = self.normalizations[normalization]
+                if isinstance(norm, Norm_vector) and symmetries is not None:
+                    # Rebuild symmetries of the normalization vector
+                    norm = Norm_vector(
+                        vector=rebuild_symmetries_axis(norm.vector, symmetries)
+                    )
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -121,7 +117,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index ab49789..849f8ae 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -61,7 +61,8 @@ def get_values(
         final = self.final
     values = linspace(initial, final, int(number), endpoint=self.include_endpoint)
 
-    norm_vector = None
+    # Symmetries to be rebuilt
+    symmetries = None
 
     # Ignore symmetries if fft axis
     if self.name == "freqs" or self.name == "wavenumber":
@@ -77,26 +78,15 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            symmetries = dict(self.symmetries, antiperiod=2)
         elif "period" in self.symmetries:
             pass
         else:
             pass
     else:
-        values = rebuild_symmetries_axis(values, self.symmetries)
-        if (
-            normalization is not None
-            and normalization in self.normalizations
-            and isinstance(self.normalizations[normalization], Norm_vector)
-        ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
-            )
+        symmetries = self.symmetries
+    if symmetries is not None:
+        values = rebuild_symmetries_axis(values, symmetries)
 
     # fft/ifft
     if operation is not None:
@@ -119,7 +109,13 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                norm = self.normalizations[normalization]
+                if isinstance(norm, Norm_vector) and symmetries is not None:
+                    # Rebuild symmetries of the normalization vector
+                    norm = Norm_vector(
+                        vector=rebuild_symmetries_axis(norm.vector, symmetries)
+                    )
+                values = norm.normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -132,7 +128,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 9e872f8..9fe0d62 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -16,7 +16,7 @@ def _get_field(self, axes_list):
         values of the field
     """
 
-    values = self.values
+    values = self.values.copy()
     for axis_requested in axes_list:
         # Rebuild symmetries when needed
         axis_symmetries = self.axes[axis_requested.index].symmetries
diff --git a/SciDataTool/Methods/DataPattern/get_values.py b/SciDataTool/Methods/DataPattern/get_values.py
index 7ceac9d..051a2eb 100644
--- a/SciDataTool/Methods/DataPattern/get_values.py
+++ b/SciDataTool/Methods/DataPattern/get_values.py
@@ -41,14 +41,14 @@ def get_values(
     -------
     Vector of axis values
     """
-    values = self.values
+    values = self.values.copy()
 
     # Rebuild pattern
     if is_smallestperiod or is_pattern:
         pass
     else:
         if self.values_whole is not None:
-            values = self.values_whole
+            values = self.values_whole.copy()
         else:
             values = values[self.rebuild_indices]
 
diff --git a/SciDataTool/Methods/Norm_vector/normalize.py b/SciDataTool/Methods/Norm_vector/normalize.py
index c88b187..fc34bd6 100644
--- a/SciDataTool/Methods/Norm_vector/normalize.py
+++ b/SciDataTool/Methods/Norm_vector/normalize.py
@@ -21,4 +21,4 @@ def normalize(
             "Normalization vector is not the same length as axis, cannot normalize"
         )
     else:
-        return self.vector
+        return self.vector.copy()
-- 
2.43.0


From 27e68a08ca50ca07bd278e4476f950583d687c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:30:23 +0000
Subject: [PATCH 07/40] fix: reductions over periodic and antiperiodic axes

Sample-based means were multiplied by the number of periods, maxima and
minima ignored the opposite half of antiperiodic axes, sums and means of
spectra of antiperiodic fields were always zero, and reductions that dropped
their axis broke operations on the following axes.
---
 .../Functions/derivation_integration.py       |  4 ++--
 SciDataTool/Functions/sum_mean.py             | 21 +++++++------------
 .../Methods/DataND/_apply_operations.py       | 10 ++++++---
 3 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index b8c4f39..12bcd6b 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -223,8 +223,8 @@ def integrate(values, ax_val, index, Nper, is_aper, is_phys, is_mean=False):
         shape = list(values.shape)
         if is_aper:
             # Integration of anti-periodic signal yields zero
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
             # Swap axis to always have integration axis on 1st position
             values = np.swapaxes(values, index, 0)
diff --git a/SciDataTool/Functions/sum_mean.py b/SciDataTool/Functions/sum_mean.py
index f84c518..e9ccb56 100644
--- a/SciDataTool/Functions/sum_mean.py
+++ b/SciDataTool/Functions/sum_mean.py
@@ -24,11 +24,11 @@ def my_sum(values, index, Nper, is_aper, unit, is_fft, corr_unit="SI"):
         arithmetic sum of values
     """
 
-    if is_aper:
+    if is_aper and not is_fft:
         # Sum of anti-periodic signal yields zero
         shape = list(values.shape)
-        shape0 = [s for ii, s in enumerate(shape) if ii != index]
-        values = np.zeros(shape0, dtype=values.dtype)
+        shape[index] = 1
+        values = np.zeros(shape, dtype=values.dtype)
     else:
         # To sum dB or dBA
         if "dB" in unit:
@@ -83,19 +83,14 @@ def my_mean(values, ax_val, index, Nper, is_aper, is_phys, is_fft):
         # Integrate values and take mean value by dividing by integration interval in integrate()
         values = integrate(values, ax_val, index, Nper, is_aper, is_phys, is_mean=True)
     else:
-        if is_aper:
+        if is_aper and not is_fft:
             # Average of anti-periodic signal yields zero
             shape = list(values.shape)
-            shape0 = [s for ii, s in enumerate(shape) if ii != index]
-            values = np.zeros(shape0, dtype=values.dtype)
+            shape[index] = 1
+            values = np.zeros(shape, dtype=values.dtype)
         else:
-            if is_fft:  # No need to multiply by Nper in fft case
-                Nper = 1
-            # Take mean value multiplied by periodicity
-            if Nper is None:
-                # Set Nper to 1 in case of non-periodic axis
-                Nper = 1
-            values = Nper * np.nanmean(values, axis=index)
+            # Mean value does not depend on periodicity
+            values = np.nanmean(values, axis=index, keepdims=True)
 
     return values
 
diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 672dfd5..308933e 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -1,4 +1,4 @@
-from numpy import abs as np_abs, nanmax, nanmin
+from numpy import abs as np_abs, concatenate, nanmax, nanmin
 
 from SciDataTool.Functions.derivation_integration import (
     derivate,
@@ -58,10 +58,14 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             is_fft = False
         # max over max axes
         if extension in "max":
-            values = nanmax(values, axis=index)
+            if is_aper and not is_fft:
+                values = concatenate((values, -values), axis=index)
+            values = nanmax(values, axis=index, keepdims=True)
         # min over max axes
         elif extension in "min":
-            values = nanmin(values, axis=index)
+            if is_aper and not is_fft:
+                values = concatenate((values, -values), axis=index)
+            values = nanmin(values, axis=index, keepdims=True)
         # sum over sum axes
         elif extension in "sum":
             values = my_sum(
-- 
2.43.0


From b207a92ffd1734eb7849d938a00faf5ae32e4092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:12 +0000
Subject: [PATCH 08/40] fix: number of samples of linspace axes defined by
 their step

Length, values and dimension check of such axes disagreed by one sample
(rounding, excluded end point).
---
 SciDataTool/Classes/_check.py                  | 5 +----
 SciDataTool/Methods/DataLinspace/get_length.py | 4 +++-
 SciDataTool/Methods/DataLinspace/get_values.py | 7 +++++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 1e9389f..9aab862 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -352,10 +352,7 @@ def check_dimensions(values, axes):
             if hasattr(axis, "values"):
                 axes_shape.append(axis.values.size)
             else:
-                try:
-                    axes_shape.append(int(axis.number))
-                except:
-                    axes_shape.append(round((axis.final - axis.initial) / axis.step))
+                axes_shape.append(int(axis.get_length(is_smallestperiod=True)))
 
         if values_shape != tuple(axes_shape):
             for i, s in enumerate(axes_shape):
diff --git a/SciDataTool/Methods/DataLinspace/get_length.py b/SciDataTool/Methods/DataLinspace/get_length.py
index 7c59dfd..48d9598 100644
--- a/SciDataTool/Methods/DataLinspace/get_length.py
+++ b/SciDataTool/Methods/DataLinspace/get_length.py
@@ -17,7 +17,9 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     """
 
     if self.number is None:
-        N = round((self.final - self.initial + self.step) / self.step)
+        N = round((self.final - self.initial) / self.step)
+        if self.include_endpoint:
+            N += 1
     else:
         N = self.number
 
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index 849f8ae..a3c1838 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -52,10 +52,13 @@ def get_values(
     initial = self.initial
     if self.number == None:
         final = self.final
-        number = (final - initial + self.step) / self.step
+        number = self.get_length(is_smallestperiod=True)
     elif self.final == None:
         number = self.number
-        final = self.initial + (number - 1) * self.step
+        if self.include_endpoint:
+            final = self.initial + (number - 1) * self.step
+        else:
+            final = self.initial + number * self.step
     else:
         number = self.number
         final = self.final
-- 
2.43.0


From 8f53204730fb4d5675375289b6a83ed6ecc5e211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:27 +0000
Subject: [PATCH 09/40] fix: conversion of axes to linspace with numpy integers
 and small steps

Spectra with integer wavenumbers could not be converted, and axes with a very
small or very large step were taken for linspaces although they are not.
---
 SciDataTool/Methods/Data1D/to_linspace.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 025de20..521b2dc 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -25,20 +25,22 @@ def to_linspace(self):
         and allclose(
             values,
             linspace(values[0], values[-1], number, endpoint=True),
-            rtol=1e-5,
-            atol=1e-8,
+            rtol=0,
+            atol=1e-8 * abs(values[-1] - values[0]),
             equal_nan=False,
         )
     ):
         New_axis = DataLinspace(
-            initial=values[0],
-            final=values[-1],
+            initial=float(values[0]),
+            final=float(values[-1]),
             number=number,
             include_endpoint=True,
             name=self.name,
             unit=self.unit,
-            symmetries=self.symmetries,
-            normalizations=self.normalizations.copy(),
+            symmetries=self.symmetries.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
             is_components=self.is_components,
             symbol=self.symbol,
         )
-- 
2.43.0


From 7e1b92150bb7d1356ab6298f463c6d2e954863f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:03 +0000
Subject: [PATCH 10/40] fix: spectra of signals that do not start at zero and
 time axis of spectra with two or odd lines

---
 SciDataTool/Functions/fft_functions.py | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 32239cf..389aa64 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -76,11 +76,9 @@ def comp_fft_time(freqs, is_angle, is_real):
     else:
         if is_real and not is_angle:
             N_tot = 2 * (len(freqs) - 1)  # Number of samples
-            fs = freqs[-1] / (N_tot)
         else:
             N_tot = len(freqs)  # Number of samples
-            fs = freqs[-1] / (N_tot - 2)
-        tf = 1 / (fs * 2)
+        tf = (len(freqs) - 1) / (freqs[-1] - freqs[0])
         time = linspace(0, tf, N_tot, endpoint=False)
         # fsampt = freqs[-1] * 2.0
         # timestep = 1.0 / fsampt
@@ -221,7 +219,7 @@ def comp_fftn(values, axes_list, is_real=True):
     for axis in axes_list:
         if axis.transform == "fft":
             if axis.corr_values is not None and len(axis.corr_values) > 1:  # Timesteps
-                if not is_uniform(axis.corr_values):
+                if not is_uniform(axis.corr_values - axis.corr_values[0]):
                     is_non_uniform = True
                     axes_dict_non_uniform[axis.index] = [
                         axis.corr_values,
@@ -289,17 +287,12 @@ def comp_fftn(values, axes_list, is_real=True):
         if is_onereal:
             values_FT = rfftn(values, axes=axes)
             # Do not multiply constant component by 2 (f=0)
-            if axes_list[axes[-1]].corr_values is not None:
-                freqs = axes_list[axes[-1]].corr_values
-            else:
-                freqs = axes_list[axes[-1]].values
-            if freqs[0] == 0:
-                slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 = take(values_FT, 0, axis=axes[-1])
+            slice_0 *= 0.5
+            if is_twice:
                 slice_0 *= 0.5
-                if is_twice:
-                    slice_0 *= 0.5
-                other_values = delete(values_FT, 0, axis=axes[-1])
-                values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
+            other_values = delete(values_FT, 0, axis=axes[-1])
+            values_FT = insert(other_values, 0, slice_0, axis=axes[-1])
             values_FT2 = 2.0 * fftshift(values_FT, axes=axes[:-1]) / size
             if is_twice:
                 values_FT2 *= 2.0
-- 
2.43.0


From 263daf7e18242b5a43400621101131044f84a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:50 +0000
Subject: [PATCH 11/40] fix: operations on anti-periodic axes after operations
 that lose signs

---
 .../Methods/DataND/_apply_operations.py       | 42 ++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_apply_operations.py b/SciDataTool/Methods/DataND/_apply_operations.py
index 308933e..0e3b53b 100644
--- a/SciDataTool/Methods/DataND/_apply_operations.py
+++ b/SciDataTool/Methods/DataND/_apply_operations.py
@@ -1,4 +1,4 @@
-from numpy import abs as np_abs, concatenate, nanmax, nanmin
+from numpy import abs as np_abs, concatenate, nanmax, nanmin, take
 
 from SciDataTool.Functions.derivation_integration import (
     derivate,
@@ -14,6 +14,18 @@ from SciDataTool.Functions.sum_mean import (
     root_sum_square,
 )
 
+operation_list = [
+    "max",
+    "min",
+    "sum",
+    "rss",
+    "mean",
+    "rms",
+    "integrate",
+    "antiderivate",
+    "derivate",
+]
+
 
 def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
     """Returns the values of the field transformed or converted
@@ -29,6 +41,25 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
         values of the field
     """
 
+    # Signs are lost with magnitudes, norms and extrema: anti-periodicities no longer hold
+    # afterwards, so values must be rebuilt over a full period before
+    is_unsigned = is_magnitude and "dB" not in unit
+    n_stored = {}
+    for axis_requested in axes_list:
+        extension = axis_requested.extension
+        index = axis_requested.index
+        if (
+            is_unsigned
+            and not axis_requested.is_pattern
+            and axis_requested.name not in ["freqs", "frequency", "wavenumber"]
+            and extension in operation_list
+            and self.axes[index].get_periodicity()[1]
+        ):
+            n_stored[index] = values.shape[index]
+            values = concatenate((values, -values), axis=index)
+        if extension in ["max", "min", "rss", "rms"]:
+            is_unsigned = True
+
     # Take magnitude before summing
     if is_magnitude and "dB" not in unit:
         values = np_abs(values)
@@ -43,6 +74,12 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
             Nper, is_aper = None, None
         else:
             Nper, is_aper = self.axes[index].get_periodicity()
+        if index in n_stored:
+            Nper, is_aper = Nper / 2, False
+            if ax_val.size > 1:
+                ax_val = concatenate(
+                    (ax_val, ax_val + ax_val[-1] - 2 * ax_val[0] + ax_val[1])
+                )
         if axis_requested.name in ["time", "angle", "z"]:
             is_phys = True
             is_freqs = False
@@ -112,6 +149,9 @@ def _apply_operations(self, values, axes_list, is_magnitude, unit, corr_unit):
         # derivation over derivation axes
         elif extension == "derivate":
             values = derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs)
+        # Keep stored samples only
+        if index in n_stored:
+            values = take(values, range(min(n_stored[index], values.shape[index])), index)
 
     if is_magnitude and "dB" in unit:  # Correction for negative/small dB/dBA
         values[values < 2] = 0
-- 
2.43.0


From fdcb1a90aef7acbd26c3ec5bce4a1bb50fccf38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:50 +0000
Subject: [PATCH 12/40] fix: primitives of non zero-mean fields and derivatives
 on shifted or pattern axes

---
 .../Functions/derivation_integration.py       | 20 +++++++++++--------
 .../Methods/DataND/_rebuild_symmetries.py     |  1 +
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index 12bcd6b..afd99c7 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -64,13 +64,15 @@ def antiderivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # in case of periodicity (respectively anti-periodicity)
                 values_full[-1, ...] = (-1) ** int(is_aper) * values[0, ...]
             # Anti-derivate along axis
-            values = np.roll(
-                scp_int.cumulative_trapezoid(values_full, x=ax_full, axis=0),
-                shift=1,
-                axis=0,
+            values_int = scp_int.cumulative_trapezoid(
+                values_full, x=ax_full, axis=0, initial=0
             )
+            values = values_int[: ax_val.size, ...]
             # Integration constant is given by removing average value
-            values = values - np.mean(values, axis=0)
+            if is_aper:
+                values = values - values_int[-1, ...] / 2
+            else:
+                values = values - np.mean(values, axis=0)
             # Get N first values and swap axes back to origin
             values = np.swapaxes(values, 0, index)
 
@@ -311,7 +313,7 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 # Create the full vector of axis values
                 ax_full = np.concatenate(
                     (
-                        np.array([ax_val[0] - ax_val[1]]),
+                        np.array([2 * ax_val[0] - ax_val[1]]),
                         ax_val,
                         np.array([ax_val[-1] + ax_val[1] - ax_val[0]]),
                     )
@@ -328,8 +330,10 @@ def derivate(values, ax_val, index, Nper, is_aper, is_phys, is_freqs):
                 values_full[0, ...] = (-1) ** int(is_aper) * values[-1, ...]
             # Derivate along axis
             values = np.gradient(values_full, ax_full, axis=0)
-            # Get N first values and swap axes back to origin
-            values = np.swapaxes(values[1:-1, ...], 0, index)
+            # Remove added samples and swap axes back to origin
+            if values.shape[0] > ax_val.size:
+                values = values[1:-1, ...]
+            values = np.swapaxes(values, 0, index)
 
         else:
             raise Exception("Cannot derivate along axis if axis size is 1")
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 4735d61..2db7bb0 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -43,6 +43,7 @@ def _rebuild_symmetries(
                     "integrate",
                     "integrate_local",
                     "derivate",
+                    "antiderivate",
                     "smallestperiod",
                 ]
                 and axis.indices is None
-- 
2.43.0


From 5001f0cb2398c4b4e1bef3fbb30d632f731e10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:26 +0000
Subject: [PATCH 13/40] fix: inverse transform of two-sided and one-sided
 wavenumber spectra

---
 SciDataTool/Functions/fft_functions.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index 389aa64..cd49182 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -444,7 +444,13 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                 axes.append(axis.index)
                 shape.append(2 * (values.shape[axis.index] - 1))
                 is_onereal = True
-            elif is_real and axis.name == "angle" and "time" not in axis_names:
+            elif (
+                is_real
+                and axis.name == "angle"
+                and "time" not in axis_names
+                and axis.corr_values is not None
+                and min(axis.corr_values) >= 0
+            ):
                 axes.append(axis.index)
                 shape.append(values.shape[axis.index])
                 is_half = True
@@ -466,13 +472,9 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
             values = insert(other_values, 0, slice_0, axis=axes[-1])
             values_IFT = irfftn(values, axes=axes)
         elif is_half:
-            values = values * size / 2
-            values_shift = ifftshift(values, axes=axes[:-1])
-            slice_0 = take(values_shift, 0, axis=axes[-1])
-            slice_0 *= 2
-            other_values = delete(values_shift, 0, axis=axes[-1])
-            values = insert(other_values, 0, slice_0, axis=axes[-1])
-            values_IFT = ifftn(values, axes=axes)
+            # One-sided spectrum: lines are already in ascending order
+            values_shift = ifftshift(values, axes=axes[:-1]) * size
+            values_IFT = ifftn(values_shift, axes=axes)
         else:
             values_shift = ifftshift(values, axes=axes) * size
             values_IFT = ifftn(values_shift, axes=axes)
-- 
2.43.0


From 6d8b2a64a0344da31e21eb16ecfa2313a7ccf09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:03 +0000
Subject: [PATCH 14/40] fix: rewriting of axes on another periodicity and
 length of spectral axes

---
 SciDataTool/Methods/Data1D/get_axis_periodic.py  | 16 ++++++++++++----
 SciDataTool/Methods/Data1D/get_length.py         |  4 ++++
 .../Methods/DataLinspace/get_axis_periodic.py    | 14 +++++++++++---
 SciDataTool/Methods/DataLinspace/get_length.py   |  4 ++++
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index f5fb4ee..ec65d53 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -1,4 +1,5 @@
 from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.symmetries import rebuild_symmetries_axis
 from SciDataTool.Classes.Norm_vector import Norm_vector
 
 
@@ -27,15 +28,20 @@ def get_axis_periodic(self, Nper, is_aper=False):
     try:
         # Reduce axis to the given periodicity
         Nper = Nper * 2 if is_aper else Nper
-        values = self.values
+        values = self.get_values()
         N = self.get_length()
 
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = {
+            key: norm.copy() for key, norm in self.normalizations.items()
+        }
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                norm.vector = rebuild_symmetries_axis(norm.vector, self.symmetries)[
+                    : int(N / Nper)
+                ]
 
         if is_aper:
             sym = "antiperiod"
@@ -46,13 +52,15 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1 and N > 1:
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = Data1D(
             values=values_per,
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations,
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/Data1D/get_length.py b/SciDataTool/Methods/Data1D/get_length.py
index 549d243..6354629 100644
--- a/SciDataTool/Methods/Data1D/get_length.py
+++ b/SciDataTool/Methods/Data1D/get_length.py
@@ -16,6 +16,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     Length of axis
     """
     N = len(self.values)
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
diff --git a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
index 15e6887..57efe29 100644
--- a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
+++ b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
@@ -1,4 +1,5 @@
 from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.symmetries import rebuild_symmetries_axis
 from SciDataTool.Classes.Norm_vector import Norm_vector
 
 
@@ -33,9 +34,14 @@ def get_axis_periodic(self, Nper, is_aper=False):
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = {
+            key: norm.copy() for key, norm in self.normalizations.items()
+        }
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                norm.vector = rebuild_symmetries_axis(norm.vector, self.symmetries)[
+                    : int(N / Nper)
+                ]
 
         if is_aper:
             sym = "antiperiod"
@@ -46,6 +52,8 @@ def get_axis_periodic(self, Nper, is_aper=False):
             symmetries = dict()
         else:
             symmetries = {sym: Nper}
+            if len(values_per) == 1 and N > 1:
+                symmetries["delta"] = values[1] - values[0]
 
         New_axis = DataLinspace(
             initial=self.initial,
@@ -55,7 +63,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations.copy(),
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataLinspace/get_length.py b/SciDataTool/Methods/DataLinspace/get_length.py
index 48d9598..656ed58 100644
--- a/SciDataTool/Methods/DataLinspace/get_length.py
+++ b/SciDataTool/Methods/DataLinspace/get_length.py
@@ -23,6 +23,10 @@ def get_length(self, is_oneperiod=False, is_antiperiod=False, is_smallestperiod=
     else:
         N = self.number
 
+    # Ignore symmetries if fft axis
+    if self.name == "freqs" or self.name == "wavenumber":
+        is_smallestperiod = True
+
     # Rebuild symmetries
     if is_smallestperiod:
         return N
-- 
2.43.0


From 039cbc936498a577dc6ee96692a2263813c67b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:50 +0000
Subject: [PATCH 15/40] fix: interpolation on close, unordered, repeated and
 two-valued coordinates and of integer fields

---
 SciDataTool/Functions/interpolations.py       | 42 +++++++++----------
 SciDataTool/Methods/RequestedAxis/get_axis.py |  5 ++-
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 2ef5e8d..9ba7023 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -10,7 +10,9 @@ from numpy import (
     abs as np_abs,
     where,
     zeros,
-    unique,
+    full,
+    nan,
+    result_type,
 )
 from scipy.interpolate import interp1d
 
@@ -86,20 +88,18 @@ def get_interpolation(values, axis_values, new_axis_values, index):
         ):
             new_shape = list(values.shape)
             new_shape[index] = 1
-            new_values = zeros(tuple(new_shape), dtype=values.dtype)
-            new_values[(slice(None),) * index] = None
-            return new_values
+            return full(tuple(new_shape), nan, dtype=result_type(values, float))
         else:
             idx = argmin(np_abs(axis_values - new_axis_values[0]))
             return take(values, [idx], axis=index)
     elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
+        isclose(axis_values, new_axis_values, rtol=1e-09, atol=0)
     ):  # Same axes -> no interpolation
         return values
     elif isin(
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
-        indice_take = where(isin(axis_values, new_axis_values))[0]
+        indice_take = [where(axis_values == value)[0][0] for value in new_axis_values]
 
         return take(
             values,
@@ -132,24 +132,17 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
     #     idx = argmin(np_abs(axis_values - new_axis_values[0]))
     #     return take(values, [idx])
     elif len(axis_values) == len(new_axis_values) and all(
-        isclose(axis_values, new_axis_values, rtol=1e-03)
+        isclose(axis_values, new_axis_values, rtol=1e-09, atol=0)
     ):  # Same axes -> no interpolation
         return values
     elif isin(
         new_axis_values, axis_values
     ).all():  # New axis is subset -> no interpolation
-        values_slices = []
-        indice_take = where(isin(axis_values, new_axis_values))[0]
-        _, idx_start, count = unique(
-            axis_values[indice_take], return_counts=True, return_index=True
-        )
-        if len(idx_start) > 0:
-            for i, ii in enumerate(idx_start):
-                values_slices.append(
-                    take(values, indice_take[ii : ii + count[i]], axis=index).mean(
-                        axis=index
-                    )
-                )
+        values_slices = [
+            take(values, where(axis_values == value)[0], axis=index).mean(axis=index)
+            for value in new_axis_values
+        ]
+        if len(values_slices) > 0:
             return stack(values_slices, axis=index)
         else:
             return take(values, [], axis=index)
@@ -157,7 +150,8 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
     else:
         new_shape = list(values.shape)
         new_shape[index] = len(new_axis_values)
-        new_values = zeros(tuple(new_shape), dtype=values.dtype)
+        new_values = zeros(tuple(new_shape), dtype=result_type(values, float))
+        atol = 1e-09 * np_abs(axis_values[-1] - axis_values[0])
         if len(axis_values) == 1 or all(axis_values == axis_values[0]):
             for i in range(len(new_axis_values)):
                 new_values[(slice(None),) * index + (i,)] = take(values, 0, axis=index)
@@ -166,8 +160,10 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
             for i in range(len(new_axis_values)):
                 for j in range(len(axis_values) - 1):
                     if isclose(
-                        new_axis_values[i], axis_values[j], rtol=1e-03
-                    ) and isclose(new_axis_values[i], axis_values[j + 1], rtol=1e-03):
+                        new_axis_values[i], axis_values[j], rtol=0, atol=atol
+                    ) and isclose(
+                        new_axis_values[i], axis_values[j + 1], rtol=0, atol=atol
+                    ):
                         new_values[(slice(None),) * index + (i,)] = (
                             take(values, j, axis=index)
                             + take(values, j + 1, axis=index)
@@ -177,7 +173,7 @@ def get_interpolation_step(values, axis_values, new_axis_values, index):
                         new_axis_values[i] >= axis_values[j]
                         and new_axis_values[i] < axis_values[j + 1]
                         and not isclose(
-                            new_axis_values[i], axis_values[j + 1], rtol=1e-03
+                            new_axis_values[i], axis_values[j + 1], rtol=0, atol=atol
                         )
                     ):
                         new_values[(slice(None),) * index + (i,)] = take(
diff --git a/SciDataTool/Methods/RequestedAxis/get_axis.py b/SciDataTool/Methods/RequestedAxis/get_axis.py
index cf49d77..a643563 100644
--- a/SciDataTool/Methods/RequestedAxis/get_axis.py
+++ b/SciDataTool/Methods/RequestedAxis/get_axis.py
@@ -31,6 +31,7 @@ def get_axis(self, axis, is_real):
         an Axis object
     """
 
+    is_axis_data = self.extension == "axis_data"
     if self.operation is not None:
         module = import_module("SciDataTool.Functions.conversions")
         func = getattr(module, self.operation)  # Conversion function
@@ -112,7 +113,7 @@ def get_axis(self, axis, is_real):
             is_oneperiod = False
             is_antiperiod = False
         else:
-            if self.input_data is not None and not self.is_step:
+            if self.input_data is not None and not self.is_pattern:
                 # Check if symmetries need to be reconstructed to match input_data
                 axis_values = axis.get_values(
                     is_smallestperiod=True,
@@ -214,7 +215,7 @@ def get_axis(self, axis, is_real):
         if self.input_data is None:
             self.values = values
         else:
-            if len(self.input_data) == 2 and self.extension != "axis_data":
+            if len(self.input_data) == 2 and not is_axis_data:
                 indices = [
                     i
                     for i, x in enumerate(values)
-- 
2.43.0


From 25befa239c11bc564e4606191a6da14784e972d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:35:50 +0000
Subject: [PATCH 16/40] fix: indices, first sample and local integrals on
 pattern axes

---
 SciDataTool/Functions/derivation_integration.py | 2 +-
 SciDataTool/Methods/DataND/_extract_slices.py   | 6 +++++-
 SciDataTool/Methods/DataND/_get_field.py        | 5 +++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/derivation_integration.py b/SciDataTool/Functions/derivation_integration.py
index afd99c7..6c3b4e2 100644
--- a/SciDataTool/Functions/derivation_integration.py
+++ b/SciDataTool/Functions/derivation_integration.py
@@ -169,7 +169,7 @@ def integrate_local_pattern(values, ax_val, index):
         # Init output arrays
         shape = list(values.shape[1:])
         shape.insert(0, values.shape[0] - 1)
-        values_int = np.zeros(shape, dtype=values.dtype)
+        values_int = np.zeros(shape, dtype=np.result_type(values, float))
         ax_int = np.zeros(shape[0])
 
         # Trapezoidal integration on each segment and calculate position of each segment middle
diff --git a/SciDataTool/Methods/DataND/_extract_slices.py b/SciDataTool/Methods/DataND/_extract_slices.py
index 8e501f8..2a174ba 100644
--- a/SciDataTool/Methods/DataND/_extract_slices.py
+++ b/SciDataTool/Methods/DataND/_extract_slices.py
@@ -1,5 +1,6 @@
 from numpy import take
 
+from SciDataTool.Classes.DataPattern import DataPattern
 from SciDataTool.Functions.symmetries import rebuild_symmetries
 
 
@@ -40,5 +41,8 @@ def _extract_slices(self, values, axes_list):
                     values = take(values, axis_requested.indices, axis=index)
         if not is_match:  # Axis was not specified -> take slice at the first value
             axes_dict_other[axis.name] = [axis.get_values()[0], axis.unit]
-            values = take(values, [0], axis=index)
+            index_first = 0
+            if isinstance(axis, DataPattern) and axis.rebuild_indices is not None:
+                index_first = axis.rebuild_indices[0]
+            values = take(values, [index_first], axis=index)
     return values, axes_dict_other
diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 9fe0d62..73a5aa3 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -36,8 +36,9 @@ def _get_field(self, axes_list):
                 "derivate",
                 "antiderivate",
             ]
-            or axis_requested.indices not in [None, []]
-            and max(axis_requested.indices) >= values.shape[axis_requested.index]
+            or axis_requested.indices is not None
+            and axis_requested.extension != "smallestperiod"
+            and axis_requested.rebuild_indices is not None
         ):
             # DataPattern case where all values are requested
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
-- 
2.43.0


From 46e2f5d8d35ee15831710ad65cae8f1320ab0fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:01 +0000
Subject: [PATCH 17/40] fix: counts, stable inverse indices and intersection of
 noisy values in set routines

---
 SciDataTool/Functions/set_routines.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/set_routines.py b/SciDataTool/Functions/set_routines.py
index dc6ec5c..4155201 100644
--- a/SciDataTool/Functions/set_routines.py
+++ b/SciDataTool/Functions/set_routines.py
@@ -103,17 +103,19 @@ def unique_tol(
     )
 
     if is_stable:
-        Ia = np.sort(res_tuple[1])
+        order = np.argsort(res_tuple[1])
     else:
-        Ia = res_tuple[1]
+        order = np.arange(res_tuple[1].size)
+    Ia = res_tuple[1][order]
 
     b = a[Ia]
 
     if return_inverse:
-        Ib = res_tuple[2]
+        # Position of each value in b
+        Ib = np.argsort(order)[res_tuple[2]]
 
     if return_counts:
-        count0 = res_tuple[3]
+        count0 = res_tuple[-1][order]
 
     if return_index and return_inverse and return_counts:
         return b, Ia, Ib, count0
@@ -167,8 +169,8 @@ def intersect1d_tol(
         tol = get_relative_tolerance(ar1, tol)
 
     _, Ia, Ib = np.intersect1d(
-        np.floor(ar1 / tol),
-        np.floor(ar2 / tol),
+        np.round(ar1 / tol),
+        np.round(ar2 / tol),
         assume_unique=assume_unique,
         return_indices=True,
     )
-- 
2.43.0


From ccc79df63e0b5285efef7f4ee947ebbd687fdd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:01 +0000
Subject: [PATCH 18/40] fix: refuse negative frequencies and accept linspace
 axes in spectrum sum and convolution

---
 SciDataTool/Methods/DataFreq/conv.py | 18 ++++++++++++++----
 SciDataTool/Methods/DataFreq/sum.py  | 18 ++++++++++++++----
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 9d64694..aa19136 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -1,5 +1,7 @@
 from numpy import inf, any as np_any
 
+from SciDataTool.Functions.Load.import_class import import_class
+
 from SciDataTool.Functions.sum_convolution import get_conv_indices, get_conv_amplitudes
 
 
@@ -43,6 +45,8 @@ def conv(
         DataFreq object resulting from convolution of both DataFreq objects
     """
 
+    Data1D = import_class("SciDataTool.Classes", "Data1D")
+
     if not isinstance(other, type(self)):
         raise Exception("other is not a DataFreq object")
 
@@ -56,14 +60,14 @@ def conv(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
@@ -85,8 +89,14 @@ def conv(
     amp = get_conv_amplitudes(self.values, other.values, I0a, I0b, I1, I2)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    axis = self.axes[0].copy()
+    Freqs = Data1D(
+        name=axis.name,
+        unit=axis.unit,
+        symmetries=axis.symmetries,
+        normalizations=axis.normalizations,
+        values=freqs_un,
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index 45c8f73..e8222db 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -1,5 +1,7 @@
 from numpy import any as np_any
 
+from SciDataTool.Functions.Load.import_class import import_class
+
 from SciDataTool.Functions.sum_convolution import get_sum_indices, get_sum_amplitudes
 
 
@@ -37,6 +39,8 @@ def sum(
         DataFreq object resulting from summing both DataFreq objects
     """
 
+    Data1D = import_class("SciDataTool.Classes", "Data1D")
+
     if not isinstance(other, type(self)):
         raise Exception("other is not a DataFreq object")
 
@@ -50,14 +54,14 @@ def sum(
         raise Exception("self axis is not frequency axis")
     else:
         freqs1 = self.axes[0].get_values()
-        if np_any(freqs1) < 0:
+        if np_any(freqs1 < 0):
             raise Exception("self contains negative frequency values")
 
     if other.axes[0].name != "freqs":
         raise Exception("other axis is not frequency axis")
     else:
         freqs2 = other.axes[0].get_values()
-        if np_any(freqs2) < 0:
+        if np_any(freqs2 < 0):
             raise Exception("other contains negative frequency values")
 
     # Fill metadata
@@ -77,8 +81,14 @@ def sum(
     amp = get_sum_amplitudes(self.values, other.values, I0b)
 
     # Create Frequency axis
-    Freqs = self.axes[0].copy()
-    Freqs.values = freqs_un
+    axis = self.axes[0].copy()
+    Freqs = Data1D(
+        name=axis.name,
+        unit=axis.unit,
+        symmetries=axis.symmetries,
+        normalizations=axis.normalizations,
+        values=freqs_un,
+    )
 
     # Create DataFreq resulting from convolution
     result = type(self)(
-- 
2.43.0


From 89085d0d7d453df6b4479b2a791e91ca432eace1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:56:28 +0000
Subject: [PATCH 19/40] fix: read units factor by factor in conversions

The dimensions of gram, meter and henry were wrong. Symbols were looked for
anywhere in the unit, so that a unit was read as another one contained in it
and what followed the symbol was ignored. Derivation and integration replaced
the axis unit inside other symbols.
---
 SciDataTool/Functions/conversions.py | 195 +++++++++++++--------------
 1 file changed, 91 insertions(+), 104 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 25c3cad..d2dc69f 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -44,7 +44,7 @@ unit_symbols = [
     ("Mx", 1.0e-8, (1, 2, -2, 0, 0, -1)),  # Maxwell
     ("Hz", 1.0, (0, 0, -1, 0, 0, 0)),  # Herz
     ("Pa", 1.0, (1, -1, -2, 0, 0, 0)),  # Pascal
-    ("g", 1.0e-3, (0, 1, 0, 0, 0, 0)),  # gram
+    ("g", 1.0e-3, (1, 0, 0, 0, 0, 0)),  # gram
     ("s", 1.0, (0, 0, 1, 0, 0, 0)),  # second
     ("h", 3600.0, (0, 0, 1, 0, 0, 0)),  # hour
     #    ("K",       1.0, (0,0,0,1,0,0)),   # Kelvin
@@ -57,8 +57,8 @@ unit_symbols = [
     ("G", 1.0e-4, (1, 0, -2, 0, 0, -1)),  # Gauss
     ("V", 1.0, (1, 2, -3, 0, 0, -1)),  # Volt
     ("F", 1.0, (-1, -2, 4, 0, 0, 2)),  # Farrad
-    ("H", 1.0, (1, -2, -2, 0, 0, -2)),  # Henry
-    ("m", 1.0, (1, 0, 0, 0, 0, 0)),  # meter
+    ("H", 1.0, (1, 2, -2, 0, 0, -2)),  # Henry
+    ("m", 1.0, (0, 1, 0, 0, 0, 0)),  # meter
 ]
 # Dictionnary of the prefixes and their values
 unit_prefixes = {
@@ -88,121 +88,108 @@ unit_prefixes = {
 }
 
 
+def split_unit(unit_str):
+    """Split a product of units into its factors (prefix, symbol, power)"""
+    if "*" in unit_str:
+        head, tail = unit_str.split("*", 1)
+        return split_unit(head) + split_unit(tail)
+    # The longest factor that is a known symbol up to its prefix and power comes first
+    for i in range(len(unit_str), 0, -1):
+        for key in unit_symbols:
+            prefix_str, symbol, power_str = unit_str[:i].rpartition(key[0])
+            if (
+                symbol != ""
+                and prefix_str in unit_prefixes
+                and (power_str == "" or power_str.isdigit())
+            ):
+                factor = (prefix_str, symbol, int(power_str or 1))
+                if i == len(unit_str):
+                    return [factor]
+                try:
+                    return [factor] + split_unit(unit_str[i:])
+                except UnitError:
+                    pass
+    raise UnitError("Unit " + unit_str + " unknown")
+
+
 def get_dim_prefix(unit_str):
     if unit_str == "":
         unit_str = "dimless"
-    p = 1  # power of the unit
-    dim = None
-    for key in unit_symbols:
-        if key[0] in unit_str:
-            if unit_str.rsplit(key[0], 1)[1].isdigit():
-                p = int(unit_str.rsplit(key[0], 1)[1])
-            dim = [p * d for d in key[2]]
-            prefix_str = unit_str.rsplit(key[0], 1)[0]
-            if prefix_str in unit_prefixes.keys():
-                prefix = (unit_prefixes.get(prefix_str) * key[1]) ** p
-            else:
-                raise UnitError("Prefix " + prefix_str + " unknown")
-            break
-    if not dim:
-        raise UnitError("Unit " + unit_str + " unknown")
+    dim = [0, 0, 0, 0, 0, 0]
+    prefix = 1.0
+    for prefix_str, symbol, p in split_unit(unit_str):
+        for key in unit_symbols:
+            if key[0] == symbol:
+                dim = [i + p * d for i, d in zip(dim, key[2])]
+                prefix *= (unit_prefixes.get(prefix_str) * key[1]) ** p
     return (dim, prefix)
 
 
-def get_unit_derivate(unit_str, axis_unit):
-    unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
+def get_factors(unit_str, axis_unit):
+    """Split a product of units into its factors [unit, power]"""
+    if unit_str in ["", "dimless"]:
+        return []
+    try:
+        factors = []
+        for prefix_str, symbol, p in split_unit(unit_str):
+            # Product of axis_unit with a unit whose symbol is also a prefix (ms, Ts...)
+            if symbol == axis_unit != prefix_str and prefix_str in [
+                key[0] for key in unit_symbols
+            ]:
+                factors += [[prefix_str, 1], [symbol, p]]
+            else:
+                factors.append([prefix_str + symbol, p])
+        return factors
+    except UnitError:
+        # Unknown unit
+        return [[unit_str, 1]]
+
+
+def get_product(factors):
+    """Write a product of units so that it can be read again"""
+    names = [name + (str(p) if p != 1 else "") for name, p in factors]
+    unit_str = "".join(names)
+    # Meter second is written ms
+    if [name for name, p in factors] == ["m", "s"] and factors[0][1] == 1:
+        return unit_str
+    return unit_str if get_factors(unit_str, "") == factors else "*".join(names)
+
+
+def get_unit_product(unit_str, axis_unit, power):
+    """Unit obtained by multiplication of unit_str by axis_unit to the given power (1 or -1)"""
+    unit_str = unit_str.replace(" ", "").replace("^", "")
     if axis_unit == "Hz":
         axis_unit = "s"
     if axis_unit == "rad":
         axis_unit = "m"
-    p = 0
-    if "/" in unit_str:
-        unit_num = unit_str.split("/")[0]
-        unit_denom = unit_str.split("/")[1]
-    else:
-        unit_num = unit_str
-        unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
+    if axis_unit in ["", "dimless"]:
+        return unit_str
+    unit_num, _, unit_denom = unit_str.partition("/")
+    num = get_factors(unit_num, axis_unit)
+    denom = get_factors(unit_denom, axis_unit)
+    for part, sign in [(num, 1), (denom, -1)]:
+        if axis_unit in [name for name, p in part]:
+            # Update the power of axis_unit
+            factor = [f for f in part if f[0] == axis_unit][0]
+            factor[1] += sign * power
+            if factor[1] == 0:
+                part.remove(factor)
+            break
     else:
         # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str += axis_unit
-        else:
-            unit_str += "/" + axis_unit
+        (num if power > 0 else denom).append([axis_unit, 1])
+    unit_str = get_product(num)
+    if len(denom) > 0:
+        unit_str += "/" + get_product(denom)
     return unit_str
 
 
+def get_unit_derivate(unit_str, axis_unit):
+    return get_unit_product(unit_str, axis_unit, -1)
+
+
 def get_unit_integrate(unit_str, axis_unit):
-    unit_str = unit_str.replace("*", "").replace(" ", "").replace("^", "")
-    if axis_unit == "Hz":
-        axis_unit = "s"
-    if axis_unit == "rad":
-        axis_unit = "m"
-    p = 0
-    if "/" in unit_str:
-        unit_num = unit_str.split("/")[0]
-        unit_denom = unit_str.split("/")[1]
-    else:
-        unit_num = unit_str
-        unit_denom = ""
-    if axis_unit in unit_num:
-        p = 1
-        if unit_num.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_num.rsplit(axis_unit, 1)[1])
-        p_new = p + 1
-        # Case p was 1
-        if p_new == 2:
-            unit_str = unit_str.replace(axis_unit, axis_unit + "2")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    elif axis_unit in unit_denom:
-        p = 1
-        if unit_denom.rsplit(axis_unit, 1)[1].isdigit():
-            p = int(unit_denom.rsplit(axis_unit, 1)[1])
-        p_new = p - 1
-        # Case axis_unit must be withdrawn
-        if p_new == 0:
-            unit_denom = unit_denom.replace(axis_unit, "")
-            if unit_denom == "":
-                unit_str = unit_num
-            else:
-                unit_str = unit_str.replace(axis_unit, "")
-        elif p_new == 1:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit)
-        else:
-            unit_str = unit_str.replace(axis_unit + str(p), axis_unit + str(p_new))
-    else:
-        # Case axis_unit was not in unit_str
-        if unit_denom != "":
-            unit_str = unit_num + axis_unit + "/" + unit_denom
-        else:
-            unit_str += axis_unit
-    return unit_str
+    return get_unit_product(unit_str, axis_unit, 1)
 
 
 def convert(values, unit1, unit2):
@@ -235,8 +222,8 @@ def convert(values, unit1, unit2):
         unit1_save = unit1
         unit2_save = unit2
         # Format the strings
-        unit1 = unit1.replace("*", "").replace(" ", "").replace("^", "")
-        unit2 = unit2.replace("*", "").replace(" ", "").replace("^", "")
+        unit1 = unit1.replace(" ", "").replace("^", "")
+        unit2 = unit2.replace(" ", "").replace("^", "")
         # Unit1 parsing
         if "/" in unit1:
             dim1_denom, prefix1_denom = get_dim_prefix(unit1.split("/")[1])
-- 
2.43.0


From fc26f1bf17515ce72c3fe35585d3da6597835e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:20 +0000
Subject: [PATCH 20/40] fix: keep units, symmetries and normalizations of
 extracted fields

The symmetry kept on an axis depended on the position of the request instead
of the request on that axis, and lines of antiperiodic signals kept an
antiperiod. Axes and fields extracted in another unit declared the original
one. Normalizations were shared with the source. Products of meter and second
in denominators could not be read again.
---
 SciDataTool/Functions/conversions.py         |  6 +--
 SciDataTool/Methods/DataND/get_data_along.py | 47 +++++++++++++-------
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index d2dc69f..3df4fe1 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -149,9 +149,6 @@ def get_product(factors):
     """Write a product of units so that it can be read again"""
     names = [name + (str(p) if p != 1 else "") for name, p in factors]
     unit_str = "".join(names)
-    # Meter second is written ms
-    if [name for name, p in factors] == ["m", "s"] and factors[0][1] == 1:
-        return unit_str
     return unit_str if get_factors(unit_str, "") == factors else "*".join(names)
 
 
@@ -179,6 +176,9 @@ def get_unit_product(unit_str, axis_unit, power):
         # Case axis_unit was not in unit_str
         (num if power > 0 else denom).append([axis_unit, 1])
     unit_str = get_product(num)
+    if unit_str in ["m*s", "m*s2"]:
+        # Meter second is written ms
+        unit_str = unit_str.replace("*", "")
     if len(denom) > 0:
         unit_str += "/" + get_product(denom)
     return unit_str
diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index cfb4e2f..45d41fe 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -1,6 +1,10 @@
 from SciDataTool import Data1D
 from SciDataTool.Functions import axes_dict, rev_axes_dict
-from SciDataTool.Functions.conversions import get_unit_derivate, get_unit_integrate
+from SciDataTool.Functions.conversions import (
+    convert,
+    get_unit_derivate,
+    get_unit_integrate,
+)
 
 
 def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
@@ -70,26 +74,36 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                         is_components = axis.is_components
                         axis_values = results[axis_name]
                         ax_unit = rev_axes_dict[axis_name][2]
+            axis_requested = [axis for axis in axes_list if axis.name == name][0]
+            # Update unit if the axis is requested in another unit
+            if axis_requested.unit not in ["SI", *self.axes[index].normalizations]:
+                ax_unit = axis_requested.unit
             # Update symmetries
-            if (
-                "smallestperiod" in args[index]
-                or args[index]
-                in [
-                    "freqs",
-                    "wavenumber",
-                ]
-                or "antiderivate" in args[index]
-                or "derivate" in args[index]
+            symmetries = dict()
+            if axis_requested.extension in [
+                "smallestperiod",
+                "antiderivate",
+                "derivate",
+            ] or (
+                name in ["freqs", "wavenumber"] and axis_requested.extension == "whole"
             ):
                 symmetries = self.axes[index].symmetries.copy()
-            else:
-                symmetries = dict()
+            if name in ["freqs", "wavenumber"] and "antiperiod" in symmetries:
+                # Lines of a signal which is repeated every two antiperiods
+                symmetries = {"period": int(symmetries["antiperiod"] / 2)}
+            elif "delta" in symmetries and name == self.axes[index].name:
+                symmetries["delta"] = convert(
+                    symmetries["delta"], self.axes[index].unit, ax_unit
+                )
             Axis = Data1D(
                 name=name,
                 unit=ax_unit,
                 values=axis_values,
                 is_components=is_components,
-                normalizations=self.axes[index].normalizations.copy(),
+                normalizations={
+                    key: norm.copy()
+                    for key, norm in self.axes[index].normalizations.items()
+                },
                 symmetries=symmetries,
             ).to_linspace()
             if hasattr(self.axes[index], "sort_indices") and hasattr(
@@ -103,7 +117,8 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         unit = unit
     else:
         # Update unit if derivation or integration
-        unit = self.unit
+        if is_norm or unit in ["SI", *self.normalizations]:
+            unit = self.unit
         for axis in axes_list:
             if axis.extension in ["antiderivate", "integrate", "integrate_local"]:
                 unit = get_unit_integrate(unit, axis.corr_unit)
@@ -116,6 +131,8 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         symbol=self.symbol,
         axes=Axes,
         values=values,
-        normalizations=self.normalizations.copy(),
+        normalizations={
+            key: norm.copy() for key, norm in self.normalizations.items()
+        },
         is_real=self.is_real,
     )
-- 
2.43.0


From 713134dc0eed65247903dbbdcc8c2abeb464e4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:53 +0000
Subject: [PATCH 21/40] fix: comparison of functions and of dictionaries with
 different keys

---
 SciDataTool/Classes/Data.py        | 2 ++
 SciDataTool/Classes/Norm_func.py   | 6 +++++-
 SciDataTool/Classes/VectorField.py | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Classes/Data.py b/SciDataTool/Classes/Data.py
index 0409550..d81d49f 100644
--- a/SciDataTool/Classes/Data.py
+++ b/SciDataTool/Classes/Data.py
@@ -167,6 +167,8 @@ class Data(FrozenClass):
             pass
         elif len(other.normalizations) != len(self.normalizations):
             diff_list.append("len(" + name + "normalizations)")
+        elif other.normalizations.keys() != self.normalizations.keys():
+            diff_list.append(name + ".normalizations keys mismatch")
         else:
             for key in self.normalizations:
                 diff_list.extend(
diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 5c0a3d5..497cdc9 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -99,6 +99,8 @@ class Norm_func(Normalization):
             return False
         if other._function_str != self._function_str:
             return False
+        if self._function_str is None and other._function_func != self._function_func:
+            return False
         return True
 
     def compare(self, other, name="self", ignore_list=None, is_add_value=False):
@@ -116,7 +118,9 @@ class Norm_func(Normalization):
                 other, name=name, ignore_list=ignore_list, is_add_value=is_add_value
             )
         )
-        if other._function_str != self._function_str:
+        if other._function_str != self._function_str or (
+            self._function_str is None and other._function_func != self._function_func
+        ):
             diff_list.append(name + ".function")
         # Filter ignore differences
         diff_list = list(filter(lambda x: x not in ignore_list, diff_list))
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index d62d39e..1b97eaa 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -418,6 +418,8 @@ class VectorField(FrozenClass):
             pass
         elif len(other.components) != len(self.components):
             diff_list.append("len(" + name + "components)")
+        elif other.components.keys() != self.components.keys():
+            diff_list.append(name + ".components keys mismatch")
         else:
             for key in self.components:
                 diff_list.extend(
-- 
2.43.0


From e2c58a6c6b931215c83bbbd454de9d90778f16bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:25 +0000
Subject: [PATCH 22/40] fix: loading of saved objects, complex values in json
 files and copies of filters

---
 SciDataTool/Classes/Data1D.py           |  4 ++--
 SciDataTool/Classes/Norm_func.py        |  3 ++-
 SciDataTool/Functions/Load/load_json.py |  9 ++++++++-
 SciDataTool/Functions/load.py           |  4 ++--
 SciDataTool/Functions/save.py           | 16 +++++++++++++++-
 5 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Classes/Data1D.py b/SciDataTool/Classes/Data1D.py
index a4f05bc..1e0098a 100644
--- a/SciDataTool/Classes/Data1D.py
+++ b/SciDataTool/Classes/Data1D.py
@@ -449,7 +449,7 @@ class Data1D(Data):
         Data1D_dict["sort_indices"] = (
             self.sort_indices.copy() if self.sort_indices is not None else None
         )
-        Data1D_dict["filter"] = self.filter.copy() if self.filter is not None else None
+        Data1D_dict["filter"] = deepcopy(self.filter)
         Data1D_dict["char_to_rm"] = (
             self.char_to_rm.copy() if self.char_to_rm is not None else None
         )
@@ -480,7 +480,7 @@ class Data1D(Data):
         if self.filter is None:
             filter_val = None
         else:
-            filter_val = self.filter.copy()
+            filter_val = deepcopy(self.filter)
         if self.char_to_rm is None:
             char_to_rm_val = None
         else:
diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 497cdc9..01a00f7 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -11,6 +11,7 @@ from ..Functions.save import save
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
+from logging import getLogger
 from .Normalization import Normalization
 
 # Import all class method
@@ -160,7 +161,7 @@ class Norm_func(Normalization):
         else:
             Norm_func_dict["function"] = None
             if self.function is not None:
-                self.get_logger().warning(
+                getLogger("SciDataTool").warning(
                     "Norm_func.as_dict(): "
                     + "Function self.function is not serializable "
                     + "and will be converted to None."
diff --git a/SciDataTool/Functions/Load/load_json.py b/SciDataTool/Functions/Load/load_json.py
index 04383d5..b49f99d 100644
--- a/SciDataTool/Functions/Load/load_json.py
+++ b/SciDataTool/Functions/Load/load_json.py
@@ -3,6 +3,13 @@ from os.path import isfile, isdir
 from re import match
 
 
+def decode_complex(obj):
+    """Read complex numbers written by save.encode_complex"""
+    if "__complex__" in obj:
+        return complex(*obj["__complex__"])
+    return obj
+
+
 def load_json(file_path):
     """Load a json file
 
@@ -35,7 +42,7 @@ def load_json(file_path):
 
     # Get the data dictionary
     with open(file_path, "r") as load_file:
-        json_data = jload(load_file)
+        json_data = jload(load_file, object_hook=decode_complex)
 
     return file_path, json_data
 
diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index d79d61a..9735b28 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -43,8 +43,8 @@ def init_data(obj, file_path):
         # --- pyleecan class (has to be checked befor 'normal' dict) ---
         # Check if the dictionay has a "__class__" key
         if "__class__" in obj:
-            # Check if data is a pyleecan class
-            class_obj = import_class("pyleecan.Classes", obj.get("__class__"), "")
+            # Check if data is a SciDataTool class
+            class_obj = import_class("SciDataTool.Classes", obj.get("__class__"), "")
             if folder_path != "":
                 wd = getcwd()
                 chdir(folder_path)
diff --git a/SciDataTool/Functions/save.py b/SciDataTool/Functions/save.py
index 46036b0..c7ce8da 100644
--- a/SciDataTool/Functions/save.py
+++ b/SciDataTool/Functions/save.py
@@ -63,6 +63,13 @@ def build_data(obj):
         return None
 
 
+def encode_complex(obj):
+    """Write complex numbers as dicts (see load_json.decode_complex)"""
+    if isinstance(obj, complex):
+        return {"__complex__": [obj.real, obj.imag]}
+    raise TypeError(type(obj).__name__ + " is not JSON serializable")
+
+
 def save_data(obj, save_path=""):
     """Save the object to the save_path
     Parameters
@@ -77,7 +84,14 @@ def save_data(obj, save_path=""):
     # save
     obj = build_data(obj)
     with open(file_path, "w") as json_file:
-        dump(obj, json_file, sort_keys=True, indent=4, separators=(",", ": "))
+        dump(
+            obj,
+            json_file,
+            sort_keys=True,
+            indent=4,
+            separators=(",", ": "),
+            default=encode_complex,
+        )
 
 
 def save(self, save_path=""):
-- 
2.43.0


From 0d99e7a847e245bd4020546e26e2f5b38221033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:35 +0000
Subject: [PATCH 23/40] fix: dimension error for values that do not fit axes of
 length one

---
 SciDataTool/Classes/_check.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Classes/_check.py b/SciDataTool/Classes/_check.py
index 9aab862..f0afa35 100644
--- a/SciDataTool/Classes/_check.py
+++ b/SciDataTool/Classes/_check.py
@@ -356,7 +356,7 @@ def check_dimensions(values, axes):
 
         if values_shape != tuple(axes_shape):
             for i, s in enumerate(axes_shape):
-                if s == 1:
+                if s == 1 and i <= values.ndim:
                     values = expand_dims(values, axis=i)
             if values.shape != tuple(axes_shape):
                 raise CheckDimError(
-- 
2.43.0


From badf5c9af8e13ec6d7ca922f53397b5eac30191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:50 +0000
Subject: [PATCH 24/40] fix: complex fields stay complex in dual fields

---
 SciDataTool/Methods/DataFreq/to_datadual.py | 1 +
 SciDataTool/Methods/DataTime/to_datadual.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/SciDataTool/Methods/DataFreq/to_datadual.py b/SciDataTool/Methods/DataFreq/to_datadual.py
index 492c0be..6f3fac7 100644
--- a/SciDataTool/Methods/DataFreq/to_datadual.py
+++ b/SciDataTool/Methods/DataFreq/to_datadual.py
@@ -20,6 +20,7 @@ def to_datadual(self, datatime=None):
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
+        is_real=self.is_real,
         normalizations=self.normalizations.copy(),
         axes_df=self.axes,
         values_df=self.values,
diff --git a/SciDataTool/Methods/DataTime/to_datadual.py b/SciDataTool/Methods/DataTime/to_datadual.py
index b3f2da8..ef93e1f 100644
--- a/SciDataTool/Methods/DataTime/to_datadual.py
+++ b/SciDataTool/Methods/DataTime/to_datadual.py
@@ -20,6 +20,7 @@ def to_datadual(self, datafreq=None):
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
+        is_real=self.is_real,
         normalizations=self.normalizations.copy(),
         axes_dt=self.axes,
         values_dt=self.values,
-- 
2.43.0


From 4003ae9413f8d1d71a8e4994e1512ce45619d83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:59 +0000
Subject: [PATCH 25/40] fix: levels in dBA of selected lines use their own
 frequencies

---
 SciDataTool/Functions/conversions.py          | 21 +++++++++
 SciDataTool/Methods/DataND/_convert.py        | 25 +++++-----
 .../Methods/DataND/get_magnitude_along.py     | 47 +++++++------------
 3 files changed, 50 insertions(+), 43 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 3df4fe1..bf2a583 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -408,6 +408,27 @@ def dB_to_dBA(values, freqs, noct=None):
         return values_dBA
 
 
+def get_freqs_axis(axis):
+    """Returns the frequencies of a requested frequency axis
+
+    Parameters
+    ----------
+    axis: RequestedAxis
+        Requested axis, in any unit or normalization
+    Returns
+    -------
+    ndarray of the frequencies [Hz]
+    """
+    if axis.corr_values is None or axis.unit in ["SI", axis.corr_unit]:
+        return axis.values
+    try:
+        return convert(axis.values, axis.unit, "Hz")
+    except Exception:  # Normalized axis
+        if axis.indices is None:
+            return axis.corr_values
+        return take(axis.corr_values, axis.indices)
+
+
 def to_noct(values, freqs, noct=3):
     """Converts values into 1/nth octave band (requires frequency vector)
 
diff --git a/SciDataTool/Methods/DataND/_convert.py b/SciDataTool/Methods/DataND/_convert.py
index dfbb73e..b0c943d 100644
--- a/SciDataTool/Methods/DataND/_convert.py
+++ b/SciDataTool/Methods/DataND/_convert.py
@@ -1,7 +1,12 @@
 import numpy as np
 
 from SciDataTool.Functions import NormError, UnitError
-from SciDataTool.Functions.conversions import convert as convert_unit, to_dB, to_dBA
+from SciDataTool.Functions.conversions import (
+    convert as convert_unit,
+    get_freqs_axis,
+    to_dB,
+    to_dBA,
+)
 
 
 def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
@@ -22,7 +27,7 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         values of the field
     """
 
-    if is_squeeze:
+    if is_squeeze and unit != "dBA":
         values = np.squeeze(values)
 
     if unit == self.unit or unit == "SI":
@@ -40,26 +45,18 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
         ref_value = 1.0
         if "ref" in self.normalizations:
             ref_value *= self.normalizations["ref"].ref
+        values = np.abs(values)
         is_match = False
         for axis in axes_list:
             if axis.name == "freqs" or axis.corr_name == "freqs":
-                if axis.corr_values is not None and axis.unit not in [
-                    "SI",
-                    axis.corr_unit,
-                ]:
-                    axis_values = axis.corr_values
-                else:
-                    axis_values = axis.values
+                axis_values = get_freqs_axis(axis)
                 index = axis.index
                 values = np.apply_along_axis(
                     to_dBA, index, values, axis_values, self.unit, ref_value
                 )
                 is_match = True
             elif axis.name == "frequency":
-                if axis.corr_values is None:
-                    axis_values = axis.values
-                else:
-                    axis_values = axis.corr_values
+                axis_values = get_freqs_axis(axis)
                 index = axis.index
                 values = np.apply_along_axis(
                     to_dBA, index, values, axis_values, self.unit, ref_value
@@ -80,6 +77,8 @@ def _convert(self, values, unit, is_norm, is_squeeze, axes_list):
                 raise UnitError(
                     "dBA conversion only available for fft with frequencies"
                 )
+        if is_squeeze:
+            values = np.squeeze(values)
     elif unit in self.normalizations:
         values = self.normalizations.get(unit).normalize(values)
     else:
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 47b9efe..1423170 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,7 +1,13 @@
 from SciDataTool.Functions import AxisError, NormError, UnitError
-from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
+from SciDataTool.Functions.conversions import (
+    convert,
+    get_freqs_axis,
+    to_dB,
+    to_dBA,
+    to_noct,
+)
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, take
+from numpy import apply_along_axis, add, squeeze, take
 
 
 def get_magnitude_along(
@@ -167,7 +173,7 @@ def get_magnitude_along(
         return_dict = self.get_along(
             *args,
             axis_data=axis_data,
-            is_squeeze=is_squeeze,
+            is_squeeze=False,
             is_magnitude=True,
             corr_unit=corr_unit,
         )
@@ -178,10 +184,11 @@ def get_magnitude_along(
             if axis.name == "freqs" or axis.corr_name == "freqs":
                 index = axis.index
                 if axis.noct is not None:
-                    (values, foct) = apply_along_axis(
-                        to_noct, index, values, return_dict["freqs"], noct=axis.noct
+                    freqs = return_dict["freqs"]
+                    values = apply_along_axis(
+                        lambda x: to_noct(x, freqs, noct=axis.noct)[0], index, values
                     )
-                    return_dict[axis.name] = foct
+                    return_dict[axis.name] = to_noct(freqs, freqs, noct=axis.noct)[1]
         # Convert into right unit (apart because of dBA conversion)
         if unit == self.unit or unit == "SI":
             if is_norm:
@@ -230,18 +237,7 @@ def get_magnitude_along(
                 for axis in return_dict["axes_list"]:
                     if axis.name == "freqs" or axis.corr_name == "freqs":
                         index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["freqs"]
+                        freqs = get_freqs_axis(axis)
                 values = apply_along_axis(
                     to_dBA, index, values, freqs, self.unit, ref_value
                 )
@@ -249,18 +245,7 @@ def get_magnitude_along(
                 for axis in return_dict["axes_list"]:
                     if axis.name == "frequency" or axis.corr_name == "frequency":
                         index = axis.index
-                else:
-                    if return_dict["axes_list"][
-                        index
-                    ].corr_values is not None and return_dict["axes_list"][
-                        index
-                    ].unit not in [
-                        "SI",
-                        return_dict["axes_list"][index].corr_unit,
-                    ]:
-                        freqs = return_dict["axes_list"][index].corr_values
-                    else:
-                        freqs = return_dict["frequency"]
+                        freqs = get_freqs_axis(axis)
                 values = apply_along_axis(
                     to_dBA, index, values, freqs, self.unit, ref_value
                 )
@@ -282,5 +267,7 @@ def get_magnitude_along(
             values = self.normalizations.get(unit).normalize(values)
         else:
             values = convert(values, self.unit, unit)
+        if is_squeeze:
+            values = squeeze(values)
         return_dict[self.symbol] = values
         return return_dict
-- 
2.43.0


From ed407441084410513c56ebb96c190b9e7db44a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:59 +0000
Subject: [PATCH 26/40] fix: sums of levels over frequencies keep the other
 requested axes

---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 1423170..608cc51 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -73,7 +73,10 @@ def get_magnitude_along(
                     *new_args, axis_data=axis_data, unit=unit
                 )  # Extract first along freqs axis
                 return data.get_magnitude_along(
-                    *[args[index_freq]],
+                    *[
+                        args[index_freq] if axis.name == freq_name else axis.name
+                        for axis in data.axes
+                    ],
                     axis_data=axis_data,
                     unit=unit,
                     is_squeeze=is_squeeze,
-- 
2.43.0


From 6995a89e010de5829714b21b41b922e86f7ffcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:38:59 +0000
Subject: [PATCH 27/40] fix: harmonics of single lines and of fields with
 wavenumbers first

---
 SciDataTool/Methods/DataND/get_harmonics.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_harmonics.py b/SciDataTool/Methods/DataND/get_harmonics.py
index dbf42cf..56562ff 100644
--- a/SciDataTool/Methods/DataND/get_harmonics.py
+++ b/SciDataTool/Methods/DataND/get_harmonics.py
@@ -1,5 +1,6 @@
 from numpy import (
     argsort,
+    atleast_1d,
     negative,
     meshgrid,
 )
@@ -32,7 +33,7 @@ def get_harmonics(
     return_dict = self.get_magnitude_along(
         args, unit=unit, is_norm=is_norm, axis_data=axis_data
     )
-    values = return_dict[self.symbol]
+    values = atleast_1d(return_dict[self.symbol])
 
     # 2D case
     if "freqs" in return_dict and "wavenumber" in return_dict:
@@ -40,7 +41,12 @@ def get_harmonics(
         f = return_dict["freqs"]
         # Flatten the data
         values_flat = values.flatten()
-        R, F = meshgrid(r, f)
+        # Axes are in the order of the field
+        names = [axis.name for axis in return_dict["axes_list"]]
+        if names.index("freqs") < names.index("wavenumber"):
+            R, F = meshgrid(r, f)
+        else:
+            F, R = meshgrid(f, r)
         f = F.flatten()
         r = R.flatten()
         # Get the N_harm largest peaks
-- 
2.43.0


From b60a7dd71edd3220f398e7027ef03567d82db8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:19 +0000
Subject: [PATCH 28/40] fix: A-weighting with integer frequencies

---
 SciDataTool/Functions/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index bf2a583..90fd134 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -391,7 +391,7 @@ def dB_to_dBA(values, freqs, noct=None):
         mask = argwhere(freqs in freqs_ref)
         Aweight = take(Aweight, mask)
     else:
-        freq2 = square(freqs)
+        freq2 = square(array(freqs, dtype=float))
         freq2[freq2 == 0] = nan
         RA = (
             12200.0 ** 2
-- 
2.43.0


From 2baca8510bd060897728c0d350acd6e422b9d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:49 +0000
Subject: [PATCH 29/40] fix: extracted components keep their own order of
 contribution

---
 SciDataTool/Methods/Data1D/to_linspace.py    |  1 +
 SciDataTool/Methods/DataND/get_data_along.py | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 521b2dc..4369b21 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -21,6 +21,7 @@ def to_linspace(self):
 
     if (
         number > 1
+        and not self.is_components
         and values.dtype.kind not in {"U", "S"}
         and allclose(
             values,
diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index 45d41fe..6e1b80b 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -109,7 +109,17 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
             if hasattr(self.axes[index], "sort_indices") and hasattr(
                 Axis, "sort_indices"
             ):
-                Axis.sort_indices = self.axes[index].sort_indices
+                sort_indices = self.axes[index].sort_indices
+                if sort_indices is not None:
+                    # Order of the extracted components only
+                    N = self.axes[index].get_length()
+                    indices = list(range(N))
+                    if axis_requested.indices is not None:
+                        indices = [i % N for i in axis_requested.indices]
+                    sort_indices = [
+                        indices.index(i) for i in sort_indices if i in indices
+                    ]
+                Axis.sort_indices = sort_indices
             Axes.append(Axis)
 
     # Update unit if dB/dBA conversion
-- 
2.43.0


From c7ce10827a823d5ef20cc939d46262cc8befac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:58:33 +0000
Subject: [PATCH 30/40] fix: comparison of fields over common axes

---
 SciDataTool/Functions/interpolations.py       | 27 +++++++++++++---
 SciDataTool/Methods/DataND/compare_along.py   | 31 +++++++++++++++----
 .../Methods/DataND/compare_magnitude_along.py | 31 +++++++++++++++----
 .../Methods/DataND/compare_phase_along.py     | 31 +++++++++++++++----
 SciDataTool/Methods/DataND/get_phase_along.py |  4 +--
 5 files changed, 100 insertions(+), 24 deletions(-)

diff --git a/SciDataTool/Functions/interpolations.py b/SciDataTool/Functions/interpolations.py
index 9ba7023..81a673c 100644
--- a/SciDataTool/Functions/interpolations.py
+++ b/SciDataTool/Functions/interpolations.py
@@ -33,6 +33,10 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
     -------
     list of the common axis values
     """
+    if len(values1) == len(values2) and all(
+        isclose(values1, values2, rtol=1e-09, atol=0)
+    ):  # Same axes
+        return values1
     if is_extrap:
         initial = min(values1[0], values2[0])
         final = max(values1[-1], values2[-1])
@@ -50,18 +54,33 @@ def get_common_base(values1, values2, is_extrap=False, is_downsample=False):
         if length1 > length2:
             number = length1
             if initial not in values1:
-                initial = values1[argmin(np_abs([i - initial for i in values1])) + 1]
+                initial = min([i for i in values1 if i >= initial])
             if final not in values1:
-                final = values1[argmin(np_abs([i - final for i in values1])) - 1]
+                final = max([i for i in values1 if i <= final])
         else:
             number = length2
             if initial not in values2:
-                initial = values2[argmin(np_abs([i - initial for i in values2])) + 1]
+                initial = min([i for i in values2 if i >= initial])
             if final not in values2:
-                final = values2[argmin(np_abs([i - final for i in values2])) - 1]
+                final = max([i for i in values2 if i <= final])
     return linspace(initial, final, int(number), endpoint=True)
 
 
+def get_axis_index(axes_list, name):
+    """Returns the index of an axis in the array of a field
+    Parameters
+    ----------
+    axes_list: list
+        list of RequestedAxis objects
+    name: str
+        name of the axis
+    Returns
+    -------
+    index of the axis
+    """
+    return [axis.index for axis in axes_list if axis.name == name][0]
+
+
 def get_interpolation(values, axis_values, new_axis_values, index):
     """Returns the interpolated field along one axis, given the new axis
     Parameters
diff --git a/SciDataTool/Methods/DataND/compare_along.py b/SciDataTool/Methods/DataND/compare_along.py
index 18cd2dd..3830593 100644
--- a/SciDataTool/Methods/DataND/compare_along.py
+++ b/SciDataTool/Methods/DataND/compare_along.py
@@ -1,4 +1,10 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from numpy import array, squeeze
+
+from SciDataTool.Functions.interpolations import (
+    get_axis_index,
+    get_common_base,
+    get_interpolation,
+)
 
 
 def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
@@ -23,7 +29,9 @@ def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
         return self.get_along(args, unit=unit, is_norm=is_norm)
     else:
         # Extract requested axes + field values
-        results = self.get_along(args, unit=unit, is_norm=is_norm)
+        results = self.get_along(
+            args, unit=unit, is_norm=is_norm, is_squeeze=False
+        )
         values = results.pop(self.symbol)
         axes_list = results.pop("axes_list")
         axes_dict_other = results.pop("axes_dict_other")
@@ -32,30 +40,41 @@ def compare_along(self, *args, data_list=[], unit="SI", is_norm=False):
         data_values = []
         return_dict = {}
         for data in data_list:
-            results = data.get_along(args, unit=unit, is_norm=is_norm)
+            results = data.get_along(
+                args, unit=unit, is_norm=is_norm, is_squeeze=False
+            )
             data_values.append(results.pop(data.symbol))
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
         for axis in axes.keys():
             common_axis_values[axis] = axes[axis]
+            return_dict[axis] = axes[axis]
+            if array(axes[axis]).dtype.kind in "US":  # Operation or components
+                continue
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values,
+                axes[axis],
+                common_axis_values[axis],
+                get_axis_index(axes_list, axis),
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    get_axis_index(data_axis_values[i]["axes_list"], axis),
                 )
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
-        return_dict[self.symbol] = values
+        return_dict[self.symbol] = squeeze(values)
         return_dict["axes_list"] = axes_list
         return_dict["axes_dict_other"] = axes_dict_other
         for i, data in enumerate(data_list):
-            return_dict[data.symbol + "_" + str(i)] = data_values[i]
+            return_dict[data.symbol + "_" + str(i)] = squeeze(data_values[i])
         return return_dict
diff --git a/SciDataTool/Methods/DataND/compare_magnitude_along.py b/SciDataTool/Methods/DataND/compare_magnitude_along.py
index 4fd0ea9..1b50c6e 100644
--- a/SciDataTool/Methods/DataND/compare_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/compare_magnitude_along.py
@@ -1,4 +1,10 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from numpy import array, squeeze
+
+from SciDataTool.Functions.interpolations import (
+    get_axis_index,
+    get_common_base,
+    get_interpolation,
+)
 
 
 def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False):
@@ -23,7 +29,9 @@ def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False)
         return self.get_magnitude_along(args, unit=unit, is_norm=is_norm)
     else:
         # Extract requested axes + field values
-        results = self.get_magnitude_along(args, unit=unit, is_norm=is_norm)
+        results = self.get_magnitude_along(
+            args, unit=unit, is_norm=is_norm, is_squeeze=False
+        )
         values = results.pop(self.symbol)
         axes_list = results.pop("axes_list")
         axes_dict_other = results.pop("axes_dict_other")
@@ -32,30 +40,41 @@ def compare_magnitude_along(self, *args, unit="SI", data_list=[], is_norm=False)
         data_values = []
         return_dict = {}
         for data in data_list:
-            results = data.get_magnitude_along(args, unit=unit, is_norm=is_norm)
+            results = data.get_magnitude_along(
+                args, unit=unit, is_norm=is_norm, is_squeeze=False
+            )
             data_values.append(results.pop(data.symbol))
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
         for axis in axes.keys():
             common_axis_values[axis] = axes[axis]
+            return_dict[axis] = axes[axis]
+            if array(axes[axis]).dtype.kind in "US":  # Operation or components
+                continue
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values,
+                axes[axis],
+                common_axis_values[axis],
+                get_axis_index(axes_list, axis),
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    get_axis_index(data_axis_values[i]["axes_list"], axis),
                 )
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
-        return_dict[self.symbol] = values
+        return_dict[self.symbol] = squeeze(values)
         return_dict["axes_list"] = axes_list
         return_dict["axes_dict_other"] = axes_dict_other
         for i, data in enumerate(data_list):
-            return_dict[data.symbol + "_" + str(i)] = data_values[i]
+            return_dict[data.symbol + "_" + str(i)] = squeeze(data_values[i])
         return return_dict
diff --git a/SciDataTool/Methods/DataND/compare_phase_along.py b/SciDataTool/Methods/DataND/compare_phase_along.py
index bf45c0d..db5d89a 100644
--- a/SciDataTool/Methods/DataND/compare_phase_along.py
+++ b/SciDataTool/Methods/DataND/compare_phase_along.py
@@ -1,4 +1,10 @@
-from SciDataTool.Functions.interpolations import get_common_base, get_interpolation
+from numpy import array, squeeze
+
+from SciDataTool.Functions.interpolations import (
+    get_axis_index,
+    get_common_base,
+    get_interpolation,
+)
 
 
 def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
@@ -23,7 +29,9 @@ def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
         return self.get_phase_along(args, unit=unit, is_norm=is_norm)
     else:
         # Extract requested axes + field values
-        results = self.get_phase_along(args, unit=unit, is_norm=is_norm)
+        results = self.get_phase_along(
+            args, unit=unit, is_norm=is_norm, is_squeeze=False
+        )
         values = results.pop(self.symbol)
         axes_list = results.pop("axes_list")
         axes_dict_other = results.pop("axes_dict_other")
@@ -32,30 +40,41 @@ def compare_phase_along(self, *args, unit="SI", data_list=[], is_norm=False):
         data_values = []
         return_dict = {}
         for data in data_list:
-            results = data.get_phase_along(args, unit=unit, is_norm=is_norm)
+            results = data.get_phase_along(
+                args, unit=unit, is_norm=is_norm, is_squeeze=False
+            )
             data_values.append(results.pop(data.symbol))
             data_axis_values.append(results)
         # Get the common bases
         common_axis_values = {}
         for axis in axes.keys():
             common_axis_values[axis] = axes[axis]
+            return_dict[axis] = axes[axis]
+            if array(axes[axis]).dtype.kind in "US":  # Operation or components
+                continue
             for i, data in enumerate(data_list):
                 common_axis_values[axis] = get_common_base(
                     common_axis_values[axis], data_axis_values[i][axis]
                 )
             # Interpolate over common axis values
-            values = get_interpolation(values, axes[axis], common_axis_values[axis])
+            values = get_interpolation(
+                values,
+                axes[axis],
+                common_axis_values[axis],
+                get_axis_index(axes_list, axis),
+            )
             for i, data in enumerate(data_list):
                 data_values[i] = get_interpolation(
                     data_values[i],
                     data_axis_values[i][axis],
                     common_axis_values[axis],
+                    get_axis_index(data_axis_values[i]["axes_list"], axis),
                 )
             return_dict[axis] = common_axis_values[axis]
         # Return axis and values
-        return_dict[self.symbol] = values
+        return_dict[self.symbol] = squeeze(values)
         return_dict["axes_list"] = axes_list
         return_dict["axes_dict_other"] = axes_dict_other
         for i, data in enumerate(data_list):
-            return_dict[data.symbol + "_" + str(i)] = data_values[i]
+            return_dict[data.symbol + "_" + str(i)] = squeeze(data_values[i])
         return return_dict
diff --git a/SciDataTool/Methods/DataND/get_phase_along.py b/SciDataTool/Methods/DataND/get_phase_along.py
index 732b0f2..00e3bd0 100644
--- a/SciDataTool/Methods/DataND/get_phase_along.py
+++ b/SciDataTool/Methods/DataND/get_phase_along.py
@@ -3,7 +3,7 @@ from SciDataTool.Functions.conversions import convert
 from numpy import angle as np_angle
 
 
-def get_phase_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
+def get_phase_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeeze=True):
     """Returns the ndarray of the magnitude of the FT, using conversions and symmetries if needed.
     Parameters
     ----------
@@ -23,7 +23,7 @@ def get_phase_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     """
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
-    return_dict = self.get_along(args, axis_data=axis_data)
+    return_dict = self.get_along(args, axis_data=axis_data, is_squeeze=is_squeeze)
     values = return_dict[self.symbol]
     # Compute magnitude
     values = np_angle(values)
-- 
2.43.0


From 4d720b9291971d7429da5a5f8734d19ed5d58a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:14:53 +0000
Subject: [PATCH 31/40] fix: headers of exported files

---
 SciDataTool/Functions/Plot/__init__.py     |  2 +-
 SciDataTool/Methods/DataND/export_along.py | 17 +++++++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Functions/Plot/__init__.py b/SciDataTool/Functions/Plot/__init__.py
index 1af55db..1388df5 100644
--- a/SciDataTool/Functions/Plot/__init__.py
+++ b/SciDataTool/Functions/Plot/__init__.py
@@ -1,6 +1,6 @@
 unit_dict = {
     "time": "s",
-    "angle": "°",
+    "angle": "rad",
     "freqs": "Hz",
     "wavenumber": "",
     "phase": "",
diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index 4f51040..ebd10b2 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -87,9 +87,12 @@ def export_along(
         # Remove slice axes
         axes_list_new = []
         slices = ""
+        # Units of the coordinates: those of the axes of the field
+        units = dict(unit_dict)
+        units.update({axis.name: axis.unit for axis in self.axes})
         for axis in axes_list:
             if axis.unit == "SI":
-                axis.unit = unit_dict[axis.name]
+                axis.unit = units[axis.name]
             if len(results[axis.name]) == 1:
                 slices += axis.name + "=" + str(results[axis.name][0])
             elif isinstance(results[axis.name], str):
@@ -147,10 +150,12 @@ def export_along(
                 # First line: meta-data
                 if unit == "SI":
                     unit = self.unit
-                if "dB" in unit:
-                    unit += (
-                        " re. " + str(self.normalizations["ref"].ref) + " " + self.unit
-                    )
+                if "dB" in unit and " re. " not in unit:
+                    if "ref" in self.normalizations:
+                        ref = self.normalizations["ref"].ref
+                    else:
+                        ref = 1.0
+                    unit += " re. " + str(ref) + " " + self.unit
 
                 meta_data = [self.symbol, self.name, "[" + unit + "]", slices_i]
                 csvWriter.writerow(meta_data)
@@ -177,7 +182,7 @@ def export_along(
                         field = np.array(Ydatas[0])
                     else:
                         field = np.array(Ydatas)
-                    if field.shape[0] != len(Xdata[0]):
+                    if len(Ydatas) > 1 or field.shape[0] != len(Xdata[0]):
                         field = field.T
                     matrix = format_matrix(
                         np.column_stack((np.array(Xdata[0]).T, field)).astype("str"),
-- 
2.43.0


From 5e6c53685b5c652163b1939b9ef522b3d2045e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:24 +0000
Subject: [PATCH 32/40] fix: conversion of vector fields between coordinate
 systems

---
 SciDataTool/Functions/conversions.py          |   8 +-
 .../Methods/VectorField/_get_whole_angle.py   |  87 ++++++++++++++
 .../VectorField/get_harm_rphiz_along.py       |  88 +++++---------
 .../Methods/VectorField/get_harm_xyz_along.py |  90 +++++----------
 .../VectorField/get_mag_rphiz_along.py        |  81 +++++--------
 .../Methods/VectorField/get_mag_xyz_along.py  |  83 +++++--------
 .../Methods/VectorField/get_rphiz_along.py    |  94 +++++----------
 .../Methods/VectorField/get_xyz_along.py      | 109 ++++++------------
 SciDataTool/Methods/VectorField/to_rphiz.py   |  34 +++---
 SciDataTool/Methods/VectorField/to_xyz.py     |  22 ++--
 10 files changed, 302 insertions(+), 394 deletions(-)
 create mode 100644 SciDataTool/Methods/VectorField/_get_whole_angle.py

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 90fd134..dd9bfb3 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -618,12 +618,12 @@ def rphi_to_xy(r, phi):
     return (x, y)
 
 
-def cart2pol(field_x, field_y, phi):
+def cart2pol(field_x, field_y, phi, axis_index=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_x.ndim), int).ravel()
-    dim_array[1] = -1
+    dim_array[axis_index] = -1
 
     # Reshape b with dim_array and perform elementwise multiplication with
     # broadcasting along the singleton dimensions for the final output
@@ -636,13 +636,13 @@ def cart2pol(field_x, field_y, phi):
     return (field_r, field_phi)
 
 
-def pol2cart(field_r, field_phi, phi):
+def pol2cart(field_r, field_phi, phi, axis_index=1):
     cos_phi = cos(phi)
     sin_phi = sin(phi)
 
     dim_array = ones((1, field_r.ndim), int).ravel()
     if len(dim_array) > 1:
-        dim_array[1] = -1
+        dim_array[axis_index] = -1
 
         # Reshape b with dim_array and perform elementwise multiplication with
         # broadcasting along the singleton dimensions for the final output
diff --git a/SciDataTool/Methods/VectorField/_get_whole_angle.py b/SciDataTool/Methods/VectorField/_get_whole_angle.py
new file mode 100644
index 0000000..8d20f9a
--- /dev/null
+++ b/SciDataTool/Methods/VectorField/_get_whole_angle.py
@@ -0,0 +1,87 @@
+from numpy import zeros_like
+
+from SciDataTool.Functions import AxisError
+from SciDataTool.Functions.conversions import convert
+from SciDataTool.Functions.symmetries import rebuild_symmetries
+
+
+def get_whole_angle(self, names, args):
+    """Returns copies of components sampled on the whole angle axis, so that they can be converted to another coordinate system.
+    Parameters
+    ----------
+    self: VectorField
+        a VectorField object
+    names: list
+        names of the components to convert (a missing one is null)
+    args: list of strings
+        List of axes requested by the user
+    Returns
+    -------
+    dict of Data objects, ndarray of angles [rad], index of the angle axis, args to read the copies with
+    """
+
+    components = {
+        name: _open_angle(self.components[name])
+        for name in names + ["axial", "comp_z"]
+        if name in self.components
+    }
+    stored = [name for name in names if name in self.components][0]
+    for name in names:
+        if name not in components:
+            components[name] = components[stored].copy()
+            components[name].values = zeros_like(components[name].values)
+
+    index = [axis.name for axis in components[stored].axes].index("angle")
+    axis = components[stored].axes[index]
+    phi = axis.get_values()
+    if axis.unit not in ["rad", "SI"]:
+        phi = convert(phi, axis.unit, "rad")
+
+    # The periods of the stored axis are parts of the whole one
+    new_args = list(args)
+    for axis in self.components[stored].axes:
+        if axis.name != "angle":
+            continue
+        for i, arg in enumerate(new_args):
+            if not arg.startswith("angle["):
+                continue
+            if "[antiperiod]" in arg and "antiperiod" in axis.symmetries:
+                length = axis.get_length(is_antiperiod=True)
+            elif "[oneperiod]" in arg:
+                length = axis.get_length(is_oneperiod=True)
+            elif "[smallestperiod]" in arg:
+                length = axis.get_length(is_smallestperiod=True)
+            else:
+                continue
+            new_args[i] = "angle[0:%d]" % length + arg[arg.index("]") + 1 :]
+
+    return components, phi, index, tuple(new_args)
+
+
+def _open_angle(comp):
+    """Returns a copy of the component on the whole angle axis"""
+
+    names = [axis.name for axis in comp.axes]
+    if "angle" not in names and "wavenumber" in names:
+        comp = comp.get_data_along(
+            *[
+                "angle"
+                if name == "wavenumber"
+                else name
+                if name == "freqs"
+                else name + "[smallestperiod]"
+                for name in names
+            ]
+        )
+    else:
+        comp = comp.copy()
+    names = [axis.name for axis in comp.axes]
+    if "angle" not in names:
+        raise AxisError("No angle axis in component " + comp.name)
+    index = names.index("angle")
+    axis = comp.axes[index]
+    if axis.symmetries != dict():
+        values = rebuild_symmetries(comp.values, index, axis.symmetries)
+        comp.axes[index] = axis.get_axis_periodic(1)
+        comp.values = values
+    return comp
diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 0e226d2..65b4de3 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -2,6 +2,7 @@ from numpy import zeros
 
 from SciDataTool.Functions.conversions import cart2pol
 from SciDataTool.Functions import AxisError
+from SciDataTool.Methods.VectorField._get_whole_angle import get_whole_angle
 
 
 def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=[]):
@@ -26,89 +27,58 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
         # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+        components, phi, index, args = get_whole_angle(self, ["comp_x", "comp_y"], args)
+        Datax = components["comp_x"]
+        Datay = components["comp_y"]
+        # Convert to cylindrical coordinates
+        (field_r, field_t) = cart2pol(Datax.values, Datay.values, phi, index)
+        Datax.values = field_r
+        Datay.values = field_t
+        components["radial"] = Datax
+        components["tangential"] = Datay
+        # Extract second time with true args
+        resultr = components["radial"].get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[components["radial"].symbol]
+        shape = field_r.shape
+        resultt = components["tangential"].get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_t = resultt[components["tangential"].symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_harmonics(
+        if "axial" in components.keys():
+            resultz = components["axial"].get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_harmonics(
+            field_z = resultz[components["axial"].symbol]
+        elif "comp_z" in components.keys():
+            resultz = components["comp_z"].get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[components["comp_z"].symbol]
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[components["radial"].symbol]
 
     elif "tangential" in self.components.keys():
         resultphi = self.components["tangential"].get_harmonics(
@@ -120,7 +90,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
             resultr = self.components["radial"].get_harmonics(
                 N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
             )
-            field_r = resultphi[self.components["radial"].symbol]
+            field_r = resultr[self.components["radial"].symbol]
         else:
             field_r = zeros(shape)
         if "axial" in self.components.keys():
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 7822786..868905b 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -1,7 +1,8 @@
 from numpy import zeros
 
-from SciDataTool.Functions.conversions import cart2pol
+from SciDataTool.Functions.conversions import pol2cart
 from SciDataTool.Functions import AxisError
+from SciDataTool.Methods.VectorField._get_whole_angle import get_whole_angle
 
 
 def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=[]):
@@ -26,90 +27,61 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
         # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+        components, phi, index, args = get_whole_angle(
+            self, ["radial", "tangential"], args
+        )
+        Datar = components["radial"]
+        Dataphi = components["tangential"]
+        # Convert to cartesian coordinates
+        (field_x, field_y) = pol2cart(Datar.values, Dataphi.values, phi, index)
+        Datar.values = field_x
+        Dataphi.values = field_y
+        components["comp_x"] = Datar
+        components["comp_y"] = Dataphi
+        # Extract second time with true args
+        resultx = components["comp_x"].get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[components["comp_x"].symbol]
+        shape = field_x.shape
+        resulty = components["comp_y"].get_harmonics(
+            N_harm,
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_harmonics(
-                N_harm,
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[components["comp_y"].symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_harmonics(
+        if "axial" in components.keys():
+            resultz = components["axial"].get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_harmonics(
+            field_z = resultz[components["axial"].symbol]
+        elif "comp_z" in components.keys():
+            resultz = components["comp_z"].get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[components["comp_z"].symbol]
         else:
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[components["comp_x"].symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 6dc0444..0d8326d 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -2,6 +2,7 @@ from numpy import zeros
 
 from SciDataTool.Functions.conversions import cart2pol
 from SciDataTool.Functions import AxisError
+from SciDataTool.Methods.VectorField._get_whole_angle import get_whole_angle
 
 
 def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
@@ -26,84 +27,54 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
         # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+        components, phi, index, args = get_whole_angle(self, ["comp_x", "comp_y"], args)
+        Datax = components["comp_x"]
+        Datay = components["comp_y"]
+        # Convert to cylindrical coordinates
+        (field_r, field_t) = cart2pol(Datax.values, Datay.values, phi, index)
+        Datax.values = field_r
+        Datay.values = field_t
+        components["radial"] = Datax
+        components["tangential"] = Datay
+        # Extract second time with true args
+        resultr = components["radial"].get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[components["radial"].symbol]
+        shape = field_r.shape
+        resultt = components["tangential"].get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_t) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datax.values = field_r
-            Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_t = resultt[components["tangential"].symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_magnitude_along(
+        if "axial" in components.keys():
+            resultz = components["axial"].get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_magnitude_along(
+            field_z = resultz[components["axial"].symbol]
+        elif "comp_z" in components.keys():
+            resultz = components["comp_z"].get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[components["comp_z"].symbol]
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[components["radial"].symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index 92fb5ab..e4fd12d 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -2,6 +2,7 @@ from numpy import zeros
 
 from SciDataTool.Functions.conversions import pol2cart
 from SciDataTool.Functions import AxisError
+from SciDataTool.Methods.VectorField._get_whole_angle import get_whole_angle
 
 
 def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
@@ -26,85 +27,57 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "radial" in self.components.keys() and "tangential" in self.components.keys():
+    if "radial" in self.components.keys() or "tangential" in self.components.keys():
         # Extract first along whole "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != []:
-            new_args[args.index(string[0])] = "angle"
-        else:
-            new_args.extend(["angle"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+        components, phi, index, args = get_whole_angle(
+            self, ["radial", "tangential"], args
+        )
+        Datar = components["radial"]
+        Dataphi = components["tangential"]
+        # Convert to cartesian coordinates
+        (field_x, field_y) = pol2cart(Datar.values, Dataphi.values, phi, index)
+        Datar.values = field_x
+        Dataphi.values = field_y
+        components["comp_x"] = Datar
+        components["comp_y"] = Dataphi
+        # Extract second time with true args
+        resultx = components["comp_x"].get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        Dataphi = self.components["tangential"].get_data_along(
-            *new_args,
+        field_x = resultx[components["comp_x"].symbol]
+        shape = field_x.shape
+        resulty = components["comp_y"].get_magnitude_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
         )
-        field_r = Datar.values
-        field_c = Dataphi.values
-        shape = field_r.shape
-        phi = Datar.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_magnitude_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
+        field_y = resulty[components["comp_y"].symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_magnitude_along(
+        if "axial" in components.keys():
+            resultz = components["axial"].get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_magnitude_along(
+            field_z = resultz[components["axial"].symbol]
+        elif "comp_z" in components.keys():
+            resultz = components["comp_z"].get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[components["comp_z"].symbol]
         else:
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[components["comp_x"].symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 3a733a8..966beb5 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -2,6 +2,7 @@ from numpy import zeros
 
 from SciDataTool.Functions.conversions import cart2pol
 from SciDataTool.Functions import AxisError
+from SciDataTool.Methods.VectorField._get_whole_angle import get_whole_angle
 
 
 def get_rphiz_along(
@@ -28,95 +29,58 @@ def get_rphiz_along(
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
-    if "comp_x" in self.components.keys() and "comp_y" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle"
-            else:
-                new_args.extend(["angle"])
-        Datax = self.components["comp_x"].get_data_along(
-            *new_args,
+    if "comp_x" in self.components.keys() or "comp_y" in self.components.keys():
+        # Extract first along whole "angle" axis
+        components, phi, index, args = get_whole_angle(self, ["comp_x", "comp_y"], args)
+        Datax = components["comp_x"]
+        Datay = components["comp_y"]
+        # Convert to cylindrical coordinates
+        (field_r, field_c) = cart2pol(Datax.values, Datay.values, phi, index)
+        Datax.values = field_r
+        Datay.values = field_c
+        components["radial"] = Datax
+        components["tangential"] = Datay
+        # Extract second time with true args
+        resultr = components["radial"].get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        Datay = self.components["comp_y"].get_data_along(
-            *new_args,
+        field_r = resultr[components["radial"].symbol]
+        shape = field_r.shape
+        resultt = components["tangential"].get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_x = Datax.values
-        field_y = Datay.values
-        shape = field_x.shape
-        if string != [] and "smallestperiod" in string[0]:
-            phi = Datax.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        else:
-            phi = Datax.get_axes("angle")[0].get_values()
-        # Convert to cylindrical coordinates
-        (field_r, field_c) = cart2pol(field_x, field_y, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datax.values = field_r
-            Datay.values = field_c
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_c = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
-        else:
-            # Need return dict to initialize results
-            resultr = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_c = resultt[components["tangential"].symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_along(
+        if "axial" in components.keys():
+            resultz = components["axial"].get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_along(
+            field_z = resultz[components["axial"].symbol]
+        elif "comp_z" in components.keys():
+            resultz = components["comp_z"].get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[components["comp_z"].symbol]
         else:
             field_z = zeros(shape)
         return_dict = dict(resultr)
-        del return_dict[self.components["comp_x"].symbol]
+        del return_dict[components["radial"].symbol]
 
     elif "radial" in self.components.keys():
         resultr = self.components["radial"].get_along(
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 67fffff..c0d2e67 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -2,6 +2,7 @@ from numpy import zeros
 
 from SciDataTool.Functions.conversions import pol2cart
 from SciDataTool.Functions import AxisError
+from SciDataTool.Methods.VectorField._get_whole_angle import get_whole_angle
 
 
 def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeeze=True):
@@ -27,102 +28,60 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         args = args[0]  # if called from another script with *args
 
     if "radial" in self.components.keys() or "tangential" in self.components.keys():
-        # Extract first along whole or smallest period "angle" axis
-        new_args = [arg for arg in args]
-        string = [s for s in args if "angle" in s]
-        if string != [] and "smallestperiod" not in string[0]:
-            new_args[args.index(string[0])] = "angle"
-        elif string == []:
-            if "wavenumber" in args:
-                new_args[args.index("wavenumber")] = "angle[smallestperiod]"
-            else:
-                new_args.extend(["angle[smallestperiod]"])
-        Datar = self.components["radial"].get_data_along(
-            *new_args,
+        # Extract first along whole "angle" axis
+        components, phi, index, args = get_whole_angle(
+            self, ["radial", "tangential"], args
+        )
+        Datar = components["radial"]
+        Dataphi = components["tangential"]
+        # Convert to cartesian coordinates
+        (field_x, field_y) = pol2cart(Datar.values, Dataphi.values, phi, index)
+        Datar.values = field_x
+        Dataphi.values = field_y
+        components["comp_x"] = Datar
+        components["comp_y"] = Dataphi
+        # Extract second time with true args
+        resultx = components["comp_x"].get_along(
+            args,
             unit=unit,
             is_norm=is_norm,
             axis_data=axis_data,
+            is_squeeze=is_squeeze,
         )
-        field_r = Datar.values
-        shape = field_r.shape
-        if "tangential" in self.components.keys():
-            Dataphi = self.components["tangential"].get_data_along(
-                *new_args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-            )
-            field_c = Dataphi.values
-        else:
-            field_c = zeros(shape, dtype=field_r.dtype)
-            Dataphi = type(Datar)(
-                name=Datar.name,
-                unit=Datar.unit,
-                symbol=Datar.symbol,
-                axes=Datar.axes,
-                values=field_c,
-            )
-        phi = Datar.get_axes("angle")[0].get_values(is_smallestperiod=True)
-        # Convert to cylindrical coordinates
-        (field_x, field_y) = pol2cart(field_r, field_c, phi)
-        # Extract second time with true args
-        if "angle" not in args and "angle[smallestperiod]" not in args:
-            Datar.values = field_x
-            Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
-        else:
-            # Need return dict to initialize results
-            resultx = self.components["radial"].get_along(
-                args,
-                unit=unit,
-                is_norm=is_norm,
-                axis_data=axis_data,
-                is_squeeze=is_squeeze,
-            )
+        field_x = resultx[components["comp_x"].symbol]
+        shape = field_x.shape
+        resulty = components["comp_y"].get_along(
+            args,
+            unit=unit,
+            is_norm=is_norm,
+            axis_data=axis_data,
+            is_squeeze=is_squeeze,
+        )
+        field_y = resulty[components["comp_y"].symbol]
         # Add axial component
-        if "axial" in self.components.keys():
-            resultz = self.components["axial"].get_along(
+        if "axial" in components.keys():
+            resultz = components["axial"].get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_z = resultz[self.components["axial"].symbol]
-        elif "comp_z" in self.components.keys():
-            resultz = self.components["comp_z"].get_along(
+            field_z = resultz[components["axial"].symbol]
+        elif "comp_z" in components.keys():
+            resultz = components["comp_z"].get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_z = resultz[self.components["comp_z"].symbol]
+            field_z = resultz[components["comp_z"].symbol]
         else:
             field_z = zeros(shape)
         # Build return dict
         return_dict = dict(resultx)
-        del return_dict[self.components["radial"].symbol]
+        del return_dict[components["comp_x"].symbol]
 
     elif "comp_x" in self.components.keys():
         resultx = self.components["comp_x"].get_along(
diff --git a/SciDataTool/Methods/VectorField/to_rphiz.py b/SciDataTool/Methods/VectorField/to_rphiz.py
index 7c2e411..291fc1c 100644
--- a/SciDataTool/Methods/VectorField/to_rphiz.py
+++ b/SciDataTool/Methods/VectorField/to_rphiz.py
@@ -13,43 +13,47 @@ def to_rphiz(self):
     module = __import__("SciDataTool.Classes.VectorField", fromlist=["VectorField"])
     VectorField = getattr(module, "VectorField")
 
-    if (
-        "radial" in self.components
-        or "tangential" in self.components
-        or "axial" in self.components
-    ):
+    if "radial" in self.components or "tangential" in self.components:
         return self.copy()
 
+    elif "comp_x" not in self.components and "comp_y" not in self.components:
+        comp_dict = {"axial": comp.copy() for comp in self.components.values()}
+        return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
+
     else:
         # Coordinate transform
+        name_x = "comp_x" if "comp_x" in self.components else "comp_y"
         arg_list = [
             axis.name
             if axis.name in ["freqs", "wavenumber"]
             else axis.name + "[smallestperiod]"
-            for axis in self.components["comp_x"].axes
+            for axis in self.components[name_x].axes
         ]
-        result = self.get_rphiz_along(*arg_list)
+        result = self.get_rphiz_along(*arg_list, is_squeeze=False)
         # Store in new VectorField
         comp_dict = dict()
 
-        Comp_r = self.components["comp_x"].copy()
-        Comp_r.name = "Radial " + self.components["comp_x"].name.lower().replace(
+        Comp_r = self.components[name_x].copy()
+        Comp_r.name = "Radial " + self.components[name_x].name.lower().replace(
             " along x-axis", ""
         )
-        Comp_r.symbol = self.components["comp_x"].symbol.replace("_x", "_r")
+        Comp_r.symbol = self.components[name_x].symbol.replace("_x", "_r")
         Comp_r.values = result["radial"]
         comp_dict["radial"] = Comp_r
 
-        Comp_t = self.components["comp_x"].copy()
-        Comp_t.name = "Tangential " + self.components["comp_x"].name.lower().replace(
+        Comp_t = self.components[name_x].copy()
+        Comp_t.name = "Tangential " + self.components[name_x].name.lower().replace(
             " along x-axis", ""
         )
-        Comp_t.symbol = self.components["comp_x"].symbol.replace("_r", "_y")
+        Comp_t.symbol = self.components[name_x].symbol.replace("_x", "_t")
         Comp_t.values = result["tangential"]
-        comp_dict["comp_y"] = Comp_t
+        comp_dict["tangential"] = Comp_t
 
         if "axial" in self.components:
             Comp_z = self.components["axial"].copy()
-            comp_dict["comp_z"] = Comp_z
+            comp_dict["axial"] = Comp_z
+        elif "comp_z" in self.components:
+            Comp_z = self.components["comp_z"].copy()
+            comp_dict["axial"] = Comp_z
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
diff --git a/SciDataTool/Methods/VectorField/to_xyz.py b/SciDataTool/Methods/VectorField/to_xyz.py
index 027ac91..e80da72 100644
--- a/SciDataTool/Methods/VectorField/to_xyz.py
+++ b/SciDataTool/Methods/VectorField/to_xyz.py
@@ -16,38 +16,46 @@ def to_xyz(self):
     if "comp_x" in self.components or "comp_y" in self.components:
         return self.copy()
 
+    elif "radial" not in self.components and "tangential" not in self.components:
+        comp_dict = {"comp_z": comp.copy() for comp in self.components.values()}
+        return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
+
     else:
         # Coordinate transform
+        name_r = "radial" if "radial" in self.components else "tangential"
         arg_list = [
             axis.name
             if axis.name in ["freqs", "wavenumber"]
             else axis.name + "[smallestperiod]"
-            for axis in self.components["radial"].axes
+            for axis in self.components[name_r].axes
         ]
         result = self.get_xyz_along(*arg_list, is_squeeze=False)
         # Store in new VectorField
         comp_dict = dict()
 
-        Comp_x = self.components["radial"].copy()
+        Comp_x = self.components[name_r].copy()
         Comp_x.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
+            self.components[name_r].name.lower().replace("radial ", "")
             + " along x-axis"
         )
-        Comp_x.symbol = self.components["radial"].symbol.replace("_r", "_x")
+        Comp_x.symbol = self.components[name_r].symbol.replace("_r", "_x")
         Comp_x.values = result["comp_x"]
         comp_dict["comp_x"] = Comp_x
 
-        Comp_y = self.components["radial"].copy()
+        Comp_y = self.components[name_r].copy()
         Comp_y.name = (
-            self.components["radial"].name.lower().replace("radial ", "")
+            self.components[name_r].name.lower().replace("radial ", "")
             + " along y-axis"
         )
-        Comp_y.symbol = self.components["radial"].symbol.replace("_r", "_y")
+        Comp_y.symbol = self.components[name_r].symbol.replace("_r", "_y")
         Comp_y.values = result["comp_y"]
         comp_dict["comp_y"] = Comp_y
 
         if "axial" in self.components:
             Comp_z = self.components["axial"].copy()
             comp_dict["comp_z"] = Comp_z
+        elif "comp_z" in self.components:
+            Comp_z = self.components["comp_z"].copy()
+            comp_dict["comp_z"] = Comp_z
 
         return VectorField(name=self.name, symbol=self.symbol, components=comp_dict)
-- 
2.43.0


From fb6b63b21a8926ace9b31fb15f8676b22922b740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:37 +0000
Subject: [PATCH 33/40] fix: change of referential and periodicity of fields

Real spectra are unfolded to both signs of frequency before they are
turned, lines of frequency zero keep their amplitude, complex fields and
offset or antiperiodic axes keep their values, and the periodicity of any
vector field can be changed.
---
 SciDataTool/Functions/change_referential.py   | 10 ++-
 .../Methods/DataND/change_referential.py      | 82 +++++++++++--------
 .../Methods/VectorField/change_periodicity.py | 77 +++++------------
 .../Methods/VectorField/change_referential.py | 29 +++----
 4 files changed, 91 insertions(+), 107 deletions(-)

diff --git a/SciDataTool/Functions/change_referential.py b/SciDataTool/Functions/change_referential.py
index e857f54..c083995 100644
--- a/SciDataTool/Functions/change_referential.py
+++ b/SciDataTool/Functions/change_referential.py
@@ -205,12 +205,16 @@ def change_referential_waveform(
         Xtime0, Xangle0 = Xtime0.ravel("C"), Xangle0.ravel("C")
 
         # Shift angle according to rotation speed
-        Xangle_new = (Xangle0 + 2 * np.pi * rotation_speed / 60 * Xtime0) % alphaf
+        Xangle_new = Xangle0 + 2 * np.pi * rotation_speed / 60 * Xtime0
+        # Bring shifted angles back to the angle period
+        Xangle_new = (Xangle_new - angle0[0]) % (alphaf - angle0[0]) + angle0[0]
+        Xangle_new = np.clip(Xangle_new, angle0[0], alphaf)
         ta_out = (Xtime0, Xangle_new)
 
     # 2D interpolate for new angle array
-    val_new = np.zeros(shape0)
-    valk = np.zeros((Nt + 1, Na + 1))
+    dtype = np.result_type(val0, float)
+    val_new = np.zeros(shape0, dtype=dtype)
+    valk = np.zeros((Nt + 1, Na + 1), dtype=dtype)
     for k in range(Nslice):
         # Make current slice periodic along time and space
         valk[0:Nt, 0:Na] = val0[:, :, k]
diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b81b14e..449c0c5 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -76,11 +76,6 @@ def change_referential(
     DataLinspace = import_class("SciDataTool.Classes", "DataLinspace")
     DataPattern = import_class("SciDataTool.Classes", "DataPattern")
 
-    if is_waveform:
-        DataClass = import_class("SciDataTool.Classes", "DataTime")
-    else:
-        DataClass = import_class("SciDataTool.Classes", "DataFreq")
-
     # Get axes list
     axes_list = self.get_axes()
     axes_name = [axis.name for axis in axes_list]
@@ -107,15 +102,23 @@ def change_referential(
     # Referential changed is requested in waveform domain if time is in arg_list
     is_waveform = "time[oneperiod]" in arg_list
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Force non real data to get all spectrum
-        is_real = self.is_real
-        self.is_real = False
+    if is_waveform:
+        DataClass = import_class("SciDataTool.Classes", "DataTime")
     else:
-        is_real = True
+        DataClass = import_class("SciDataTool.Classes", "DataFreq")
+
+    is_real = self.is_real if hasattr(self, "is_real") else True
+    try:
+        if not is_waveform and hasattr(self, "is_real"):
+            # Force non real data to get all spectrum
+            self.is_real = False
 
-    # Extract data from vectorfield on one period
-    result = self.get_along(*arg_list, is_squeeze=False)
+        # Extract data from vectorfield on one period
+        result = self.get_along(*arg_list, is_squeeze=False)
+    finally:
+        if hasattr(self, "is_real"):
+            # Reset data
+            self.is_real = is_real
     values = result[self.symbol]
 
     if is_waveform:
@@ -144,6 +147,10 @@ def change_referential(
         freqs = result["freqs"]
         wavenumber = result["wavenumber"]
 
+        if is_real and "freqs" in axes_name:
+            # Input data is a real DataFreq, rebuild spectrum in four quadrants
+            freqs, values = _get_four_quadrants(freqs, wavenumber, values)
+
         val_new, freqs_new, I1, Irf_un = change_referential_spectrum(
             freqs,
             wavenumber,
@@ -153,26 +160,21 @@ def change_referential(
             freqs_new=freqs_new,
             I1=I1,
             Irf_un=Irf_un,
-            is_double_f0=is_real and "freqs" in axes_name,
             atol_freq=atol_freq,
         )
 
         if is_real:
-            # Adapt spectrum amplitude
-            if "time" in axes_name:
-                # Input data is DataTime, FFT has just been performed in four quadrants
-                # so all amplitudes are multiplied by 2 after restriction to positive frequencies
-                coeff = 2
-            else:
-                # Input data is DataFreq, since data is a real spectrum no need to multiply again
-                # all harmonics by two
-                coeff = 1
+            # Spectrum is given in four quadrants so all amplitudes are multiplied by 2
+            # after restriction to positive frequencies
+            coeff = 2
 
             # Restrict spectrum to positive frequencies only and multiply amplitudes by coeff
-            Ifreq_pos = freqs_new >= 0
+            Ifreq_pos = freqs_new > -atol_freq
             freqs_store = freqs_new[Ifreq_pos]
             val_new = val_new[Ifreq_pos] * coeff
-            val_new[0] = val_new[0] / coeff
+            Ifreq_0 = np.abs(freqs_store) <= atol_freq
+            freqs_store[Ifreq_0] = 0
+            val_new[Ifreq_0] = val_new[Ifreq_0] / coeff
         else:
             freqs_store = freqs_new
 
@@ -182,13 +184,13 @@ def change_referential(
 
             if axis.name == "time" and is_waveform:
                 axis_new = axis.copy()
-                axis_new.symmetries = sym_t_new
-                axis_new.number = time_new.size
+                axis_new.symmetries = sym_t_new.copy()
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = time_new.size
                     axis_new.final = time_new[-1]
                     axis_new.include_endpoint = True
                 else:
-                    axis_new.values = time0
+                    axis_new.values = time_new
 
             elif axis.name == "angle" and is_waveform:
                 axis_new = axis.copy()
@@ -196,8 +198,8 @@ def change_referential(
                     axis_new.symmetries = {"antiperiod": int(2 * per_a)}
                 else:
                     axis_new.symmetries = {"period": per_a}
-                axis_new.number = angle_new.size
                 if isinstance(axis_new, DataLinspace):
+                    axis_new.number = angle_new.size
                     axis_new.final = angle_new[-1]
                     axis_new.include_endpoint = True
                 else:
@@ -238,8 +240,24 @@ def change_referential(
         is_real=is_real,
     )
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Reset data
-        self.is_real = is_real
-
     return data_new, axes_list_change, arg_list, freqs_new, I1, Irf_un, ta_in, ta_out
+
+
+def _get_four_quadrants(freqs, wavenumber, values):
+    """Add the negative frequencies of a real spectrum stored on positive frequencies"""
+
+    # Halve amplitudes of positive frequencies
+    Ipos = freqs > 0
+    values = np.array(values, dtype=complex)
+    values[Ipos] = values[Ipos] / 2
+
+    # Negative frequencies are conjugated at opposite wavenumbers
+    val_neg = np.zeros((np.sum(Ipos),) + values.shape[1:], dtype=complex)
+    for ir, r in enumerate(wavenumber):
+        for jr in np.where(np.isclose(wavenumber, -r))[0]:
+            val_neg[:, jr] = np.conj(values[Ipos][:, ir])
+
+    freqs = np.concatenate((-freqs[Ipos][::-1], freqs))
+    values = np.concatenate((val_neg[::-1], values), axis=0)
+
+    return freqs, values
diff --git a/SciDataTool/Methods/VectorField/change_periodicity.py b/SciDataTool/Methods/VectorField/change_periodicity.py
index 0d5af32..8f6de57 100644
--- a/SciDataTool/Methods/VectorField/change_periodicity.py
+++ b/SciDataTool/Methods/VectorField/change_periodicity.py
@@ -27,7 +27,6 @@ def change_periodicity(
         Vectorfield converted with new periodicities
     """
 
-    DataLinspace = import_class("SciDataTool.Classes", "DataLinspace")
     DataPattern = import_class("SciDataTool.Classes", "DataPattern")
 
     # Get axes list in original VectorField
@@ -38,10 +37,6 @@ def change_periodicity(
     per_t, is_aper_t = axes_list[0].get_periodicity()
     per_t = int(per_t / 2) if is_aper_t else per_t
     Nrep_t = int(per_t / per_t_new)
-    Nt = Nrep_t * axes_list[0].get_length(
-        is_oneperiod=Nrep_t > 1 or (Nrep_t == 1 and not is_aper_t_new),
-        is_antiperiod=Nrep_t == 1 and is_aper_t_new,
-    )
 
     # Get replicating number for angle axis
     per_a, is_aper_a = axes_list[1].get_periodicity()
@@ -49,10 +44,6 @@ def change_periodicity(
         is_aper_a_new = is_aper_a
     per_a = int(per_a / 2) if is_aper_a else per_a
     Nrep_a = int(per_a / per_a_new)
-    Na = Nrep_a * axes_list[1].get_length(
-        is_oneperiod=Nrep_a > 1 or (Nrep_a == 1 and not is_aper_a_new),
-        is_antiperiod=Nrep_a == 1 and is_aper_a_new,
-    )
 
     if Nrep_t == 1 and Nrep_a == 1:
         # Return VectorField as it is
@@ -73,65 +64,35 @@ def change_periodicity(
     else:
         angle_arg = "angle[oneperiod]"
 
-    # Get argument list for call to get_rphiz_along on one time and space period
+    # Get argument list for call to get_along on one time and space period
     arg_list = [time_arg, angle_arg]
-    if isinstance(self.get_axes()[-1], DataPattern):
-        arg_list.append("z[smallestpattern]")
-    else:
-        arg_list.append(self.get_axes()[-1].name)
+    for axis in axes_list[2:]:
+        if isinstance(axis, DataPattern):
+            arg_list.append(axis.name + "[smallestpattern]")
+        else:
+            arg_list.append(axis.name)
 
-    # Get axes values on requested axes
-    result = self.get_rphiz_along(*arg_list, is_squeeze=False)
+    # Change axes on which periodicity is reduced or anti-periodicity is removed
     axes_list_new = list()
     for axis in axes_list:
-        axis_new = axis.copy()
-        # Change time periodicity
-        if Nrep_t > 1 and axis.name == "time":
-            axis_new.symmetries = {"period": per_t_new}
-            time_full = result["time"]
-            if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    t_final = time_full[-1] + time_full[1] - time_full[0]
-                else:
-                    t_final = axis.final
-                axis_new.number = Nt
-                axis_new.final = Nrep_t * t_final
-                axis_new.include_endpoint = False
-            else:
-                t_final = time_full[-1] + time_full[1] - time_full[0]
-                for k in range(1, Nrep_t):
-                    time_full = np.append(time_full, result["time"] + k * t_final)
-                axis_new.values = time_full
-        # Change angle periodicity
-        if Nrep_a > 1 and axis.name == "angle":
-            axis_new.symmetries = {"period": per_a_new}
-            angle_full = result["angle"]
-            if isinstance(axis_new, DataLinspace):
-                if axis.include_endpoint:
-                    a_final = angle_full[-1] + angle_full[1] - angle_full[0]
-                else:
-                    a_final = axis.final
-                axis_new.number = Na
-                axis_new.final = Nrep_a * a_final
-                axis_new.include_endpoint = False
-            else:
-                a_final = angle_full[-1] + angle_full[1] - angle_full[0]
-                for k in range(1, Nrep_a):
-                    angle_full = np.append(angle_full, result["angle"] + k * a_final)
-                axis_new.values = angle_full
-
+        if axis.name == "time" and (Nrep_t > 1 or time_arg == "time[oneperiod]"):
+            axis_new = axis.get_axis_periodic(per_t_new)
+        elif axis.name == "angle" and (Nrep_a > 1 or angle_arg == "angle[oneperiod]"):
+            axis_new = axis.get_axis_periodic(per_a_new)
+        else:
+            axis_new = axis.copy()
         axes_list_new.append(axis_new)
 
     # Replicate values by the number of repetitions
     for comp, data in self.components.items():
 
+        # Get values on one time and space period
+        result = data.get_along(*arg_list, is_squeeze=False)
+
         # Duplicate values
-        if Nrep_t > 1 and Nrep_a > 1:
-            val_new = np.tile(result[comp], (Nrep_t, Nrep_a, 1))
-        elif Nrep_t > 1:
-            val_new = np.tile(result[comp], (Nrep_t, 1, 1))
-        elif Nrep_a > 1:
-            val_new = np.tile(result[comp], (1, Nrep_a, 1))
+        val_new = np.tile(
+            result[data.symbol], (Nrep_t, Nrep_a) + (1,) * (len(axes_list) - 2)
+        )
 
         # Create new data object with updated periodicities
         data_new = type(data)(
diff --git a/SciDataTool/Methods/VectorField/change_referential.py b/SciDataTool/Methods/VectorField/change_referential.py
index 15c3f63..1c94a91 100644
--- a/SciDataTool/Methods/VectorField/change_referential.py
+++ b/SciDataTool/Methods/VectorField/change_referential.py
@@ -36,7 +36,6 @@ def change_referential(
     freqs_new = np.array([])
     I1 = np.array([])
     Irf_un = np.array([])
-    Imask = np.array([])
     ta_in = tuple()
     ta_out = tuple()
     for comp, data in self.components.items():
@@ -66,23 +65,25 @@ def change_referential(
             atol_freq=atol_freq,
         )
 
-        # Filter harmonics that are below input absolute tolerance
-        if atol > 0 and not is_waveform:
+        # Store referential changed data in VectorField
+        vf_new.components[comp] = data_new
 
+    # Filter harmonics that are below input absolute tolerance in all components
+    if atol > 0 and not is_waveform and len(vf_new.components) > 0:
+        val = 0
+        val_max = 0
+        for data_new in vf_new.components.values():
+            val_comp = np.abs(data_new.values)
+            val_max = max(val_max, np.max(val_comp))
+            while val_comp.ndim > 1:
+                val_comp = np.sum(val_comp, axis=-1)
+            val = val + val_comp
+        Imask = val > val_max * atol
+
+        for data_new in vf_new.components.values():
             # Copy axis not to change axis in axes_list_change
             data_new.axes = [axis.copy() for axis in data_new.axes]
-
-            # Filter harmonics that are below input absolute tolerance
-            if Imask.size == 0:
-                val = np.abs(data_new.values)
-                val_max = np.max(val)
-                while val.ndim > 1:
-                    val = np.sum(val, axis=-1)
-                Imask = val > val_max * atol
             data_new.axes[0].values = data_new.axes[0].values[Imask]
             data_new.values = data_new.values[Imask, ...]
 
-        # Store referential changed data in VectorField
-        vf_new.components[comp] = data_new
-
     return vf_new
-- 
2.43.0


From 39ab6955816c731b83527f1135aff9cec6799bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:10 +0000
Subject: [PATCH 34/40] fix: evaluation of fields at given frequencies and
 wavenumbers

---
 SciDataTool/Functions/fft_functions.py   | 49 +++++++++++-------------
 SciDataTool/Functions/nudft_functions.py |  8 +++-
 2 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/SciDataTool/Functions/fft_functions.py b/SciDataTool/Functions/fft_functions.py
index cd49182..14c1a61 100644
--- a/SciDataTool/Functions/fft_functions.py
+++ b/SciDataTool/Functions/fft_functions.py
@@ -221,9 +221,15 @@ def comp_fftn(values, axes_list, is_real=True):
             if axis.corr_values is not None and len(axis.corr_values) > 1:  # Timesteps
                 if not is_uniform(axis.corr_values - axis.corr_values[0]):
                     is_non_uniform = True
+                    # Convert wavenumbers to frequencies if needed
+                    frequencies = (
+                        axis.input_data
+                        if axis.name == "freqs"
+                        else axis.input_data / (2 * pi)
+                    )
                     axes_dict_non_uniform[axis.index] = [
                         axis.corr_values,
-                        axis.input_data,
+                        frequencies,
                     ]
                     # Keep only interpolation data
                     axis.values = axis.input_data
@@ -258,10 +264,6 @@ def comp_fftn(values, axes_list, is_real=True):
                     axis.values = axis.input_data
                     axis.input_data = None
 
-    # Apply DFT on non-uniform axes
-    if is_non_uniform:
-        values = nudftn(values, axes_dict=axes_dict_non_uniform)
-
     # Find other fft axes
     for axis in axes_list:
         if axis.index not in axes_dict_non_uniform:
@@ -308,6 +310,15 @@ def comp_fftn(values, axes_list, is_real=True):
             values_FT2 = fftshift(values_FT, axes=axes) / size
     else:
         values_FT2 = values
+
+    # Apply DFT on non-uniform axes (frequency amplitudes of real fields are one-sided)
+    if is_non_uniform:
+        axes_onesided = [
+            axis.index for axis in axes_list if is_real and axis.name == "freqs"
+        ]
+        values_FT2 = nudftn(
+            values_FT2, axes_dict=axes_dict_non_uniform, axes_onesided=axes_onesided
+        )
     return values_FT2
 
 
@@ -371,26 +382,15 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                     axis.input_data = None
                 else:
                     # Compare frequencies of interest with fft frequencies
-                    # Get axis object from axes_list
-                    if axis.name in [axis.name for axis in axes_list]:
-                        axis_obj = axes_list[
-                            [axis.name for axis in axes_list].index(axis.name)
-                        ]
-                    else:
-                        axis_obj = axes_list[
-                            [axis.name for axis in axes_list].index(fft_dict[axis.name])
-                        ]
                     freqs = comp_fft_freqs(
                         axis.input_data, axis.name == "time", is_real
                     )
-                    if "period" in axis_obj.symmetries:
-                        if axis.name != "time":
-                            freqs = [f * axis_obj.symmetries["period"] for f in freqs]
-                    elif "antiperiod" in axis_obj.symmetries:
-                        if axis.name != "time":
-                            freqs = [
-                                f * axis_obj.symmetries["antiperiod"] / 2 for f in freqs
-                            ]
+                    if axis.name != "time":
+                        # Wavenumbers depend on the span of the requested angles
+                        span = len(axis.input_data) * (
+                            axis.input_data[1] - axis.input_data[0]
+                        )
+                        freqs = [f * 2 * pi / span for f in freqs]
                     # If already one non uniform axis, use NUDFT
                     if (
                         axes_dict_non_uniform
@@ -399,10 +399,7 @@ def comp_ifftn(values, axes_requ_list, is_real=True, axes_list=[]):
                             len(axis.corr_values) > 1
                             and (
                                 not is_uniform(axis.corr_values)
-                                or (
-                                    len(freqs) != len(axis.corr_values)
-                                    and not isin(freqs, axis.corr_values).all()
-                                )
+                                or len(freqs) != len(axis.corr_values)
                                 or (
                                     len(freqs) == len(axis.corr_values)
                                     and not allclose(
diff --git a/SciDataTool/Functions/nudft_functions.py b/SciDataTool/Functions/nudft_functions.py
index 938a387..4302b37 100644
--- a/SciDataTool/Functions/nudft_functions.py
+++ b/SciDataTool/Functions/nudft_functions.py
@@ -17,7 +17,9 @@ def matrice_D(t: ndarray, f: ndarray) -> ndarray:
     return exp(-1j * outer(f * 2 * pi, t))
 
 
-def nudftn(a: ndarray, axes_dict: Dict[int, List[ndarray]]) -> ndarray:
+def nudftn(
+    a: ndarray, axes_dict: Dict[int, List[ndarray]], axes_onesided: List[int] = None
+) -> ndarray:
     """
     Compute the non uniform discrete Fourier Transform
 
@@ -26,6 +28,7 @@ def nudftn(a: ndarray, axes_dict: Dict[int, List[ndarray]]) -> ndarray:
 
     a: Input data
     axes_dict: Axes to perform dft with corresponding space and freqsampling
+    axes_onesided: Axes on which positive frequencies are one-sided (default all axes)
 
     Returns
     res: DFT result
@@ -62,7 +65,8 @@ def nudftn(a: ndarray, axes_dict: Dict[int, List[ndarray]]) -> ndarray:
             res /= len(s)
 
             # Check if every frequency is >=0 (rfft equivalent)
-            if np_all(f >= 0):
+            is_onesided = axes_onesided is None or idx_axe in axes_onesided
+            if is_onesided and np_all(f >= 0):
                 idx = where(f != 0)
                 slice_list = tuple(
                     slice(None) if i != idx_axe else idx[0] for i in range(res.ndim)
-- 
2.43.0


From b63d2039152a3c42ee9ff2783f15da579d8caca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:20:10 +0000
Subject: [PATCH 35/40] fix: filtering and magnitudes leave no trace on the
 field

---
 SciDataTool/Methods/DataDual/__init__.py              | 8 ++++++++
 SciDataTool/Methods/DataND/filter_spectral_leakage.py | 7 ++++---
 SciDataTool/Methods/DataND/get_magnitude_along.py     | 5 +++++
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataDual/__init__.py b/SciDataTool/Methods/DataDual/__init__.py
index 1e20c8a..a56015c 100644
--- a/SciDataTool/Methods/DataDual/__init__.py
+++ b/SciDataTool/Methods/DataDual/__init__.py
@@ -8,3 +8,11 @@ def is_freq(*args):
             is_freq = True
             break
     return is_freq
+
+
+def set_side(data, *args):
+    """Show the side (time/space or fourier) of a dual field required by input args"""
+    if data.values_df is not None and (data.values_dt is None or is_freq(*args)):
+        data.axes, data.values = data.axes_df, data.values_df
+    else:
+        data.axes, data.values = data.axes_dt, data.values_dt
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 8c8ee07..ca8cd7b 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -74,7 +74,10 @@ def filter_spectral_leakage(
 
     is_real = self.is_real
     self.is_real = False  # To have negative frequencies
-    result = self.get_along(*arg_list, is_squeeze=False)
+    try:
+        result = self.get_along(*arg_list, is_squeeze=False)
+    finally:
+        self.is_real = is_real
     freqs = result["freqs"]
     spectrum = result[self.symbol]
 
@@ -187,8 +190,6 @@ def filter_spectral_leakage(
         is_real=True,
     )
 
-    self.is_real = is_real
-
     if is_return_calc_data:
         return data_filt, axes_list_filt, arg_list, Wmatf, If, freqs_th
 
diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 608cc51..e0bbf41 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -7,6 +7,7 @@ from SciDataTool.Functions.conversions import (
     to_noct,
 )
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
+from SciDataTool.Methods.DataDual import set_side
 from numpy import apply_along_axis, add, squeeze, take
 
 
@@ -40,6 +41,10 @@ def get_magnitude_along(
     if len(args) == 1 and type(args[0]) == tuple:
         args = args[0]  # if called from another script with *args
 
+    # The side of a dual field depends on the request only
+    if hasattr(self, "values_df"):
+        set_side(self, *args)
+
     # Fix axes order
     args = fix_axes_order([axis.name for axis in self.get_axes()], args)
 
-- 
2.43.0


From c7510f5e98b6693777cdb5c371d1f85be4ac530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:17 +0000
Subject: [PATCH 36/40] fix: harmonics of cylindrical components without
 tangential one

---
 .../VectorField/get_harm_rphiz_along.py       | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 65b4de3..1099a2b 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -108,6 +108,28 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         return_dict = dict(resultphi)
         del return_dict[self.components["tangential"].symbol]
 
+    elif "radial" in self.components.keys():
+        resultr = self.components["radial"].get_harmonics(
+            N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+        )
+        field_r = resultr[self.components["radial"].symbol]
+        shape = field_r.shape
+        field_t = zeros(shape)
+        if "axial" in self.components.keys():
+            resultz = self.components["axial"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+            )
+            field_z = resultz[self.components["axial"].symbol]
+        elif "comp_z" in self.components.keys():
+            resultz = self.components["comp_z"].get_harmonics(
+                N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
+            )
+            field_z = resultz[self.components["comp_z"].symbol]
+        else:
+            field_z = zeros(shape)
+        return_dict = dict(resultr)
+        del return_dict[self.components["radial"].symbol]
+
     elif "axial" in self.components.keys():
         resultz = self.components["axial"].get_harmonics(
             N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
@@ -120,7 +142,7 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         del return_dict[self.components["axial"].symbol]
 
     elif "comp_z" in self.components.keys():
-        resultz = self.components["z"].get_harmonics(
+        resultz = self.components["comp_z"].get_harmonics(
             N_harm, args, unit=unit, is_norm=is_norm, axis_data=axis_data
         )
         field_z = resultz[self.components["comp_z"].symbol]
-- 
2.43.0


From 77897d8d981889a1f0f04188327459d35f031ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:17 +0000
Subject: [PATCH 37/40] fix: leakage filtering of spectra, complex fields, odd
 numbers of angles and third axes

---
 .../Methods/DataND/filter_spectral_leakage.py   | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index ca8cd7b..520c4b5 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -69,6 +69,9 @@ def filter_spectral_leakage(
                 arg_list.append("wavenumber")
             elif axis.name == "z" and isinstance(axis, DataPattern):
                 arg_list.append("z[smallestpattern]")
+            elif len(axis.symmetries) > 0 and axis.name not in ["freqs", "wavenumber"]:
+                # Other axes are stored with their symmetries
+                arg_list.append(axis.name + "[smallestperiod]")
             else:
                 arg_list.append(axis.name)
 
@@ -100,9 +103,15 @@ def filter_spectral_leakage(
         spectrum[If0, ...] *= 0.5
         If0[-1] = bool(np.mod(freqs.size, 2) == 0)
         freqs = np.concatenate((-np.flip(freqs), freqs[If0]))
+        mirror = np.flip(np.conj(spectrum), axis=0)
+        if "wavenumber" in result:
+            # Negative frequencies have opposite wavenumbers
+            mirror = np.flip(mirror, axis=1)
+            if mirror.shape[1] % 2 == 0:
+                mirror = np.roll(mirror, 1, axis=1)
         spectrum = np.concatenate(
             (
-                np.flip(np.conj(spectrum)),
+                mirror,
                 spectrum[If0, ...],
             ),
             axis=0,
@@ -134,10 +143,12 @@ def filter_spectral_leakage(
             Ifn = ~Ifp
             if freqs_th_store[0] == 0:
                 Ifn[I0] = True
+            # Lowest wavenumber has no opposite if the number of angles is even
+            first = 1 if wavenumber.size % 2 == 0 else 0
             spectrum_filt = np.concatenate(
                 (
                     spectrum_filt[Ifp, ...],
-                    np.flip(np.conj(spectrum_filt[Ifn, 1:-1, ...])),
+                    np.flip(np.conj(spectrum_filt[Ifn, first:-1, ...]), axis=(0, 1)),
                 ),
                 axis=1,
             )
@@ -187,7 +198,7 @@ def filter_spectral_leakage(
         axes=axes_list_filt,
         values=spectrum_filt,
         normalizations=self.normalizations,
-        is_real=True,
+        is_real=is_real,
     )
 
     if is_return_calc_data:
-- 
2.43.0


From 66423af76c09a8ab618a76d293e3ea46fe839f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:01:10 +0000
Subject: [PATCH 38/40] fix: draw plots of the requested data when axes are
 listed in another order or share a length

- 2D plots kept the interval given for wavenumbers, label the plotted axis
  and split overlaid curves along the listed axis.
- Maps follow the order of the requested axes, also for axes without a
  default unit, descending axes and switched tick labels.
---
 SciDataTool/Functions/Plot/plot_3D.py      |  5 +++--
 SciDataTool/Methods/DataND/plot_2D_Data.py | 10 ++++++----
 SciDataTool/Methods/DataND/plot_3D_Data.py | 13 +++++++++----
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 5da8692..5ebb2c4 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -162,6 +162,7 @@ def plot_3D(
         x_max, y_max = y_max, x_max
         xlabel, ylabel = ylabel, xlabel
         xticks, yticks = yticks, xticks
+        xticklabels, yticklabels = yticklabels, xticklabels
         is_logscale_x, is_logscale_y = is_logscale_y, is_logscale_x
 
     # Plot
@@ -243,10 +244,10 @@ def plot_3D(
         # Handle descending order axes (e.g. spectrogram of run-down in freq/rpm map)
         if Ydata[-1] < Ydata[0]:
             Ydata = Ydata[::-1]
-            Zdata = Zdata[:, ::-1]
+            Zdata = Zdata[::-1, :]
         if Xdata[-1] < Xdata[0]:
             Xdata = Xdata[::-1]
-            Zdata = Zdata[::-1, :]
+            Zdata = Zdata[:, ::-1]
         im = NonUniformImage(
             ax,
             interpolation=interpolation,
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 6420809..0669db2 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -157,7 +157,7 @@ def plot_2D_Data(
 
     # In case of 1D fft, keep only positive wavenumbers
     for i, arg in enumerate(arg_list_along):
-        if "wavenumber" in arg and "=" not in arg and "[" not in arg:
+        if "wavenumber" in arg and not any(s in arg for s in "=[<>"):
             liste = list(arg_list_along)
             liste[i] = arg.replace("wavenumber", "wavenumber>0")
             arg_list_along = tuple(liste)
@@ -246,7 +246,7 @@ def plot_2D_Data(
     # Build xlabel and title
     title1 = self.name[0].capitalize() + self.name[1:] + " "
     title2 = "for "
-    for axis in axes_list:
+    for axis in sorted(axes_list, key=lambda axis: axis.name != axes_names[0]):
         if axis.unit in norm_dict and axis.unit != "Hz":
             name = norm_dict[axis.unit].split(" [")[0]
         elif axis.name in axes_dict:
@@ -399,6 +399,7 @@ def plot_2D_Data(
                 if linestyles is None:
                     linestyles = ["dashed"]
                 n_curves = len(axis.values)
+                i_overlay = axes_list.index(axis)
                 if axis.unit == "SI":
                     if axis.name in unit_dict:
                         axis_unit = unit_dict[axis.name]
@@ -444,12 +445,13 @@ def plot_2D_Data(
 
     # Split Ydatas if the plot overlays several curves
     if is_overlay:
+        i_main = [axis.name for axis in axes_list].index(axes_names[0])
         Ydata = []
         for d in Ydatas:
             if d.ndim != 1:
                 axis_index = where(array(d.shape) == n_curves)[0]
-                if axis_index.size > 1:
-                    print("WARNING, several axes with same dimensions")
+                if axis_index.size > 1 and i_overlay < i_main:
+                    axis_index = axis_index[:1]
                 Ydata += split(d, n_curves, axis=axis_index[-1])
             else:
                 Ydata += [d]
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data.py b/SciDataTool/Methods/DataND/plot_3D_Data.py
index be9bea4..4b53818 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data.py
@@ -211,6 +211,9 @@ def plot_3D_Data(
     else:
         Ydata = result[axes_names[1]]
     Zdata = result[self.symbol]
+    names = list(result.keys())
+    if Zdata.ndim == 2 and names.index(axes_names[0]) > names.index(axes_names[1]):
+        Zdata = Zdata.T  # Axes requested in another order than those of the field
     if Xdata.size == 1:
         Zdata = Zdata[None, ...]
     if Ydata.size == 1:
@@ -255,7 +258,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = unit_dict.get(axis.name, axis.unit)
         if xlabel is None:
             xlabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -293,7 +296,7 @@ def plot_3D_Data(
     else:
         name = axis.name
     if axis.unit == "SI":
-        axis_unit = unit_dict[axis.name]
+        axis_unit = unit_dict.get(axis.name, axis.unit)
         if ylabel is None:
             ylabel = name[0].capitalize() + name[1:] + " [" + axis_unit + "]"
     elif axis.unit in norm_dict:
@@ -366,7 +369,7 @@ def plot_3D_Data(
             is_display = False
         if is_display:
             if axis.unit == "SI":
-                axis_unit = unit_dict[axis.name]
+                axis_unit = unit_dict.get(axis.name, axis.unit)
             elif axis.unit in norm_dict:
                 axis_unit = norm_dict[axis.unit]
             else:
@@ -659,7 +662,9 @@ def plot_3D_Data(
                     y_min -= 0.5
                     y_max -= 0.5
                 Ydata, Xdata = meshgrid(Ydata, Xdata)
-            if type_plot == "pcolor":
+            if type_plot == "pcolor" or (
+                type_plot == "pcolormesh" and not is_shading_flat
+            ):
                 Zdata = Zdata.T
             plot_3D(
                 Xdata,
-- 
2.43.0


From 378c8ea58f610f7e5d05f1fbd816feffd9ab0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:17:50 +0000
Subject: [PATCH 39/40] fix: label overlaid curves with the coordinates of
 their own field

---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 0669db2..bbd4778 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -212,6 +212,7 @@ def plot_2D_Data(
     # Extract field and axes
     Xdatas = []
     Ydatas = []
+    results = []
     data_list2 = [self] + data_list
     for i, d in enumerate(data_list2):
         if is_fft or "dB" in unit:
@@ -231,6 +232,7 @@ def plot_2D_Data(
                 axes_dict_other = result.pop("axes_dict_other")
                 result_0 = result
         Ydatas.append(result.pop(d.symbol))
+        results.append(result)
         # in string case not overlay, Xdatas is a linspace
         if (
             axes_list[list(result.keys()).index(axes_names[0])].is_components
@@ -416,15 +418,15 @@ def plot_2D_Data(
                             + " "
                             + axis.name
                             + "="
-                            + axis.values.tolist()[j].replace(";", "")
+                            + results[i][axis.name][j].replace(";", "")
                             + " "
                             + axis_unit
-                            if isinstance(axis.values.tolist()[j], str)
+                            if isinstance(results[i][axis.name][j], str)
                             else legend_list[i]
                             + " "
                             + axis.name
                             + "="
-                            + "%.3g" % axis.values.tolist()[j]
+                            + "%.3g" % results[i][axis.name][j]
                             + " "
                             + axis_unit
                         )
-- 
2.43.0


From 0564e3cdcce1f52be51fb80b5c42736afec8d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:59:27 +0000
Subject: [PATCH 40/40] fix: keep the third coordinate of points converted to
 cartesian coordinates

---
 SciDataTool/Functions/conversions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index dd9bfb3..a66f089 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -515,14 +515,14 @@ def rphiz_to_xyz(values):
 
     r = values[:, 0]
     phi = values[:, 1]
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         z = values[:, 2]
 
     affixe = r * exp(1j * phi)
     x = real(affixe)
     y = imag(affixe)
 
-    if len(values.shape) > 2:
+    if values.shape[1] > 2:
         return column_stack((x, y, z))
     else:
         return column_stack((x, y))
-- 
2.43.0

