From 01fee92a93962cf70ce3b64ad0bcbebc5306b196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:27 +0000
Subject: [PATCH 01/21] fix: keep temporary fields of vector field queries out
 of the stored components

The cylindrical/cartesian queries of VectorField inserted working fields in
self.components and deleted them at the end. A request that failed in between
left them behind, and a concurrent query could see them. Use local objects.
---
 .../Methods/VectorField/get_harm_rphiz_along.py     | 13 ++++---------
 .../Methods/VectorField/get_harm_xyz_along.py       | 13 ++++---------
 .../Methods/VectorField/get_mag_rphiz_along.py      | 13 ++++---------
 .../Methods/VectorField/get_mag_xyz_along.py        | 13 ++++---------
 SciDataTool/Methods/VectorField/get_rphiz_along.py  | 13 ++++---------
 SciDataTool/Methods/VectorField/get_xyz_along.py    | 13 ++++---------
 6 files changed, 24 insertions(+), 54 deletions(-)

diff --git a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
index 0e226d2..a96b5ea 100644
--- a/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_rphiz_along.py
@@ -56,27 +56,22 @@ def get_harm_rphiz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_dat
         if "angle" not in args:
             Datax.values = field_r
             Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_harmonics(
+            resultr = Datax.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_harmonics(
+            field_r = resultr[Datax.symbol]
+            resultt = Datay.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_t = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
             resultr = self.components["comp_x"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
index 7822786..3248f37 100644
--- a/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_harm_xyz_along.py
@@ -56,27 +56,22 @@ def get_harm_xyz_along(self, N_harm, *args, unit="SI", is_norm=False, axis_data=
         if "angle" not in args:
             Datar.values = field_x
             Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_harmonics(
+            resultx = Datar.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_harmonics(
+            field_x = resultx[Datar.symbol]
+            resulty = Dataphi.get_harmonics(
                 N_harm,
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
+            field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
             resultx = self.components["radial"].get_harmonics(
diff --git a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
index 6dc0444..79fbe61 100644
--- a/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_rphiz_along.py
@@ -56,25 +56,20 @@ def get_mag_rphiz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         if "angle" not in args:
             Datax.values = field_r
             Datay.values = field_t
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_magnitude_along(
+            resultr = Datax.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_magnitude_along(
+            field_r = resultr[Datax.symbol]
+            resultt = Datay.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_t = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_t = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
             resultr = self.components["comp_x"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
index 92fb5ab..e77625f 100644
--- a/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_mag_xyz_along.py
@@ -56,25 +56,20 @@ def get_mag_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         if "angle" not in args:
             Datar.values = field_x
             Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_magnitude_along(
+            resultx = Datar.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_magnitude_along(
+            field_x = resultx[Datar.symbol]
+            resulty = Dataphi.get_magnitude_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
             )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
+            field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
             resultx = self.components["radial"].get_magnitude_along(
diff --git a/SciDataTool/Methods/VectorField/get_rphiz_along.py b/SciDataTool/Methods/VectorField/get_rphiz_along.py
index 3a733a8..69ef808 100644
--- a/SciDataTool/Methods/VectorField/get_rphiz_along.py
+++ b/SciDataTool/Methods/VectorField/get_rphiz_along.py
@@ -64,27 +64,22 @@ def get_rphiz_along(
         if "angle" not in args and "angle[smallestperiod]" not in args:
             Datax.values = field_r
             Datay.values = field_c
-            self.components["radial"] = Datax
-            self.components["tangential"] = Datay
-            resultr = self.components["radial"].get_along(
+            resultr = Datax.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_r = resultr[self.components["radial"].symbol]
-            resultt = self.components["tangential"].get_along(
+            field_r = resultr[Datax.symbol]
+            resultt = Datay.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_c = resultt[self.components["tangential"].symbol]
-            # Delete temporary Data objects
-            del self.components["radial"]
-            del self.components["tangential"]
+            field_c = resultt[Datay.symbol]
         else:
             # Need return dict to initialize results
             resultr = self.components["comp_x"].get_along(
diff --git a/SciDataTool/Methods/VectorField/get_xyz_along.py b/SciDataTool/Methods/VectorField/get_xyz_along.py
index 67fffff..74abaa2 100644
--- a/SciDataTool/Methods/VectorField/get_xyz_along.py
+++ b/SciDataTool/Methods/VectorField/get_xyz_along.py
@@ -69,27 +69,22 @@ def get_xyz_along(self, *args, unit="SI", is_norm=False, axis_data=[], is_squeez
         if "angle" not in args and "angle[smallestperiod]" not in args:
             Datar.values = field_x
             Dataphi.values = field_y
-            self.components["comp_x"] = Datar
-            self.components["comp_y"] = Dataphi
-            resultx = self.components["comp_x"].get_along(
+            resultx = Datar.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_x = resultx[self.components["comp_x"].symbol]
-            resulty = self.components["comp_y"].get_along(
+            field_x = resultx[Datar.symbol]
+            resulty = Dataphi.get_along(
                 args,
                 unit=unit,
                 is_norm=is_norm,
                 axis_data=axis_data,
                 is_squeeze=is_squeeze,
             )
-            field_y = resulty[self.components["comp_y"].symbol]
-            # Delete temporary Data objects
-            del self.components["comp_x"]
-            del self.components["comp_y"]
+            field_y = resulty[Dataphi.symbol]
         else:
             # Need return dict to initialize results
             resultx = self.components["radial"].get_along(
-- 
2.43.0


From 33e4467d2bd15c0d9ce3fb7031e8f9c1ae0941f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:22:56 +0000
Subject: [PATCH 02/21] fix: rebuild symmetries of the field without touching
 the axes

The field extraction overwrote the antiperiodicity of the axis while rebuilding
the field, erased the symmetries of the axis for good when a slice lies in
another period, and handed the stored array to operations done in place.
---
 SciDataTool/Methods/DataND/_get_field.py          | 11 +++++------
 SciDataTool/Methods/DataND/_rebuild_symmetries.py | 15 ++++++++++-----
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/SciDataTool/Methods/DataND/_get_field.py b/SciDataTool/Methods/DataND/_get_field.py
index 95c5969..5429f2e 100644
--- a/SciDataTool/Methods/DataND/_get_field.py
+++ b/SciDataTool/Methods/DataND/_get_field.py
@@ -16,7 +16,8 @@ def _get_field(self, axes_list):
         values of the field
     """
 
-    values = self.values
+    # Work on a copy: operations further on may be done in place
+    values = self.values.copy()
     for axis_requested in axes_list:
         # Rebuild symmetries when needed
         axis_symmetries = self.axes[axis_requested.index].symmetries
@@ -43,16 +44,14 @@ def _get_field(self, axes_list):
             values = take(values, axis_requested.rebuild_indices, axis_requested.index)
         elif axis_requested.transform == "fft" and "antiperiod" in axis_symmetries:
             # FFT case if axis is anti-periodic
-            nper = axis_symmetries["antiperiod"]
-            axis_symmetries["antiperiod"] = 2
-            values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            axis_symmetries["antiperiod"] = nper
+            values = rebuild_symmetries(
+                values, axis_requested.index, {**axis_symmetries, "antiperiod": 2}
+            )
         elif (
             axis_requested.indices is not None
             and max(axis_requested.indices) > values.shape[axis_requested.index]
         ):
             # Slicing case where requested indices are among other periods
             values = rebuild_symmetries(values, axis_requested.index, axis_symmetries)
-            self.axes[axis_requested.index].symmetries = dict()
 
     return values
diff --git a/SciDataTool/Methods/DataND/_rebuild_symmetries.py b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
index 4a16f4f..131a5b7 100644
--- a/SciDataTool/Methods/DataND/_rebuild_symmetries.py
+++ b/SciDataTool/Methods/DataND/_rebuild_symmetries.py
@@ -86,12 +86,17 @@ def _rebuild_symmetries(
 
             # Rebuild symmetries
             axis_symmetries = self.axes[axis.index].symmetries
-            if is_oneperiod:
+            if (
+                axis.indices is not None
+                and max(axis.indices) > self.values.shape[axis.index]
+            ):
+                # Already rebuilt by _get_field to reach the requested indices
+                pass
+            elif is_oneperiod:
                 if "antiperiod" in axis_symmetries:
-                    nper = axis_symmetries["antiperiod"]
-                    axis_symmetries["antiperiod"] = 2
-                    values = rebuild_symmetries_fct(values, axis.index, axis_symmetries)
-                    axis_symmetries["antiperiod"] = nper
+                    values = rebuild_symmetries_fct(
+                        values, axis.index, {**axis_symmetries, "antiperiod": 2}
+                    )
             elif not is_smallestperiod and not is_antiperiod:
                 values = rebuild_symmetries_fct(values, axis.index, axis_symmetries)
     return values
-- 
2.43.0


From cc0391e8436410590199b8ff0168ba4995979476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:39 +0000
Subject: [PATCH 03/21] fix: read axis values without modifying the axis or its
 normalizations

Rebuilding the antiperiod or a normalization vector overwrote the stored axis for
the duration of the call, and extracting one period of an axis truncated the
normalization vectors of the axis it was called on. The returned vectors no longer
alias the stored ones.
---
 .../Methods/Data1D/get_axis_periodic.py       |  9 ++++---
 SciDataTool/Methods/Data1D/get_values.py      | 26 +++++++++----------
 SciDataTool/Methods/Data1D/to_linspace.py     |  6 +++--
 .../Methods/DataLinspace/get_axis_periodic.py |  7 ++---
 .../Methods/DataLinspace/get_values.py        | 23 ++++++++--------
 SciDataTool/Methods/DataPattern/get_values.py |  5 ++--
 SciDataTool/Methods/Norm_vector/normalize.py  |  2 +-
 7 files changed, 41 insertions(+), 37 deletions(-)

diff --git a/SciDataTool/Methods/Data1D/get_axis_periodic.py b/SciDataTool/Methods/Data1D/get_axis_periodic.py
index f5fb4ee..10fe1e3 100644
--- a/SciDataTool/Methods/Data1D/get_axis_periodic.py
+++ b/SciDataTool/Methods/Data1D/get_axis_periodic.py
@@ -32,10 +32,11 @@ def get_axis_periodic(self, Nper, is_aper=False):
 
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
-        values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        values_per = values[: int(N / Nper)].copy()
+        normalizations = {key: n.copy() for key, n in self.normalizations.items()}
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                norm.vector = norm.vector[: int(N / Nper)].copy()
 
         if is_aper:
             sym = "antiperiod"
@@ -52,7 +53,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations,
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/Data1D/get_values.py b/SciDataTool/Methods/Data1D/get_values.py
index d691c22..f731fa2 100644
--- a/SciDataTool/Methods/Data1D/get_values.py
+++ b/SciDataTool/Methods/Data1D/get_values.py
@@ -1,3 +1,4 @@
+from copy import copy
 from importlib import import_module
 from numpy import array
 
@@ -49,7 +50,7 @@ def get_values(
             normalization = unit
             unit = "SI"
 
-    values = self.values
+    values = copy(self.values)
     norm_vector = None
 
     # Ignore symmetries if fft axis
@@ -66,11 +67,9 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            values = rebuild_symmetries_axis(
+                values, {**self.symmetries, "antiperiod": 2}
+            )
         elif "period" in self.symmetries:
             pass
         else:
@@ -82,9 +81,10 @@ def get_values(
             and normalization in self.normalizations
             and isinstance(self.normalizations[normalization], Norm_vector)
         ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
+            norm_vector = Norm_vector(
+                vector=rebuild_symmetries_axis(
+                    self.normalizations[normalization].vector, self.symmetries
+                )
             )
 
     # fft/ifft
@@ -108,7 +108,10 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                if norm_vector is not None:
+                    values = norm_vector.normalize(values)
+                else:
+                    values = self.normalizations[normalization].normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -121,7 +124,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/Data1D/to_linspace.py b/SciDataTool/Methods/Data1D/to_linspace.py
index 025de20..202531f 100644
--- a/SciDataTool/Methods/Data1D/to_linspace.py
+++ b/SciDataTool/Methods/Data1D/to_linspace.py
@@ -37,8 +37,10 @@ def to_linspace(self):
             include_endpoint=True,
             name=self.name,
             unit=self.unit,
-            symmetries=self.symmetries,
-            normalizations=self.normalizations.copy(),
+            symmetries=self.symmetries.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
index 15e6887..871643b 100644
--- a/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
+++ b/SciDataTool/Methods/DataLinspace/get_axis_periodic.py
@@ -33,9 +33,10 @@ def get_axis_periodic(self, Nper, is_aper=False):
         if N % Nper != 0:
             raise AxisError("length of axis is not divisible by the number of periods")
         values_per = values[: int(N / Nper)]
-        for norm in self.normalizations.values():
+        normalizations = {key: n.copy() for key, n in self.normalizations.items()}
+        for norm in normalizations.values():
             if isinstance(norm, Norm_vector):
-                norm.vector = norm.vector[: int(N / Nper)]
+                norm.vector = norm.vector[: int(N / Nper)].copy()
 
         if is_aper:
             sym = "antiperiod"
@@ -55,7 +56,7 @@ def get_axis_periodic(self, Nper, is_aper=False):
             name=self.name,
             unit=self.unit,
             symmetries=symmetries,
-            normalizations=self.normalizations.copy(),
+            normalizations=normalizations,
             is_components=self.is_components,
             symbol=self.symbol,
         )
diff --git a/SciDataTool/Methods/DataLinspace/get_values.py b/SciDataTool/Methods/DataLinspace/get_values.py
index ab49789..cab186d 100644
--- a/SciDataTool/Methods/DataLinspace/get_values.py
+++ b/SciDataTool/Methods/DataLinspace/get_values.py
@@ -77,11 +77,9 @@ def get_values(
             raise AxisError("axis has no antiperiodicity")
     elif is_oneperiod:
         if "antiperiod" in self.symmetries:
-            nper = self.symmetries["antiperiod"]
-            self.symmetries["antiperiod"] = 2
-            values = rebuild_symmetries_axis(values, self.symmetries)
-            self.symmetries["antiperiod"] = nper
-            pass
+            values = rebuild_symmetries_axis(
+                values, {**self.symmetries, "antiperiod": 2}
+            )
         elif "period" in self.symmetries:
             pass
         else:
@@ -93,9 +91,10 @@ def get_values(
             and normalization in self.normalizations
             and isinstance(self.normalizations[normalization], Norm_vector)
         ):
-            norm_vector = self.normalizations[normalization].vector.copy()
-            self.normalizations[normalization].vector = rebuild_symmetries_axis(
-                norm_vector, self.symmetries
+            norm_vector = Norm_vector(
+                vector=rebuild_symmetries_axis(
+                    self.normalizations[normalization].vector, self.symmetries
+                )
             )
 
     # fft/ifft
@@ -119,7 +118,10 @@ def get_values(
                 or self.normalizations[normalization].unit == self.unit
             ):
                 # Axis is in the correct unit for the normalization
-                values = self.normalizations[normalization].normalize(values)
+                if norm_vector is not None:
+                    values = norm_vector.normalize(values)
+                else:
+                    values = self.normalizations[normalization].normalize(values)
             else:
                 raise NormError("Normalization is not available in this unit")
         else:
@@ -132,7 +134,4 @@ def get_values(
         else:
             values = convert(values, self.unit, unit)
 
-    if norm_vector is not None:
-        self.normalizations[normalization].vector = norm_vector
-
     return values
diff --git a/SciDataTool/Methods/DataPattern/get_values.py b/SciDataTool/Methods/DataPattern/get_values.py
index 7ceac9d..82964b2 100644
--- a/SciDataTool/Methods/DataPattern/get_values.py
+++ b/SciDataTool/Methods/DataPattern/get_values.py
@@ -1,3 +1,4 @@
+from copy import copy
 from importlib import import_module
 from numpy import array
 
@@ -41,14 +42,14 @@ def get_values(
     -------
     Vector of axis values
     """
-    values = self.values
+    values = copy(self.values)
 
     # Rebuild pattern
     if is_smallestperiod or is_pattern:
         pass
     else:
         if self.values_whole is not None:
-            values = self.values_whole
+            values = copy(self.values_whole)
         else:
             values = values[self.rebuild_indices]
 
diff --git a/SciDataTool/Methods/Norm_vector/normalize.py b/SciDataTool/Methods/Norm_vector/normalize.py
index c88b187..fc34bd6 100644
--- a/SciDataTool/Methods/Norm_vector/normalize.py
+++ b/SciDataTool/Methods/Norm_vector/normalize.py
@@ -21,4 +21,4 @@ def normalize(
             "Normalization vector is not the same length as axis, cannot normalize"
         )
     else:
-        return self.vector
+        return self.vector.copy()
-- 
2.43.0


From 8c298b2660bcd8affa25aaf726e730d0c7fe9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:26 +0000
Subject: [PATCH 04/21] fix: answer queries of dual-domain fields without
 switching the stored field

Every query of a DataDual object replaced its axes and values by those of the
domain the query needed, and left them so. Queries now work on a view of the
field in the requested domain.
---
 SciDataTool/Classes/DataDual.py               | 70 +++++++++++++++++++
 SciDataTool/Classes/DataND.py                 | 14 ++++
 SciDataTool/Generator/ClassesRef/DataDual.csv | 11 +--
 SciDataTool/Generator/ClassesRef/DataND.csv   |  1 +
 SciDataTool/Methods/DataDual/_get_domain.py   | 30 ++++++++
 SciDataTool/Methods/DataDual/get_along.py     | 24 +------
 .../Methods/DataDual/get_data_along.py        |  7 ++
 .../Methods/DataDual/get_magnitude_along.py   |  7 ++
 SciDataTool/Methods/DataDual/plot_2D_Data.py  |  7 ++
 SciDataTool/Methods/DataDual/plot_3D_Data.py  |  7 ++
 SciDataTool/Methods/DataND/_get_domain.py     | 15 ++++
 SciDataTool/Methods/DataND/plot_2D_Data.py    |  2 +-
 12 files changed, 168 insertions(+), 27 deletions(-)
 create mode 100644 SciDataTool/Methods/DataDual/_get_domain.py
 create mode 100644 SciDataTool/Methods/DataDual/get_data_along.py
 create mode 100644 SciDataTool/Methods/DataDual/get_magnitude_along.py
 create mode 100644 SciDataTool/Methods/DataDual/plot_2D_Data.py
 create mode 100644 SciDataTool/Methods/DataDual/plot_3D_Data.py
 create mode 100644 SciDataTool/Methods/DataND/_get_domain.py

diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 7da5841..085bf23 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -15,6 +15,11 @@ from .DataND import DataND
 
 # Import all class method
 # Try/catch to remove unnecessary dependencies in unused method
+try:
+    from ..Methods.DataDual._get_domain import _get_domain
+except ImportError as error:
+    _get_domain = error
+
 try:
     from ..Methods.DataDual.get_along import get_along
 except ImportError as error:
@@ -25,6 +30,26 @@ try:
 except ImportError as error:
     get_axes = error
 
+try:
+    from ..Methods.DataDual.get_data_along import get_data_along
+except ImportError as error:
+    get_data_along = error
+
+try:
+    from ..Methods.DataDual.get_magnitude_along import get_magnitude_along
+except ImportError as error:
+    get_magnitude_along = error
+
+try:
+    from ..Methods.DataDual.plot_2D_Data import plot_2D_Data
+except ImportError as error:
+    plot_2D_Data = error
+
+try:
+    from ..Methods.DataDual.plot_3D_Data import plot_3D_Data
+except ImportError as error:
+    plot_3D_Data = error
+
 
 from numpy import array, array_equal
 from numpy import isnan
@@ -37,6 +62,15 @@ class DataDual(DataND):
     VERSION = 1
 
     # Check ImportError to remove unnecessary dependencies in unused method
+    # cf Methods.DataDual._get_domain
+    if isinstance(_get_domain, ImportError):
+        _get_domain = property(
+            fget=lambda x: raise_(
+                ImportError("Can't use DataDual method _get_domain: " + str(_get_domain))
+            )
+        )
+    else:
+        _get_domain = _get_domain
     # cf Methods.DataDual.get_along
     if isinstance(get_along, ImportError):
         get_along = property(
@@ -55,6 +89,42 @@ class DataDual(DataND):
         )
     else:
         get_axes = get_axes
+    # cf Methods.DataDual.get_data_along
+    if isinstance(get_data_along, ImportError):
+        get_data_along = property(
+            fget=lambda x: raise_(
+                ImportError("Can't use DataDual method get_data_along: " + str(get_data_along))
+            )
+        )
+    else:
+        get_data_along = get_data_along
+    # cf Methods.DataDual.get_magnitude_along
+    if isinstance(get_magnitude_along, ImportError):
+        get_magnitude_along = property(
+            fget=lambda x: raise_(
+                ImportError("Can't use DataDual method get_magnitude_along: " + str(get_magnitude_along))
+            )
+        )
+    else:
+        get_magnitude_along = get_magnitude_along
+    # cf Methods.DataDual.plot_2D_Data
+    if isinstance(plot_2D_Data, ImportError):
+        plot_2D_Data = property(
+            fget=lambda x: raise_(
+                ImportError("Can't use DataDual method plot_2D_Data: " + str(plot_2D_Data))
+            )
+        )
+    else:
+        plot_2D_Data = plot_2D_Data
+    # cf Methods.DataDual.plot_3D_Data
+    if isinstance(plot_3D_Data, ImportError):
+        plot_3D_Data = property(
+            fget=lambda x: raise_(
+                ImportError("Can't use DataDual method plot_3D_Data: " + str(plot_3D_Data))
+            )
+        )
+    else:
+        plot_3D_Data = plot_3D_Data
     # generic save method is available in all object
     save = save
 
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 8ea31f5..c8e5262 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -40,6 +40,11 @@ try:
 except ImportError as error:
     _extract_slices_fft = error
 
+try:
+    from ..Methods.DataND._get_domain import _get_domain
+except ImportError as error:
+    _get_domain = error
+
 try:
     from ..Methods.DataND._get_field import _get_field
 except ImportError as error:
@@ -220,6 +225,15 @@ class DataND(Data):
         )
     else:
         _extract_slices_fft = _extract_slices_fft
+    # cf Methods.DataND._get_domain
+    if isinstance(_get_domain, ImportError):
+        _get_domain = property(
+            fget=lambda x: raise_(
+                ImportError("Can't use DataND method _get_domain: " + str(_get_domain))
+            )
+        )
+    else:
+        _get_domain = _get_domain
     # cf Methods.DataND._get_field
     if isinstance(_get_field, ImportError):
         _get_field = property(
diff --git a/SciDataTool/Generator/ClassesRef/DataDual.csv b/SciDataTool/Generator/ClassesRef/DataDual.csv
index 6634399..1bd58be 100644
--- a/SciDataTool/Generator/ClassesRef/DataDual.csv
+++ b/SciDataTool/Generator/ClassesRef/DataDual.csv
@@ -1,5 +1,8 @@
 Variable name,Unit,Description (EN),Size,Type,Default value,Minimum value,Maximum value,,Package,Inherit,Methods,Constante Name,Constante Value,Description classe,Classe fille
-axes_dt,,List of the Data1D objects corresponding to the axes in time/space domain,,[SciDataTool.Classes.Data],None,,,,,DataND,get_along,VERSION,1,Class for fields defined in both time and freq domains,
-values_dt,,Values of the field in time/space domain,,ndarray,None,,,,,,get_axes,,,,
-axes_df,,List of the Data1D objects corresponding to the axes in fourier domain,,[SciDataTool.Classes.Data],None,,,,,,,,,,
-values_df,,Values of the field in fourier domain,,ndarray,None,,,,,,,,,,
+axes_dt,,List of the Data1D objects corresponding to the axes in time/space domain,,[SciDataTool.Classes.Data],None,,,,,DataND,_get_domain,VERSION,1,Class for fields defined in both time and freq domains,
+values_dt,,Values of the field in time/space domain,,ndarray,None,,,,,,get_along,,,,
+axes_df,,List of the Data1D objects corresponding to the axes in fourier domain,,[SciDataTool.Classes.Data],None,,,,,,get_axes,,,,
+values_df,,Values of the field in fourier domain,,ndarray,None,,,,,,get_data_along,,,,
+,,,,,,,,,,,get_magnitude_along,,,,
+,,,,,,,,,,,plot_2D_Data,,,,
+,,,,,,,,,,,plot_3D_Data,,,,
diff --git a/SciDataTool/Generator/ClassesRef/DataND.csv b/SciDataTool/Generator/ClassesRef/DataND.csv
index 885d476..a952f5c 100644
--- a/SciDataTool/Generator/ClassesRef/DataND.csv
+++ b/SciDataTool/Generator/ClassesRef/DataND.csv
@@ -4,6 +4,7 @@ FTparameters,,Tunable parameters for the Fourier Transforms,,dict,{},,,,,,_comp_
 values,,Values of the field,,ndarray,None,,,,,,_convert,,,,
 is_real,,To indicate if the signal is real (use only positive frequencies),,bool,True,,,,,,_extract_slices,,,,
 ,,,,,,,,,,,_extract_slices_fft,,,,
+,,,,,,,,,,,_get_domain,,,,
 ,,,,,,,,,,,_get_field,,,,
 ,,,,,,,,,,,_get_freqs,,,,
 ,,,,,,,,,,,_interpolate,,,,
diff --git a/SciDataTool/Methods/DataDual/_get_domain.py b/SciDataTool/Methods/DataDual/_get_domain.py
new file mode 100644
index 0000000..5901abb
--- /dev/null
+++ b/SciDataTool/Methods/DataDual/_get_domain.py
@@ -0,0 +1,30 @@
+from copy import copy
+
+from SciDataTool.Methods.DataDual import is_freq
+
+
+def _get_domain(self, *args):
+    """Returns a view of the field in the domain (time/space or fourier) required by
+    the request, without modifying the field itself.
+    Parameters
+    ----------
+    self: DataDual
+        a DataDual object
+    *args: list of strings
+        List of axes requested by the user, their units and values (optional)
+    Returns
+    -------
+    a DataDual object sharing its content with self
+    """
+
+    # Get best attributes (time/space or fourier)
+    if is_freq(*args):
+        is_df = self.values_df is not None
+    else:
+        is_df = self.values_dt is None
+
+    domain = copy(self)
+    domain._axes = self.axes_df if is_df else self.axes_dt
+    domain.values = self.values_df if is_df else self.values_dt
+
+    return domain
diff --git a/SciDataTool/Methods/DataDual/get_along.py b/SciDataTool/Methods/DataDual/get_along.py
index 8fb17e3..353b373 100644
--- a/SciDataTool/Methods/DataDual/get_along.py
+++ b/SciDataTool/Methods/DataDual/get_along.py
@@ -1,6 +1,3 @@
-from SciDataTool.Methods.DataDual import is_freq
-
-
 def get_along(
     self,
     *args,
@@ -30,27 +27,10 @@ def get_along(
     """
 
     # Get best attributes (time/space or fourier)
-    if is_freq(*args):
-        if hasattr(self, "values_df") and self.values_df is not None:
-            # Replace axes and values with fourier ones
-            self.axes = self.axes_df
-            self.values = self.values_df
-        else:
-            # Replace axes and values with time/space ones
-            self.axes = self.axes_dt
-            self.values = self.values_dt
-    else:
-        if hasattr(self, "values_dt") and self.values_dt is not None:
-            # Replace axes and values with time/space ones
-            self.axes = self.axes_dt
-            self.values = self.values_dt
-        else:
-            # Replace axes and values with fourier ones
-            self.axes = self.axes_df
-            self.values = self.values_df
+    domain = self._get_domain(*args)
 
     # Call DataND.get_along()
-    return super(type(self), self).get_along(
+    return super(type(self), domain).get_along(
         *args,
         unit=unit,
         is_norm=is_norm,
diff --git a/SciDataTool/Methods/DataDual/get_data_along.py b/SciDataTool/Methods/DataDual/get_data_along.py
new file mode 100644
index 0000000..a2f6264
--- /dev/null
+++ b/SciDataTool/Methods/DataDual/get_data_along.py
@@ -0,0 +1,7 @@
+def get_data_along(self, *args, **kwargs):
+    """Returns the sliced or interpolated version of the data (cf DataND.get_data_along),
+    in the domain (time/space or fourier) required by the request."""
+
+    domain = self._get_domain(*args)
+
+    return super(type(self), domain).get_data_along(*args, **kwargs)
diff --git a/SciDataTool/Methods/DataDual/get_magnitude_along.py b/SciDataTool/Methods/DataDual/get_magnitude_along.py
new file mode 100644
index 0000000..b6f8be5
--- /dev/null
+++ b/SciDataTool/Methods/DataDual/get_magnitude_along.py
@@ -0,0 +1,7 @@
+def get_magnitude_along(self, *args, **kwargs):
+    """Returns the magnitude of the field (cf DataND.get_magnitude_along),
+    in the domain (time/space or fourier) required by the request."""
+
+    domain = self._get_domain(*args)
+
+    return super(type(self), domain).get_magnitude_along(*args, **kwargs)
diff --git a/SciDataTool/Methods/DataDual/plot_2D_Data.py b/SciDataTool/Methods/DataDual/plot_2D_Data.py
new file mode 100644
index 0000000..dc50e5d
--- /dev/null
+++ b/SciDataTool/Methods/DataDual/plot_2D_Data.py
@@ -0,0 +1,7 @@
+def plot_2D_Data(self, *args, **kwargs):
+    """Plots the field as a function of one axis (cf DataND.plot_2D_Data),
+    in the domain (time/space or fourier) required by the request."""
+
+    domain = self._get_domain(*args)
+
+    return super(type(self), domain).plot_2D_Data(*args, **kwargs)
diff --git a/SciDataTool/Methods/DataDual/plot_3D_Data.py b/SciDataTool/Methods/DataDual/plot_3D_Data.py
new file mode 100644
index 0000000..0884ec7
--- /dev/null
+++ b/SciDataTool/Methods/DataDual/plot_3D_Data.py
@@ -0,0 +1,7 @@
+def plot_3D_Data(self, *args, **kwargs):
+    """Plots the field as a function of two axes (cf DataND.plot_3D_Data),
+    in the domain (time/space or fourier) required by the request."""
+
+    domain = self._get_domain(*args)
+
+    return super(type(self), domain).plot_3D_Data(*args, **kwargs)
diff --git a/SciDataTool/Methods/DataND/_get_domain.py b/SciDataTool/Methods/DataND/_get_domain.py
new file mode 100644
index 0000000..acf4995
--- /dev/null
+++ b/SciDataTool/Methods/DataND/_get_domain.py
@@ -0,0 +1,15 @@
+def _get_domain(self, *args):
+    """Returns the field in the domain required by the request (the field itself as
+    it is defined in only one domain).
+    Parameters
+    ----------
+    self: Data
+        a Data object
+    *args: list of strings
+        List of axes requested by the user, their units and values (optional)
+    Returns
+    -------
+    a Data object
+    """
+
+    return self
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 6420809..1836064 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -212,7 +212,7 @@ def plot_2D_Data(
     # Extract field and axes
     Xdatas = []
     Ydatas = []
-    data_list2 = [self] + data_list
+    data_list2 = [d._get_domain(*arg_list_along) for d in [self] + data_list]
     for i, d in enumerate(data_list2):
         if is_fft or "dB" in unit:
             result = d.get_magnitude_along(
-- 
2.43.0


From f88740a5b9feb70aa5fe05d3765f129772f4ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:03 +0000
Subject: [PATCH 05/21] fix: filter and change the referential of a field
 without modifying it

Both methods set is_real of the field to False while they worked, which stayed so
when they failed, and shared normalizations and the given symmetries with the
resulting field.
---
 .../Methods/DataND/change_referential.py      | 24 +++++++++++--------
 .../Methods/DataND/filter_spectral_leakage.py | 22 ++++++++++-------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/SciDataTool/Methods/DataND/change_referential.py b/SciDataTool/Methods/DataND/change_referential.py
index b81b14e..c80ba4c 100644
--- a/SciDataTool/Methods/DataND/change_referential.py
+++ b/SciDataTool/Methods/DataND/change_referential.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 import numpy as np
 
 from SciDataTool.Functions.change_referential import (
@@ -110,12 +112,14 @@ def change_referential(
     if not is_waveform and hasattr(self, "is_real"):
         # Force non real data to get all spectrum
         is_real = self.is_real
-        self.is_real = False
+        data = copy(self)
+        data.is_real = False
     else:
         is_real = True
+        data = self
 
     # Extract data from vectorfield on one period
-    result = self.get_along(*arg_list, is_squeeze=False)
+    result = data.get_along(*arg_list, is_squeeze=False)
     values = result[self.symbol]
 
     if is_waveform:
@@ -182,7 +186,7 @@ def change_referential(
 
             if axis.name == "time" and is_waveform:
                 axis_new = axis.copy()
-                axis_new.symmetries = sym_t_new
+                axis_new.symmetries = sym_t_new.copy()
                 axis_new.number = time_new.size
                 if isinstance(axis_new, DataLinspace):
                     axis_new.final = time_new[-1]
@@ -208,7 +212,9 @@ def change_referential(
                     name="freqs",
                     unit="Hz",
                     values=freqs_store,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                     symmetries=dict(),  # Don't keep time symmetries, FFT inverse requests axis_data
                 )
 
@@ -219,7 +225,9 @@ def change_referential(
                     name="wavenumber",
                     unit="dimless",
                     values=wavenumber,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                     symmetries=axis.symmetries.copy(),
                 )
 
@@ -234,12 +242,8 @@ def change_referential(
         unit=self.unit,
         axes=axes_list_change,
         values=val_new,
-        normalizations=self.normalizations.copy(),
+        normalizations={key: norm.copy() for key, norm in self.normalizations.items()},
         is_real=is_real,
     )
 
-    if not is_waveform and hasattr(self, "is_real"):
-        # Reset data
-        self.is_real = is_real
-
     return data_new, axes_list_change, arg_list, freqs_new, I1, Irf_un, ta_in, ta_out
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index 8c8ee07..ba9e106 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -1,3 +1,5 @@
+from copy import copy
+
 import numpy as np
 
 from SciDataTool.Functions.filter_spectral_leakage import (
@@ -73,8 +75,9 @@ def filter_spectral_leakage(
                 arg_list.append(axis.name)
 
     is_real = self.is_real
-    self.is_real = False  # To have negative frequencies
-    result = self.get_along(*arg_list, is_squeeze=False)
+    data = copy(self)
+    data.is_real = False  # To have negative frequencies
+    result = data.get_along(*arg_list, is_squeeze=False)
     freqs = result["freqs"]
     spectrum = result[self.symbol]
 
@@ -84,7 +87,7 @@ def filter_spectral_leakage(
         if len(Time) > 0:
             time = Time[0].get_values()
         else:
-            result_time = self.get_along("time")
+            result_time = data.get_along("time")
             time = result_time["time"]
         dt = time[1] - time[0]
         Nt = time.size
@@ -151,7 +154,9 @@ def filter_spectral_leakage(
                 name="freqs",
                 unit="Hz",
                 values=freqs_th_store,
-                normalizations=axes_list[0].normalizations,
+                normalizations={
+                    key: norm.copy() for key, norm in axes_list[0].normalizations.items()
+                },
                 symmetries=dict(),
             )
         )
@@ -162,7 +167,10 @@ def filter_spectral_leakage(
                     name="wavenumber",
                     unit="dimless",
                     values=result["wavenumber"],
-                    normalizations=axes_list[1].normalizations,
+                    normalizations={
+                        key: norm.copy()
+                        for key, norm in axes_list[1].normalizations.items()
+                    },
                     symmetries=dict(),
                 )
             )
@@ -183,12 +191,10 @@ def filter_spectral_leakage(
         unit=self.unit,
         axes=axes_list_filt,
         values=spectrum_filt,
-        normalizations=self.normalizations,
+        normalizations={key: norm.copy() for key, norm in self.normalizations.items()},
         is_real=True,
     )
 
-    self.is_real = is_real
-
     if is_return_calc_data:
         return data_filt, axes_list_filt, arg_list, Wmatf, If, freqs_th
 
-- 
2.43.0


From f3ef70539803ff1500185f555de3d37caf6845d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:15 +0000
Subject: [PATCH 06/21] fix: report failures of decibel conversions instead of
 using the amplitude law

Any exception in the conversion of a power, such as a failed allocation, silently
switched from 10.log10 to 20.log10. Only an incompatible unit selects the latter.
---
 SciDataTool/Functions/conversions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/conversions.py b/SciDataTool/Functions/conversions.py
index 25c3cad..ad0fb66 100644
--- a/SciDataTool/Functions/conversions.py
+++ b/SciDataTool/Functions/conversions.py
@@ -290,10 +290,10 @@ def to_dB(values, unit, ref_value=1.0):
     mask = values != 0
     try:
         convert(values, unit, "W")
-        values_dB = 10.0 * where(mask, log10(values / ref_value, where=mask), 0)
-    except Exception:
-        values_dB = 20.0 * where(mask, log10(values / ref_value, where=mask), 0)
-    return values_dB
+        coeff = 10.0
+    except UnitError:
+        coeff = 20.0
+    return coeff * where(mask, log10(values / ref_value, where=mask), 0)
 
 
 def to_dBA(values, freqs, unit, ref_value=1.0):
-- 
2.43.0


From ded1015e797b53d20da9f0a567e466f77ffa96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:56 +0000
Subject: [PATCH 07/21] fix: let failures other than a bad annotation request
 surface in 2D plots

---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 1836064..14a7682 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -801,7 +801,7 @@ def plot_2D_Data(
                 ].tolist()
                 if len(overall_axes) != 0:
                     annot.insert(0, "Overall")
-            except Exception:
+            except (AttributeError, IndexError, KeyError, TypeError, ValueError):
                 pass
 
         if is_export:
-- 
2.43.0


From 146044eee4f387dd9226cf9e27139a2b5e1248ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:12 +0000
Subject: [PATCH 08/21] fix: draw undersampled points without reseeding the
 global random generator

---
 SciDataTool/Functions/omp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SciDataTool/Functions/omp.py b/SciDataTool/Functions/omp.py
index d73e8c5..8f2061a 100644
--- a/SciDataTool/Functions/omp.py
+++ b/SciDataTool/Functions/omp.py
@@ -62,8 +62,7 @@ def comp_undersampling(K: float, Time: Data1D, seed: int = 42) -> ndarray:
     n = len(Time.values)
     m = floor(K * n)
 
-    np.random.seed(seed)
-    M = np.random.choice(n, m, replace=False)
+    M = np.random.RandomState(seed).choice(n, m, replace=False)
     M.sort()
     M = asarray(M)
 
-- 
2.43.0


From e2f44aa8cdc31fb2a5bfdb7a2233cb27b1eca362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:34 +0000
Subject: [PATCH 09/21] fix: give derived data their own axes and
 normalizations

---
 SciDataTool/Methods/DataFreq/conv.py                 |  2 +-
 SciDataTool/Methods/DataFreq/freq_to_time.py         | 12 +++++++++---
 SciDataTool/Methods/DataFreq/sum.py                  |  2 +-
 SciDataTool/Methods/DataFreq/to_datadual.py          | 10 +++++-----
 .../Methods/DataND/filter_spectral_leakage.py        |  2 +-
 SciDataTool/Methods/DataND/get_data_along.py         | 11 ++++++++---
 SciDataTool/Methods/DataND/orthogonal_mp.py          |  4 ++--
 SciDataTool/Methods/DataTime/time_to_freq.py         | 12 +++++++++---
 SciDataTool/Methods/DataTime/to_datadual.py          | 10 +++++-----
 .../Methods/VectorField/change_periodicity.py        |  4 +++-
 10 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/SciDataTool/Methods/DataFreq/conv.py b/SciDataTool/Methods/DataFreq/conv.py
index 9d64694..4a40350 100644
--- a/SciDataTool/Methods/DataFreq/conv.py
+++ b/SciDataTool/Methods/DataFreq/conv.py
@@ -74,7 +74,7 @@ def conv(
     if unit is None:
         unit = self.unit
     if normalizations is None:
-        normalizations = self.normalizations
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
 
     # Compute spectrum orders resulting from convolution
     freqs_un, I0a, I0b, I1, I2 = get_conv_indices(
diff --git a/SciDataTool/Methods/DataFreq/freq_to_time.py b/SciDataTool/Methods/DataFreq/freq_to_time.py
index e344cb6..8a23244 100644
--- a/SciDataTool/Methods/DataFreq/freq_to_time.py
+++ b/SciDataTool/Methods/DataFreq/freq_to_time.py
@@ -48,7 +48,9 @@ def freq_to_time(self):
                     values=results["time"],
                     unit="s",
                     symmetries=axis.symmetries.copy(),
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 )
             elif axis.name == "wavenumber":
                 axis_new = Data1D(
@@ -57,7 +59,9 @@ def freq_to_time(self):
                     values=results["angle"],
                     unit="rad",
                     symmetries=axis.symmetries.copy(),
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 )
             else:
                 axis_new = axis.copy()
@@ -70,5 +74,7 @@ def freq_to_time(self):
             axes=Axes,
             values=values,
             is_real=self.is_real,
-            normalizations=self.normalizations.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
         )
diff --git a/SciDataTool/Methods/DataFreq/sum.py b/SciDataTool/Methods/DataFreq/sum.py
index 45c8f73..f074fda 100644
--- a/SciDataTool/Methods/DataFreq/sum.py
+++ b/SciDataTool/Methods/DataFreq/sum.py
@@ -68,7 +68,7 @@ def sum(
     if unit is None:
         unit = self.unit
     if normalizations is None:
-        normalizations = self.normalizations
+        normalizations = {key: norm.copy() for key, norm in self.normalizations.items()}
 
     # Compute spectrum orders resulting from convolution
     freqs_un, I0b = get_sum_indices(freqs1, freqs2, tol_freq)
diff --git a/SciDataTool/Methods/DataFreq/to_datadual.py b/SciDataTool/Methods/DataFreq/to_datadual.py
index 492c0be..b649dba 100644
--- a/SciDataTool/Methods/DataFreq/to_datadual.py
+++ b/SciDataTool/Methods/DataFreq/to_datadual.py
@@ -20,15 +20,15 @@ def to_datadual(self, datatime=None):
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
-        normalizations=self.normalizations.copy(),
-        axes_df=self.axes,
-        values_df=self.values,
+        normalizations={key: norm.copy() for key, norm in self.normalizations.items()},
+        axes_df=[axis.copy() for axis in self.axes],
+        values_df=self.values.copy(),
     )
 
     # Add time/space data (from input or using ifft)
     if datatime is None:
         datatime = self.freq_to_time()
-    datadual.axes_dt = datatime.axes
-    datadual.values_dt = datatime.values
+    datadual.axes_dt = [axis.copy() for axis in datatime.axes]
+    datadual.values_dt = datatime.values.copy()
 
     return datadual
diff --git a/SciDataTool/Methods/DataND/filter_spectral_leakage.py b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
index ba9e106..ffa1a98 100644
--- a/SciDataTool/Methods/DataND/filter_spectral_leakage.py
+++ b/SciDataTool/Methods/DataND/filter_spectral_leakage.py
@@ -189,7 +189,7 @@ def filter_spectral_leakage(
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
-        axes=axes_list_filt,
+        axes=[axis.copy() for axis in axes_list_filt],
         values=spectrum_filt,
         normalizations={key: norm.copy() for key, norm in self.normalizations.items()},
         is_real=True,
diff --git a/SciDataTool/Methods/DataND/get_data_along.py b/SciDataTool/Methods/DataND/get_data_along.py
index cfb4e2f..1b04822 100644
--- a/SciDataTool/Methods/DataND/get_data_along.py
+++ b/SciDataTool/Methods/DataND/get_data_along.py
@@ -1,3 +1,5 @@
+from copy import deepcopy
+
 from SciDataTool import Data1D
 from SciDataTool.Functions import axes_dict, rev_axes_dict
 from SciDataTool.Functions.conversions import get_unit_derivate, get_unit_integrate
@@ -89,13 +91,16 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
                 unit=ax_unit,
                 values=axis_values,
                 is_components=is_components,
-                normalizations=self.axes[index].normalizations.copy(),
+                normalizations={
+                    key: norm.copy()
+                    for key, norm in self.axes[index].normalizations.items()
+                },
                 symmetries=symmetries,
             ).to_linspace()
             if hasattr(self.axes[index], "sort_indices") and hasattr(
                 Axis, "sort_indices"
             ):
-                Axis.sort_indices = self.axes[index].sort_indices
+                Axis.sort_indices = deepcopy(self.axes[index].sort_indices)
             Axes.append(Axis)
 
     # Update unit if dB/dBA conversion
@@ -116,6 +121,6 @@ def get_data_along(self, *args, unit="SI", is_norm=False, axis_data=[]):
         symbol=self.symbol,
         axes=Axes,
         values=values,
-        normalizations=self.normalizations.copy(),
+        normalizations={key: norm.copy() for key, norm in self.normalizations.items()},
         is_real=self.is_real,
     )
diff --git a/SciDataTool/Methods/DataND/orthogonal_mp.py b/SciDataTool/Methods/DataND/orthogonal_mp.py
index ab82eda..000862b 100644
--- a/SciDataTool/Methods/DataND/orthogonal_mp.py
+++ b/SciDataTool/Methods/DataND/orthogonal_mp.py
@@ -54,7 +54,7 @@ def orthogonal_mp(
             symbol=self.symbol,
             unit=self.unit,
             values=Y_full,
-            axes=[Time],
+            axes=[Time.copy()],
             is_real=self.is_real,
         )
     if nombre_axes == 2:
@@ -62,7 +62,7 @@ def orthogonal_mp(
             name=self.name,
             symbol=self.symbol,
             unit=self.unit,
-            axes=[Time, Angle],
+            axes=[Time.copy(), Angle.copy()],
             values=Y_full,
             is_real=self.is_real,
         )
diff --git a/SciDataTool/Methods/DataTime/time_to_freq.py b/SciDataTool/Methods/DataTime/time_to_freq.py
index 8dc4da1..c1be2c8 100644
--- a/SciDataTool/Methods/DataTime/time_to_freq.py
+++ b/SciDataTool/Methods/DataTime/time_to_freq.py
@@ -52,7 +52,9 @@ def time_to_freq(self):
                     values=results["freqs"],
                     unit="Hz",
                     symmetries=symmetries,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 ).to_linspace()
             elif axis.name == "angle":
                 if "antiperiod" in axis.symmetries:
@@ -65,7 +67,9 @@ def time_to_freq(self):
                     values=results["wavenumber"],
                     unit="dimless",
                     symmetries=symmetries,
-                    normalizations=axis.normalizations.copy(),
+                    normalizations={
+                        key: norm.copy() for key, norm in axis.normalizations.items()
+                    },
                 ).to_linspace()
             else:
                 axis_new = axis.copy()
@@ -77,5 +81,7 @@ def time_to_freq(self):
             axes=Axes,
             values=values,
             is_real=self.is_real,
-            normalizations=self.normalizations.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in self.normalizations.items()
+            },
         )
diff --git a/SciDataTool/Methods/DataTime/to_datadual.py b/SciDataTool/Methods/DataTime/to_datadual.py
index b3f2da8..9724ba0 100644
--- a/SciDataTool/Methods/DataTime/to_datadual.py
+++ b/SciDataTool/Methods/DataTime/to_datadual.py
@@ -20,15 +20,15 @@ def to_datadual(self, datafreq=None):
         name=self.name,
         symbol=self.symbol,
         unit=self.unit,
-        normalizations=self.normalizations.copy(),
-        axes_dt=self.axes,
-        values_dt=self.values,
+        normalizations={key: norm.copy() for key, norm in self.normalizations.items()},
+        axes_dt=[axis.copy() for axis in self.axes],
+        values_dt=self.values.copy(),
     )
 
     # Add fourier data (from input or using fft)
     if datafreq is None:
         datafreq = self.time_to_freq()
-    datadual.axes_df = datafreq.axes
-    datadual.values_df = datafreq.values
+    datadual.axes_df = [axis.copy() for axis in datafreq.axes]
+    datadual.values_df = datafreq.values.copy()
 
     return datadual
diff --git a/SciDataTool/Methods/VectorField/change_periodicity.py b/SciDataTool/Methods/VectorField/change_periodicity.py
index 0d5af32..45a86dd 100644
--- a/SciDataTool/Methods/VectorField/change_periodicity.py
+++ b/SciDataTool/Methods/VectorField/change_periodicity.py
@@ -140,7 +140,9 @@ def change_periodicity(
             unit=data.unit,
             axes=axes_list_new,
             values=val_new,
-            normalizations=data.normalizations.copy(),
+            normalizations={
+                key: norm.copy() for key, norm in data.normalizations.items()
+            },
             is_real=data.is_real,
         )
 
-- 
2.43.0


From bbf7affd8a7e58c64055bad625ec046c2a307a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:02:34 +0000
Subject: [PATCH 10/21] fix: copy the nested content of filters and Fourier
 transform parameters

---
 SciDataTool/Classes/Data1D.py   | 6 ++++--
 SciDataTool/Classes/DataDual.py | 2 +-
 SciDataTool/Classes/DataFreq.py | 2 +-
 SciDataTool/Classes/DataND.py   | 4 ++--
 SciDataTool/Classes/DataTime.py | 2 +-
 5 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/SciDataTool/Classes/Data1D.py b/SciDataTool/Classes/Data1D.py
index a4f05bc..4e06b40 100644
--- a/SciDataTool/Classes/Data1D.py
+++ b/SciDataTool/Classes/Data1D.py
@@ -449,7 +449,9 @@ class Data1D(Data):
         Data1D_dict["sort_indices"] = (
             self.sort_indices.copy() if self.sort_indices is not None else None
         )
-        Data1D_dict["filter"] = self.filter.copy() if self.filter is not None else None
+        Data1D_dict["filter"] = (
+            deepcopy(self.filter) if self.filter is not None else None
+        )
         Data1D_dict["char_to_rm"] = (
             self.char_to_rm.copy() if self.char_to_rm is not None else None
         )
@@ -480,7 +482,7 @@ class Data1D(Data):
         if self.filter is None:
             filter_val = None
         else:
-            filter_val = self.filter.copy()
+            filter_val = deepcopy(self.filter)
         if self.char_to_rm is None:
             char_to_rm_val = None
         else:
diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 085bf23..15be520 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -433,7 +433,7 @@ class DataDual(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataFreq.py b/SciDataTool/Classes/DataFreq.py
index 15ffe1b..d8094d4 100644
--- a/SciDataTool/Classes/DataFreq.py
+++ b/SciDataTool/Classes/DataFreq.py
@@ -231,7 +231,7 @@ class DataFreq(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index c8e5262..3469ac6 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -692,7 +692,7 @@ class DataND(Data):
                 else:
                     DataND_dict["axes"].append(None)
         DataND_dict["FTparameters"] = (
-            self.FTparameters.copy() if self.FTparameters is not None else None
+            deepcopy(self.FTparameters) if self.FTparameters is not None else None
         )
         if self.values is None:
             DataND_dict["values"] = None
@@ -726,7 +726,7 @@ class DataND(Data):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
diff --git a/SciDataTool/Classes/DataTime.py b/SciDataTool/Classes/DataTime.py
index e9a6b15..47e8607 100644
--- a/SciDataTool/Classes/DataTime.py
+++ b/SciDataTool/Classes/DataTime.py
@@ -203,7 +203,7 @@ class DataTime(DataND):
         if self.FTparameters is None:
             FTparameters_val = None
         else:
-            FTparameters_val = self.FTparameters.copy()
+            FTparameters_val = deepcopy(self.FTparameters)
         if self.values is None:
             values_val = None
         else:
-- 
2.43.0


From 6464a31789b9e835991d7edc31920c715123f311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:44 +0000
Subject: [PATCH 11/21] fix: answer interpolation requests with axis values of
 their own

---
 SciDataTool/Methods/DataND/_interpolate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/_interpolate.py b/SciDataTool/Methods/DataND/_interpolate.py
index 9f02627..13f75b1 100644
--- a/SciDataTool/Methods/DataND/_interpolate.py
+++ b/SciDataTool/Methods/DataND/_interpolate.py
@@ -1,3 +1,5 @@
+from numpy import array
+
 from SciDataTool.Functions.interpolations import (
     get_interpolation,
     get_interpolation_step,
@@ -38,5 +40,5 @@ def _interpolate(self, values, axes_list):
                     axis_requested.index,
                 )
             # Store new axis data into axis_requested.values
-            axis_requested.values = axis_requested.input_data
+            axis_requested.values = array(axis_requested.input_data)
     return values
-- 
2.43.0


From 76b99a53cddb8696221351e6477b576f427df613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:04:44 +0000
Subject: [PATCH 12/21] fix: leave the lists and dicts given to the setters as
 they are

---
 SciDataTool/Classes/DataDual.py                 | 2 ++
 SciDataTool/Classes/DataND.py                   | 1 +
 SciDataTool/Classes/VectorField.py              | 1 +
 SciDataTool/Methods/Data/_set_normalizations.py | 1 +
 4 files changed, 5 insertions(+)

diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 15be520..392460f 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -486,6 +486,7 @@ class DataDual(DataND):
     def _set_axes_dt(self, value):
         """setter of axes_dt"""
         if type(value) is list:
+            value = value.copy()
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
@@ -553,6 +554,7 @@ class DataDual(DataND):
     def _set_axes_df(self, value):
         """setter of axes_df"""
         if type(value) is list:
+            value = value.copy()
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 3469ac6..3d6d910 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -775,6 +775,7 @@ class DataND(Data):
     def _set_axes(self, value):
         """setter of axes"""
         if type(value) is list:
+            value = value.copy()
             for ii, obj in enumerate(value):
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index d62d39e..f74de94 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -546,6 +546,7 @@ class VectorField(FrozenClass):
     def _set_components(self, value):
         """setter of components"""
         if type(value) is dict:
+            value = value.copy()
             for key, obj in value.items():
                 if isinstance(obj, str):  # Load from file
                     try:
diff --git a/SciDataTool/Methods/Data/_set_normalizations.py b/SciDataTool/Methods/Data/_set_normalizations.py
index cfb722f..59c0290 100644
--- a/SciDataTool/Methods/Data/_set_normalizations.py
+++ b/SciDataTool/Methods/Data/_set_normalizations.py
@@ -6,6 +6,7 @@ from numpy import ndarray, int32, int64, float32, float64
 def _set_normalizations(self, value):
     """setter of normalizations"""
     if type(value) is dict:
+        value = value.copy()
         for key, obj in value.items():
             if type(obj) is dict:
                 class_obj = import_class(
-- 
2.43.0


From a5eb04e293daedaa1cb892164cf4ed3ad9a210c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:15 +0000
Subject: [PATCH 13/21] fix: build objects from an init_dict without sharing
 its content

---
 SciDataTool/Classes/Data.py             |  2 ++
 SciDataTool/Classes/Data1D.py           |  2 ++
 SciDataTool/Classes/DataDual.py         |  2 ++
 SciDataTool/Classes/DataFreq.py         |  2 ++
 SciDataTool/Classes/DataLinspace.py     |  2 ++
 SciDataTool/Classes/DataND.py           |  2 ++
 SciDataTool/Classes/DataPattern.py      |  2 ++
 SciDataTool/Classes/DataTime.py         |  2 ++
 SciDataTool/Classes/Norm_vector.py      |  2 ++
 SciDataTool/Classes/VectorField.py      |  2 ++
 SciDataTool/Functions/copy_init_dict.py | 25 +++++++++++++++++++++++++
 11 files changed, 45 insertions(+)
 create mode 100644 SciDataTool/Functions/copy_init_dict.py

diff --git a/SciDataTool/Classes/Data.py b/SciDataTool/Classes/Data.py
index 0409550..25f0fc4 100644
--- a/SciDataTool/Classes/Data.py
+++ b/SciDataTool/Classes/Data.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -68,6 +69,7 @@ class Data(FrozenClass):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "symbol" in list(init_dict.keys()):
                 symbol = init_dict["symbol"]
diff --git a/SciDataTool/Classes/Data1D.py b/SciDataTool/Classes/Data1D.py
index 4e06b40..5f35d51 100644
--- a/SciDataTool/Classes/Data1D.py
+++ b/SciDataTool/Classes/Data1D.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import set_array, check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -180,6 +181,7 @@ class Data1D(Data):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "values" in list(init_dict.keys()):
                 values = init_dict["values"]
diff --git a/SciDataTool/Classes/DataDual.py b/SciDataTool/Classes/DataDual.py
index 392460f..6b920fb 100644
--- a/SciDataTool/Classes/DataDual.py
+++ b/SciDataTool/Classes/DataDual.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import set_array, check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -159,6 +160,7 @@ class DataDual(DataND):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "axes_dt" in list(init_dict.keys()):
                 axes_dt = init_dict["axes_dt"]
diff --git a/SciDataTool/Classes/DataFreq.py b/SciDataTool/Classes/DataFreq.py
index d8094d4..8cef8f3 100644
--- a/SciDataTool/Classes/DataFreq.py
+++ b/SciDataTool/Classes/DataFreq.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import set_array, check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -117,6 +118,7 @@ class DataFreq(DataND):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "axes" in list(init_dict.keys()):
                 axes = init_dict["axes"]
diff --git a/SciDataTool/Classes/DataLinspace.py b/SciDataTool/Classes/DataLinspace.py
index f7cd413..45b2fef 100644
--- a/SciDataTool/Classes/DataLinspace.py
+++ b/SciDataTool/Classes/DataLinspace.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -142,6 +143,7 @@ class DataLinspace(Data):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "initial" in list(init_dict.keys()):
                 initial = init_dict["initial"]
diff --git a/SciDataTool/Classes/DataND.py b/SciDataTool/Classes/DataND.py
index 3d6d910..f675ebf 100644
--- a/SciDataTool/Classes/DataND.py
+++ b/SciDataTool/Classes/DataND.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import set_array, check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -513,6 +514,7 @@ class DataND(Data):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "axes" in list(init_dict.keys()):
                 axes = init_dict["axes"]
diff --git a/SciDataTool/Classes/DataPattern.py b/SciDataTool/Classes/DataPattern.py
index 0d1133e..5e0fd82 100644
--- a/SciDataTool/Classes/DataPattern.py
+++ b/SciDataTool/Classes/DataPattern.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import set_array, check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -109,6 +110,7 @@ class DataPattern(Data):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "rebuild_indices" in list(init_dict.keys()):
                 rebuild_indices = init_dict["rebuild_indices"]
diff --git a/SciDataTool/Classes/DataTime.py b/SciDataTool/Classes/DataTime.py
index 47e8607..b2db442 100644
--- a/SciDataTool/Classes/DataTime.py
+++ b/SciDataTool/Classes/DataTime.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import set_array, check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -89,6 +90,7 @@ class DataTime(DataND):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "axes" in list(init_dict.keys()):
                 axes = init_dict["axes"]
diff --git a/SciDataTool/Classes/Norm_vector.py b/SciDataTool/Classes/Norm_vector.py
index a10737b..d2aec93 100644
--- a/SciDataTool/Classes/Norm_vector.py
+++ b/SciDataTool/Classes/Norm_vector.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import set_array, check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -58,6 +59,7 @@ class Norm_vector(Normalization):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "vector" in list(init_dict.keys()):
                 vector = init_dict["vector"]
diff --git a/SciDataTool/Classes/VectorField.py b/SciDataTool/Classes/VectorField.py
index f74de94..c487ef8 100644
--- a/SciDataTool/Classes/VectorField.py
+++ b/SciDataTool/Classes/VectorField.py
@@ -8,6 +8,7 @@ from os import linesep
 from sys import getsizeof
 from ._check import check_var, raise_
 from ..Functions.save import save
+from ..Functions.copy_init_dict import copy_init_dict
 from ..Functions.load import load_init_dict
 from ..Functions.Load.import_class import import_class
 from copy import deepcopy
@@ -338,6 +339,7 @@ class VectorField(FrozenClass):
             init_dict = load_init_dict(init_str)[1]
         if init_dict is not None:  # Initialisation by dict
             assert type(init_dict) is dict
+            init_dict = copy_init_dict(init_dict)
             # Overwrite default value with init_dict content
             if "name" in list(init_dict.keys()):
                 name = init_dict["name"]
diff --git a/SciDataTool/Functions/copy_init_dict.py b/SciDataTool/Functions/copy_init_dict.py
new file mode 100644
index 0000000..4f041d3
--- /dev/null
+++ b/SciDataTool/Functions/copy_init_dict.py
@@ -0,0 +1,25 @@
+from numpy import ndarray
+
+
+def copy_init_dict(value):
+    """Copy the containers and arrays of an init_dict, so that the object built from it
+    shares nothing with it (objects are kept as they are)
+
+    Parameters
+    ----------
+    value : dict
+        the init_dict, or one of its values
+
+    Returns
+    -------
+    value : dict
+        the copy
+    """
+    if type(value) is dict:
+        return {key: copy_init_dict(val) for key, val in value.items()}
+    elif type(value) in (list, tuple):
+        return type(value)(copy_init_dict(val) for val in value)
+    elif isinstance(value, ndarray):
+        return value.copy()
+    else:
+        return value
-- 
2.43.0


From 9dbfe111e429ae91f7ab588c816b117afbbf736d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:03 +0000
Subject: [PATCH 14/21] fix: save files as a whole or not at all

The file was opened for writing, and so emptied, before the data were
serialised. Unserialisable content, a full disk, an interrupt or a crash
left a truncated file. Write a temporary file in the same folder and rename
it over the target once its content is on disk.
---
 SciDataTool/Functions/save.py | 68 ++++++++++++++++++++++++++++++++---
 1 file changed, 64 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Functions/save.py b/SciDataTool/Functions/save.py
index 46036b0..9a30579 100644
--- a/SciDataTool/Functions/save.py
+++ b/SciDataTool/Functions/save.py
@@ -1,5 +1,10 @@
-from json import dump
-from os.path import join, basename, isdir
+from itertools import count
+from json import dumps
+from os import O_RDONLY, W_OK, access, chmod, close, fsync, replace, stat, unlink
+from os import getpid, name as os_name, open as os_open
+from os.path import basename, dirname, exists, isdir, isfile, join, realpath
+from stat import S_IMODE
+from threading import get_ident
 
 
 def fix_file_name(save_path, obj):
@@ -63,6 +68,61 @@ def build_data(obj):
         return None
 
 
+def write_file(file_path, text):
+    """Write a text file as a whole: whatever happens, it holds either its previous
+    content or the complete new one.
+
+    Parameters
+    ----------
+    file_path: str
+        path to the file
+    text: str
+        new content of the file
+    """
+    # Links are kept, the file they lead to is written
+    file_path = realpath(file_path)
+    if exists(file_path) and not isfile(file_path):
+        # Devices, pipes... cannot be replaced
+        with open(file_path, "w") as file:
+            file.write(text)
+        return
+    if isfile(file_path) and not access(file_path, W_OK):
+        raise PermissionError("File is not writable: " + file_path)
+
+    # Write aside, in the same folder
+    folder = dirname(file_path)
+    for ii in count():
+        temp_path = join(folder, ".%d_%d_%d.tmp" % (getpid(), get_ident(), ii))
+        try:
+            file = open(temp_path, "x")
+            break
+        except FileExistsError:
+            pass
+    try:
+        with file:
+            file.write(text)
+            file.flush()
+            fsync(file.fileno())
+        if isfile(file_path):
+            chmod(temp_path, S_IMODE(stat(file_path).st_mode))
+        # Replace the previous content
+        replace(temp_path, file_path)
+    except BaseException:
+        try:
+            unlink(temp_path)
+        except OSError:
+            pass
+        raise
+
+    # Have the replacement itself written
+    if os_name == "posix":
+        fd = os_open(folder, O_RDONLY)
+        try:
+            fsync(fd)
+        finally:
+            close(fd)
+
+
 def save_data(obj, save_path=""):
     """Save the object to the save_path
     Parameters
@@ -76,8 +136,8 @@ def save_data(obj, save_path=""):
     file_path = fix_file_name(save_path, obj)
     # save
     obj = build_data(obj)
-    with open(file_path, "w") as json_file:
-        dump(obj, json_file, sort_keys=True, indent=4, separators=(",", ": "))
+    text = dumps(obj, sort_keys=True, indent=4, separators=(",", ": "))
+    write_file(file_path, text)
 
 
 def save(self, save_path=""):
-- 
2.43.0


From dc7c40b1ba3803793a82aa2cda293ff07c899668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:34 +0000
Subject: [PATCH 15/21] fix: load files of this package, without changing the
 working directory

The classes were looked for in another package, so no file could be loaded.
References to other files are now resolved from the folder of the loaded file.
---
 SciDataTool/Functions/Load/load_json.py |  3 +-
 SciDataTool/Functions/load.py           | 52 +++++++++++++++++++------
 2 files changed, 41 insertions(+), 14 deletions(-)

diff --git a/SciDataTool/Functions/Load/load_json.py b/SciDataTool/Functions/Load/load_json.py
index 04383d5..1e2b502 100644
--- a/SciDataTool/Functions/Load/load_json.py
+++ b/SciDataTool/Functions/Load/load_json.py
@@ -1,6 +1,5 @@
 from json import load as jload
 from os.path import isfile, isdir
-from re import match
 
 
 def load_json(file_path):
@@ -26,7 +25,7 @@ def load_json(file_path):
             file_path += "/" + file_path + ".json"
 
     # The file_name must end with .json
-    elif not match(".*\.json", file_path):
+    elif not file_path.endswith(".json"):
         file_path += ".json"  # If it doesn't, we add .json at the end
 
     # The file (and the folder) should exist
diff --git a/SciDataTool/Functions/load.py b/SciDataTool/Functions/load.py
index d79d61a..168132f 100644
--- a/SciDataTool/Functions/load.py
+++ b/SciDataTool/Functions/load.py
@@ -1,5 +1,5 @@
-from os.path import isdir, join
-from os import walk, getcwd, chdir
+from os.path import isabs, isdir, join
+from os import walk
 from SciDataTool.Functions.Load.load_json import load_json
 from SciDataTool.Functions.Load.load_hdf5 import load_hdf5
 from SciDataTool.Functions.Load.load_pkl import load_pkl
@@ -44,15 +44,8 @@ def init_data(obj, file_path):
         # Check if the dictionay has a "__class__" key
         if "__class__" in obj:
             # Check if data is a pyleecan class
-            class_obj = import_class("pyleecan.Classes", obj.get("__class__"), "")
-            if folder_path != "":
-                wd = getcwd()
-                chdir(folder_path)
-                new_obj = class_obj(init_dict=obj)
-                chdir(wd)
-                return new_obj
-            else:
-                return class_obj(init_dict=obj)
+            class_obj = import_class("SciDataTool.Classes", obj.get("__class__"), "")
+            return class_obj(init_dict=add_folder(obj, folder_path))
 
         # --- 'normal' dict ---
         data = dict()
@@ -66,6 +59,41 @@ def init_data(obj, file_path):
         return obj
 
 
+def add_folder(obj, folder_path):
+    """
+    Add the folder of the loaded file to the relative paths it refers to.
+
+    Parameters
+    ----------
+    obj: object
+        init_dict data
+    folder_path: str
+        folder of the loaded file
+
+    Returns
+    -------
+    obj: object
+        init_dict data with paths that don't depend on the working directory
+    """
+    if isinstance(obj, dict):
+        data = dict()
+        for key, val in obj.items():
+            if key in ("axes", "axes_dt", "axes_df") and isinstance(val, list):
+                val = [add_ref_folder(elem, folder_path) for elem in val]
+            elif key in ("components", "normalizations") and isinstance(val, dict):
+                val = {kk: add_ref_folder(vv, folder_path) for kk, vv in val.items()}
+            data[key] = val
+        return data
+    return obj
+
+
+def add_ref_folder(obj, folder_path):
+    """Same as add_folder for an object that may be given by its file path"""
+    if isinstance(obj, str):
+        return obj if isabs(obj) else folder_path + obj
+    return add_folder(obj, folder_path)
+
+
 def load_init_dict(file_path):
     """load the init_dict from a h5 or json file"""
     if file_path.endswith("hdf5") or file_path.endswith("h5"):
@@ -112,7 +140,7 @@ def _load(file_path, cls_type=None):
     file_path: str
         path to the file to load
     """
-    _, obj = load_json(file_path)
+    file_path, obj = load_json(file_path)
 
     # check the initial object's type if set
     if cls_type is not None:
-- 
2.43.0


From c4942f1275559940b1032fc31d12a3429b73e163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 16/21] fix: read a function file into a namespace of its own

The definitions of one function file replaced those of the module and of
other files, and an empty file gave a function read earlier.
---
 SciDataTool/Classes/Norm_func.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Classes/Norm_func.py b/SciDataTool/Classes/Norm_func.py
index 5c0a3d5..2c1ef6e 100644
--- a/SciDataTool/Classes/Norm_func.py
+++ b/SciDataTool/Classes/Norm_func.py
@@ -196,13 +196,18 @@ class Norm_func(Normalization):
             self._function_str = None
             self._function_func = None
         elif isinstance(value, str) and "lambda" in value:
-            self._function_str = value
             self._function_func = eval(value)
+            self._function_str = value
         elif isinstance(value, str) and isfile(value) and value[-3:] == ".py":
+            with open(value, "r", encoding="utf-8-sig") as f:
+                code = f.read()
+            # Names defined by the file are kept apart from the ones of this module
+            name = basename(value[:-3])
+            namespace = globals().copy()
+            namespace.pop(name, None)
+            exec(code, namespace)
+            self._function_func = namespace[name]
             self._function_str = value
-            f = open(value, "r", encoding="utf-8-sig")
-            exec(f.read(), globals())
-            self._function_func = eval(basename(value[:-3]))
         elif callable(value):
             self._function_str = None
             self._function_func = value
-- 
2.43.0


From d92c5103a4b0bf12aa4b4881a281c9bd12429171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 17/21] fix: split curves along the axis they belong to

With as many curves as points the field was split along the wrong axis.
---
 SciDataTool/Methods/DataND/plot_2D_Data.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/SciDataTool/Methods/DataND/plot_2D_Data.py b/SciDataTool/Methods/DataND/plot_2D_Data.py
index 14a7682..acb290e 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data.py
@@ -396,6 +396,7 @@ def plot_2D_Data(
         for axis in axes_list:
             if axis.extension == "list" and len(axis.values) > 1:
                 is_overlay = True
+                overlay_name = axis.name
                 if linestyles is None:
                     linestyles = ["dashed"]
                 n_curves = len(axis.values)
@@ -445,8 +446,16 @@ def plot_2D_Data(
     # Split Ydatas if the plot overlays several curves
     if is_overlay:
         Ydata = []
+        # Axes along which the field varies
+        names = [
+            axis.name
+            for axis in axes_list
+            if not isinstance(result_0[axis.name], str) and len(result_0[axis.name]) > 1
+        ]
         for d in Ydatas:
-            if d.ndim != 1:
+            if d.ndim != 1 and d.ndim == len(names) and overlay_name in names:
+                Ydata += split(d, n_curves, axis=names.index(overlay_name))
+            elif d.ndim != 1:
                 axis_index = where(array(d.shape) == n_curves)[0]
                 if axis_index.size > 1:
                     print("WARNING, several axes with same dimensions")
-- 
2.43.0


From 9136c5bae1f6d562a4f510b14691dac9ef8fb6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:35 +0000
Subject: [PATCH 18/21] fix: export axes, curves, units and slices as requested

- one column per curve, also with as many curves as points
- second axis present when the field varies along two axes
- long headings not cut
- unit of decibels given once in each file
- slices separated
- values of the third axis in the requested unit
---
 SciDataTool/Methods/DataND/export_along.py | 49 +++++++++++-----------
 1 file changed, 25 insertions(+), 24 deletions(-)

diff --git a/SciDataTool/Methods/DataND/export_along.py b/SciDataTool/Methods/DataND/export_along.py
index 4f51040..3f9f5ba 100644
--- a/SciDataTool/Methods/DataND/export_along.py
+++ b/SciDataTool/Methods/DataND/export_along.py
@@ -61,7 +61,10 @@ def export_along(
             slices = title.split("for ")[1]
         else:
             slices = ""
-    else:
+        # Several axes along which the field varies
+        if len(Ydatas) == 1 and np.ndim(Ydatas[0]) > 1:
+            is_2D = False
+    if not is_2D:
         if "is_norm" in plot_options:
             is_norm = plot_options["is_norm"]
         else:
@@ -91,8 +94,12 @@ def export_along(
             if axis.unit == "SI":
                 axis.unit = unit_dict[axis.name]
             if len(results[axis.name]) == 1:
+                if slices != "":
+                    slices = slices + ", "
                 slices += axis.name + "=" + str(results[axis.name][0])
             elif isinstance(results[axis.name], str):
+                if slices != "":
+                    slices = slices + ", "
                 slices += axis.name + "=" + results[axis.name]
             else:
                 axes_list_new.append(axis)
@@ -113,7 +120,8 @@ def export_along(
         if is_2D or len(axes_list_new) < 3:
             nfiles = 1
         elif len(axes_list_new) == 3 and is_multiple_files:
-            nfiles = len(axes_list_new[2].values)
+            files_values = results[axes_list_new[2].name]
+            nfiles = len(files_values)
         elif len(axes_list_new) == 3:
             raise Exception(
                 "cannot export more than 2 dimensions in single csv file. Activate is_multiple_files to write in multiple csv files."
@@ -121,21 +129,25 @@ def export_along(
         else:
             raise Exception("cannot export more than 3 dimensions in csv file")
 
+        # Unit of the field
+        if unit == "SI":
+            unit = self.unit
+        if "dB" in unit:
+            unit += " re. " + str(self.normalizations["ref"].ref) + " " + self.unit
+
         for i in range(nfiles):
             if nfiles > 1:
                 file_name_i = (
                     file_name
                     + "_"
                     + axes_list_new[2].name
-                    + str(axes_list_new[2].values[i])
+                    + str(files_values[i])
                 )
-                if slices == "":
-                    slices = "sliced at "
                 slices_i = (
-                    slices
+                    (slices + ", " if slices != "" else "sliced at ")
                     + axes_list_new[2].name
                     + "="
-                    + str(axes_list_new[2].values[i])
+                    + str(files_values[i])
                 )
             else:
                 file_name_i = file_name
@@ -145,13 +157,6 @@ def export_along(
             ) as my_csv:
                 csvWriter = csv.writer(my_csv, delimiter=",")
                 # First line: meta-data
-                if unit == "SI":
-                    unit = self.unit
-                if "dB" in unit:
-                    unit += (
-                        " re. " + str(self.normalizations["ref"].ref) + " " + self.unit
-                    )
-
                 meta_data = [self.symbol, self.name, "[" + unit + "]", slices_i]
                 csvWriter.writerow(meta_data)
 
@@ -160,11 +165,7 @@ def export_along(
                     if len(Ydatas) > 1:
                         A2_cell = xlabel + "/" + legends[-1].split("=")[0]
                         second_line = format_matrix(
-                            np.insert(
-                                np.array(legends).astype("<U64"),
-                                0,
-                                A2_cell,
-                            ),
+                            np.array([A2_cell] + legends),
                             CHAR_LIST,
                         )
                     else:
@@ -177,7 +178,8 @@ def export_along(
                         field = np.array(Ydatas[0])
                     else:
                         field = np.array(Ydatas)
-                    if field.shape[0] != len(Xdata[0]):
+                    # One column per curve
+                    if len(Ydatas) > 1 or field.shape[0] != len(Xdata[0]):
                         field = field.T
                     matrix = format_matrix(
                         np.column_stack((np.array(Xdata[0]).T, field)).astype("str"),
@@ -205,10 +207,9 @@ def export_along(
                             + "]"
                         )
                         second_line = format_matrix(
-                            np.insert(
-                                results[axes_list_new[1].name].astype("<U64"),
-                                0,
-                                A2_cell,
+                            np.array(
+                                [A2_cell]
+                                + results[axes_list_new[1].name].astype("str").tolist()
                             ),
                             CHAR_LIST,
                         )
-- 
2.43.0


From 3a4829ec3a2256b5615546e32f727e7f67b0b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:14 +0000
Subject: [PATCH 19/21] fix: leave the figures and arrays of the caller alone
 when plotting

- close the figure opened for the plot, not the current one, and not a given one
- close it too when the plot fails
- set the ticks of the plotted axes, not those of the current figure
- draw the frames of animations in figures of their own, and close them
- do not clip the given array in place
---
 SciDataTool/Functions/Plot/init_fig.py        | 31 +++++++++++++++-
 SciDataTool/Functions/Plot/plot_2D.py         | 37 +++++++++----------
 SciDataTool/Functions/Plot/plot_3D.py         | 22 ++++++-----
 SciDataTool/Functions/Plot/plot_4D.py         | 16 +++++---
 .../Methods/DataND/plot_2D_Data_Animated.py   |  6 +++
 .../Methods/DataND/plot_3D_Data_Animated.py   |  6 +++
 .../VectorField/plot_2D_Data_Animated.py      | 14 ++++++-
 7 files changed, 95 insertions(+), 37 deletions(-)

diff --git a/SciDataTool/Functions/Plot/init_fig.py b/SciDataTool/Functions/Plot/init_fig.py
index 9f138e2..b512dbe 100644
--- a/SciDataTool/Functions/Plot/init_fig.py
+++ b/SciDataTool/Functions/Plot/init_fig.py
@@ -1,4 +1,5 @@
-from matplotlib.pyplot import subplots
+from functools import wraps
+from matplotlib.pyplot import close, get_fignums, subplots
 import io
 import pickle
 
@@ -68,6 +69,34 @@ def init_fig(fig=None, ax=None, shape="default", is_3d=False):
     return (fig, axes, patch_leg, label_leg)
 
 
+def close_figs_on_error(func):
+    """Decorator closing the figures that a plot function opened if it fails
+
+    Parameters
+    ----------
+    func : function
+        function that opens figures
+
+    Returns
+    -------
+    function
+        same function, which leaves no figure behind when it raises an exception
+    """
+
+    @wraps(func)
+    def plot(*args, **kwargs):
+        fignums = get_fignums()
+        try:
+            return func(*args, **kwargs)
+        except BaseException:
+            for num in get_fignums():
+                if num not in fignums:
+                    close(num)
+            raise
+
+    return plot
+
+
 def init_subplot(fig=None, subplot_index=None, is_3d=False):
     """Initialize subplot (given position or automatic stacking)
 
diff --git a/SciDataTool/Functions/Plot/plot_2D.py b/SciDataTool/Functions/Plot/plot_2D.py
index f361573..16c6947 100644
--- a/SciDataTool/Functions/Plot/plot_2D.py
+++ b/SciDataTool/Functions/Plot/plot_2D.py
@@ -11,10 +11,11 @@ from numpy import (
     shape,
 )
 
-from SciDataTool.Functions.Plot.init_fig import init_fig
+from SciDataTool.Functions.Plot.init_fig import init_fig, close_figs_on_error
 from SciDataTool.Functions.Plot import COLORS, LINESTYLES
 
 
+@close_figs_on_error
 def plot_2D(
     Xdatas,
     Ydatas,
@@ -128,7 +129,8 @@ def plot_2D(
         is_show_fig = True if fig is None else False
 
     # Set figure if needed
-    if fig is None and ax is None:
+    is_own_fig = fig is None and ax is None
+    if is_own_fig:
         (fig, ax, _, _) = init_fig(fig=None, shape="rectangle")
 
     # Number of curves on a axe
@@ -195,7 +197,7 @@ def plot_2D(
             )
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             if is_indlabels:
                 ax.set_xticklabels([i + 1 for i in range(len(xticklabels))], rotation=0)
@@ -240,7 +242,7 @@ def plot_2D(
 
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             ax.set_xticklabels(xticklabels, rotation=90)
 
@@ -266,10 +268,9 @@ def plot_2D(
                     label=legend_list[i],
                     picker=True,
                 )
-        plt.xticks(
-            range(len(Xdatas[i_Xdatas[i]])),
-            ["{:.2f}".format(f) for f in Xdatas[i_Xdatas[i]]],
-            rotation=90,
+        ax.set_xticks(range(len(Xdatas[i_Xdatas[i]])))
+        ax.set_xticklabels(
+            ["{:.2f}".format(f) for f in Xdatas[i_Xdatas[i]]], rotation=90
         )
     elif type_plot == "octave":
         pos = arange(0, 1, 1 / (ndatas + 1))[:-1] - (ndatas - 1) / (2 * (ndatas + 1))
@@ -285,11 +286,8 @@ def plot_2D(
                 label=legend_list[i],
                 picker=True,
             )
-        plt.xticks(
-            range(len(Xdatas[i_Xdatas[i]])),
-            [f"{f:g}" for f in Xdatas[i_Xdatas[i]]],
-            rotation=90,
-        )
+        ax.set_xticks(range(len(Xdatas[i_Xdatas[i]])))
+        ax.set_xticklabels([f"{f:g}" for f in Xdatas[i_Xdatas[i]]], rotation=90)
         x_min = -1
         x_max = len(x_axis)
         is_logscale_x = False
@@ -337,7 +335,7 @@ def plot_2D(
             )
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             if is_indlabels:
                 ax.set_xticklabels([i + 1 for i in range(len(xticklabels))], rotation=0)
@@ -362,7 +360,7 @@ def plot_2D(
             )
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             if is_indlabels:
                 ax.set_xticklabels([i + 1 for i in range(len(xticklabels))], rotation=0)
@@ -411,7 +409,7 @@ def plot_2D(
         ax.legend()
 
         if xticks is None:
-            plt.xticks([])
+            ax.set_xticks([])
 
     elif type_plot == "stack":
         ax.plot(
@@ -450,7 +448,7 @@ def plot_2D(
                     stack.set_hatch(hatches[ii // ncolors])
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         ax.yaxis.set_ticks([])
         if xticklabels is not None:
             if is_indlabels:
@@ -533,12 +531,13 @@ def plot_2D(
     if save_path is not None:
         save_path = save_path.replace("\\", "/")
         fig.savefig(save_path)
-        plt.close()
+        if is_own_fig:
+            plt.close(fig)
 
     if is_show_fig:
         fig.show()
 
     if win_title:
-        manager = plt.get_current_fig_manager()
+        manager = ax.figure.canvas.manager
         if manager is not None:
             manager.set_window_title(win_title)
diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 5da8692..25122b6 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -6,10 +6,11 @@ from matplotlib.image import NonUniformImage
 import matplotlib
 import matplotlib.colors as colors
 
-from SciDataTool.Functions.Plot.init_fig import init_fig
+from SciDataTool.Functions.Plot.init_fig import init_fig, close_figs_on_error
 from SciDataTool.Functions.Plot import COLORS
 
 
+@close_figs_on_error
 def plot_3D(
     Xdata,
     Ydata,
@@ -130,7 +131,8 @@ def plot_3D(
         is_3d = False
 
     # Set figure if needed
-    if fig is None and ax is None:
+    is_own_fig = fig is None and ax is None
+    if is_own_fig:
         (fig, ax, _, _) = init_fig(fig=None, shape="rectangle", is_3d=is_3d)
 
     if color_list is None:
@@ -189,7 +191,7 @@ def plot_3D(
         ax.zaxis.labelpad = 5
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -217,7 +219,7 @@ def plot_3D(
         ax.zaxis.labelpad = 5
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -238,6 +240,7 @@ def plot_3D(
             interpolation = None
         else:
             interpolation = "bilinear"
+        Zdata = Zdata.copy()
         Zdata[Zdata < z_min] = z_min
         Zdata[Zdata > z_max] = z_max
         # Handle descending order axes (e.g. spectrogram of run-down in freq/rpm map)
@@ -274,7 +277,7 @@ def plot_3D(
             l.set_family(font_name)
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -328,7 +331,7 @@ def plot_3D(
             l.set_family(font_name)
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -357,7 +360,7 @@ def plot_3D(
             l.set_family(font_name)
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if yticks is not None:
             ax.yaxis.set_ticks(yticks)
         if xticklabels is not None:
@@ -399,12 +402,13 @@ def plot_3D(
     if save_path is not None:
         save_path = save_path.replace("\\", "/")
         fig.savefig(save_path)
-        plt.close()
+        if is_own_fig:
+            plt.close(fig)
 
     if is_show_fig:
         fig.show()
 
     if win_title:
-        manager = plt.get_current_fig_manager()
+        manager = ax.figure.canvas.manager
         if manager is not None:
             manager.set_window_title(win_title)
diff --git a/SciDataTool/Functions/Plot/plot_4D.py b/SciDataTool/Functions/Plot/plot_4D.py
index edec72b..e944b05 100644
--- a/SciDataTool/Functions/Plot/plot_4D.py
+++ b/SciDataTool/Functions/Plot/plot_4D.py
@@ -3,10 +3,11 @@
 from numpy import log10, abs as np_abs, nanmax as np_max, NaN, zeros_like
 import matplotlib.pyplot as plt
 
-from SciDataTool.Functions.Plot.init_fig import init_fig
+from SciDataTool.Functions.Plot.init_fig import init_fig, close_figs_on_error
 import numpy as np
 
 
+@close_figs_on_error
 def plot_4D(
     Xdata,
     Ydata,
@@ -138,7 +139,8 @@ def plot_4D(
         is_3d = False
 
     # Set figure if needed
-    if fig is None and ax is None:
+    is_own_fig = fig is None and ax is None
+    if is_own_fig:
         (fig, ax, _, _) = init_fig(fig=None, shape="rectangle", is_3d=is_3d)
 
     # Check logscale on z axis
@@ -157,6 +159,7 @@ def plot_4D(
         else:
             z_min = z_max / 1e4
 
+    Zdata = Zdata.copy()
     Zdata[Zdata < z_min] = NaN
 
     if is_same_size:
@@ -202,7 +205,7 @@ def plot_4D(
             l.set_family(font_name)
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             ax.set_xticklabels(xticklabels, rotation=90)
         if yticks is not None:
@@ -232,7 +235,7 @@ def plot_4D(
         )
         if xticks is not None:
             ax.xaxis.set_ticks(xticks)
-            plt.xticks(rotation=90, ha="center", va="top")
+            plt.setp(ax.get_xticklabels(), rotation=90, ha="center", va="top")
         if xticklabels is not None:
             ax.set_xticklabels(xticklabels, rotation=90)
         if yticks is not None:
@@ -289,12 +292,13 @@ def plot_4D(
     if save_path is not None:
         save_path = save_path.replace("\\", "/")
         fig.savefig(save_path)
-        plt.close()
+        if is_own_fig:
+            plt.close(fig)
 
     if is_show_fig:
         fig.show()
 
     if win_title:
-        manager = plt.get_current_fig_manager()
+        manager = ax.figure.canvas.manager
         if manager is not None:
             manager.set_window_title(win_title)
diff --git a/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py b/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py
index 2a6f644..dc7d5b4 100644
--- a/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py
+++ b/SciDataTool/Methods/DataND/plot_2D_Data_Animated.py
@@ -2,8 +2,10 @@ import matplotlib.pyplot as plt
 from numpy import arange, nanmax, nanmin, frombuffer
 import imageio
 from SciDataTool.Functions.Plot import fft_dict, ifft_dict, PARAM_3D
+from SciDataTool.Functions.Plot.init_fig import close_figs_on_error
 
 
+@close_figs_on_error
 def plot_2D_Data_Animated(
     self, animated_axis, suptitle_ref, *param_list, nb_frames=50, fps=10, **param_dict
 ):
@@ -83,6 +85,10 @@ def plot_2D_Data_Animated(
 
     plot_options["is_show_fig"] = False
 
+    # Each frame is plotted in a figure of its own
+    plot_options["fig"] = None
+    plot_options["ax"] = None
+
     # Getting the name of the gif
     save_path = plot_options["save_path"].replace(".png", ".gif")
     plot_options["save_path"] = None
diff --git a/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py b/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py
index f138dea..8e5681c 100644
--- a/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py
+++ b/SciDataTool/Methods/DataND/plot_3D_Data_Animated.py
@@ -2,8 +2,10 @@ import matplotlib.pyplot as plt
 from numpy import arange, nanmax, nanmin, frombuffer
 import imageio
 from ...Functions.Plot import ifft_dict, PARAM_2D
+from ...Functions.Plot.init_fig import close_figs_on_error
 
 
+@close_figs_on_error
 def plot_3D_Data_Animated(
     self, animated_axis, suptitle_ref, *param_list, nb_frames=50, fps=10, **param_dict
 ):
@@ -70,6 +72,10 @@ def plot_3D_Data_Animated(
 
     plot_options["is_show_fig"] = False
 
+    # Each frame is plotted in a figure of its own
+    plot_options["fig"] = None
+    plot_options["ax"] = None
+
     # Getting the name of the gif
     save_path = plot_options["save_path"].replace(".png", ".gif")
     plot_options["save_path"] = None
diff --git a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
index 27d1bb6..e03c016 100644
--- a/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
+++ b/SciDataTool/Methods/VectorField/plot_2D_Data_Animated.py
@@ -2,9 +2,14 @@ from copy import copy
 import numpy as np
 import imageio
 import matplotlib.pyplot as plt
-from SciDataTool.Functions.Plot.init_fig import init_fig, copy_fig
+from SciDataTool.Functions.Plot.init_fig import (
+    init_fig,
+    copy_fig,
+    close_figs_on_error,
+)
 
 
+@close_figs_on_error
 def plot_2D_Data_Animated(
     self,
     animated_axis,
@@ -145,6 +150,7 @@ def plot_2D_Data_Animated(
         fig.suptitle(None)
         # Copy_fig make a deep copy so that the machine plot is conserved
         deepcopy_fig = copy_fig(fig)
+        machine_fig = fig
 
         # Params settings
         save_path = None
@@ -229,6 +235,8 @@ def plot_2D_Data_Animated(
             images.append(image)
 
             # Fig and ax reset to default for background
+            if fig is not machine_fig:
+                plt.close(fig)
             fig, ax, _, _ = init_fig()
             deepcopy_ax = deepcopy_fig.axes[0]
             for patch in deepcopy_ax.patches:
@@ -247,7 +255,9 @@ def plot_2D_Data_Animated(
             value_min += variation_step
 
         # Creating the gif
-        plt.close(fig)
+        if fig is not machine_fig:
+            plt.close(fig)
+        plt.close(deepcopy_fig)
         imageio.mimsave(save_path_gif, images, format="GIF-PIL", fps=fps)
 
     else:
-- 
2.43.0


From 57682f51b620fc2bcaff5ac28c472392d3bffdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:14 +0000
Subject: [PATCH 20/21] fix: notice incomplete writes when saving a figure

Some image encoders ignore short writes: encode the picture in memory and
write the file from there.
---
 SciDataTool/Functions/Plot/init_fig.py | 21 +++++++++++++++++++++
 SciDataTool/Functions/Plot/plot_2D.py  |  8 ++++++--
 SciDataTool/Functions/Plot/plot_3D.py  |  8 ++++++--
 SciDataTool/Functions/Plot/plot_4D.py  |  8 ++++++--
 4 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/SciDataTool/Functions/Plot/init_fig.py b/SciDataTool/Functions/Plot/init_fig.py
index b512dbe..9ad79da 100644
--- a/SciDataTool/Functions/Plot/init_fig.py
+++ b/SciDataTool/Functions/Plot/init_fig.py
@@ -1,5 +1,6 @@
 from functools import wraps
 from matplotlib.pyplot import close, get_fignums, subplots
+from os.path import splitext
 import io
 import pickle
 
@@ -97,6 +98,26 @@ def close_figs_on_error(func):
     return plot
 
 
+def save_fig(fig, save_path):
+    """Save a figure in a file (some image encoders ignore incomplete writes, so the file is not written by them)
+
+    Parameters
+    ----------
+    fig : Matplotlib.figure.Figure
+        The figure to save
+    save_path : str
+        full path including folder, name and extension of the file
+    """
+    file_format = splitext(save_path)[1][1:]
+    if file_format == "":
+        file_format = fig.canvas.get_default_filetype()
+        save_path = save_path.rstrip(".") + "." + file_format
+    buf = io.BytesIO()
+    fig.savefig(buf, format=file_format)
+    with open(save_path, "wb") as fig_file:
+        fig_file.write(buf.getvalue())
+
+
 def init_subplot(fig=None, subplot_index=None, is_3d=False):
     """Initialize subplot (given position or automatic stacking)
 
diff --git a/SciDataTool/Functions/Plot/plot_2D.py b/SciDataTool/Functions/Plot/plot_2D.py
index 16c6947..ac2304f 100644
--- a/SciDataTool/Functions/Plot/plot_2D.py
+++ b/SciDataTool/Functions/Plot/plot_2D.py
@@ -11,7 +11,11 @@ from numpy import (
     shape,
 )
 
-from SciDataTool.Functions.Plot.init_fig import init_fig, close_figs_on_error
+from SciDataTool.Functions.Plot.init_fig import (
+    init_fig,
+    close_figs_on_error,
+    save_fig,
+)
 from SciDataTool.Functions.Plot import COLORS, LINESTYLES
 
 
@@ -530,7 +534,7 @@ def plot_2D(
 
     if save_path is not None:
         save_path = save_path.replace("\\", "/")
-        fig.savefig(save_path)
+        save_fig(fig, save_path)
         if is_own_fig:
             plt.close(fig)
 
diff --git a/SciDataTool/Functions/Plot/plot_3D.py b/SciDataTool/Functions/Plot/plot_3D.py
index 25122b6..756358c 100644
--- a/SciDataTool/Functions/Plot/plot_3D.py
+++ b/SciDataTool/Functions/Plot/plot_3D.py
@@ -6,7 +6,11 @@ from matplotlib.image import NonUniformImage
 import matplotlib
 import matplotlib.colors as colors
 
-from SciDataTool.Functions.Plot.init_fig import init_fig, close_figs_on_error
+from SciDataTool.Functions.Plot.init_fig import (
+    init_fig,
+    close_figs_on_error,
+    save_fig,
+)
 from SciDataTool.Functions.Plot import COLORS
 
 
@@ -401,7 +405,7 @@ def plot_3D(
 
     if save_path is not None:
         save_path = save_path.replace("\\", "/")
-        fig.savefig(save_path)
+        save_fig(fig, save_path)
         if is_own_fig:
             plt.close(fig)
 
diff --git a/SciDataTool/Functions/Plot/plot_4D.py b/SciDataTool/Functions/Plot/plot_4D.py
index e944b05..fd77e5f 100644
--- a/SciDataTool/Functions/Plot/plot_4D.py
+++ b/SciDataTool/Functions/Plot/plot_4D.py
@@ -3,7 +3,11 @@
 from numpy import log10, abs as np_abs, nanmax as np_max, NaN, zeros_like
 import matplotlib.pyplot as plt
 
-from SciDataTool.Functions.Plot.init_fig import init_fig, close_figs_on_error
+from SciDataTool.Functions.Plot.init_fig import (
+    init_fig,
+    close_figs_on_error,
+    save_fig,
+)
 import numpy as np
 
 
@@ -291,7 +295,7 @@ def plot_4D(
 
     if save_path is not None:
         save_path = save_path.replace("\\", "/")
-        fig.savefig(save_path)
+        save_fig(fig, save_path)
         if is_own_fig:
             plt.close(fig)
 
-- 
2.43.0


From 7f61dae022d1335a088b054d1cb06b23fda1d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:59 +0000
Subject: [PATCH 21/21] fix: give the octave bands of multidimensional fields
 as one axis

---
 SciDataTool/Methods/DataND/get_magnitude_along.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/SciDataTool/Methods/DataND/get_magnitude_along.py b/SciDataTool/Methods/DataND/get_magnitude_along.py
index 47b9efe..6d8b6cd 100644
--- a/SciDataTool/Methods/DataND/get_magnitude_along.py
+++ b/SciDataTool/Methods/DataND/get_magnitude_along.py
@@ -1,7 +1,7 @@
 from SciDataTool.Functions import AxisError, NormError, UnitError
 from SciDataTool.Functions.conversions import convert, to_dB, to_dBA, to_noct
 from SciDataTool.Functions.fix_axes_order import fix_axes_order
-from numpy import apply_along_axis, add, take
+from numpy import apply_along_axis, add, take, zeros
 
 
 def get_magnitude_along(
@@ -178,10 +178,15 @@ def get_magnitude_along(
             if axis.name == "freqs" or axis.corr_name == "freqs":
                 index = axis.index
                 if axis.noct is not None:
-                    (values, foct) = apply_along_axis(
-                        to_noct, index, values, return_dict["freqs"], noct=axis.noct
+                    freqs = return_dict["freqs"]
+                    values = apply_along_axis(
+                        lambda val: to_noct(val, freqs, noct=axis.noct)[0],
+                        index,
+                        values,
                     )
-                    return_dict[axis.name] = foct
+                    return_dict[axis.name] = to_noct(
+                        zeros(len(freqs)), freqs, noct=axis.noct
+                    )[1]
         # Convert into right unit (apart because of dBA conversion)
         if unit == self.unit or unit == "SI":
             if is_norm:
-- 
2.43.0

