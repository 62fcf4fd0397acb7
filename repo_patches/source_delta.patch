From c9f19564b52a4412be6d113d7891e437bdad60b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:29 +0000
Subject: [PATCH 01/54] fix: keep query order and per-PDF queries when
 factoring flattened evaluations

---
 src/qp/utils.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 9fe99bb..9dc4a3b 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -204,13 +204,25 @@ def get_eval_case(x, row):
         return CASE_PRODUCT, x, row
     if np.size(x) == 1 or np.size(row) == 1:
         return CASE_FLAT, x, row
-    xx = np.unique(x)
-    rr = np.unique(row)
-    if np.size(xx) == np.size(x):
-        xx = x
-    if np.size(rr) == np.size(row):
+    x, row = np.asarray(x), np.asarray(row)
+    # A product of nx x-values and nrow rows is flattened in row-major order, so
+    # that each row index applies to nx consecutive points (and is repeated nx
+    # times by scipy), and the same sequence of x-values is repeated for each row.
+    if np.size(row) == np.size(x):
+        changes = np.flatnonzero(row[1:] != row[:-1])
+        nx = changes[0] + 1 if np.size(changes) else np.size(x)
+        rr = row[::nx]
+        factors = np.array_equal(np.repeat(rr, nx)[: np.size(row)], row)
+    else:
+        nx = np.size(x) // np.size(row)
         rr = row
-    if np.size(xx) * np.size(rr) != np.size(x):
+        factors = True
+    xx = x[:nx]
+    if (
+        not factors
+        or nx * np.size(rr) != np.size(x)
+        or not np.array_equal(np.tile(xx, np.size(rr)), x)
+    ):
         return CASE_FLAT, x, row
     return CASE_FACTOR, xx, np.expand_dims(rr, -1)
 
-- 
2.43.0


From 1f1dfee79f1d201cfbc29d1df4162336fc20939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:11 +0000
Subject: [PATCH 02/54] fix: mixmod quantiles and samples of each PDF come from
 that PDF for every query shape

---
 src/qp/mixmod_pdf.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index e9cd405..7f690a0 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -9,7 +9,7 @@ from qp.conversion_funcs import extract_mixmod_fit_samples
 from qp.factory import add_class
 from qp.pdf_gen import Pdf_rows_gen
 from qp.test_data import MEAN_MIXMOD, STD_MIXMOD, TEST_XVALS, WEIGHT_MIXMOD
-from qp.utils import get_eval_case, interpolate_multi_x_y, reshape_to_pdf_size
+from qp.utils import interpolate_multi_x_multi_y, reshape_to_pdf_size
 
 
 class mixmod_gen(Pdf_rows_gen):
@@ -119,21 +119,14 @@ class mixmod_gen(Pdf_rows_gen):
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
-        min_val = np.min(self._means - 6 * self._stds)
-        max_val = np.max(self._means + 6 * self._stds)
-        grid = np.linspace(min_val, max_val, 201)
-        case_idx, _, rr = get_eval_case(x, row)
-        if case_idx == 1:
-            cdf_vals = self.cdf(grid, rr)
-        elif case_idx == 3:
-            cdf_vals = self.cdf(grid, np.expand_dims(rr, -1))
-        else:  # pragma: no cover
-            raise ValueError(
-                f"Opps, we handle this kind of input to mixmod._ppf {case_idx}"
-            )
-        return interpolate_multi_x_y(
-            x, row, cdf_vals, grid, bounds_error=False, fill_value=(min_val, max_val)
-        ).ravel()
+        # Tabulate the cdf of every PDF on a grid that covers that PDF
+        min_vals = np.min(self._means - 6 * self._stds, axis=1)
+        max_vals = np.max(self._means + 6 * self._stds, axis=1)
+        grid = np.linspace(min_vals, max_vals, 201, axis=-1)
+        cdf_vals = self.cdf(grid, np.expand_dims(np.arange(self._npdf), -1))
+        # The grid covers all but the far tails
+        cdf_vals[:, 0], cdf_vals[:, -1] = 0.0, 1.0
+        return interpolate_multi_x_multi_y(x, row, cdf_vals, grid).ravel()
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 66f217fc6a5e282e9efd57047119fa97f5f3e3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 03/54] fix: parametric ensembles keep the support of the scipy
 distribution they wrap

---
 src/qp/factory.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index d00240c..cbbaec7 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -54,14 +54,21 @@ class Factory(OrderedDict):
                 data_dict[col] = col_data
         return data_dict
 
-    def _make_scipy_wrapped_class(self, class_name, scipy_class):
+    def _make_scipy_wrapped_class(self, class_name, scipy_class, scipy_dist):
         """Build a qp class from a scipy class"""
+
         # pylint: disable=protected-access
+        def _other_init(self, *args, **kwargs):
+            # The support is set on the scipy distribution object, not on its class
+            kwargs.setdefault("a", scipy_dist.a)
+            kwargs.setdefault("b", scipy_dist.b)
+            scipy_class.__init__(self, *args, **kwargs)
+
         override_dict = dict(
             name=class_name,
             version=0,
             freeze=Pdf_gen_wrap._my_freeze,
-            _other_init=scipy_class.__init__,
+            _other_init=_other_init,
         )
         the_class = type(class_name, (Pdf_gen_wrap, scipy_class), override_dict)
         self.add_class(the_class)
@@ -72,7 +79,7 @@ class Factory(OrderedDict):
         for name in names:
             attr = getattr(sps, name)
             if isinstance(attr, sps.rv_continuous):
-                self._make_scipy_wrapped_class(name, type(attr))
+                self._make_scipy_wrapped_class(name, type(attr), attr)
 
     def add_class(self, the_class):
         """Add a class to the factory
-- 
2.43.0


From d13523fd9e3ee25d837eed0eeea585fcc97f2627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:21 +0000
Subject: [PATCH 04/54] fix: spline-based quantile reconstructions evaluate the
 PDF of each row

---
 src/qp/quant_pdf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index fa80ef3..9d62fb4 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -213,7 +213,18 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         # normalization function.
         # See qp issue #147
         row = args[0]
-        return self._pdf_constructor.construct_pdf(x, row)
+        if not isinstance(
+            self._pdf_constructor, (CdfSplineDerivative, DualSplineAverage)
+        ):
+            return self._pdf_constructor.construct_pdf(x, row)
+        # These evaluate every selected distribution at all of the points they are
+        # given, so give them the points that belong to one distribution at a time.
+        x, row = np.broadcast_arrays(x, row)
+        vals = np.zeros(x.shape)
+        for irow in np.unique(row):
+            mask = row == irow
+            vals[mask] = self._pdf_constructor.construct_pdf(x[mask], irow)[0]
+        return vals
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From 81ad525c1d3865ec5f1aa1c2f81da70cfc45c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:34 +0000
Subject: [PATCH 05/54] fix: publish lazily built tables only once they are
 complete

---
 src/qp/hist_pdf.py                                |  7 ++++---
 src/qp/interp_pdf.py                              | 14 ++++++++------
 src/qp/packed_interp_pdf.py                       |  7 ++++---
 .../dual_spline_average.py                        | 15 ++++++++-------
 .../piecewise_constant.py                         | 11 +++++++----
 .../quantile_pdf_constructors/piecewise_linear.py |  9 +++++----
 6 files changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 3195609..baff836 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -90,9 +90,10 @@ class hist_gen(Pdf_rows_gen):
     def _compute_cdfs(self):
         copy_shape = np.array(self._hpdfs.shape)
         copy_shape[-1] += 1
-        self._hcdfs = np.ndarray(copy_shape)
-        self._hcdfs[:, 0] = 0.0
-        self._hcdfs[:, 1:] = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
+        hcdfs = np.ndarray(copy_shape)
+        hcdfs[:, 0] = 0.0
+        hcdfs[:, 1:] = np.cumsum(self._hpdfs * self._hbin_widths, axis=1)
+        self._hcdfs = hcdfs
 
     @property
     def bins(self):
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 60025d1..ce68276 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -96,14 +96,15 @@ class interp_gen(Pdf_rows_gen):
 
     def _compute_ycumul(self):
         copy_shape = np.array(self._yvals.shape)
-        self._ycumul = np.ndarray(copy_shape)
-        self._ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
-        self._ycumul[:, 1:] = np.cumsum(
+        ycumul = np.ndarray(copy_shape)
+        ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
+        ycumul[:, 1:] = np.cumsum(
             (self._xvals[1:] - self._xvals[:-1])
             * 0.5
             * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
+        self._ycumul = ycumul
 
     @property
     def xvals(self):
@@ -288,13 +289,14 @@ class interp_irregular_gen(Pdf_rows_gen):
 
     def _compute_ycumul(self):
         copy_shape = np.array(self._yvals.shape)
-        self._ycumul = np.ndarray(copy_shape)
-        self._ycumul[:, 0] = 0.0
-        self._ycumul[:, 1:] = np.cumsum(
+        ycumul = np.ndarray(copy_shape)
+        ycumul[:, 0] = 0.0
+        ycumul[:, 1:] = np.cumsum(
             self._xvals[:, 1:] * self._yvals[:, 1:]
             - self._xvals[:, :-1] * self._yvals[:, 1:],
             axis=1,
         )
+        self._ycumul = ycumul
 
     @property
     def xvals(self):
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 376c584..734578b 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -125,14 +125,15 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
         if self._yvals is None:
             self._unpack()
         copy_shape = np.array(self._yvals.shape)
-        self._ycumul = np.ndarray(copy_shape)
-        self._ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
-        self._ycumul[:, 1:] = np.cumsum(
+        ycumul = np.ndarray(copy_shape)
+        ycumul[:, 0] = 0.5 * self._yvals[:, 0] * (self._xvals[1] - self._xvals[0])
+        ycumul[:, 1:] = np.cumsum(
             (self._xvals[1:] - self._xvals[:-1])
             * 0.5
             * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
+        self._ycumul = ycumul
 
     def _unpack(self):
         self._yvals = unpack_array(
diff --git a/src/qp/quantile_pdf_constructors/dual_spline_average.py b/src/qp/quantile_pdf_constructors/dual_spline_average.py
index 1431ae3..45e2268 100644
--- a/src/qp/quantile_pdf_constructors/dual_spline_average.py
+++ b/src/qp/quantile_pdf_constructors/dual_spline_average.py
@@ -59,7 +59,7 @@ class DualSplineAverage(AbstractQuantilePdfConstructor):
         """
 
         # Prepare an empty container for the output
-        self._p_of_zs = np.zeros(self._locations.shape)
+        p_of_zs = np.zeros(self._locations.shape)
 
         # Prepare an all-zero list, used in the step-wise calculation to prevent negative values
         zeros_for_comparison = np.zeros(self._locations.shape[0])
@@ -68,11 +68,11 @@ class DualSplineAverage(AbstractQuantilePdfConstructor):
         first_term = 2 * np.diff(self._quantiles) / np.diff(self._locations)
 
         # Perform the step-wise calculation for all distributions simultaneously
-        for i in range(1, np.shape(self._p_of_zs)[-1]):
-            self._p_of_zs[:,i] = np.maximum(zeros_for_comparison, first_term[:,i-1] - self._p_of_zs[:,i-1])
+        for i in range(1, np.shape(p_of_zs)[-1]):
+            p_of_zs[:,i] = np.maximum(zeros_for_comparison, first_term[:,i-1] - p_of_zs[:,i-1])
 
         # Set any negative values to 0.
-        self._p_of_zs = np.maximum(np.zeros(self._locations.shape), self._p_of_zs)
+        self._p_of_zs = np.maximum(np.zeros(self._locations.shape), p_of_zs)
 
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """This method utilizes intermediate calculations from `prepare_constructor`
@@ -130,11 +130,12 @@ class DualSplineAverage(AbstractQuantilePdfConstructor):
         )
 
         # Evaluate all the splines at the input grid values
-        self.y1 = np.asarray([func_1(grid) for func_1 in f1])
-        self.y2 = np.asarray([func_2(grid) for func_2 in f2])
+        y1 = np.asarray([func_1(grid) for func_1 in f1])
+        y2 = np.asarray([func_2(grid) for func_2 in f2])
+        self.y1, self.y2 = y1, y2
 
         # Return the average of the spline values at each of the evaluated points.
-        return (self.y1 + self.y2) / 2
+        return (y1 + y2) / 2
 
     def debug(self):
         """This is a debugging utility that is meant to return intermediate calculation values
diff --git a/src/qp/quantile_pdf_constructors/piecewise_constant.py b/src/qp/quantile_pdf_constructors/piecewise_constant.py
index 9b85dc2..19ec5f0 100644
--- a/src/qp/quantile_pdf_constructors/piecewise_constant.py
+++ b/src/qp/quantile_pdf_constructors/piecewise_constant.py
@@ -35,18 +35,21 @@ class PiecewiseConstant(AbstractQuantilePdfConstructor):
         not a central derivative.
         """
 
-        self._cdf_derivatives = np.zeros(self._locations.shape)
-        self._cdf_2nd_derivatives = np.zeros(self._locations.shape)
+        cdf_derivatives = np.zeros(self._locations.shape)
+        cdf_2nd_derivatives = np.zeros(self._locations.shape)
 
-        self._cdf_derivatives[:,0:-1] = (self._quantiles[1:] - self._quantiles[0:-1])/\
+        cdf_derivatives[:,0:-1] = (self._quantiles[1:] - self._quantiles[0:-1])/\
           (self._locations[:,1:] - self._locations[:,0:-1])
-        self._cdf_2nd_derivatives[:,0:-1] = self._cdf_derivatives[:,1:]  - self._cdf_derivatives[:,0:-1]
+        cdf_2nd_derivatives[:,0:-1] = cdf_derivatives[:,1:]  - cdf_derivatives[:,0:-1]
 
         # Offset the locations by -(l_[i+1] - l_i) / 2. So that the cdf_deriv can be correctly located.
         # This offset is necessary to correctly place the _cdf_derivs because we are using a
         # forward difference to calculate the numerical derivative.
         self._adjusted_locations = self._locations[:,1:]-np.diff(self._locations)/2
 
+        # The first derivatives are set last, as they mark the constructor as prepared.
+        self._cdf_2nd_derivatives = cdf_2nd_derivatives
+        self._cdf_derivatives = cdf_derivatives
 
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """Take the intermediate calculations and return the interpolated y values
diff --git a/src/qp/quantile_pdf_constructors/piecewise_linear.py b/src/qp/quantile_pdf_constructors/piecewise_linear.py
index 45421a6..06b447c 100644
--- a/src/qp/quantile_pdf_constructors/piecewise_linear.py
+++ b/src/qp/quantile_pdf_constructors/piecewise_linear.py
@@ -33,15 +33,16 @@ class PiecewiseLinear(AbstractQuantilePdfConstructor):
         adjusted locations. The adjustments are necessary because the derivative is
         not a central derivative.
         """
-        # calculate the first derivative using a forward difference.
-        self._cdf_derivatives = (self._quantiles[1:] - self._quantiles[0:-1])/\
-          (self._locations[:,1:] - self._locations[:,0:-1])
-
         # Offset the locations by -(l_[i+1] - l_i) / 2. So that the cdf_deriv can be correctly located.
         # This offset is necessary to correctly place the _cdf_derivs because we are using a
         # forward difference to calculate the numerical derivative.
         self._adjusted_locations = self._locations[:,1:]-np.diff(self._locations)/2
 
+        # calculate the first derivative using a forward difference.
+        # This is set last, as it marks the constructor as prepared.
+        self._cdf_derivatives = (self._quantiles[1:] - self._quantiles[0:-1])/\
+          (self._locations[:,1:] - self._locations[:,0:-1])
+
     def construct_pdf(self, grid: List[float], row: List[int] = None) -> List[List[float]]:
         """Take the intermediate calculations and return the interpolated y values
         given the input grid.
-- 
2.43.0


From b4ab79f18e0c9c6f9cddf36f243d1fc8f8cee45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 06/54] fix: gridded values always match their grid, and a
 rejected update leaves the ensemble unchanged

---
 src/qp/ensemble.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index a3e4bba..d43cb87 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -170,7 +170,9 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
-        self._frozen = self._gen_func(**data)
+        frozen = self._gen_func(**data)
+        check_array_shapes(ancil, frozen.npdf)
+        self._frozen = frozen
         self._gen_obj = self._frozen.dist
         self.set_ancil(ancil)
         self._gridded = None
@@ -337,9 +339,12 @@ class Ensemble:
         This first comparse grid to the cached value, if they match it returns
         the cached value
         """
-        if self._gridded is None or not np.array_equal(self._gridded[0], grid):
-            self._gridded = (grid, self.pdf(grid))
-        return self._gridded
+        gridded = self._gridded
+        if gridded is None or not np.array_equal(gridded[0], grid):
+            # keep a copy of the grid, so that the cached values always match it
+            gridded = (np.array(grid), self.pdf(grid))
+            self._gridded = gridded
+        return gridded
 
     def write_to(self, filename):
         """Save this ensemble to a file
-- 
2.43.0


From f91617d2512bc28700d67e28f8011926890b64ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 07/54] fix: gridded values follow a switch of the quantile
 reconstruction

---
 src/qp/ensemble.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index d43cb87..98e7f9b 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -339,12 +339,18 @@ class Ensemble:
         This first comparse grid to the cached value, if they match it returns
         the cached value
         """
+        # The reconstruction used by quantile ensembles can be switched in place
+        source = getattr(self._gen_obj, "pdf_constructor", None)
         gridded = self._gridded
-        if gridded is None or not np.array_equal(gridded[0], grid):
+        if (
+            gridded is None
+            or gridded[2] is not source
+            or not np.array_equal(gridded[0], grid)
+        ):
             # keep a copy of the grid, so that the cached values always match it
-            gridded = (np.array(grid), self.pdf(grid))
+            gridded = (np.array(grid), self.pdf(grid), source)
             self._gridded = gridded
-        return gridded
+        return gridded[:2]
 
     def write_to(self, filename):
         """Save this ensemble to a file
-- 
2.43.0


From ac8cd1d1436e35e28a9002eaccead49a3025e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 08/54] fix: add_to_ancil works without earlier ancillary data
 and does not write to a shared dict

---
 src/qp/ensemble.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 98e7f9b..c716a2b 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -264,7 +264,10 @@ class Ensemble:
         This calls dict.update() so it will overwrite existing columns
         """
         check_array_shapes(to_add, self.npdf)
-        self._ancil.update(to_add)
+        # the current dict may also be in use elsewhere
+        ancil = {} if self._ancil is None else dict(self._ancil)
+        ancil.update(to_add)
+        self._ancil = ancil
 
     def append(self, other_ens):
         """Append another other_ens to this one
-- 
2.43.0


From 3cb4196ef6a61d5c6c0e1bc3db01bc5c10682209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:15 +0000
Subject: [PATCH 09/54] fix: stacking and appending work for ensembles built by
 an alternative constructor

---
 src/qp/ensemble.py | 8 ++++++--
 src/qp/factory.py  | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index c716a2b..c574e1e 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -170,7 +170,10 @@ class Ensemble:
         data : `dict`
             Dictionary with data used to construct the ensemble
         """
-        frozen = self._gen_func(**data)
+        self._update(self._gen_func, data, ancil)
+
+    def _update(self, gen_func, data, ancil):
+        frozen = gen_func(**data)
         check_array_shapes(ancil, frozen.npdf)
         self._frozen = frozen
         self._gen_obj = self._frozen.dist
@@ -193,7 +196,8 @@ class Ensemble:
             new_data[k] = np.squeeze(v)
         new_data.update(self.objdata())
         new_data.update(data)
-        self.update(new_data, ancil)
+        # the object data are what the class takes, gen_func may take something else
+        self._update(self._gen_class.create, new_data, ancil)
 
     def metadata(self):
         """Return the metadata for this ensemble
diff --git a/src/qp/factory.py b/src/qp/factory.py
index cbbaec7..3ac46cc 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -344,7 +344,8 @@ class Factory(OrderedDict):
             metadata_list.append(ensemble.metadata())
             objdata_list.append(ensemble.objdata())
             if gen_func is None:
-                gen_func = ensemble.gen_func
+                # the object data are what the class takes, gen_func may take something else
+                gen_func = ensemble.gen_class.create
             if ancil_list is not None:
                 if ensemble.ancil is None:
                     ancil_list = None
-- 
2.43.0


From 42c244b9781803102b4ad5a2b9657f1b078f44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 10/54] fix: the sparse representation of each PDF is built
 from an unpermuted dictionary

---
 src/qp/sparse_rep.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 008cd8e..fb2f0be 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -92,6 +92,8 @@ def sparse_basis(dictionary, query_vec, n_basis, tolerance=None):
     :return: indices, values (2 arrays one with the position and the second with the coefficients)
     """
 
+    # The columns are swapped below, the dictionary of the caller must keep its order
+    dictionary = dictionary.copy()
     a_n = np.zeros(dictionary.shape[1])
     machine_eps = np.finfo(dictionary.dtype).eps
     alpha = np.dot(dictionary.T, query_vec)
@@ -287,9 +289,6 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         sparse_ind = np.array(list(map(combine_int, index, Dind)))
         Sparse_Array[k, 0 : len(sparse_ind)] = sparse_ind
 
-        # swap back columns
-        A[:, [Dind]] = A[:, [np.arange(len(Dind))]]
-
     if verbose:
         print("done")
     return Sparse_Array, bigD, A
-- 
2.43.0


From 78effd6d820856c4e0d66db9c7a8e7c06960ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 11/54] fix: chunks of the iterator do not share data, and
 files are closed when the loop is left early

---
 src/qp/factory.py | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 3ac46cc..2688d3d 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -257,24 +257,29 @@ class Factory(OrderedDict):
         ctor_func = the_class.creation_method(None)
 
         f, infp = io.readHdf5Group(filename, "data")
+        ancil_infp = None
         try:
-            ancil_f, ancil_infp = io.readHdf5Group(filename, "ancil")
-        except KeyError:  # pragma: no cover
-            ancil_f, ancil_infp = (None, None)
-        num_rows = io.getGroupInputDataLength(f)
-        ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
-        data = self._build_data_dict(metadata, {})
-        ancil_data = OrderedDict()
-        for start, end in ranges:
-            for key, val in f.items():
-                data[key] = io.readHdf5DatasetToArray(val, start, end)
-            if ancil_f is not None:
-                for key, val in ancil_f.items():
-                    ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
-            yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
-        infp.close()
-        if ancil_infp is not None:
-            ancil_infp.close()
+            try:
+                ancil_f, ancil_infp = io.readHdf5Group(filename, "ancil")
+            except KeyError:  # pragma: no cover
+                ancil_f = None
+            num_rows = io.getGroupInputDataLength(f)
+            ranges = io.data_ranges_by_rank(num_rows, chunk_size, parallel_size, rank)
+            for start, end in ranges:
+                # Each chunk gets its own dicts, the ensembles keep references to them
+                data = self._build_data_dict(metadata, {})
+                for key, val in f.items():
+                    data[key] = io.readHdf5DatasetToArray(val, start, end)
+                ancil_data = None
+                if ancil_f is not None:
+                    ancil_data = OrderedDict()
+                    for key, val in ancil_f.items():
+                        ancil_data[key] = io.readHdf5DatasetToArray(val, start, end)
+                yield start, end, Ensemble(ctor_func, data=data, ancil=ancil_data)
+        finally:
+            infp.close()
+            if ancil_infp is not None:
+                ancil_infp.close()
 
     def convert(self, in_dist, class_name, **kwds):
         """Read an ensemble to a different repersenation
-- 
2.43.0


From 0f14770cd44bb467bffa49e487e7c41b36f2b375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 12/54] fix: Brier and PIT metrics accept ensembles and chunks
 with a single PDF

---
 src/qp/metrics/concrete_metric_classes.py | 2 +-
 src/qp/metrics/metrics.py                 | 5 ++---
 src/qp/metrics/pit.py                     | 2 +-
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qp/metrics/concrete_metric_classes.py b/src/qp/metrics/concrete_metric_classes.py
index 00c7271..841ce01 100644
--- a/src/qp/metrics/concrete_metric_classes.py
+++ b/src/qp/metrics/concrete_metric_classes.py
@@ -276,7 +276,7 @@ class PITMetric(DistToPointMetricDigester):
         return pit_object.pit
 
     def accumulate(self, estimate, reference):
-        pit_samples = PIT(estimate, reference, self._eval_grid)._gather_pit_samples(estimate, reference)
+        pit_samples = PIT._gather_pit_samples(estimate, reference)
         digest = pytdigest.TDigest.compute(pit_samples, compression=self._tdigest_compression)
         centroids = digest.get_centroids()
         return centroids
diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index 1ccf600..ff9a99e 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -240,9 +240,8 @@ def _prepare_for_brier(p, truth, limits, dx=0.01):
     pdf_values = p.gridded(grid.grid_values)[1]
 
     # Create the NxM truth_array.
-    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array,
-    # thus we call np.squeeze to remove extra dimensions.
-    truth_array = np.squeeze([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
+    # Note np.histogram returns a 2-tuple. The 0th index is the histogram array.
+    truth_array = np.array([np.histogram(t, grid.hist_bin_edges)[0] for t in truth])
 
     # instantiate the Brier metric object
     return Brier(pdf_values, truth_array)
diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index b83586b..ec13832 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -174,7 +174,7 @@ class PIT:
 
     @classmethod
     def _gather_pit_samples(cls, qp_ens, true_vals):
-        pit_samples = np.squeeze(qp_ens.cdf(np.vstack(true_vals)))
+        pit_samples = np.atleast_1d(np.squeeze(qp_ens.cdf(np.vstack(true_vals))))
 
         # These two lines set all `NaN` values to 0. This may or may not make sense
         # Alternatively if it's better to simply remove the `NaN`, this can be done
-- 
2.43.0


From d0ddf11b42470cffe2545813c97c7d2dc4b8ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 13/54] fix: point metrics evaluated from iterators use every
 chunk

---
 src/qp/metrics/base_metric_classes.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/qp/metrics/base_metric_classes.py b/src/qp/metrics/base_metric_classes.py
index 5efa360..8987a75 100644
--- a/src/qp/metrics/base_metric_classes.py
+++ b/src/qp/metrics/base_metric_classes.py
@@ -157,9 +157,8 @@ class PointToPointMetric(BaseMetric):
 
     def eval_from_iterator(self, estimate, reference):
         self.initialize()
-        for estimate, reference in zip(estimate, reference):
-            centroids = self.accumulate(estimate, reference)
-        return self.finalize([centroids])
+        centroids = [self.accumulate(e, r) for e, r in zip(estimate, reference)]
+        return self.finalize(centroids)
 
     def evaluate(self, estimate, reference):
         raise NotImplementedError()
-- 
2.43.0


From b03c48d9936b66148dc9f3f8a87589449858a355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 14/54] fix: goodness of fit with a single sample per PDF

---
 src/qp/metrics/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/metrics/metrics.py b/src/qp/metrics/metrics.py
index ff9a99e..cc8866c 100644
--- a/src/qp/metrics/metrics.py
+++ b/src/qp/metrics/metrics.py
@@ -457,7 +457,7 @@ def calculate_goodness_of_fit(
 
     return goodness_of_fit_metrics[fit_metric](
         reference,
-        np.squeeze(estimate.rvs(size=num_samples, random_state=_random_state)),
+        estimate.rvs(size=num_samples, random_state=_random_state),
     )
 
 
-- 
2.43.0


From 077701ff0edcab0da4eab81da86142e202a92570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 15/54] fix: metadata comparison does not treat small or
 reshaped arrays as equal

---
 src/qp/dict_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qp/dict_utils.py b/src/qp/dict_utils.py
index 189767c..86f0c44 100644
--- a/src/qp/dict_utils.py
+++ b/src/qp/dict_utils.py
@@ -203,7 +203,10 @@ def compare_two_dicts(d1, d2):
             if v != vv:  # pragma: no cover
                 return False
         except ValueError:
-            if not np.allclose(v, vv):  # pragma: no cover
+            if np.shape(v) != np.shape(vv):
+                return False
+            # the tolerance follows the scale of the values
+            if not np.allclose(v, vv, atol=1e-8 * np.max(np.abs(v))):  # pragma: no cover
                 return False
     return True
 
-- 
2.43.0


From edcb3908bbe64e3aaedf6abf6eeb72f280986932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:08 +0000
Subject: [PATCH 16/54] fix: narrow bins of different widths are not treated as
 equal width bins

---
 src/qp/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index 9dc4a3b..25814ea 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -85,7 +85,7 @@ def get_bin_indices(bins, x):
     """
     widths = bin_widths(bins)
     n_bins = np.size(bins) - 1
-    if np.allclose(widths, widths[0]):
+    if np.allclose(widths, widths[0], atol=0.0):
         idx = np.atleast_1d(np.floor((x - bins[0]) / widths[0]).astype(int))
     else:
         idx = np.atleast_1d(np.searchsorted(bins, x, side="left") - 1)
-- 
2.43.0


From 854c5c9d48754be3c24f91cf515369ac985f53c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 17/54] fix: moments of histograms and interpolated grids use
 the actual bin widths

---
 src/qp/hist_pdf.py          | 3 +--
 src/qp/interp_pdf.py        | 3 +--
 src/qp/packed_interp_pdf.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index baff836..9d7f968 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -141,9 +141,8 @@ class hist_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._hbins[1] - self._hbins[0]
         xv = 0.5 * (self._hbins[1:] + self._hbins[:-1])
-        return np.sum(xv**m * self._hpdfs, axis=1) * dx
+        return np.sum(xv**m * self._hpdfs * self._hbin_widths, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index ce68276..e2ec874 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -155,8 +155,7 @@ class interp_gen(Pdf_rows_gen):
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        return np.trapz(self._xvals**m * self._yvals, x=self._xvals, axis=1)
 
     def _updated_ctor_param(self):
         """
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index 734578b..ff7d2e9 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -214,10 +214,9 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
     def custom_generic_moment(self, m):
         """Compute the mth moment"""
         m = np.asarray(m)
-        dx = self._xvals[1] - self._xvals[0]
         if self._yvals is None:  # pragma: no cover
             self._unpack()
-        return np.sum(self._xvals**m * self._yvals, axis=1) * dx
+        return np.trapz(self._xvals**m * self._yvals, x=self._xvals, axis=1)
 
     def _updated_ctor_param(self):
         """
-- 
2.43.0


From 93e537b884ee7e862cc50526f0fa8b223519a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 18/54] fix: irregular grids are normalised with the integral
 of their PDF

---
 src/qp/interp_pdf.py | 5 +++--
 src/qp/utils.py      | 4 +---
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index e2ec874..de02c54 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -291,8 +291,9 @@ class interp_irregular_gen(Pdf_rows_gen):
         ycumul = np.ndarray(copy_shape)
         ycumul[:, 0] = 0.0
         ycumul[:, 1:] = np.cumsum(
-            self._xvals[:, 1:] * self._yvals[:, 1:]
-            - self._xvals[:, :-1] * self._yvals[:, 1:],
+            (self._xvals[:, 1:] - self._xvals[:, :-1])
+            * 0.5
+            * np.add(self._yvals[:, 1:], self._yvals[:, :-1]),
             axis=1,
         )
         self._ycumul = ycumul
diff --git a/src/qp/utils.py b/src/qp/utils.py
index 25814ea..dfe51e2 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -116,9 +116,7 @@ def normalize_interp1d(xvals, yvals):
 
     # vv = np.vectorize(row_integral)
     # integrals = vv(np.arange(xvals.shape[0]))
-    integrals = np.sum(
-        xvals[:, 1:] * yvals[:, 1:] - xvals[:, :-1] * yvals[:, 1:], axis=1
-    )
+    integrals = np.trapz(yvals, x=xvals, axis=1)
     return (yvals.T / integrals).T
 
 
-- 
2.43.0


From 91b2b0dabea17ed5512609219d75173fddf2f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 19/54] fix: the ancillary data of a single selected PDF stay a
 table with one row

---
 src/qp/ensemble.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index c574e1e..7fdf911 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -70,6 +70,9 @@ class Ensemble:
                 red_data[k] = v
         if self._ancil is not None:
             ancil = slice_dict(self._ancil, key)
+            if isinstance(key, (int, np.integer)):
+                # keep one row per PDF
+                ancil = {k: np.expand_dims(v, 0) for k, v in ancil.items()}
         else:
             ancil = None
         return Ensemble(self._gen_obj.create, data=red_data, ancil=ancil)
-- 
2.43.0


From bdb11d604890e3de546864288d29d98bc6ee566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 20/54] fix: histograms can be built from samples for any
 number of PDFs

---
 src/qp/conversion_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 85689b9..3a5ecfb 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -143,7 +143,7 @@ def extract_hist_samples(in_dist, **kwargs):
         return np.histogram(sample, bins=bins)[0]
 
     vv = np.vectorize(
-        hist_helper, signature="(%i)->(%i)" % (samples.shape[0], bins.size - 1)
+        hist_helper, signature="(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
     )
     pdfs = vv(samples)
     return dict(bins=bins, pdfs=pdfs)
-- 
2.43.0


From 5eca39760cd856b0d5c8da2d18df3f4009de5603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 21/54] fix: modes of ensembles with more than one dimension

---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 7fdf911..1181480 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -330,7 +330,7 @@ class Ensemble:
         consistent with mean, median, and other point estimates
         """
         new_grid, griddata = self.gridded(grid)
-        return np.expand_dims(new_grid[np.argmax(griddata, axis=1)], -1)
+        return np.expand_dims(new_grid[np.argmax(griddata, axis=-1)], -1)
 
     def gridded(self, grid):
         """Build, cache are return the PDF values at grid points
-- 
2.43.0


From 449e9b55300dbbbd3073c6d3c42ae662d2fd6e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 22/54] fix: the allocation of splines follows the number of
 PDFs

---
 src/qp/spline_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index b31830d..22857a8 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -294,8 +294,8 @@ class spline_gen(Pdf_rows_gen):
         if "splx" not in kwargs:  # pragma: no cover
             raise ValueError("required argument splx not included in kwargs")
 
-        shape = np.shape(kwargs["splx"])
-        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((shape[0], 1), "i4"))
+        shape = (npdf, np.shape(kwargs["splx"])[-1])
+        return dict(splx=(shape, "f4"), sply=(shape, "f4"), spln=((npdf, 1), "i4"))
 
     @classmethod
     def plot_native(cls, pdf, **kwargs):
-- 
2.43.0


From f713c82850da59992dd1fafd02b02f4f00f1e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:11 +0000
Subject: [PATCH 23/54] fix: packing clips negative values and does not depend
 on the scale of a row

---
 src/qp/packing_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qp/packing_utils.py b/src/qp/packing_utils.py
index e58ebb5..701a6ce 100644
--- a/src/qp/packing_utils.py
+++ b/src/qp/packing_utils.py
@@ -27,7 +27,8 @@ def linear_pack_from_rowmax(input_array):
         The max for each row, need to unpack the array
     """
     row_max = np.expand_dims(input_array.max(axis=1), -1)
-    return np.round(255 * input_array / row_max).astype(np.uint8), row_max
+    packed_array = np.round(255 * input_array / row_max).clip(0.0, 255.0)
+    return packed_array.astype(np.uint8), row_max
 
 
 def linear_unpack_from_rowmax(packed_array, row_max):
@@ -75,7 +76,7 @@ def log_pack_from_rowmax(input_array, log_floor=-3.0):
     return (
         np.round(
             255
-            * (np.log10((input_array + epsilon) / row_max) + neg_log_floor)
+            * (np.log10(input_array / row_max + epsilon) + neg_log_floor)
             / neg_log_floor
         )
         .clip(0.0, 255.0)
-- 
2.43.0


From 85afb38a6e149afcb9ceedccb917b6dd6210cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 24/54] fix: histograms and interpolated grids have the
 documented support, ppf(0) and ppf(1) are its ends

---
 src/qp/hist_pdf.py          | 2 ++
 src/qp/interp_pdf.py        | 4 ++++
 src/qp/packed_interp_pdf.py | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/src/qp/hist_pdf.py b/src/qp/hist_pdf.py
index 9d7f968..e528840 100644
--- a/src/qp/hist_pdf.py
+++ b/src/qp/hist_pdf.py
@@ -83,6 +83,8 @@ class hist_gen(Pdf_rows_gen):
         self._hcdfs = None
         # Set support
         kwargs["shape"] = pdfs.shape[:-1]
+        kwargs["a"] = self._xmin
+        kwargs["b"] = self._xmax
         super().__init__(*args, **kwargs)
         self._addmetadata("bins", self._hbins)
         self._addobjdata("pdfs", self._hpdfs)
diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index de02c54..52396e4 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -79,6 +79,8 @@ class interp_gen(Pdf_rows_gen):
         self._xmin = self._xvals[0]
         self._xmax = self._xvals[-1]
         kwargs["shape"] = np.shape(yvals)[:-1]
+        kwargs["a"] = self._xmin
+        kwargs["b"] = self._xmax
 
         self._yvals = reshape_to_pdf_size(yvals, -1)
 
@@ -276,6 +278,8 @@ class interp_irregular_gen(Pdf_rows_gen):
         self._xmin = np.min(self._xvals)
         self._xmax = np.max(self._xvals)
         kwargs["shape"] = np.shape(xvals)[:-1]
+        kwargs["a"] = self._xmin
+        kwargs["b"] = self._xmax
 
         check_input = kwargs.pop("check_input", True)
         self._yvals = reshape_to_pdf_size(yvals, -1)
diff --git a/src/qp/packed_interp_pdf.py b/src/qp/packed_interp_pdf.py
index ff7d2e9..322dbab 100644
--- a/src/qp/packed_interp_pdf.py
+++ b/src/qp/packed_interp_pdf.py
@@ -96,6 +96,8 @@ class packed_interp_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attr
         self._xmin = self._xvals[0]
         self._xmax = self._xvals[-1]
         kwargs["shape"] = np.shape(ypacked)[:-1]
+        kwargs["a"] = self._xmin
+        kwargs["b"] = self._xmax
 
         self._yvals = None
         if isinstance(packing_type, PackingType):
-- 
2.43.0


From 2c2e366b3076111068d2ae9af0f0c893b7a45e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:11 +0000
Subject: [PATCH 25/54] fix: conversion to histograms with bins of different
 widths keeps the probability of each bin

---
 src/qp/conversion_funcs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 3a5ecfb..551a995 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -12,6 +12,7 @@ from .sparse_rep import (
     decode_sparse_indices,
     indices2shapes,
 )
+from .utils import bin_widths
 
 
 def extract_vals_at_x(in_dist, **kwargs):
@@ -109,8 +110,8 @@ def extract_hist_values(in_dist, **kwargs):
     bins = kwargs.pop("bins", None)
     if bins is None:  # pragma: no cover
         raise ValueError("To convert using extract_hist_samples you must specify bins")
-    bins, pdfs = in_dist.histogramize(bins)
-    return dict(bins=bins, pdfs=pdfs)
+    bins, probs = in_dist.histogramize(bins)
+    return dict(bins=bins, pdfs=probs / bin_widths(bins))
 
 
 def extract_hist_samples(in_dist, **kwargs):
@@ -145,8 +146,8 @@ def extract_hist_samples(in_dist, **kwargs):
     vv = np.vectorize(
         hist_helper, signature="(%i)->(%i)" % (samples.shape[-1], bins.size - 1)
     )
-    pdfs = vv(samples)
-    return dict(bins=bins, pdfs=pdfs)
+    counts = vv(samples)
+    return dict(bins=bins, pdfs=counts / bin_widths(bins))
 
 
 def extract_quantiles(in_dist, **kwargs):
-- 
2.43.0


From 730cd1def404bf2607abc41c15c4491e3bbf3b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:15 +0000
Subject: [PATCH 26/54] fix: mixmod ensembles with one PDF sum over the
 components when some points are not a number

---
 src/qp/mixmod_pdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index 7f690a0..746ab0d 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -103,7 +103,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).pdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
@@ -115,7 +115,7 @@ class mixmod_gen(Pdf_rows_gen):
                 loc=self._means[row].swapaxes(-2, -1),
                 scale=self._stds[row].swapaxes(-2, -1),
             ).cdf(x)
-        ).sum(axis=0)
+        ).sum(axis=-2)
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From 4f7762d51f7ca015dacc46477499a1b59b37fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 27/54] fix: splines with different ranges of points are
 normalised over their own range

---
 src/qp/spline_pdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index 22857a8..6490e34 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -42,7 +42,10 @@ def normalize_spline(xvals, yvals, limits, **kwargs):
         def spl(xv):
             return splev(xv, splrep(xvals[irow], yvals[irow]))
 
-        return quad(spl, limits[0], limits[1], **kwargs)[0]
+        # the limits may be those of all the rows, outside its points a spline is not defined
+        lo = max(limits[0], np.min(xvals[irow]))
+        hi = min(limits[1], np.max(xvals[irow]))
+        return quad(spl, lo, hi, **kwargs)[0]
 
     vv = np.vectorize(row_integral)
     with errstate(all="ignore"):
-- 
2.43.0


From 651616a0f800a28468400272a4c8ff099a335751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:27 +0000
Subject: [PATCH 28/54] fix: logarithms of the cdf and survival function for
 any arrangement of the points

---
 src/qp/pdf_gen.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/qp/pdf_gen.py b/src/qp/pdf_gen.py
index 80dfbbf..0c5d22a 100644
--- a/src/qp/pdf_gen.py
+++ b/src/qp/pdf_gen.py
@@ -317,6 +317,15 @@ class Pdf_rows_gen(rv_continuous, Pdf_gen):
             return Y
         return Y.reshape(size)
 
+    def _logcdf(self, x, *args):
+        # The default of scipy compares x to the median, which does not have one value per x
+        with np.errstate(divide="ignore", invalid="ignore"):
+            return np.log(self._cdf(x, *args))
+
+    def _logsf(self, x, *args):
+        with np.errstate(divide="ignore", invalid="ignore"):
+            return np.log(self._sf(x, *args))
+
     def _argcheck(self, *args):
         """Default check for correct values on args and keywords.
         Returns condition array of 1's where arguments are correct and
-- 
2.43.0


From cdf310e5654b5a3fc4ead806bec2106034959b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 29/54] fix: the reconstruction of quantile ensembles is kept
 in every type of file

---
 src/qp/quant_pdf.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 9d62fb4..a98d5e4 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -129,9 +129,14 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
             )
         self._locs = locs_2d
 
-        self._pdf_constructor_name = str(
-            kwargs.pop("pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR)
+        pdf_constructor_name = kwargs.pop(
+            "pdf_constructor_name", DEFAULT_PDF_CONSTRUCTOR
         )
+        # The metadata hold the name as bytes, which can be written to every type of file
+        pdf_constructor_name = np.asarray(pdf_constructor_name).item()
+        if isinstance(pdf_constructor_name, bytes):
+            pdf_constructor_name = pdf_constructor_name.decode()
+        self._pdf_constructor_name = pdf_constructor_name
         self._pdf_constructor = None
         self._instantiate_pdf_constructor()
 
@@ -139,7 +144,7 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
         super().__init__(*args, **kwargs)
 
         self._addmetadata("quants", self._quants)
-        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
+        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name.encode())
         self._addmetadata("check_input", self._check_input)
         self._addobjdata("locs", self._locs)
 
@@ -187,7 +192,7 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
 
         self._pdf_constructor_name = value
         self._instantiate_pdf_constructor()
-        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name)
+        self._addmetadata("pdf_constructor_name", self._pdf_constructor_name.encode())
 
     @property
     def pdf_constructor(self) -> AbstractQuantilePdfConstructor:
-- 
2.43.0


From 29fd5a1b6c882b572c6af259836e7bc644c52405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 30/54] fix: ensembles can be read back from .parq files

---
 src/qp/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index 2688d3d..af4e347 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -206,7 +206,7 @@ class Factory(OrderedDict):
         need to build the ensemble.
         """
         _, ext = os.path.splitext(filename)
-        if ext in [".pq"]:
+        if ext in [".pq", ".parq"]:
             keys = ["data", "meta", "ancil"]
             allow_missing_keys = True
         else:
-- 
2.43.0


From a16d21ace8dd9d927be59ec4c105ab62b9fa84f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 31/54] fix: file names with dots before the suffix keep it

---
 src/qp/ensemble.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 1181480..737b05a 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -376,9 +376,10 @@ class Ensemble:
         This uses `tables_io` to write the data, so any filesuffix that works for
         `tables_io` will work here.
         """
-        basename, ext = os.path.splitext(filename)
+        ext = os.path.splitext(filename)[1]
         tables = self.build_tables()
-        io.write(tables, basename, ext[1:])
+        # the name may have dots before the suffix
+        io.write(tables, filename, ext[1:])
 
     def pdf(self, x):
         """
-- 
2.43.0


From 864edabc0e6903139749bf306943ff488babf402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 32/54] fix: overwriting a file does not keep the ancillary
 data of an earlier ensemble

---
 src/qp/ensemble.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 737b05a..8e446c2 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -376,8 +376,18 @@ class Ensemble:
         This uses `tables_io` to write the data, so any filesuffix that works for
         `tables_io` will work here.
         """
-        ext = os.path.splitext(filename)[1]
+        basename, ext = os.path.splitext(filename)
         tables = self.build_tables()
+        # tables_io adds to .h5 files and writes one parquet file per table, so remove
+        # what would be read back together with these tables
+        if ext == ".h5":
+            stale = filename
+        elif ext in [".pq", ".parq"]:
+            stale = basename + "ancil" + ext
+        else:
+            stale = None
+        if stale is not None and os.path.exists(stale):
+            os.unlink(stale)
         # the name may have dots before the suffix
         io.write(tables, filename, ext[1:])
 
-- 
2.43.0


From dfd9f1664c84d776a1a045b9c46e5b08be2b613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 33/54] fix: names of quantile reconstructions are compared by
 value

---
 src/qp/quant_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index a98d5e4..98f96eb 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -186,7 +186,7 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
                 f"Unknown interpolator provided: '{value}'. Allowed interpolators are {list(PDF_CONSTRUCTORS.keys())}"  # pylint: disable=line-too-long
             )
 
-        if value is self._pdf_constructor_name:
+        if value == self._pdf_constructor_name:
             logging.warning("Already using interpolator: '%s'.", value)
             return
 
-- 
2.43.0


From 4d52ba92be3c5f67d0f5a6cf351d0d33bebe28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 34/54] fix: the sparse code starts with the largest
 coefficient, which its decoding takes as one

---
 src/qp/sparse_rep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index fb2f0be..9e11d8a 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -278,6 +278,10 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
             continue
         # bigD[k]['sparse'] = [Dind, Dval]
         if max(Dval) > 0:
+            # The decoding takes the first weight as one, so the largest comes first
+            imax = np.argmax(Dval)
+            Dind[[0, imax]] = Dind[[imax, 0]]
+            Dval[[0, imax]] = Dval[[imax, 0]]
             dval0 = Dval[0]
             Dvalm = Dval / np.max(Dval)
             index = np.array(list(map(round, (Dvalm / Da))), dtype="int")
-- 
2.43.0


From 2ea431333bdb633ca5c95056f4bc4f4e2f72fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 35/54] fix: evaluation grids of the PIT and CDE loss metrics
 may be lists

---
 src/qp/metrics/concrete_metric_classes.py | 4 ++--
 src/qp/metrics/pit.py                     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/qp/metrics/concrete_metric_classes.py b/src/qp/metrics/concrete_metric_classes.py
index 841ce01..42126e5 100644
--- a/src/qp/metrics/concrete_metric_classes.py
+++ b/src/qp/metrics/concrete_metric_classes.py
@@ -269,7 +269,7 @@ class PITMetric(DistToPointMetricDigester):
 
     def __init__(self, eval_grid: list = default_eval_grid, **kwargs) -> None:
         super().__init__(**kwargs)
-        self._eval_grid = eval_grid
+        self._eval_grid = np.asarray(eval_grid)
 
     def evaluate(self, estimate, reference):
         pit_object = PIT(estimate, reference, self._eval_grid)
@@ -309,7 +309,7 @@ class CDELossMetric(DistToPointMetricDigester):
 
     def __init__(self, eval_grid: list = default_eval_grid, **kwargs) -> None:
         super().__init__()
-        self._xvals = eval_grid
+        self._xvals = np.asarray(eval_grid)
 
     def evaluate(self, estimate, reference):
         """Evaluate the estimated conditional density loss described in
diff --git a/src/qp/metrics/pit.py b/src/qp/metrics/pit.py
index ec13832..c9a35a1 100644
--- a/src/qp/metrics/pit.py
+++ b/src/qp/metrics/pit.py
@@ -43,6 +43,7 @@ class PIT:
             A strictly increasing array-like sequence in the range [0,1], by default DEFAULT_QUANTS
         """
 
+        eval_grid = np.asarray(eval_grid)
         self._pit_samps = self._gather_pit_samples(qp_ens, true_vals)
 
         n_pit = np.min([len(self._pit_samps), len(eval_grid)])
-- 
2.43.0


From a0dbeeee98984f7322213c05e95ee12edcb37a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:46 +0000
Subject: [PATCH 36/54] fix: quantile ensembles of one PDF can be sampled

---
 src/qp/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index dfe51e2..ce40cb6 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -580,8 +580,8 @@ def interpolate_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
     def evaluate_row(rv, xv):
         return interp1d(xvals, yvals[rv], **kwargs)(xv)
 
-    vv = np.vectorize(evaluate_row, signature="(1),(%i)->(%i)" % (nx, nx))
-    return vv(row, x)
+    vv = np.vectorize(evaluate_row, signature="(),(%i)->(%i)" % (nx, nx))
+    return vv(np.squeeze(row), x)
 
 
 def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
-- 
2.43.0


From c6a0127de713529547bc4dec35299421c123f123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 37/54] fix: sigma MAD of accumulated samples counts the
 outermost values

---
 src/qp/metrics/point_estimate_metric_classes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/metrics/point_estimate_metric_classes.py b/src/qp/metrics/point_estimate_metric_classes.py
index c22dbbc..5fee4ba 100644
--- a/src/qp/metrics/point_estimate_metric_classes.py
+++ b/src/qp/metrics/point_estimate_metric_classes.py
@@ -272,7 +272,9 @@ class PointSigmaMAD(PointToPointMetricDigester):
         this_max = digest.inverse_cdf(1)
         bins = np.linspace(this_min, this_max, self._num_bins)
         bin_cents = (bins[0:-1] + bins[1:]) / 2.0
-        this_pdf = digest.cdf(bins[1:]) - digest.cdf(bins[0:-1]) # len(this_pdf) = lots_of_bins - 1
+        this_cdf = digest.cdf(bins)
+        this_cdf[0], this_cdf[-1] = 0., 1. # half of the weights of the outermost centroids is at their locations
+        this_pdf = np.diff(this_cdf) # len(this_pdf) = lots_of_bins - 1
         bin_dist = np.fabs(bin_cents - this_median) # get the distance to the center for each bin in the hist
 
         sorted_bins_dist_idx = np.argsort(bin_dist) # sort the bins by dist to median
-- 
2.43.0


From 0b5c1fc25058f00caa91e6560affef26a6e972c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:03 +0000
Subject: [PATCH 38/54] fix: all wrapped scipy classes freeze to qp
 distributions

---
 src/qp/factory.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qp/factory.py b/src/qp/factory.py
index af4e347..4af55a6 100644
--- a/src/qp/factory.py
+++ b/src/qp/factory.py
@@ -68,6 +68,8 @@ class Factory(OrderedDict):
             name=class_name,
             version=0,
             freeze=Pdf_gen_wrap._my_freeze,
+            # Some scipy classes do not use freeze when they are called
+            __call__=Pdf_gen_wrap._my_freeze,
             _other_init=_other_init,
         )
         the_class = type(class_name, (Pdf_gen_wrap, scipy_class), override_dict)
-- 
2.43.0


From 6fd220931078d5066c89883550e486c16a96e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 39/54] fix: entropy of mixture ensembles

---
 src/qp/mixmod_pdf.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/qp/mixmod_pdf.py b/src/qp/mixmod_pdf.py
index 746ab0d..c0d4565 100644
--- a/src/qp/mixmod_pdf.py
+++ b/src/qp/mixmod_pdf.py
@@ -95,27 +95,21 @@ class mixmod_gen(Pdf_rows_gen):
 
     def _pdf(self, x, row):
         # pylint: disable=arguments-differ
-        if np.ndim(x) > 1:  # pragma: no cover
-            x = np.expand_dims(x, -2)
+        # the components are the last dimension, x and row may also be numbers
+        x = np.expand_dims(x, -1)
         return (
-            self.weights[row].swapaxes(-2, -1)
-            * sps.norm(
-                loc=self._means[row].swapaxes(-2, -1),
-                scale=self._stds[row].swapaxes(-2, -1),
-            ).pdf(x)
-        ).sum(axis=-2)
+            self.weights[row]
+            * sps.norm(loc=self._means[row], scale=self._stds[row]).pdf(x)
+        ).sum(axis=-1)
 
     def _cdf(self, x, row):
         # pylint: disable=arguments-differ
-        if np.ndim(x) > 1:  # pragma: no cover
-            x = np.expand_dims(x, -2)
+        # the components are the last dimension, x and row may also be numbers
+        x = np.expand_dims(x, -1)
         return (
-            self.weights[row].swapaxes(-2, -1)
-            * sps.norm(
-                loc=self._means[row].swapaxes(-2, -1),
-                scale=self._stds[row].swapaxes(-2, -1),
-            ).cdf(x)
-        ).sum(axis=-2)
+            self.weights[row]
+            * sps.norm(loc=self._means[row], scale=self._stds[row]).cdf(x)
+        ).sum(axis=-1)
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
-- 
2.43.0


From f44a0f2e258b5e762dab0693b6cb4d0ae42067d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:17 +0000
Subject: [PATCH 40/54] fix: sampling without a size returns one sample per PDF

---
 src/qp/ensemble.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 8e446c2..6f30d5d 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -511,11 +511,13 @@ class Ensemble:
         Parameters
         ----------
         size: int
-            number of samples to return
+            number of samples to return for each PDF, one if not given
 
         Returns
         -------
         """
+        if size is None:
+            size = 1
         return self._frozen.rvs(
             size=(self._frozen.npdf, size), random_state=random_state
         )
-- 
2.43.0


From 17909ff09d5ab059b7765d9429c306c199e538c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 41/54] fix: sample ensembles with more than one dimension

rvs asked scipy for (npdf, size) numbers, which cannot be broadcast with
parameters of shape (n, m, 1).
---
 src/qp/ensemble.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/ensemble.py b/src/qp/ensemble.py
index 6f30d5d..2d9db44 100755
--- a/src/qp/ensemble.py
+++ b/src/qp/ensemble.py
@@ -519,7 +519,7 @@ class Ensemble:
         if size is None:
             size = 1
         return self._frozen.rvs(
-            size=(self._frozen.npdf, size), random_state=random_state
+            size=(*np.atleast_1d(self.shape), size), random_state=random_state
         )
 
     def stats(self, moments="mv"):
-- 
2.43.0


From 381a866d9d760a325957614a79acd554c5319a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 42/54] fix: interpolate rows of shapes with a dimension of
 length 1

np.squeeze removed all dimensions of length 1 of the row numbers, not only
the last one.
---
 src/qp/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index ce40cb6..b573642 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -581,7 +581,7 @@ def interpolate_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
         return interp1d(xvals, yvals[rv], **kwargs)(xv)
 
     vv = np.vectorize(evaluate_row, signature="(),(%i)->(%i)" % (nx, nx))
-    return vv(np.squeeze(row), x)
+    return vv(np.squeeze(row, axis=-1) if np.ndim(row) else row, x)
 
 
 def interpolate_x_multi_y(x, row, xvals, yvals, **kwargs):
@@ -696,7 +696,7 @@ def interpolate_multi_x_multi_y_2d(x, row, xvals, yvals, **kwargs):
         return interp1d(xvals[rv], yvals[rv], **kwargs)(xv)
 
     vv = np.vectorize(evaluate_row, signature="(),(%i)->(%i)" % (nx, nx))
-    return vv(np.squeeze(row), x)
+    return vv(np.squeeze(row, axis=-1) if np.ndim(row) else row, x)
 
 
 def interpolate_multi_x_multi_y(x, row, xvals, yvals, **kwargs):
@@ -811,7 +811,7 @@ def interpolate_multi_x_y_2d(x, row, xvals, yvals, **kwargs):
         return interp1d(xvals[rv], yvals, **kwargs)(xv)
 
     vv = np.vectorize(evaluate_row, signature="(),(%i)->(%i)" % (nx, nx))
-    return vv(np.squeeze(row), x)
+    return vv(np.squeeze(row, axis=-1) if np.ndim(row) else row, x)
 
 
 def interpolate_multi_x_y(x, row, xvals, yvals, **kwargs):
-- 
2.43.0


From 5d39cf941559266326f6a103d958ea563c494e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 43/54] fix: sparse ensembles with more than one dimension

The codes of the PDFs were decoded and weighted in the wrong dimension.
---
 src/qp/sparse_pdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/qp/sparse_pdf.py b/src/qp/sparse_pdf.py
index be40cfe..de92bef 100644
--- a/src/qp/sparse_pdf.py
+++ b/src/qp/sparse_pdf.py
@@ -11,6 +11,7 @@ from qp.factory import add_class
 from qp.interp_pdf import interp_gen
 from qp.conversion_funcs import extract_sparse_from_xy
 from qp.test_data import TEST_XVALS, NPDF
+from qp.utils import reshape_to_pdf_shape, reshape_to_pdf_size
 
 
 class sparse_gen(interp_gen):
@@ -32,7 +33,7 @@ class sparse_gen(interp_gen):
     _support_mask = rv_continuous._support_mask
 
     def __init__(self, xvals, mu, sig, dims, sparse_indices, *args, **kwargs):  # pylint: disable=too-many-arguments
-        self.sparse_indices = sparse_indices
+        self.sparse_indices = reshape_to_pdf_size(np.asarray(sparse_indices), -1)
         self._xvals = xvals
         self.mu = mu
         self.sig = sig
@@ -42,7 +43,7 @@ class sparse_gen(interp_gen):
         sparse_meta = dict(xvals=xvals, mu=mu, sig=sig, dims=dims)
         A = sparse_rep.create_basis(sparse_meta, cut=cut)
         # decode the sparse indices into basis indices and weights
-        basis_indices, weights = sparse_rep.decode_sparse_indices(sparse_indices)
+        basis_indices, weights = sparse_rep.decode_sparse_indices(self.sparse_indices)
         # retrieve the weighted array of basis functions for each object
         pdf_y = A[:, basis_indices] * weights
         # normalize and sum the weighted pdfs
@@ -51,7 +52,7 @@ class sparse_gen(interp_gen):
         norms = sciint.trapezoid(y.T, x)
         y /= norms
         kwargs.setdefault("xvals", x)
-        kwargs.setdefault("yvals", y.T)
+        kwargs.setdefault("yvals", reshape_to_pdf_shape(y.T, np.shape(sparse_indices)[:-1], len(x)))
         super().__init__(*args, **kwargs)
 
         self._clearobjdata()
-- 
2.43.0


From b32ee305844c35d0fe3ae0010dd4afb2c94bc7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 44/54] fix: pack arrays with more than two dimensions

The maximum was not that of each row but of another dimension.
---
 src/qp/packing_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/packing_utils.py b/src/qp/packing_utils.py
index 701a6ce..63ab12c 100644
--- a/src/qp/packing_utils.py
+++ b/src/qp/packing_utils.py
@@ -26,7 +26,7 @@ def linear_pack_from_rowmax(input_array):
     row_max : array_like
         The max for each row, need to unpack the array
     """
-    row_max = np.expand_dims(input_array.max(axis=1), -1)
+    row_max = np.expand_dims(input_array.max(axis=-1), -1)
     packed_array = np.round(255 * input_array / row_max).clip(0.0, 255.0)
     return packed_array.astype(np.uint8), row_max
 
@@ -72,7 +72,7 @@ def log_pack_from_rowmax(input_array, log_floor=-3.0):
     """
     neg_log_floor = -1.0 * log_floor
     epsilon = np.power(10.0, 3 * log_floor)
-    row_max = np.expand_dims(input_array.max(axis=1), -1)
+    row_max = np.expand_dims(input_array.max(axis=-1), -1)
     return (
         np.round(
             255
-- 
2.43.0


From bfb7cc91e53176edb7018da8fb9023dc62e89b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 45/54] fix: evaluate histograms with a single bin per row

np.squeeze made a number of the values of a row with a single bin.
---
 src/qp/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/qp/utils.py b/src/qp/utils.py
index b573642..7f1cd45 100644
--- a/src/qp/utils.py
+++ b/src/qp/utils.py
@@ -428,9 +428,9 @@ def evaluate_hist_multi_x_multi_y_product(
         idx, mask = get_bin_indices(bins_flat, x)
         delta = x - bins_flat[idx]
         if derivs is None:
-            return np.where(mask, np.squeeze(vals[rv])[idx], 0).flatten()
+            return np.where(mask, vals[rv].flatten()[idx], 0).flatten()
         return np.where(
-            mask, np.squeeze(vals[rv])[idx] + delta * np.squeeze(derivs[rv])[idx], 0
+            mask, vals[rv].flatten()[idx] + delta * derivs[rv].flatten()[idx], 0
         )
 
     vv = np.vectorize(evaluate_row, signature="(1)->(%i)" % (x.size))
@@ -466,9 +466,9 @@ def evaluate_hist_multi_x_multi_y_2d(
         idx, mask = get_bin_indices(flat_bins, xv)
         delta = xv - flat_bins[idx]
         if derivs is None:
-            return np.where(mask, np.squeeze(vals[rv])[idx], 0).flatten()
+            return np.where(mask, vals[rv].flatten()[idx], 0).flatten()
         return np.where(
-            mask, np.squeeze(vals[rv])[idx] + delta * np.squeeze(derivs[rv])[idx], 0
+            mask, vals[rv].flatten()[idx] + delta * derivs[rv].flatten()[idx], 0
         ).flatten()
 
     vv = np.vectorize(evaluate_row, signature="(1),(%i)->(%i)" % (nx, nx))
-- 
2.43.0


From 9bef7987688f3627fdee41d3d73145b07233c347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 46/54] fix: pad quantiles with unsigned integer locations

---
 src/qp/quant_pdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 98f96eb..3d2ba17 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -55,6 +55,8 @@ def pad_quantiles(quants, locs):
         pad_hi = False
     if n_out == n_vals:
         return quants, locs
+    # differences of unsigned integers would wrap around
+    locs = np.asarray(locs, quants.dtype)
     quants_out = np.zeros((n_out), quants.dtype)
     locs_out = np.zeros((locs.shape[0], n_out), quants.dtype)
     quants_out[offset_lo : n_vals + offset_lo] = quants
-- 
2.43.0


From c821b4ca6720758b7278ff3974bfe1be7cf05f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 47/54] fix: plot several PDFs

plot and plot_native take an integer or a slice, but plots of more than one
PDF failed or showed wrong curves; also histograms with a single bin failed.
---
 src/qp/plotting.py   | 23 +++++++++++++----------
 src/qp/spline_pdf.py |  2 +-
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index 0bff493..a5ec64a 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -105,7 +105,8 @@ def plot_pdf_on_axes(axes, pdf, xvals, **kwargs):
     axes : The axes the data are plotted on
     """
     yvals = pdf.pdf(xvals)
-    axes.plot(np.squeeze(xvals), np.squeeze(yvals), **kwargs)
+    # matplotlib draws one curve per column
+    axes.plot(np.transpose(np.squeeze(xvals)), np.transpose(np.squeeze(yvals)), **kwargs)
     return axes
 
 
@@ -181,7 +182,8 @@ def plot_pdf_quantiles_on_axes(axes, xvals, yvals, quantiles, **kwargs):
         **kwargs,
     )
     kwargs.setdefault("label", "Quantile Interpolated PDF")
-    axes.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["quantiles"], **kwargs)
+    # matplotlib draws one curve per column
+    axes.plot(xvals, np.transpose(yvals), lw=2.0, alpha=1.0, linestyle=STYLES["quantiles"], **kwargs)
     return axes
 
 
@@ -218,14 +220,15 @@ def plot_pdf_histogram_on_axes(axes, hist, **kwargs):
     )
     bin_centers = (hist[0][0:-1] + hist[0][1:]) / 2.0
     kwargs.setdefault("label", "Histogram Interpolated PDF")
-    axes.hist(
-        bin_centers,
-        bins=hist[0],
-        weights=np.squeeze(hist[1]),
-        lw=None,
-        alpha=1.0,
-        **kwargs,
-    )
+    for weights in np.reshape(hist[1], (-1, np.size(bin_centers))):
+        axes.hist(
+            bin_centers,
+            bins=hist[0],
+            weights=weights,
+            lw=None,
+            alpha=1.0,
+            **kwargs,
+        )
     return axes
 
 
diff --git a/src/qp/spline_pdf.py b/src/qp/spline_pdf.py
index 6490e34..6f1932a 100644
--- a/src/qp/spline_pdf.py
+++ b/src/qp/spline_pdf.py
@@ -307,7 +307,7 @@ class spline_gen(Pdf_rows_gen):
         For a spline this shows the spline knots
         """
         axes, _, kw = get_axes_and_xlims(**kwargs)
-        xvals = pdf.dist.splx[pdf.kwds["row"]]
+        xvals = pdf.dist.splx[np.ravel(pdf.kwds["row"])]
         return plot_pdf_on_axes(axes, pdf, xvals, **kw)
 
     @classmethod
-- 
2.43.0


From 3bf5d701a4b7ef562c712a8d5629ac6ecee193d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 48/54] fix: plot samples on the given axes

The curve was drawn on the current axes, and npoints was passed on to
scatter, which does not know it.
---
 src/qp/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index a5ec64a..e5fb1f9 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -254,15 +254,15 @@ def plot_pdf_samples_on_axes(axes, pdf, samples, **kwargs):
     """
     kwargs.setdefault("label", "Samples")
     kwargs.setdefault("color", COLORS["samples"])
+    npoints = kwargs.pop("npoints", 101)
     axes.scatter(
         samples, np.zeros(np.shape(samples)), marker="|", s=100, alpha=0.75, **kwargs
     )
-    npoints = kwargs.pop("npoints", 101)
     xlim = axes.get_xlim()
     xvals = np.linspace(xlim[0], xlim[1], npoints)
     yvals = np.squeeze(pdf.pdf(xvals))
     kwargs.setdefault("label", "Samples Interpolated PDF")
-    plt.plot(xvals, yvals, lw=2.0, alpha=1.0, linestyle=STYLES["samples"], **kwargs)
+    axes.plot(xvals, np.transpose(yvals), lw=2.0, alpha=1.0, linestyle=STYLES["samples"], **kwargs)
     return axes
 
 
-- 
2.43.0


From a2b51d37647be2f1c63e62fd1171d2df5b074a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 49/54] fix: labels of plots are not passed on as properties of
 the curves

---
 src/qp/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/plotting.py b/src/qp/plotting.py
index e5fb1f9..0cd5088 100644
--- a/src/qp/plotting.py
+++ b/src/qp/plotting.py
@@ -75,7 +75,8 @@ def get_axes_and_xlims(**kwargs):
     if axes is None:
         if xlim is None:  # pragma: no cover
             raise ValueError("Either xlim or axes must be provided")
-        _, axes = make_figure_axes(xlim, **kwargs)
+        labels = {key: kwargs.pop(key) for key in ("xlabel", "ylabel") if key in kwargs}
+        _, axes = make_figure_axes(xlim, **labels)
     else:
         if xlim is not None:  # pragma: no cover
             raise ValueError("Only one of xlim and axes should be provided")
-- 
2.43.0


From 6ea996f4f3271a6caf13bd708f112748d6edca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 50/54] fix: the offset of the logarithmic packing stays far
 below a packing step for every floor

---
 src/qp/packing_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qp/packing_utils.py b/src/qp/packing_utils.py
index 63ab12c..92568fd 100644
--- a/src/qp/packing_utils.py
+++ b/src/qp/packing_utils.py
@@ -71,7 +71,8 @@ def log_pack_from_rowmax(input_array, log_floor=-3.0):
         The max for each row, need to unpack the array
     """
     neg_log_floor = -1.0 * log_floor
-    epsilon = np.power(10.0, 3 * log_floor)
+    # this only keeps zeros finite, also where the floor is close to the maximum
+    epsilon = np.power(10.0, min(3 * log_floor, -9.0))
     row_max = np.expand_dims(input_array.max(axis=-1), -1)
     return (
         np.round(
-- 
2.43.0


From a6a8ddead91f3f159b08dbcb8e327ea0230b3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 51/54] fix: extract_xy_sparse reads the grid from the sparse
 metadata under its name

---
 src/qp/conversion_funcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/conversion_funcs.py b/src/qp/conversion_funcs.py
index 551a995..426ec60 100644
--- a/src/qp/conversion_funcs.py
+++ b/src/qp/conversion_funcs.py
@@ -409,7 +409,7 @@ def extract_xy_sparse(in_dist, **kwargs):  # pragma: no cover
     # retrieve the weighted array of basis functions for each object
     pdf_y = A[:, basis_indices] * weights
     # normalize and sum the weighted pdfs
-    x = sparse_meta["z"]
+    x = sparse_meta["xvals"]
     y = pdf_y.sum(axis=-1)
     norms = sciint.trapezoid(y.T, x)
     y /= norms
-- 
2.43.0


From 270469a28c6f010fa481fd448444594884b2d5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 52/54] fix: sparse ensembles keep the cut of their dictionary
 when they are selected, copied or read back

---
 src/qp/sparse_pdf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qp/sparse_pdf.py b/src/qp/sparse_pdf.py
index de92bef..0f5d8ed 100644
--- a/src/qp/sparse_pdf.py
+++ b/src/qp/sparse_pdf.py
@@ -38,10 +38,10 @@ class sparse_gen(interp_gen):
         self.mu = mu
         self.sig = sig
         self.dims = dims
-        cut = kwargs.pop("cut", 1.0e-5)
+        self.cut = kwargs.pop("cut", 1.0e-5)
         # recreate the basis array from the metadata
         sparse_meta = dict(xvals=xvals, mu=mu, sig=sig, dims=dims)
-        A = sparse_rep.create_basis(sparse_meta, cut=cut)
+        A = sparse_rep.create_basis(sparse_meta, cut=self.cut)
         # decode the sparse indices into basis indices and weights
         basis_indices, weights = sparse_rep.decode_sparse_indices(self.sparse_indices)
         # retrieve the weighted array of basis functions for each object
@@ -60,6 +60,7 @@ class sparse_gen(interp_gen):
         self._addmetadata("mu", self.mu)
         self._addmetadata("sig", self.sig)
         self._addmetadata("dims", self.dims)
+        self._addmetadata("cut", self.cut)
         self._addobjdata("sparse_indices", self.sparse_indices)
 
     def _updated_ctor_param(self):
@@ -72,6 +73,7 @@ class sparse_gen(interp_gen):
         dct["mu"] = self.mu
         dct["sig"] = self.sig
         dct["dims"] = self.dims
+        dct["cut"] = self.cut
         return dct
 
     @classmethod
-- 
2.43.0


From 9e26ca833a5103820593d7071308c356e2690e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 53/54] fix: build_sparse_representation accepts sig without
 Nsig

---
 src/qp/sparse_rep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qp/sparse_rep.py b/src/qp/sparse_rep.py
index 9e11d8a..d51a05d 100644
--- a/src/qp/sparse_rep.py
+++ b/src/qp/sparse_rep.py
@@ -243,7 +243,7 @@ def build_sparse_representation(  # pylint: disable=too-many-arguments
         min_sig = dx / 6.0
         sig = [min_sig, max_sig]
     if Nsig is None:
-        Nsig = int(np.ceil(2.0 * (max_sig - min_sig) / dx))
+        Nsig = int(np.ceil(2.0 * (sig[1] - sig[0]) / dx))
 
     if verbose:
         print("dx = ", dx)
-- 
2.43.0


From df31a2e87096e965378eb7de00ea050aeca9e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:53 +0000
Subject: [PATCH 54/54] fix: quantiles of irregular grids and of quantiles
 taken as given end at their own distribution

---
 src/qp/interp_pdf.py | 3 ++-
 src/qp/quant_pdf.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qp/interp_pdf.py b/src/qp/interp_pdf.py
index 52396e4..3507807 100644
--- a/src/qp/interp_pdf.py
+++ b/src/qp/interp_pdf.py
@@ -330,8 +330,9 @@ class interp_irregular_gen(Pdf_rows_gen):
         # pylint: disable=arguments-differ
         if self._ycumul is None:  # pragma: no cover
             self._compute_ycumul()
+        # levels above the last cumulative value belong to the end of the same grid
         return interpolate_multi_x_multi_y(
-            x,
+            np.minimum(x, self._ycumul[row, -1]),
             row,
             self._ycumul,
             self._xvals,
diff --git a/src/qp/quant_pdf.py b/src/qp/quant_pdf.py
index 3d2ba17..1dba2ac 100644
--- a/src/qp/quant_pdf.py
+++ b/src/qp/quant_pdf.py
@@ -247,8 +247,9 @@ class quant_gen(Pdf_rows_gen):  # pylint: disable=too-many-instance-attributes
 
     def _ppf(self, x, row):
         # pylint: disable=arguments-differ
+        # beyond the outermost quantiles each distribution ends at its own locations
         return interpolate_x_multi_y(
-            x,
+            np.clip(x, self._quants[0], self._quants[-1]),
             row,
             self._quants,
             self._locs,
-- 
2.43.0

