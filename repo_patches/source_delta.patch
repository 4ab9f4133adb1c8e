From 944a7ed15870555be10f89f38aa9469e61464fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 001/107] fix: decode the strings stored in Fisher HDF5 files
 when loading them

---
 seyfert/fisher/fisher_matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 279de2b..0f8aa9e 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -355,13 +355,13 @@ class FisherMatrix:
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
             hf = h5py.File(file, 'r')
-            self.name = str(hf["name"][()])
+            self.name = hf["name"].asstr()[()]
             try:
-                self._nuisance_parameters = set(hf["nuisance_pars"][()])
+                self._nuisance_parameters = set(hf["nuisance_pars"].asstr()[()])
             except KeyError:
                 self._nuisance_parameters = set()
-            self._cosmological_parameters = set(hf["cosmological_pars"][()])
-            indices = hf["indices"][()]
+            self._cosmological_parameters = set(hf["cosmological_pars"].asstr()[()])
+            indices = hf["indices"].asstr()[()]
             self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
             hf.close()
 
-- 
2.43.0


From 7ede6c8eb4599b357f06a1c85028215cea9f3764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:39 +0000
Subject: [PATCH 002/107] fix: label the errors of the correlation matrix with
 the order of the inverse

---
 seyfert/fisher/fisher_matrix.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 0f8aa9e..84a8d49 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -227,12 +227,12 @@ class FisherMatrix:
 
     def evaluateCorrelationMatrix(self) -> "None":
         sigmas = np.sqrt(np.diag(self.inverse))
-        sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.matrix.shape[0], axis=0),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
-        sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.matrix.shape[1], axis=1),
-                                    index=self.matrix.index,
-                                    columns=self.matrix.columns)
+        sigma_row_df = pd.DataFrame(data=np.repeat(sigmas[np.newaxis, :], self.inverse.shape[0], axis=0),
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
+        sigma_col_df = pd.DataFrame(data=np.repeat(sigmas[:, np.newaxis], self.inverse.shape[1], axis=1),
+                                    index=self.inverse.index,
+                                    columns=self.inverse.columns)
         self.correlation = self.inverse / (sigma_row_df * sigma_col_df)
         self.correlation = self.correlation.loc[self._cosmological_parameters, self._cosmological_parameters]
         self.correlation.sort_index(axis=0, inplace=True)
-- 
2.43.0


From 676f8f13f4b9ca3a4e2323dbf3097575f9e60234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 003/107] fix: keep inverse and correlation in step with the
 Fisher matrix when it is modified

---
 seyfert/fisher/fisher_matrix.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 84a8d49..5fe60e9 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -206,6 +206,7 @@ class FisherMatrix:
         self.matrix = self.matrix.loc[relevant_pars, relevant_pars]
         self.matrix.sort_index(axis=0, inplace=True)
         self.matrix.sort_index(axis=1, inplace=True)
+        self._updateDerivedMatrices()
 
     def fixParameters(self, params: "Iterable[str]") -> "None":
         params = set(params)
@@ -215,10 +216,18 @@ class FisherMatrix:
         self._cosmological_parameters = self.cosmological_parameters - params
         self._nuisance_parameters = self.nuisance_parameters - params
         self.matrix = self.matrix.drop(params, axis=0).drop(params, axis=1)
+        self._updateDerivedMatrices()
 
     def evaluateInverse(self):
         self.inverse = fu.invert_dataframe(self.matrix)
 
+    def _updateDerivedMatrices(self) -> "None":
+        """Keeps the inverse and correlation matrices, if already evaluated, aligned with the current matrix"""
+        if self.inverse is not None:
+            self.evaluateInverse()
+            if self.correlation is not None:
+                self.evaluateCorrelationMatrix()
+
     def getFigureOfMerit(self, par_1: "str" = 'w0', par_2: "str" = 'wa') -> "float":
         pars_subset = {par_1, par_2}
         sub_inv_matrix = self.inverse.loc[pars_subset, pars_subset]
@@ -263,6 +272,8 @@ class FisherMatrix:
             self.inverse = sliced_inverse
             marg_fisher = fu.invert_dataframe(sliced_inverse)
             self.matrix = marg_fisher.sort_index(axis=0).sort_index(axis=1)
+            if self.correlation is not None:
+                self.evaluateCorrelationMatrix()
 
             return None
 
@@ -309,6 +320,7 @@ class FisherMatrix:
             prior_fisher.loc[name, name] = 1 / (sigma_prior**2)
 
         self.matrix = self.matrix.add(prior_fisher, fill_value=0)
+        self._updateDerivedMatrices()
 
     def getFilename(self) -> "str":
         sub_dict = {
-- 
2.43.0


From 6e2db5ccb4aca9ae7c93acb8310efd40df80b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 004/107] fix: do not drop the Fisher matrices passed to
 FisherAnalysis as a list

---
 seyfert/fisher/fisher_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 4f9c9b1..9ad7f4a 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -52,7 +52,7 @@ class FisherAnalysis:
         if isinstance(fisher_matrices, list):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-            self.fisher_matrices = {}
+            self.fisher_matrices = {f.name: f for f in fisher_matrices}
         elif isinstance(fisher_matrices, dict):
             if not all([isinstance(f, FisherMatrix) for f in fisher_matrices.values()]):
                 raise TypeError("Fishers must be all FisherMatrix instances")
-- 
2.43.0


From 02657420ffde2f7f83fe923e6ed0bdf7840aa1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 005/107] fix: write numpy booleans of parameters to JSON

---
 seyfert/cosmology/parameter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/parameter.py b/seyfert/cosmology/parameter.py
index 1ff92d6..041779e 100644
--- a/seyfert/cosmology/parameter.py
+++ b/seyfert/cosmology/parameter.py
@@ -77,7 +77,7 @@ class PhysicalParameter:
             'fiducial': self.fiducial,
             'current_value': self.current_value,
             'kind': self.kind,
-            'is_free_parameter': self.is_free_parameter,
+            'is_free_parameter': bool(self.is_free_parameter),
             'stem_factor': self.stem_factor,
             'derivative_method': self.derivative_method,
             'units': self.units
-- 
2.43.0


From cde61e05bdc48d9c82b027d62a5b4bc1b896cb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 006/107] fix: assign the values of the constant bias to the
 bins by parameter number

The parameters were taken in dictionary order, which is alphabetical for biases read
from HDF5: with more than ten bins the value of bin 10 was given to bin 2.
---
 seyfert/cosmology/bias.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index b88fa05..117839e 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -179,6 +179,16 @@ class BiasModel(ABC):
     def n_bins(self) -> "int":
         return len(self.z_bin_edges) - 1
 
+    def getSortedBiasValues(self) -> "np.ndarray":
+        par_names = list(self.nuisance_parameters.keys())
+        digit_regex = re.compile(r'\d+')
+
+        def _get_bias_idx(s) -> "int":
+            match = digit_regex.search(s)
+            return int(s[match.start():match.end()])
+
+        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
+
     @abstractmethod
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
         pass
@@ -192,7 +202,7 @@ class ConstantBias(BiasModel):
         super(ConstantBias, self).__init__(**kwargs)
 
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
-        b_i = np.array(list(self.nuisance_parameters.values()))
+        b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
             raise BiasError(f'number of bias values {len(b_i)} differs from n_bins {self.n_bins}')
         return np.repeat(b_i[:, np.newaxis], len(z_grid), axis=1)
@@ -209,16 +219,6 @@ class PiecewiseBias(BiasModel):
 
         return b_i_z
 
-    def getSortedBiasValues(self) -> "np.ndarray":
-        par_names = list(self.nuisance_parameters.keys())
-        digit_regex = re.compile(r'\d+')
-
-        def _get_bias_idx(s) -> "int":
-            match = digit_regex.search(s)
-            return int(s[match.start():match.end()])
-
-        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
-
     def getConditionAndValuesLists(self, z_grid: "np.ndarray"):
         b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
-- 
2.43.0


From e12f8d18ce8dcd5fe3f440b7bd16be7dacacd89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 007/107] fix: open the weight function file for reading in
 WeightFunction.loadFromHDF5

The root was passed as the file mode, so that every call raised ValueError.
---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 76e467f..55a6a96 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -104,7 +104,7 @@ class WeightFunction(ABC):
 
     def loadFromHDF5(self, file: Union[str, Path], root: str = '/') -> "None":
         h5w = H5WeightFunction()
-        h5w.openFile(file, root)
+        h5w.openFile(file, mode='r', root=root)
         h5w.writeToObject(self)
         h5w.closeFile()
 
-- 
2.43.0


From 5e62584e7b498acf2d3d1b3dc6922ae1a022c93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 008/107] fix: integrate the lensing efficiency of a single
 redshift over the redshift grid

The simpson branch sliced the scalar redshift and always raised TypeError.
---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 55a6a96..33e1d6f 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -168,7 +168,7 @@ class LensingWeightFunction(WeightFunction):
                 z_idx = np.argmin(np.abs(z - self.z_grid))
                 integ_array = self.density.norm_density_iz[i, :] * \
                               (1 - self.cosmology.r_z[z_idx] / self.cosmology.r_z)
-                result = integrate.simps(y=integ_array[z_idx:], x=z[z_idx:])
+                result = integrate.simps(y=integ_array[z_idx:], x=self.z_grid[z_idx:])
             elif isinstance(z, np.ndarray):
                 result = np.zeros(z.shape)
                 for z_idx, myz in enumerate(z):
-- 
2.43.0


From 5791f4148050d6bbd5bf859c837f1d93f2a80293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 009/107] fix: compute the union of a single array

---
 seyfert/utils/array_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/array_utils.py b/seyfert/utils/array_utils.py
index dbaf02d..cc0bef6 100644
--- a/seyfert/utils/array_utils.py
+++ b/seyfert/utils/array_utils.py
@@ -18,7 +18,7 @@ def symmetrize_clij_arr(X: "np.ndarray") -> "np.ndarray":
 
 
 def compute_arrays_union1d(arrays: "List[np.ndarray]") -> "np.ndarray":
-    arr_union = np.union1d(arrays[0], arrays[1])
+    arr_union = np.unique(arrays[0])
     for arr in arrays[1:]:
         arr_union = np.union1d(arr_union, arr)
 
-- 
2.43.0


From 9743daa9d8338c034e84d08949dcc1b8200722bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:56 +0000
Subject: [PATCH 010/107] fix: percentage absolute difference of dataframes
 with negative sums is positive

---
 seyfert/numeric/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/numeric/general.py b/seyfert/numeric/general.py
index b9cb6fc..df87daa 100644
--- a/seyfert/numeric/general.py
+++ b/seyfert/numeric/general.py
@@ -44,7 +44,7 @@ def pad(x: "Any", y: "Any") -> "Any":
                             f"columns of x missing from y {set(x.columns) - set(y.columns)} \n"
                             f"columns of y missing from x {set(y.columns) - set(x.columns)} \n")
 
-        den = np.where(x + y != 0, (x + y)/2, 1)
+        den = np.where(x + y != 0, np.abs(x + y)/2, 1)
         num = np.abs(x - y)
         res = pd.DataFrame(100*(num / den), index=x.index, columns=x.columns)
     else:
-- 
2.43.0


From 2b3418a36abd72c9b70709f0535d817d659cbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 011/107] fix: weight the excess points of Newton-Cotes along
 the integration axis

---
 seyfert/numeric/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/numeric/integration.py b/seyfert/numeric/integration.py
index 9d15764..8c6ed6e 100644
--- a/seyfert/numeric/integration.py
+++ b/seyfert/numeric/integration.py
@@ -97,7 +97,7 @@ class CompositeNewtonCotesIntegrator:
             slc = [slice(None)] * len(self.y.shape)
             slc[axis] = slice(-self.n_excess_points - 1, self.y.shape[axis])
             yend = self.y[tuple(slc)]
-            last_bin_contrib = dx * np.sum(aend * yend, axis=axis)
+            last_bin_contrib = dx * np.sum(aend * np.moveaxis(yend, axis, -1), axis=-1)
 
             result += last_bin_contrib
 
-- 
2.43.0


From 93bb0b0cd9c6c884dd8b341d60b9dd7d2b6acbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 012/107] fix: apply the SteM linearity criterion to negative
 spectra too

---
 seyfert/derivatives/differentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 8edd2f1..d51d4ec 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -130,7 +130,7 @@ class SteMClDifferentiator(ClDifferentiator):
                 y_abs_diff = np.abs(yfit - y)
                 err = np.zeros(y_abs_diff.shape)
                 mask = y != 0
-                err[mask] = y_abs_diff[mask] / y[mask]
+                err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
                 x = x[1:-1]
-- 
2.43.0


From 0763278642349684de9631c45396d51aa73c73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 013/107] fix: let the vectorized SteM shrink the stencil to
 three points like the scalar one

---
 seyfert/derivatives/differentiator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index d51d4ec..8a6ae5e 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -133,12 +133,12 @@ class SteMClDifferentiator(ClDifferentiator):
                 err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
+                three_points_or_less = y.shape[0] <= 3
+                stop = np.count_nonzero(not_linear_mask) == 0 or three_points_or_less
+
                 x = x[1:-1]
                 y = y[1:-1]
 
-                less_than_three_points = y.shape[0] <= 3
-                stop = np.count_nonzero(not_linear_mask) == 0 or less_than_three_points
-
         dc_lij = slopes.reshape((n_ells, ni, nj))
 
         return dc_lij
-- 
2.43.0


From c028ddfb76161c226e2ad42f5340eaf0ed6612f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:48 +0000
Subject: [PATCH 014/107] fix: read steps of more than one digit from job
 directory names

---
 seyfert/utils/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index 8f71cd0..e00f5f6 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -90,7 +90,7 @@ def get_forecast_input_data_dir_from_rundir(rundir: "Path") -> "Path":
 
 
 def get_dvar_step_from_cosmology_jobdir_name(dirname: str):
-    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9])')
+    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9]+)')
     match = dirname_regex.search(dirname)
     try:
         dvar = match.group('dvar')
-- 
2.43.0


From 1e6569abdc0aa21cfa72a2500f701027fb5c2f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 015/107] fix: read bias parameter numbers of more than one
 digit in the analytic derivatives

---
 seyfert/derivatives/differentiator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 8a6ae5e..3bcb639 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+import re
 import numpy as np
 from scipy import integrate
 from typing import List
@@ -183,7 +184,7 @@ class AnalyticClDifferentiator(ClDifferentiator):
             dc_lij = np.zeros(self.fiducial_cl.c_lij.shape)
             bias_model_name = self.fiducial_cl.getWeightFunction(probe).bias.model_name
             if bias_model_name == "constant" or bias_model_name == "piecewise":
-                k = int(self.param.name[-1])
+                k = int(re.search(r'\d+$', self.param.name).group())
                 bk = self.param.fiducial
                 if bias_model_name == "constant":
                     _, i, j = np.indices(self.fiducial_cl.c_lij.shape)
-- 
2.43.0


From 0fe747ce8c9cefbcf4ff01558d20645a5dc463e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 016/107] fix: include the extrapolated redshifts in the
 analytic derivatives of the piecewise bias

---
 seyfert/derivatives/differentiator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 3bcb639..d21628c 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -198,7 +198,10 @@ class AnalyticClDifferentiator(ClDifferentiator):
                     self.fiducial_cl.evaluateLimberApproximatedPowerSpectrum()
                     z_b_edg = self.fiducial_cl.getWeightFunction(probe).z_bin_edges
                     z_grid = self.fiducial_cl.z_array
-                    bin_mask = (z_grid >= z_b_edg[k]) & (z_grid <= z_b_edg[k+1])
+                    # the first and last bias values are extrapolated outside of the bin edges
+                    z_min = z_b_edg[k] if k > 0 else -np.inf
+                    z_max = z_b_edg[k+1] if k < len(z_b_edg) - 2 else np.inf
+                    bin_mask = (z_grid >= z_min) & (z_grid <= z_max)
 
                     for myi in range(dc_lij.shape[1]):
                         for myj in range(dc_lij.shape[2]):
-- 
2.43.0


From a4142ee7ab1eed598474f7da706979d0552f4309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:55 +0000
Subject: [PATCH 017/107] fix: load the configurations needed to evaluate the
 Limber integrand in analytic derivatives

---
 seyfert/derivatives/differentiator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index d21628c..f972a52 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -168,6 +168,8 @@ class AnalyticClDifferentiator(ClDifferentiator):
     def loadClData(self) -> "None":
         super(AnalyticClDifferentiator, self).loadClData()
         pmm_file = self.workspace.getPowerSpectrumFile(dvar='central', step=0)
+        self.fiducial_cl.angular_config = self.workspace.getTaskJSONConfiguration("Angular")
+        self.fiducial_cl.forecast_config = self.workspace.getForecastConfiguration()
         self.fiducial_cl.loadCosmology(pmm_file, load_power_spectrum=True)
         self.fiducial_cl.cosmology.evaluateOverRedshiftGrid()
 
-- 
2.43.0


From c26b7ded481ec316155bc715228da670c1300832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 018/107] fix: zero analytic derivative for the off-diagonal
 spectroscopic bins which are not computed

---
 seyfert/cosmology/c_ells.py           | 16 +++++++++-------
 seyfert/derivatives/differentiator.py |  2 ++
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 52979e3..59a3bfe 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -90,6 +90,14 @@ class AngularCoefficient:
     def is_auto_correlation(self) -> "bool":
         return self.probe1 == self.probe2
 
+    @property
+    def has_off_diagonal_bins(self) -> "bool":
+        if self.is_auto_correlation and self.probe1 == "SpectroscopicGalaxy":
+            probe_cfg = self.forecast_config.probe_configs["SpectroscopicGalaxy"]
+            return probe_cfg.specific_settings["compute_gcsp_cl_offdiag"]
+
+        return True
+
     @property
     def ells(self) -> "np.ndarray":
         return self.l_bin_centers
@@ -171,13 +179,7 @@ class AngularCoefficient:
             logger.info(f'Computing cl integrand')
             logger.info(f'Doing cl integral, integration method: {self.integ_method}')
         if self.is_auto_correlation:
-            probe = self.probe1
-            if probe != "SpectroscopicGalaxy":
-                compute_off_diagonal = True
-            else:
-                probe_cfg = self.forecast_config.probe_configs["SpectroscopicGalaxy"]
-                compute_off_diagonal = probe_cfg.specific_settings["compute_gcsp_cl_offdiag"]
-
+            compute_off_diagonal = self.has_off_diagonal_bins
             for myi, myj in itertools.combinations_with_replacement(range(self.n_i), 2):
                 integrand = self.getLimberRedshiftIntegrand(myi, myj)
                 if myi != myj and not compute_off_diagonal:
diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index f972a52..4852de6 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -207,6 +207,8 @@ class AnalyticClDifferentiator(ClDifferentiator):
 
                     for myi in range(dc_lij.shape[1]):
                         for myj in range(dc_lij.shape[2]):
+                            if myi != myj and not self.fiducial_cl.has_off_diagonal_bins:
+                                continue
                             cl_integrand = self.fiducial_cl.getLimberRedshiftIntegrand(myi, myj)
                             if probe == p1:
                                 dc_lij[:, myi, myj] += (1 / bk) * integrate.simps(y=cl_integrand[:,  bin_mask],
-- 
2.43.0


From 4fb39bfaf72bf487d52337b9d7ed8930d225f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:01 +0000
Subject: [PATCH 019/107] fix: read external multipole files holding a single
 multipole

---
 seyfert/config/probe_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 4fdb5e8..5937255 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -107,7 +107,7 @@ class ProbeConfig:
         ell_filename = probe_dict["ell_external_filename"] if "ell_external_filename" in probe_dict else None
         if ell_filename is not None:
             ells_file = self.input_data_dir / ell_filename
-            input_ells = np.loadtxt(ells_file)
+            input_ells = np.loadtxt(ells_file, ndmin=2)
             l_bin_centers, l_bin_widths = input_ells[:, 0], input_ells[:, 1]
         else:
             l_min, l_max = probe_dict['l_min'], probe_dict['l_max']
-- 
2.43.0


From 06a1eaf0d76f541a0b466878d631aea55446dfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 020/107] fix: evaluate Fisher matrices of a single multipole

---
 seyfert/fisher/fisher_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_evaluator.py b/seyfert/fisher/fisher_evaluator.py
index de5a895..1f3a95c 100644
--- a/seyfert/fisher/fisher_evaluator.py
+++ b/seyfert/fisher/fisher_evaluator.py
@@ -228,7 +228,9 @@ class FisherEvaluator:
             ells_list.append(ells)
 
         ells_list = np.stack(ells_list)
-        unique_ells = np.unique(ells_list, axis=0).squeeze()
+        unique_ells = np.unique(ells_list, axis=0)
+        if len(unique_ells) == 1:
+            unique_ells = unique_ells[0]
 
         return unique_ells, vec_dcl_dict
 
-- 
2.43.0


From a5d6bd71276430cb1b86be52319bea185b660c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 021/107] fix: refuse spectrum names followed by other
 characters

---
 seyfert/utils/shortcuts.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/utils/shortcuts.py b/seyfert/utils/shortcuts.py
index 935b965..4bb3f32 100644
--- a/seyfert/utils/shortcuts.py
+++ b/seyfert/utils/shortcuts.py
@@ -139,14 +139,14 @@ class ClKey:
 
     @classmethod
     def fromFisherStringRepr(cls, str_repr: "str"):
-        auto_match = alias_probe_name_regex.match(str_repr)
+        auto_match = alias_probe_name_regex.fullmatch(str_repr)
         if auto_match:
             p = auto_match.groups()[0]
             key = cls.fromParts(p, p, kind="alias")
         else:
             pattern = alias_probe_name_regex.pattern
             xc_regex = re.compile(r"XC\(%s,%s\)" % (pattern, pattern))
-            xc_match = xc_regex.match(str_repr)
+            xc_match = xc_regex.fullmatch(str_repr)
             if not xc_match:
                 raise Exception(f"Invalid string repr for ClKey {str_repr}")
             p1, p2 = xc_match.groups()
@@ -156,8 +156,8 @@ class ClKey:
 
     def inferKind(self) -> "str":
         if isinstance(self.key, str):
-            long_match = long_cl_key_regex.match(self.key)
-            short_match = short_cl_key_regex.match(self.key)
+            long_match = long_cl_key_regex.fullmatch(self.key)
+            short_match = short_cl_key_regex.fullmatch(self.key)
             if long_match:
                 kind = "long"
                 self.match = long_match
@@ -171,9 +171,9 @@ class ClKey:
                 raise KeyError(f"Invalid key {self.key}")
             kind = "alias"
             p1, p2 = self.key
-            if not alias_probe_name_regex.match(p1):
+            if not alias_probe_name_regex.fullmatch(p1):
                 raise KeyError(f"{p1} is not a valid probe alias")
-            if not alias_probe_name_regex.match(p2):
+            if not alias_probe_name_regex.fullmatch(p2):
                 raise KeyError(f"{p2} is not a valid probe alias")
         else:
             raise KeyError(f"Invalid key {self.key}")
-- 
2.43.0


From c133a6ff27664265f72929ff5d074b172d79827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 022/107] fix: data vectors of different lengths are different

---
 seyfert/fisher/datavector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/datavector.py b/seyfert/fisher/datavector.py
index 88f15d2..3699530 100644
--- a/seyfert/fisher/datavector.py
+++ b/seyfert/fisher/datavector.py
@@ -41,7 +41,7 @@ class ClDataVector:
         return len(self.entries)
 
     def __eq__(self, other: "ClDataVector") -> "bool":
-        return all(entry1 == entry2 for entry1, entry2 in zip(self, other))
+        return len(self) == len(other) and all(entry1 == entry2 for entry1, entry2 in zip(self, other))
 
     @property
     def is_single_autocorrelation(self) -> "bool":
-- 
2.43.0


From cc395c95e3994ea2069a9fb1d339ec1741076904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:41 +0000
Subject: [PATCH 023/107] fix: store raw keys of SmartKeyDict as spectrum keys

---
 seyfert/utils/shortcuts.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/seyfert/utils/shortcuts.py b/seyfert/utils/shortcuts.py
index 4bb3f32..d2e9dc2 100644
--- a/seyfert/utils/shortcuts.py
+++ b/seyfert/utils/shortcuts.py
@@ -250,6 +250,16 @@ class SmartKeyDict(GenericDictInterface[ClKey, np.ndarray]):
 
         return equiv_key
 
+    def __setitem__(self, cl_key: "Union[ClKey, TRawClKey]", value: "np.ndarray"):
+        super(SmartKeyDict, self).__setitem__(ClKey(cl_key), value)
+
+    def __delitem__(self, cl_key: "Union[ClKey, TRawClKey]"):
+        super(SmartKeyDict, self).__delitem__(ClKey(cl_key))
+
+    def update(self, other: "Dict"):
+        for cl_key, value in other.items():
+            self[cl_key] = value
+
     def __getitem__(self, cl_key: "Union[ClKey, TRawClKey]"):
         if not isinstance(cl_key, ClKey):
             cl_key = ClKey(cl_key)
-- 
2.43.0


From 84ebb6abad108faa788bd08031768bcaa4215be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 024/107] fix: spectra without kernel can be saved and
 collected

---
 seyfert/cosmology/c_ells.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 59a3bfe..da5643f 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -118,12 +118,12 @@ class AngularCoefficient:
     @property
     def weight1(self) -> "wfs.WeightFunction":
         """Reference to first weight function making up the kernel"""
-        return self.kernel.weight1
+        return self.kernel.weight1 if self.kernel is not None else None
 
     @property
     def weight2(self) -> "wfs.WeightFunction":
         """Reference to second weight function making up the kernel"""
-        return self.kernel.weight2
+        return self.kernel.weight2 if self.kernel is not None else None
 
     @property
     def z_array(self) -> "np.ndarray":
-- 
2.43.0


From cbedc86599e0e82be778bc2d500268cd1dc89d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:00 +0000
Subject: [PATCH 025/107] fix: keep the weight functions read from a collection
 of spectra

---
 seyfert/cosmology/c_ells.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index da5643f..0fc379b 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -507,6 +507,7 @@ class H5ClCollection(AbstractH5FileIO):
         elif 'z_array' in self.root:
             obj.z_grid = self.root['z_array'][()]
 
+        obj.weight_dict = {}
         if 'weight_functions' in self.root:
             w_grp = self.root['weight_functions']
             w_grp_path = w_grp.name
@@ -518,15 +519,14 @@ class H5ClCollection(AbstractH5FileIO):
 
         cls_grp = self.root['cls']
         cls_grp_path = cls_grp.name
-        obj.weight_dict = {}
         for cl_kind in cls_grp:
             p1, p2 = gu.get_probes_from_comb_key(cl_kind)
             h5cl = H5Cl(probe1=p1, probe2=p2)
             cl_obj = h5cl.load(file=self.file_path, root=f'{cls_grp_path}')
             cl_obj: "AngularCoefficient"
-            if p1 not in obj.weight_dict:
+            if p1 not in obj.weight_dict and cl_obj.weight1 is not None:
                 obj.weight_dict[p1] = cl_obj.weight1
-            if p2 not in obj.weight_dict:
+            if p2 not in obj.weight_dict and cl_obj.weight2 is not None:
                 obj.weight_dict[p2] = cl_obj.weight2
 
             obj.cl_dict[cl_kind] = cl_obj
-- 
2.43.0


From d52e1f8101fd1e1693a63e48bc5252e1ad300156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:09 +0000
Subject: [PATCH 026/107] fix: keep weight functions of different collections
 in one file apart

---
 seyfert/cosmology/c_ells.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 0fc379b..71da789 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -6,7 +6,7 @@ from pathlib import Path
 from typing import List, Tuple, Dict, Union
 import h5py
 import numpy as np
-from os.path import join
+from os.path import join, dirname
 from scipy import integrate
 from scipy import interpolate
 import logging
@@ -447,6 +447,10 @@ class H5Cl(AbstractH5FileIO):
     def absolute_main_path(self) -> "str":
         return join(self.root_path, self.main_path_rel_to_root)
 
+    def getWeightFunctionPath(self, probe: "str") -> "str":
+        """Weight functions are stored beside the group containing the spectra"""
+        return join(dirname(self.root_path), 'weight_functions', probe)
+
     def readBuildingData(self) -> "None":
         self.build_data['probe1'] = self.probe1
         self.build_data['probe2'] = self.probe2
@@ -466,8 +470,12 @@ class H5Cl(AbstractH5FileIO):
         if ker_path in self.root:
             h5k = kfs.H5Kernel()
             obj.kernel = h5k.load(self.file_path, root=ker_path)
-            w1_root_path = self.findGroup(f"weight_functions/{self.probe1}")[0]
-            w2_root_path = self.findGroup(f"weight_functions/{self.probe2}")[0]
+            w1_root_path = self.getWeightFunctionPath(self.probe1)
+            if w1_root_path not in self._h5file:
+                w1_root_path = self.findGroup(f"weight_functions/{self.probe1}")[0]
+            w2_root_path = self.getWeightFunctionPath(self.probe2)
+            if w2_root_path not in self._h5file:
+                w2_root_path = self.findGroup(f"weight_functions/{self.probe2}")[0]
             h5w1 = wfs.H5WeightFunction()
             h5w2 = wfs.H5WeightFunction()
             obj.kernel.weight1 = h5w1.load(self.file_path, root=w1_root_path)
@@ -485,11 +493,11 @@ class H5Cl(AbstractH5FileIO):
             h5k = kfs.H5Kernel()
             h5k.save(obj.kernel, self.file_path, root=f'{self.absolute_main_path}/kernel')
         if obj.weight1 is not None:
-            w1_root_path = f'weight_functions/{self.probe1}'
+            w1_root_path = self.getWeightFunctionPath(self.probe1)
             if w1_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
                 h5w.save(obj.weight1, self.file_path, root=w1_root_path)
-            w2_root_path = f'weight_functions/{self.probe2}'
+            w2_root_path = self.getWeightFunctionPath(self.probe2)
             if w2_root_path not in self._h5file:
                 h5w = wfs.H5WeightFunction()
                 h5w.save(obj.weight2, self.file_path, root=w2_root_path)
-- 
2.43.0


From 81ea747670a37d22b237f981fe0d2bcd8f2d30fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:15 +0000
Subject: [PATCH 027/107] fix: take the model name from the file when loading a
 cosmology into an empty object

---
 seyfert/cosmology/cosmology.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/cosmology.py b/seyfert/cosmology/cosmology.py
index 59304a4..29878d5 100644
--- a/seyfert/cosmology/cosmology.py
+++ b/seyfert/cosmology/cosmology.py
@@ -409,7 +409,7 @@ class H5Cosmology(AbstractH5FileIO):
             self.readBuildingData()
         if obj.is_flat is None:
             obj.is_flat = self.build_data['flat']
-        if obj.model_name is None:
+        if obj.model_name is None or obj.params is None:
             obj.model_name = self.build_data['model_name']
         if obj.params is None:
             obj.params = self.build_data['params']
-- 
2.43.0


From b491ab8cd022a68c38332d193b7ebf70175b7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 028/107] fix: close the HDF5 file when loading or saving an
 object fails

---
 seyfert/file_io/hdf5_io.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/seyfert/file_io/hdf5_io.py b/seyfert/file_io/hdf5_io.py
index 130ce4b..fb42138 100644
--- a/seyfert/file_io/hdf5_io.py
+++ b/seyfert/file_io/hdf5_io.py
@@ -99,6 +99,7 @@ class AbstractH5FileIO(ABC):
             if mode != 'r':
                 self._root_group = self._h5file.create_group(name=self._root_path)
             else:
+                self.closeFile()
                 raise H5FileModeError(f'cannot create root {root} on readonly file')
         if mode != 'r':
             self.root.attrs.update(base_metadata)
@@ -111,17 +112,21 @@ class AbstractH5FileIO(ABC):
 
     def load(self, file: "Union[str, Path]", root: "str" = '/') -> "object":
         self.openFile(file, mode='r', root=root)
-        self.readBuildingData()
-        obj = self.builder_func(**self.build_data)
-        self.writeToObject(obj)
-        self.closeFile()
+        try:
+            self.readBuildingData()
+            obj = self.builder_func(**self.build_data)
+            self.writeToObject(obj)
+        finally:
+            self.closeFile()
         return obj
 
     def save(self, obj: "object", file: "Union[str, Path]", root: "str" = '/'):
         mode = 'w' if not Path(file).exists() else 'a'
         self.openFile(file, mode=mode, root=root)
-        self.writeObjectToFile(obj)
-        self.closeFile()
+        try:
+            self.writeObjectToFile(obj)
+        finally:
+            self.closeFile()
 
     @abstractmethod
     def writeToObject(self, obj: "object") -> "None":
-- 
2.43.0


From ec9d980a61a7bbc1e4181d4dbfaa570a6364bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 029/107] fix: find HDF5 groups and datasets by their whole
 name and link them by absolute path

---
 seyfert/file_io/hdf5_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/file_io/hdf5_io.py b/seyfert/file_io/hdf5_io.py
index fb42138..77fd0c4 100644
--- a/seyfert/file_io/hdf5_io.py
+++ b/seyfert/file_io/hdf5_io.py
@@ -147,13 +147,13 @@ class AbstractH5FileIO(ABC):
 
     def findDataset(self, name_wanted: "str") -> "h5py.Dataset":
         def visitor_func(name: "str", node: "object", wanted: "str"):
-            if isinstance(node, h5py.Dataset) and name.endswith(wanted):
+            if isinstance(node, h5py.Dataset) and (name == wanted or name.endswith(f'/{wanted}')):
                 return name, node
         return self._h5file.visititems(partial(visitor_func, wanted=name_wanted))
 
     def findGroup(self, name_wanted: "str") -> "h5py.Group":
         def visitor_func(name: "str", node: "object", wanted: "str"):
-            if isinstance(node, h5py.Group) and (name == wanted or name.endswith(wanted)):
+            if isinstance(node, h5py.Group) and (name == wanted or name.endswith(f'/{wanted}')):
                 return name, node
         return self._h5file.visititems(partial(visitor_func, wanted=name_wanted))
 
@@ -164,7 +164,7 @@ class AbstractH5FileIO(ABC):
             found = self.findGroup(name)
             if found is not None:
                 grp_name, grp = found
-                entry = h5py.SoftLink(grp_name)
+                entry = h5py.SoftLink(f'/{grp_name}')
                 base[name] = entry
             else:
                 entry = self._create_group(name=name, base_grp=base_grp)
@@ -181,7 +181,7 @@ class AbstractH5FileIO(ABC):
             found = self.findDataset(name)
             if found is not None:
                 found_name, _ = found
-                base[name] = h5py.SoftLink(found_name)
+                base[name] = h5py.SoftLink(f'/{found_name}')
                 entry = base[name]
             else:
                 entry = self._create_dataset(name=name, data=data, attrs=attrs, base_grp=base_grp)
-- 
2.43.0


From 762b3080d6f40fcd5953efc9144f077cc01837a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 030/107] fix: refused HDF5 saves leave the attributes of the
 stored object alone

---
 seyfert/cosmology/bias.py             | 2 +-
 seyfert/cosmology/kernel_functions.py | 2 +-
 seyfert/cosmology/redshift_density.py | 2 +-
 seyfert/cosmology/weight_functions.py | 2 +-
 seyfert/fisher/delta_cl.py            | 6 +++---
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index 117839e..7635de3 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -124,8 +124,8 @@ class H5Bias(AbstractH5FileIO):
     def writeObjectToFile(self, obj: "Bias") -> "None":
         if obj.z_bin_edges is not None:
             self.createDataset(name='z_bin_edges', data=obj.z_bin_edges)
-        self.attrs['probe'] = obj.probe
         bias_model_grp = self.createGroup(name='bias_model')
+        self.attrs['probe'] = obj.probe
         bias_model_grp.attrs['model_name'] = obj.model_name
         add_params_grp = self.createGroup(name='additional_parameters', base_grp=bias_model_grp)
         self.createDatasets(obj.additional_parameters, base_grp=add_params_grp)
diff --git a/seyfert/cosmology/kernel_functions.py b/seyfert/cosmology/kernel_functions.py
index 7c6db0a..ab0e6f4 100644
--- a/seyfert/cosmology/kernel_functions.py
+++ b/seyfert/cosmology/kernel_functions.py
@@ -102,6 +102,6 @@ class H5Kernel(AbstractH5FileIO):
 
     def writeObjectToFile(self, obj: "KernelFunction") -> "None":
         super(H5Kernel, self).writeObjectToFile(obj)
-        self.attrs.update({'probe1': obj.probe1, 'probe2': obj.probe2})
         self.createDataset(name='z_grid', data=obj.z_grid)
         self.createDataset(name='k_ijz', data=obj.k_ijz)
+        self.attrs.update({'probe1': obj.probe1, 'probe2': obj.probe2})
diff --git a/seyfert/cosmology/redshift_density.py b/seyfert/cosmology/redshift_density.py
index 9192298..9f42cec 100644
--- a/seyfert/cosmology/redshift_density.py
+++ b/seyfert/cosmology/redshift_density.py
@@ -217,8 +217,8 @@ class H5Density(AbstractH5FileIO):
             }
 
     def writeObjectToFile(self, obj: "RedshiftDensity") -> "None":
-        self.attrs['probe'] = obj.probe
         self.createDataset(name='has_niz_from_input', data=obj.has_niz_from_input)
+        self.attrs['probe'] = obj.probe
         self.createDataset(name='input_z_domain', data=obj.input_z_domain)
         self.createDataset(name='z_bin_edges', data=obj.z_bin_edges)
         self.createDataset(name='catalog_f_sky', data=obj.catalog_f_sky)
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 33e1d6f..63de82b 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -318,11 +318,11 @@ class H5WeightFunction(AbstractH5FileIO):
                 logger.warning(f'bias absent from h5 file')
 
     def writeObjectToFile(self, obj: "WeightFunction") -> "None":
-        self.attrs['probe'] = obj.probe
         if obj.z_grid is not None:
             self.createDataset(name='z_grid', data=obj.z_grid)
         if obj.w_bin_z is not None:
             self.createDataset(name='w_bin_z', data=obj.w_bin_z)
+        self.attrs['probe'] = obj.probe
         if obj.density is not None:
             obj.density.saveToHDF5(self.file_path, root=join(self.root_path, 'density'))
         else:
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index c1bab06..be0fe84 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -273,15 +273,15 @@ class H5DeltaCl(AbstractH5FileIO):
                 continue
 
     def writeObjectToFile(self, obj: "DeltaCl") -> "None":
+        self.createDataset(name="l_bin_centers", data=obj.l_bin_centers)
+        self.createDataset(name="delta_c_lij", data=obj.delta_c_lij)
+
         self.attrs['name'] = obj.name
         if obj.probe_1 is not None:
             self.attrs['probe_1'] = obj.probe_1
         if obj.probe_2 is not None:
             self.attrs['probe_2'] = obj.probe_2
 
-        self.createDataset(name="l_bin_centers", data=obj.l_bin_centers)
-        self.createDataset(name="delta_c_lij", data=obj.delta_c_lij)
-
         if obj.inv_delta_c_lij is not None:
             self.createDataset(name="inv_delta_c_lij", data=obj.inv_delta_c_lij)
         if obj.l_bin_widths is not None:
-- 
2.43.0


From 3bf3a3c450cf118001970dc06d008a4a84a94d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:58 +0000
Subject: [PATCH 031/107] fix: JSON files keep their content when writing them
 fails

---
 seyfert/config/main_config.py  |  3 ++-
 seyfert/cosmology/parameter.py | 13 +++++++------
 seyfert/file_io/json_io.py     | 13 +++++++------
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/seyfert/config/main_config.py b/seyfert/config/main_config.py
index ba7c829..99088d2 100644
--- a/seyfert/config/main_config.py
+++ b/seyfert/config/main_config.py
@@ -34,8 +34,9 @@ class MainConfig(GenericDictInterface, ABC):
             self.update(json.load(jsf))
 
     def writeToJSON(self, json_file: "Union[str, Path]") -> "None":
+        text = json.dumps(self._base_dict, indent=2)
         with open(json_file, mode='w') as jsf:
-            json.dump(self._base_dict, jsf, indent=2)
+            jsf.write(text)
 
 
 class PowerSpectrumConfig(MainConfig):
diff --git a/seyfert/cosmology/parameter.py b/seyfert/cosmology/parameter.py
index 041779e..ce8fb00 100644
--- a/seyfert/cosmology/parameter.py
+++ b/seyfert/cosmology/parameter.py
@@ -206,13 +206,14 @@ class PhysicalParametersCollection(GenericDictInterface[str, PhysicalParameter])
         self.is_universe_flat = data[-1]['is_universe_flat']
 
     def writeJSON(self, file: "Union[str, Path]") -> "None":
+        dict_list = [par.to_dict() for par in self.values()]
+        dict_list.append({
+            'base_stem_disps': list(self.stem_disps[self.stem_disps > 0]),
+            'is_universe_flat': self.is_universe_flat
+        })
+        text = json.dumps(dict_list, indent=2)
         with open(file, 'w') as jsf:
-            dict_list = [par.to_dict() for par in self.values()]
-            dict_list.append({
-                'base_stem_disps': list(self.stem_disps[self.stem_disps > 0]),
-                'is_universe_flat': self.is_universe_flat
-            })
-            json.dump(dict_list, jsf, indent=2)
+            jsf.write(text)
 
     def loadStemDisplacements(self, base_stem_disp: "Union[np.ndarray, List]") -> "None":
         if not isinstance(base_stem_disp, np.ndarray):
diff --git a/seyfert/file_io/json_io.py b/seyfert/file_io/json_io.py
index f33b55b..5e16916 100644
--- a/seyfert/file_io/json_io.py
+++ b/seyfert/file_io/json_io.py
@@ -29,13 +29,14 @@ class JSONForecastConfig:
             self.data = json.load(jsf)
 
     def toJSON(self, file):
+        self.metadata.update({
+            "author": os.getenv("USER"),
+            "creation_date": datetime.datetime.now().isoformat(),
+            "version": VERSION
+        })
+        text = json.dumps(self.data, indent=4)
         with open(file, mode='w') as jsf:
-            self.metadata.update({
-                "author": os.getenv("USER"),
-                "creation_date": datetime.datetime.now().isoformat(),
-                "version": VERSION
-            })
-            json.dump(self.data, jsf, indent=4)
+            jsf.write(text)
 
     @property
     def metadata(self) -> "Dict":
-- 
2.43.0


From e342b8f8a8757d725da9bd0015a3b2ed45fb14e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 032/107] fix: missing density and bias files are reported when
 a forecast configuration is loaded

---
 seyfert/config/probe_config.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 5937255..6d8886c 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -57,16 +57,12 @@ class ProbeConfig:
             self.input_data_dir / self.long_name,
             self.input_data_dir
         ]
-        input_file = None
         for input_dir in input_dirs:
             input_file = input_dir / filename
             if input_file.is_file():
-                break
+                return input_file
 
-        if input_file is None:
-            raise FileNotFoundError(f"file {filename} not found in any of {' '.join([str(d) for d in input_dirs])}")
-
-        return input_file
+        raise FileNotFoundError(f"file {filename} not found in any of {' '.join([str(d) for d in input_dirs])}")
 
     def loadFromJSONConfig(self, json_config: "JSONForecastConfig", load_nuis_params=False):
         probe_dict = json_config.probes[self.name.toAlias().name]
-- 
2.43.0


From 8fe4ee24ff9c62ae8243205b0c8aea4422f8bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 033/107] fix: common multipoles are paired with their own
 widths whatever their order in the file

---
 seyfert/config/forecast_config.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index e4bf587..fe12669 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -151,10 +151,8 @@ class ForecastConfig:
     def getMultipoleArraysForProbeComb(self, obs_key: "str") -> "Tuple[np.ndarray, np.ndarray]":
         obs1, obs2 = gu.get_probes_from_comb_key(obs_key)
         ell1, ell2 = self.probe_configs[obs1].l_bin_centers, self.probe_configs[obs2].l_bin_centers
-        ell_common = np.intersect1d(ell1, ell2)
-        mask_common = np.isin(ell1, ell_common)
-        d_ell1, d_ell2 = self.probe_configs[obs1].l_bin_widths, self.probe_configs[obs2].l_bin_widths
-        d_ell_common = d_ell1[mask_common]
+        ell_common, indices_common, _ = np.intersect1d(ell1, ell2, return_indices=True)
+        d_ell_common = self.probe_configs[obs1].l_bin_widths[indices_common]
 
         if len(ell_common) == 0:
             raise Exception(f"No multipoles in common for probe combination {obs_key}")
-- 
2.43.0


From 19cb065cf987da10ac16c7baae4b02936c5e3e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 034/107] fix: forecast configurations differing in sky
 fraction or multipoles are different

---
 seyfert/config/forecast_config.py | 2 +-
 seyfert/config/probe_config.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index fe12669..b6e9e2a 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -167,7 +167,7 @@ class ForecastConfig:
             self.phys_pars == other.phys_pars,
             self.is_universe_flat == other.is_universe_flat,
             self.probe_configs == other.probe_configs,
-            self.survey_f_sky, other.survey_f_sky,
+            self.survey_f_sky == other.survey_f_sky,
             self.probes_combinations == other.probes_combinations
         ])
 
diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 6d8886c..92d5165 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -118,8 +118,8 @@ class ProbeConfig:
     def __eq__(self, other: "ProbeConfig") -> "bool":
         conds = [
             self.name == other.name,
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths),
             self.density_init_file.name == other.density_init_file.name,
             self.marginalize_bias == other.marginalize_bias,
             self.nuisance_parameters == other.nuisance_parameters,
-- 
2.43.0


From f88bfc8baa212e2afd53ef2d14ca5838fb838862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 035/107] fix: the default input data directory is only looked
 for when none is given on the command line

---
 bin/job_submitter | 4 +++-
 bin/run_seyfert   | 8 ++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 573f75d..218af58 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -29,7 +29,7 @@ def program_inputs() -> "argparse.ArgumentParser":
                         help="REQUIRED: path to the file containing the forecast configuration")
     parser.add_argument("--run_id", "-id", required=False, default=None,
                         help="OPTIONAL: ID of the run directory. If not given it will be deduced from forecast config name")
-    parser.add_argument("--input_data_dir", "-i", required=False, default=fsu.default_seyfert_input_data_dir(),
+    parser.add_argument("--input_data_dir", "-i", required=False, default=None,
                         help="REQUIRED: path to the directory containing input data for the forecast")
     parser.add_argument("--ini_file", "-ini", type=Path, required=False, default=None,
                         help="OPTIONAL: path to ini file")
@@ -132,5 +132,7 @@ if __name__ == '__main__':
         if len(invalid_keys):
             raise KeyError(f"Invalid config keys: {''.join(invalid_keys)}")
         arguments_dict.update(ini_kwargs)
+    if arguments_dict['input_data_dir'] is None:
+        arguments_dict['input_data_dir'] = fsu.default_seyfert_input_data_dir()
 
     main(arguments_dict)
diff --git a/bin/run_seyfert b/bin/run_seyfert
index 6a4684c..2e33a10 100644
--- a/bin/run_seyfert
+++ b/bin/run_seyfert
@@ -27,7 +27,7 @@ def program_options():
     parser.add_argument("--forecast_config", "-fcfg", required=True, nargs="+", type=Path,
                         help="REQUIRED: path to the file(s) containing the forecast configuration")
     parser.add_argument("--input_data_dir", "-i", required=False, type=Path,
-                        default=fsu.default_seyfert_input_data_dir(),
+                        default=None,
                         help="REQUIRED: path to the directory containing input data for the forecast")
     parser.add_argument("--test_batch", nargs='?', default=False, const=True,
                         help="Flag for testing batch mode")
@@ -70,4 +70,8 @@ def main(args_dict):
 
 
 if __name__ == '__main__':
-    main(vars(program_options().parse_args()))
+    arguments_dict = vars(program_options().parse_args())
+    if arguments_dict['input_data_dir'] is None:
+        arguments_dict['input_data_dir'] = fsu.default_seyfert_input_data_dir()
+
+    main(arguments_dict)
-- 
2.43.0


From 5e7fe5a2a29adbffdfd47bb50838ef35fe6b0217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:06 +0000
Subject: [PATCH 036/107] fix: options of job_submitter's ini file get the
 types of the command line's

---
 bin/job_submitter | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 218af58..45c5945 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -131,7 +131,7 @@ if __name__ == '__main__':
         invalid_keys = set(ini_kwargs.keys()) - set(arguments_dict.keys())
         if len(invalid_keys):
             raise KeyError(f"Invalid config keys: {''.join(invalid_keys)}")
-        arguments_dict.update(ini_kwargs)
+        arguments_dict.update(gu.convert_keyval_params_type(dict(ini_kwargs)))
     if arguments_dict['input_data_dir'] is None:
         arguments_dict['input_data_dir'] = fsu.default_seyfert_input_data_dir()
 
-- 
2.43.0


From 0c2a91db6a6ddc2e4421c2dd6e7dda057c06f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 037/107] fix: input files of a run with the same name no
 longer overwrite each other

---
 seyfert/utils/workspace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index fdd06c6..c9ff90b 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -230,10 +230,15 @@ class WorkSpace:
         input_files_dir = fsu.get_input_files_dir_for_rundir(self.run_dir)
         input_files_dir.mkdir(exist_ok=True)
         input_files_dict = {}
+        used_names = {'params.json'}
 
         for name, input_file in src_input_files.items():
             src = Path(input_file)
-            dst = input_files_dir / src.name
+            dst_name = src.name
+            while dst_name in used_names:
+                dst_name = f"{name}_{dst_name}"
+            used_names.add(dst_name)
+            dst = input_files_dir / dst_name
             shutil.copy(src, dst)
             input_files_dict[name] = os.path.relpath(dst, self.run_dir)
 
-- 
2.43.0


From c89c828cd4d82d80f663fa98bc07bf086be8ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 038/107] fix: the input data directory of a run may be given
 as a string

---
 seyfert/utils/workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index c9ff90b..ea3c5e1 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -246,6 +246,6 @@ class WorkSpace:
         phys_pars.writeJSON(params_file)
         input_files_dict['params'] = os.path.relpath(params_file, self.run_dir)
         logger.info(f'Writing physical parameters to JSON {params_file}')
-        input_files_dict['input_data_dir'] = str(input_data_dir.resolve())
+        input_files_dict['input_data_dir'] = str(Path(input_data_dir).resolve())
         with open(fsu.get_input_files_JSON_for_rundir(self.run_dir), mode="w") as jsf:
             json.dump(input_files_dict, jsf, indent=2)
-- 
2.43.0


From a66e220bba245a93d776e632dc325a877b0e710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 039/107] fix: links of a run folder point at their source
 wherever the link and the source are reached from

---
 seyfert/utils/workspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index ea3c5e1..a5133a6 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -222,7 +222,10 @@ class WorkSpace:
             logger.warning(f"cwd is {os.getcwd()}")
             raise FileNotFoundError(src)
         dst_path = Path(dst)
-        symlink_src = Path(os.path.relpath(src, self.run_dir)) if src_relative_to_rundir else Path(src)
+        if src_relative_to_rundir:
+            symlink_src = Path(os.path.relpath(src.resolve(), self.run_dir.resolve()))
+        else:
+            symlink_src = src.absolute()
         dst_path.symlink_to(symlink_src)
 
     def createInputFilesDir(self, src_input_files: "Dict", phys_pars: "PhysicalParametersCollection",
-- 
2.43.0


From 0f42da89c2ab889bf90244d140c80ecc0685244f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 040/107] fix: job directory names decode to the parameters and
 step they were made from

---
 seyfert/derivatives/differentiator.py | 2 +-
 seyfert/utils/filesystem_utils.py     | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 4852de6..4168220 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -146,7 +146,7 @@ class SteMClDifferentiator(ClDifferentiator):
 
     def collectClVariationsFiles(self) -> "List[Path]":
         par_name = self.param.name
-        dvar_cl_files = list(self.workspace.cl_dir.glob(f"dvar_{par_name}_*/cl*.h5"))
+        dvar_cl_files = list(self.workspace.cl_dir.glob(f"dvar_{par_name}_step_*/cl*.h5"))
         dvar_cl_files.append(self.workspace.getClFile(dvar='central', step=0))
 
         def _sorting_func(file: "Path"):
diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index e00f5f6..ccf0b22 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -90,8 +90,8 @@ def get_forecast_input_data_dir_from_rundir(rundir: "Path") -> "Path":
 
 
 def get_dvar_step_from_cosmology_jobdir_name(dirname: str):
-    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9]+)')
-    match = dirname_regex.search(dirname)
+    dirname_regex = re.compile('dvar_(?P<dvar>.+)_step(?P<sign>_[pm])?_(?P<step>[0-9]+)')
+    match = dirname_regex.fullmatch(dirname)
     try:
         dvar = match.group('dvar')
         step = int(match.group('step'))
@@ -123,8 +123,8 @@ def get_derivative_jobdir_name_from_dvar(dvar: str) -> "str":
 
 
 def get_dvar1_dvar2_from_fisher_jobdir_name(dirname: str) -> "Tuple[str]":
-    dirname_regex = re.compile('(?P<dvar1>[a-zA-Z0-9]+)__(?P<dvar2>[a-zA-Z0-9]+)')
-    match = dirname_regex.match(dirname)
+    dirname_regex = re.compile('(?P<dvar1>.+?)__(?P<dvar2>.+)')
+    match = dirname_regex.fullmatch(dirname)
     try:
         dvar1 = match.group('dvar1')
         dvar2 = match.group('dvar2')
-- 
2.43.0


From 34a2e51812a2fa434b8ac3daa964cb783712d876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:25 +0000
Subject: [PATCH 041/107] fix: run identifiers with version numbers of several
 digits are split

---
 seyfert/utils/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/general_utils.py b/seyfert/utils/general_utils.py
index 3c3ecbb..d73a23c 100644
--- a/seyfert/utils/general_utils.py
+++ b/seyfert/utils/general_utils.py
@@ -185,7 +185,7 @@ def get_execution_host() -> "List[str]":
 
 
 def split_run_id(run_id: "str") -> "Tuple[str, str, datetime.datetime]":
-    regex = re.compile(r"^(.*)_(\d\.\d\.\d(?:dev)?)_(\d{4}-\d{2}-\d{2}T\d{2}-\d{2}-\d{2})$")
+    regex = re.compile(r"^(.*)_(\d+\.\d+\.\d+(?:dev)?)_(\d{4}-\d{2}-\d{2}T\d{2}-\d{2}-\d{2})$")
     match = regex.match(run_id)
     if not match:
         run_name = run_id
-- 
2.43.0


From 57024a85e4a15c7d9a9097233e02183c37f00960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 042/107] fix: directories that are not run folders are not
 selected when patterns are added

---
 seyfert/utils/dir_explorer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/dir_explorer.py b/seyfert/utils/dir_explorer.py
index 4aa8b5a..5261423 100644
--- a/seyfert/utils/dir_explorer.py
+++ b/seyfert/utils/dir_explorer.py
@@ -35,7 +35,7 @@ class DirectoryExplorer:
 
     def getDirMatches(self, direc: "Path", add_patterns: "List[str]" = None) -> "List[re.Match]":
         matches = self.getMandatoryDirectoryMatches(direc)
-        if add_patterns is not None:
+        if matches and add_patterns is not None:
             matches += [re.search(pattern, direc.name) for pattern in add_patterns]
 
         return matches
-- 
2.43.0


From a86d03ffa061a3cb3fb3a4d4e345150de26503ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 043/107] fix: paths with spaces and other special characters
 are quoted in the commands that are run

---
 bin/evaluate_final_results    |  3 ++-
 seyfert/main/bsub_utils.py    |  3 ++-
 seyfert/main/orchestration.py |  3 ++-
 seyfert/main/seyfert_core.py  |  3 ++-
 seyfert/main/task_runners.py  | 16 +++++++++-------
 5 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/bin/evaluate_final_results b/bin/evaluate_final_results
index 5a070ed..d435e2e 100755
--- a/bin/evaluate_final_results
+++ b/bin/evaluate_final_results
@@ -2,6 +2,7 @@
 
 from typing import Union, List
 import argparse
+import shlex
 import time
 import logging
 from pathlib import Path
@@ -48,7 +49,7 @@ def execute_in_batch(args: "argparse.Namespace", input_rundirs: "List[Union[str,
     job_ids = []
     for rundir in input_rundirs:
         args_dict['input_rundirs'] = str(rundir)
-        arguments_str = " ".join([f"--{key} {value}" for key, value in args_dict.items()])
+        arguments_str = " ".join([f"--{key} {shlex.quote(str(value))}" for key, value in args_dict.items()])
         cmd_to_execute = f"evaluate_final_results {arguments_str}"
         logs_path = Path(rundir) / args.outdir_name / "logs"
         logs_path.mkdir(exist_ok=True, parents=True)
diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index f553084..8fcf977 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -2,6 +2,7 @@ from typing import List, ByteString, Union, Tuple
 import logging
 import datetime
 import re
+import shlex
 import pandas as pd
 import subprocess as sp
 import time
@@ -81,7 +82,7 @@ class BsubInterface:
     def buildBsubOptsString(self, err, out):
         cli_args = {}
         cli_args.update(self.bsub_opts)
-        cli_args.update({"-e": err, "-o": out})
+        cli_args.update({"-e": shlex.quote(str(err)), "-o": shlex.quote(str(out))})
 
         R_spec = self.buildResourceSpecString()
         opts_str = ' '.join([f"{key} {value}" for key, value in cli_args.items()]) + f' {R_spec}'
diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 8545342..85be104 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -1,4 +1,5 @@
 import re
+import shlex
 from typing import Union, Dict, List
 from pathlib import Path
 import shutil
@@ -204,7 +205,7 @@ def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
 
 
 def build_seyfert_cmd(args: "argparse.Namespace", keyval_args: "Dict") -> "str":
-    kwargs_str = " ".join([f"-{key} {value}" for key, value in keyval_args.items()])
+    kwargs_str = " ".join([f"-{key} {shlex.quote(str(value))}" for key, value in keyval_args.items()])
     add_flags_str = " ".join([f"--{flag}" for flag in args.additional_flags])
     task_flags_str = " ".join([
         f"--{task_flag_key}" for task_flag_key in ["angular", "derivative", "fisher"]
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 8a80242..ce7e70e 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -1,5 +1,6 @@
 import datetime
 import pickle
+import shlex
 import shutil
 import time
 from pathlib import Path
@@ -185,7 +186,7 @@ def do_forecast(args_dict, logfile):
 
 def get_interactive_run_command(args_dict: "Dict") -> "str":
     args_dict['execution'] = 'interactive'
-    args_str = " ".join(f"--{key} {value}" for key, value in args_dict.items() if value is not None)
+    args_str = " ".join(f"--{key} {shlex.quote(str(value))}" for key, value in args_dict.items() if value is not None)
     cmd_str = f"run_seyfert {args_str}"
 
     return cmd_str
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 46bf845..1222f17 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -1,6 +1,7 @@
 import json
 import sys
 import os
+import shlex
 import datetime
 import time
 import shutil
@@ -106,12 +107,12 @@ class TaskRunner(ABC):
         self.main_script_parameters["rundir"] = self.rundir
         with sh_path.open(mode="w") as sh:
             sh.write(f"#!/bin/bash\n\n")
-            sh.write(f'cd {jobdir_path}\n')
+            sh.write(f'cd {shlex.quote(str(jobdir_path))}\n')
             if self.venv_path is not None:
-                sh.write(f'source {Path(self.venv_path) / "bin/activate"}\n')
+                sh.write(f'source {shlex.quote(str(Path(self.venv_path) / "bin/activate"))}\n')
             run_cmd = f'{self.main_script_name}'
             for key, value in self.main_script_parameters.items():
-                run_cmd += f' --{key} {value}'
+                run_cmd += f' --{key} {shlex.quote(str(value))}'
             sh.write(f'{run_cmd}\n')
         sh_path.chmod(0o755)
         return sh_path
@@ -147,7 +148,7 @@ class TaskRunner(ABC):
     def submitBatchJobs(self):
         job_ids = []
         for sh_path in self.shell_scripts_paths:
-            job_id = self.bsub.submitJob(cmd_to_execute=sh_path, logs_path=sh_path.parent, silent=True)
+            job_id = self.bsub.submitJob(cmd_to_execute=shlex.quote(str(sh_path)), logs_path=sh_path.parent, silent=True)
             job_ids.append(job_id)
 
         self.bsub.waitForJobsToComplete(job_ids)
@@ -169,7 +170,7 @@ class TaskRunner(ABC):
         for sh_idx, sh_path in enumerate(self.shell_scripts_paths):
             logger.info(f'Task {self.kind} job {sh_idx + 1}/{len(self.shell_scripts_paths)}')
             logger.info(f'Job name: {sh_path.stem}')
-            self.executeCommand(str(sh_path))
+            self.executeCommand(shlex.quote(str(sh_path)))
 
 
 class PowerSpectrumTaskRunner(TaskRunner):
@@ -301,7 +302,8 @@ class FisherTaskRunner(TaskRunner):
         return auto_dvs_brief, cross_dvs_brief
 
     def writeFisherCommand(self, datavectors_brief_strings: "List[str]"):
-        return f"{self.main_script_name} {' '.join(datavectors_brief_strings)} --rundir {self.workspace.run_dir}"
+        return (f"{self.main_script_name} {' '.join(datavectors_brief_strings)} "
+                f"--rundir {shlex.quote(str(self.workspace.run_dir))}")
 
     def clearOutput(self):
         if self.args.overwrite_results:
@@ -591,7 +593,7 @@ class ForecastRunner:
             "-ex": self.args.execution, "-i": self.rundir, "-q": "long", "-ncj": 1, "-mem": 3000,
             "-ow": self.args.overwrite_results, "-wd": self.workspace.run_dir
         }
-        res_cmd = f'evaluate_final_results {" ".join(f"{key} {value}" for key, value in cli_args.items())}'
+        res_cmd = f'evaluate_final_results {" ".join(f"{key} {shlex.quote(str(value))}" for key, value in cli_args.items())}'
         sp.run(res_cmd, shell=True)
 
     def writeGCspPkFishersTo(self, outdir: "TPathLike"):
-- 
2.43.0


From 28c0bf39518f1d9fb7ab122219c1196893744751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 044/107] fix: a job which exits with an error status is a
 failure even when it prints nothing

---
 seyfert/main/task_runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 1222f17..31ba611 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -157,7 +157,7 @@ class TaskRunner(ABC):
     def executeCommand(cmd: "str"):
         t0 = time.time()
         proc = sp.run(cmd, shell=True, check=False, stdout=sp.PIPE, stderr=sp.PIPE)
-        if proc.stderr:
+        if proc.stderr or proc.returncode != 0:
             logger.error(proc.stderr.decode("utf-8"))
             raise JobFailError(f"Command {cmd} failed")
         if proc.stdout:
-- 
2.43.0


From 5d33af47c7e326683c0a466a98a09b52c5012cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 045/107] fix: the external directories of a run are recorded
 in its metadata

---
 seyfert/main/task_runners.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 31ba611..7dec272 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -524,6 +524,7 @@ class ForecastRunner:
                 logger.info(f'Task {name} is absent')
                 if task.external_dir is not None:
                     ext_dirs[name] = task.external_dir
+                    self.external_dirs[name] = str(task.external_dir)
 
         self.workspace.symlinkToExternalDirs(ext_dirs=ext_dirs, src_relative_to_rundir=True)
     
-- 
2.43.0


From a753aa66f7ed3a2c766a23ec7d837fc88e6787be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:10 +0000
Subject: [PATCH 046/107] fix: the recorded duration of runs longer than a day

---
 seyfert/main/task_runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 7dec272..a4b2c67 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -607,7 +607,7 @@ class ForecastRunner:
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
-            duration = fm.string_time_format((self.end_datetime - self.start_datetime).seconds)
+            duration = fm.string_time_format((self.end_datetime - self.start_datetime).total_seconds())
             self.metadata.update({
                 "start_time": fm.datetime_str_format(self.start_datetime, hour_sep=':'),
                 "end_time": fm.datetime_str_format(self.end_datetime, hour_sep=':'),
-- 
2.43.0


From 69475437c4f125f8d7f761cebb802621caac4bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 047/107] fix: the input data directory given on the command
 line is used by all of the runs

---
 seyfert/main/orchestration.py | 9 +++++++--
 seyfert/main/seyfert_core.py  | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 85be104..910a230 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -163,7 +163,9 @@ def do_multiple_new_seyfert_runs(pmm_dirs: "List[Union[str, Path]]", configs: "D
 
 def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
                        use_fisher_as_id=True, use_angular_as_id=True) -> "str":
-    input_data_dir = fsu.default_seyfert_input_data_dir()
+    input_data_dir = args.input_data_dir
+    if input_data_dir is None:
+        input_data_dir = fsu.default_seyfert_input_data_dir()
 
     fcfg = Path(keyval_args['fcfg'])
     fcfg_id, _, _ = gu.split_run_id(fcfg.stem)
@@ -225,9 +227,12 @@ def do_multiple_seyfert_runs_on_existing_rundirs(args: "argparse.Namespace", inp
 def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[str, Path]"):
     ws = WorkSpace(rundir)
     input_files = ws.theInputFilesDict()
+    input_data_dir = args.input_data_dir
+    if input_data_dir is None:
+        input_data_dir = fsu.default_seyfert_input_data_dir()
     keyval_args = {
         'rd': ws.run_dir,
-        'i': fsu.default_seyfert_input_data_dir(),
+        'i': input_data_dir,
         'fcfg': ws.run_dir / input_files['forecast'],
         'pmm_cfg': ws.run_dir / input_files['PowerSpectrum'],
         'cl_cfg': ws.run_dir / input_files['Angular'],
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index ce7e70e..cd1ea76 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -222,7 +222,7 @@ def submit_batch_jobs(args_dict, forecast_configs):
         logs_path.mkdir(exist_ok=True, parents=True)
 
         logger.info(f"Submitting run with forecast config {fcfg_file.name}")
-        fcfg = ForecastConfig(input_file=fcfg_file, input_data_dir=fsu.default_seyfert_input_data_dir())
+        fcfg = ForecastConfig(input_file=fcfg_file, input_data_dir=args_dict['input_data_dir'])
         bsub_opts = compute_bsub_options(args_dict, fcfg)
         bsi.setOptions(**bsub_opts)
         arguments = {}
-- 
2.43.0


From 97fe86b55e550d8501ce91da21e0b3fcaa294753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 048/107] fix: run folders are collected by their identifier,
 not by whatever it is a prefix of

---
 seyfert/main/orchestration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 910a230..d3b1ec7 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -9,6 +9,7 @@ import json
 import time
 import subprocess
 
+from seyfert import VERSION
 from seyfert.utils import general_utils as gu
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
@@ -258,7 +259,7 @@ def collect_rundirs(workdir: "Path", run_ids: "List[str]") -> "List[Path]":
     rundirs = []
     for x in workdir.iterdir():
         if x.is_dir():
-            if any(x.name.startswith(run_id) for run_id in run_ids):
+            if gu.split_run_id(x.name)[0] in run_ids or x.name in [f"{run_id}_{VERSION}" for run_id in run_ids]:
                 rundirs.append(x)
 
     return rundirs
-- 
2.43.0


From 56aaf2459d5e66f2084d4b26ce15ededbb91d21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 049/107] fix: configuration folders with several files or with
 none are refused

---
 seyfert/main/orchestration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index d3b1ec7..7a5e15c 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -51,13 +51,12 @@ def get_configs(cfg_dir: "Union[str, Path]") -> "Dict":
     configs = {}
     for subdir in filter(lambda x: x.is_dir(), Path(cfg_dir).iterdir()):
         name = subdir.name
-        content = list(subdir.iterdir())
         if name == 'fcfg':
             configs['fcfg'] = list(subdir.glob("*.json"))
         elif name == 'fish_cfg' or name == 'cl_cfg':
             configs[name] = list(subdir.glob("*.json"))
         else:
-            configs[name] = content[0]
+            configs[name] = fsu.get_file_from_dir_with_pattern(subdir, "*.json")
 
     with open(cfg_dir / 'external_dirs.json', mode='r') as jsf:
         configs['ext_dirs'] = json.load(jsf)
-- 
2.43.0


From 31993073f33f36a09b38af3950b88fdf6c8869fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:44 +0000
Subject: [PATCH 050/107] fix: blank lines in lists of paths do not stand for
 the working directory

---
 seyfert/config/cmd_line.py    | 3 ++-
 seyfert/main/orchestration.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/config/cmd_line.py b/seyfert/config/cmd_line.py
index 96891ae..5a64394 100644
--- a/seyfert/config/cmd_line.py
+++ b/seyfert/config/cmd_line.py
@@ -230,7 +230,8 @@ def get_paths_from_files_list(paths_list: "List[Union[str, Path]]") -> "List[Pat
     if all(Path(path).suffix == '.txt' for path in paths_list):
         logger.info("paths list contains only txt files")
         for file in paths_list:
-            resulting_paths.extend([Path(line.strip()) for line in Path(file).read_text().splitlines()])
+            resulting_paths.extend([Path(line.strip()) for line in Path(file).read_text().splitlines()
+                                    if line.strip()])
     else:
         logger.info("neither all json nor all txt, returning the entered list of paths")
         resulting_paths = [Path(path) for path in paths_list]
diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 7a5e15c..f82db35 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -76,7 +76,7 @@ def get_pmm_dirs(args: "argparse.Namespace") -> "List":
         elif pmms.is_file():
             if not pmms.name.endswith('txt'):
                 raise Exception(f"Invalid powerspectra file format {pmms.name}, it must have txt extension")
-            pmm_dirs = [Path(line) for line in pmms.read_text().splitlines()]
+            pmm_dirs = [Path(line.strip()) for line in pmms.read_text().splitlines() if line.strip()]
             for pmm_dir in pmm_dirs:
                 if not pmm_dir.exists():
                     raise FileNotFoundError(pmm_dir)
-- 
2.43.0


From 4e7f73a65fce54b67dac6049e23b6ef19224f5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 051/107] fix: the given power spectrum directory is linked to
 the run folder

---
 seyfert/main/seyfert_core.py | 5 +++--
 seyfert/seyfert.py           | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index cd1ea76..b12f5fb 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -48,12 +48,13 @@ def prepare_workspace(args_dict):
                            phys_pars=fcfg.phys_pars, 
                            input_data_dir=input_data_dir)
 
+    ext_dirs = {}
     pmm_dir = args_dict.get('powerspectrum_dir')
     if pmm_dir is None:
         pmm_dir = ws.run_dir/"PowerSpectrum"
         pmm_dir.mkdir(exist_ok=True)
-
-    ext_dirs = {}
+    else:
+        ext_dirs["PowerSpectrum"] = Path(pmm_dir)
     cldir = args_dict.get('angular_dir')
     derdir = args_dict.get('derivative_dir')
     if cldir is not None:
diff --git a/seyfert/seyfert.py b/seyfert/seyfert.py
index 85d9aa6..893d72c 100644
--- a/seyfert/seyfert.py
+++ b/seyfert/seyfert.py
@@ -74,11 +74,13 @@ class Seyfert:
         self.ws.createInputFilesDir(src_input_files=src_input_files,
                                     phys_pars=self.fcfg.phys_pars,
                                     input_data_dir=input_data_dir)
+        ext_dirs = {}
         pmm_dir = self.args_dict.get('powerspectrum_dir')
         if pmm_dir is None:
             pmm_dir = self.ws.run_dir/"PowerSpectrum"
             pmm_dir.mkdir(exist_ok=True)
-        ext_dirs = {}
+        else:
+            ext_dirs["PowerSpectrum"] = Path(pmm_dir)
         cldir = self.args_dict.get('angular_dir')
         derdir = self.args_dict.get('derivative_dir')
         if cldir is not None:
-- 
2.43.0


From 27afdf7dab42d8bd7ec61aca51c68dbbe2aed50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 052/107] fix: jobs of users whose name is not made of lower
 case letters only are recognised

---
 seyfert/main/bsub_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 8fcf977..04f5cee 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -27,16 +27,16 @@ def count_down(t):
 class BsubInterface:
     _bjobs_out_regex_dict = {
         "JOBID": r"([0-9]+)",
-        "USER": r"([a-z]+)",
+        "USER": r"(\S+)",
         "STAT": r"([A-Z]+)",
-        "QUEUE": r"([a-z]+)",
-        "FROM_HOST": r"([a-z0-9\.]+)",
-        "EXEC_HOST": r"([a-z0-9\.\*]+)",
+        "QUEUE": r"(\S+)",
+        "FROM_HOST": r"(\S+)",
+        "EXEC_HOST": r"(\S+)",
         "JOB_NAME": r"(.*\-)",
         "SUBMIT_TIME": r"([a-zA-Z]{3}\s+[0-9]+\s+[0-9]+:[0-9]+)"
     }
     _bsub_out_regex = re.compile(r"Job <([0-9]+)> is submitted to")
-    _basic_bjobs_out_regex = re.compile(r"([0-9]+)\s+([a-z]+)\s+([A-Z]+)", re.MULTILINE)
+    _basic_bjobs_out_regex = re.compile(r"^\s*([0-9]+)\s+(\S+)\s+([A-Z]+)", re.MULTILINE)
 
     def __init__(self):
         self.regex_bjobs_out = re.compile(r"\s+".join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
-- 
2.43.0


From 43567885e0d21b8584c7b06a49a0b3b406bef676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:13 +0000
Subject: [PATCH 053/107] fix: values of the CAMB settings which contain an
 equal sign are read

---
 seyfert/cosmology/boltzmann_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/boltzmann_solver.py b/seyfert/cosmology/boltzmann_solver.py
index 0016a5a..a14d0e0 100644
--- a/seyfert/cosmology/boltzmann_solver.py
+++ b/seyfert/cosmology/boltzmann_solver.py
@@ -169,7 +169,7 @@ class CAMBBoltzmannSolver(ExternalBoltzmannSolver):
 
     @staticmethod
     def readCAMBIniFileToDict(ini_file: "Union[str, Path]") -> "Dict[str, str]":
-        param_line_regex = re.compile('^([^#].*)=(.*)$')
+        param_line_regex = re.compile('^([^#=][^=]*)=(.*)$')
         lines = [line.strip() for line in Path(ini_file).read_text().splitlines()]
         entries = {}
         for line in lines:
-- 
2.43.0


From b2aca5ea10604fab52bdab818251fc9ae123003d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 054/107] fix: matter power spectra are computed before the
 growth factor which is taken from them

---
 bin/compute_pmm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/compute_pmm b/bin/compute_pmm
index ca20687..f1c4f83 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -40,8 +40,8 @@ def main(args_dict):
 
     cosmology = Cosmology(params=phys_pars.cosmological_parameters, flat=phys_pars.is_universe_flat,
                           z_grid=power_spectrum_config.z_grid, model_name='CPL')
-    cosmology.evaluateOverRedshiftGrid()
     cosmology.evaluatePowerSpectrum(workdir, power_spectrum_config)
+    cosmology.evaluateOverRedshiftGrid()
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
     cosmology.saveToHDF5(p_mm_file)
-- 
2.43.0


From 3b24aeba02001ef0ee29d7cdc904bdbd7160f4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 055/107] fix: the growth factor of files older than 1.1.0 is
 kept

---
 seyfert/file_io/retro_comp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seyfert/file_io/retro_comp.py b/seyfert/file_io/retro_comp.py
index 36bca7d..7ff71eb 100644
--- a/seyfert/file_io/retro_comp.py
+++ b/seyfert/file_io/retro_comp.py
@@ -53,6 +53,7 @@ def read_v104_cosmo_file(file) -> "Cosmology":
     cosmo.power_spectrum = pmm
     cosmo.dimensionless_hubble_array = Ez
     cosmo.dimensionless_comoving_distance_array = rz
+    cosmo.growth_factor_z = growth_factor
 
     return cosmo
 
-- 
2.43.0


From 6cb42cb75ed163d274509739c5b1eca21cf60636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 056/107] fix: versions of runs with several digits or made by
 development versions are recognised

---
 seyfert/utils/run_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/run_loader.py b/seyfert/utils/run_loader.py
index 8a3e0fd..573ef0f 100644
--- a/seyfert/utils/run_loader.py
+++ b/seyfert/utils/run_loader.py
@@ -80,7 +80,7 @@ class RunLoader:
                 self.metadata = json.load(jsf)
         except FileNotFoundError:
             logger.warning('metadata not found, skipping')
-        vregex = re.compile(r'([0-9]\.[0-9]\.[0-9][a-z]?)(dev)?')
+        vregex = re.compile(r'([0-9]+\.[0-9]+\.[0-9]+(?:(?!dev)[a-z])?)(dev)?')
         self.version = vregex.search(self.run_dir.name).groups()[0]
 
     def loadConfigs(self):
-- 
2.43.0


From 8c8850e32a8964c814618360b18b20c87dceb1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 057/107] fix: bias parameters of bin ten and higher, and
 products with a bias, get their own TeX name

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index c684c47..ae6be02 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -5,7 +5,7 @@ import copy
 
 class TeXTranslator:
     def __init__(self):
-        self.bias_regex = re.compile("bg(ph|sp)([0-9])")
+        self.bias_regex = re.compile("bg(ph|sp)([0-9]+)$")
         self.probe_regex = re.compile(r"(WL|GCph|GCsp)")
         self.column_name_regex = re.compile(r" (FoM|Omm|Omb|h|ns|sigma8|w0|wa) ")
         self.probe_name_to_tex = {
-- 
2.43.0


From 088bd33b2e9d53ca17a7625d47418d15eac3a8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 058/107] fix: the TeX name of a single probe is translated
 back

---
 seyfert/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/tex_utils.py b/seyfert/utils/tex_utils.py
index ae6be02..b3dec05 100644
--- a/seyfert/utils/tex_utils.py
+++ b/seyfert/utils/tex_utils.py
@@ -61,7 +61,7 @@ class TeXTranslator:
 
     def ProbeTeXToName(self, tex_name: str) -> str:
         if '+' not in tex_name:
-            name = self.probe_name_to_tex[tex_name]
+            name = self.probe_tex_to_name[tex_name]
         else:
             probes = [self.probe_tex_to_name[p.strip()] for p in tex_name.split('+')]
             name = r'+'.join(probes)
-- 
2.43.0


From 02c48aa39ee696ee471f5ec9d939867e92ec9f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 059/107] fix: derivatives of a run are loaded (the function
 which shortens their names had gone)

---
 seyfert/utils/run_loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/run_loader.py b/seyfert/utils/run_loader.py
index 573ef0f..7cf197f 100644
--- a/seyfert/utils/run_loader.py
+++ b/seyfert/utils/run_loader.py
@@ -21,6 +21,7 @@ from seyfert.config.main_config import MainConfig
 from seyfert.fisher.fisher_matrix import FisherMatrix
 from seyfert.fisher.fisher_results import FisherResultsCollector
 from seyfert.utils.formatters import datetime_str_format
+from seyfert.utils.shortcuts import ClKey
 from seyfert.file_io import retro_comp
 
 logger = logging.getLogger(__name__)
@@ -142,7 +143,7 @@ class RunLoader:
             dcl_data = retro_comp.read_dcl_file(file)
             self.dcls[dvar] = {}
             for cl_key in dcl_data:
-                short_key = c_ells.cl_key_long_to_short(cl_key)
+                short_key = ClKey(cl_key).toShortKey().key
                 self.dcls[dvar][short_key] = dcl_data[cl_key]
 
     def loadFishers(self):
-- 
2.43.0


From 2958b9f484713896eb83272fd77acfcb636a685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 060/107] fix: durations which round up to a whole second are
 not printed with 1000 milliseconds

---
 seyfert/utils/formatters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seyfert/utils/formatters.py b/seyfert/utils/formatters.py
index 69c1d33..20648e6 100644
--- a/seyfert/utils/formatters.py
+++ b/seyfert/utils/formatters.py
@@ -21,6 +21,7 @@ def time_format(dt: "float") -> "Tuple":
     The function returns a tuple of integers: (h, m, s)
     :param dt: A time interval in seconds
     """
+    dt = round(dt, 6)
     hours, remainder = divmod(int(dt), 3600)
     mins, secs = divmod(remainder, 60)
     millisecs = round(1000*(dt - int(dt)), 3)
-- 
2.43.0


From 5e26b607ff4dcda1667b4e9a641fe0d5d8515536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 061/107] fix: negative differences are printed with a single
 minus sign

---
 seyfert/notebook_helpers/table_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 7f22ac4..80fec39 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -90,7 +90,7 @@ def get_latex_row(row: "pd.Series", float_fmt="%.4f", ref_fom=None):
     # Add delta fom if ref fom is given, else put double dash
     if ref_fom is not None:
         delta_fom = 100 * (row.loc['FoM'] - ref_fom) / ref_fom
-        str_delta_fom = r"+%.2f\%%" % delta_fom if delta_fom > 0 else r"-%.2f\%%" % delta_fom
+        str_delta_fom = r"%+.2f\%%" % delta_fom
         latex_row += f"{str_delta_fom} & "
     else:
         latex_row += "-- & "
-- 
2.43.0


From 15bca3e65dc77a560ce5a3900536359d5610d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 062/107] fix: rows of tables without the number of bins keep
 their first error

---
 seyfert/notebook_helpers/table_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 80fec39..8f9d28f 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -95,7 +95,7 @@ def get_latex_row(row: "pd.Series", float_fmt="%.4f", ref_fom=None):
     else:
         latex_row += "-- & "
     # Add relative marg errors
-    latex_row += " & ".join([f"{float_fmt}" % el for el in row[3:]])
+    latex_row += " & ".join([f"{float_fmt}" % el for el in row.drop(["nbins", "fisher", "FoM"], errors="ignore")])
     latex_row += r" \\"
     latex_row = transl.translateToTeX(latex_row)
 
-- 
2.43.0


From 500e5e14dd207a89c53a11fd2b0fbcf42313ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 063/107] fix: differences of a part of a table only concern
 its own Fisher matrices

---
 seyfert/notebook_helpers/table_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/notebook_helpers/table_helpers.py b/seyfert/notebook_helpers/table_helpers.py
index 8f9d28f..02bf4ed 100644
--- a/seyfert/notebook_helpers/table_helpers.py
+++ b/seyfert/notebook_helpers/table_helpers.py
@@ -229,7 +229,7 @@ def compute_percentage_differences_table(df: "pd.DataFrame", ref_fisher: "str",
                                          minuend_fishers: "Iterable[str]" = None) -> "pd.DataFrame":
     if minuend_fishers is None:
         if isinstance(df.index, pd.MultiIndex):
-            minuend_fishers = df.index.levels[0]
+            minuend_fishers = df.index.unique(level=0)
         else:
             raise Exception("Cannot infer minuend fishers for with no multi-index")
 
@@ -248,7 +248,7 @@ def compute_simple_differences_table(df: "pd.DataFrame", ref_fisher: "str",
                                      minuend_fishers: "Iterable[str]" = None) -> "pd.DataFrame":
     if minuend_fishers is None:
         if isinstance(df.index, pd.MultiIndex):
-            minuend_fishers = df.index.levels[0]
+            minuend_fishers = df.index.unique(level=0)
         else:
             raise Exception("Cannot infer minuend fishers for with no multi-index")
 
-- 
2.43.0


From dcd9a2a1567b9208e345a7d36d586c6b1033eb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 064/107] fix: resources of jobs run after 2021 are tabulated

---
 seyfert/main/bsub_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 04f5cee..f6ce902 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -184,7 +184,7 @@ class BsubInterface:
                 break
 
     def getResourceUsageTable(self, out_files_dir: "Path"):
-        outname_regex = re.compile(r"^out_(.*)_202[0-1]")
+        outname_regex = re.compile(r"^out_(.*)_\d{4}-\d{2}-\d{2}T\d{2}-\d{2}-\d{2}$")
         regexps = {
             "cpu_time_s": re.compile(r"CPU time\s*:\s+([0-9\.]+)"),
             "max_mem_MB": re.compile(r"Max Memory\s*:\s+([0-9\.]+)"),
-- 
2.43.0


From 3f323c270fec95f0cffc8aa1eace22d4236ddc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 065/107] fix: jobs which last longer than a day are reported
 with their whole duration

---
 seyfert/main/bsub_utils.py   | 2 +-
 seyfert/main/report_maker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index f6ce902..c41e0be 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -201,7 +201,7 @@ class BsubInterface:
             row = {
                 "fisher": fisher,
                 "start_time": start_time, "end_time": end_time,
-                "duration_s": (end_time - start_time).seconds
+                "duration_s": (end_time - start_time).total_seconds()
             }
             row.update({key: float(pattern.search(text).groups()[0]) for key, pattern in regexps.items()})
             rows.append(row)
diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 1b83691..b9ee619 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -116,7 +116,7 @@ class JobReport:
                 tf_string = self.convertDateTimeString(tf_string)
                 times['tf'] = datetime.datetime.strptime(tf_string, '%Y %b %d %H:%M:%S')
         try:
-            execution_time_secs = (times['tf'] - times['ti']).seconds
+            execution_time_secs = (times['tf'] - times['ti']).total_seconds()
         except KeyError:
             execution_time_secs = 0
         return execution_time_secs
-- 
2.43.0


From 29d071044a81d1ac03bd8187f8bdaf9f219defaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 066/107] fix: waiting for a time which is not a whole number
 of seconds comes to an end

---
 seyfert/main/bsub_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index c41e0be..45ccfb9 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -19,8 +19,8 @@ class ExitedBatchJobError(Exception):
 
 
 def count_down(t):
-    while t:
-        time.sleep(1)
+    while t > 0:
+        time.sleep(min(t, 1))
         t -= 1
 
 
-- 
2.43.0


From 2a212cebf13266117e99c518c3609eabeedcf682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 067/107] fix: the report of a run with a job without error
 file is written

---
 seyfert/main/report_maker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index b9ee619..0b63e28 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -59,7 +59,7 @@ class JobReport:
             if self.status != NOT_EXECUTED_STRING:
                 job_report_string += f'- Core Dump: {self.core_dumped}\n'
                 job_report_string += f'- Errfile Path: {self.err_file}\n'
-                err_content = self.err_file.read_text()
+                err_content = self.err_file.read_text() if self.err_file is not None else ""
                 if err_content:
                     job_report_string += f'- Errfile Content: \n{err_content}\n'
         job_report_string += '\n'
-- 
2.43.0


From 4b373a0a9fcd0b912c4360402f4a53e576609e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 068/107] fix: the report of a run with a stage without jobs is
 written

---
 seyfert/main/report_maker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 0b63e28..5eee3c9 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -167,7 +167,7 @@ class TaskReportMaker:
             self.mean_exec_time += job_report.execution_time_secs
             self.total_output_size_MB += job_report.output_size_MB
         self.n_jobs = len(self.job_reports)
-        self.mean_exec_time /= self.n_jobs
+        self.mean_exec_time /= max(self.n_jobs, 1)
         if all([x.job_id is not None for x in self.job_reports]):
             self.job_reports.sort(key=lambda x: x.job_id)
 
-- 
2.43.0


From ae973aa9c78a43f0cafc806319492370903cd156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 069/107] fix: the full table of batch jobs includes the jobs
 whose name does not end with a dash

---
 seyfert/main/bsub_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 45ccfb9..a39b47f 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -32,14 +32,14 @@ class BsubInterface:
         "QUEUE": r"(\S+)",
         "FROM_HOST": r"(\S+)",
         "EXEC_HOST": r"(\S+)",
-        "JOB_NAME": r"(.*\-)",
+        "JOB_NAME": r"(.*\S)",
         "SUBMIT_TIME": r"([a-zA-Z]{3}\s+[0-9]+\s+[0-9]+:[0-9]+)"
     }
     _bsub_out_regex = re.compile(r"Job <([0-9]+)> is submitted to")
     _basic_bjobs_out_regex = re.compile(r"^\s*([0-9]+)\s+(\S+)\s+([A-Z]+)", re.MULTILINE)
 
     def __init__(self):
-        self.regex_bjobs_out = re.compile(r"\s+".join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
+        self.regex_bjobs_out = re.compile(r"^\s*" + r"\s+".join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
         self.bsub_opts = {
             "-P": "c7",
             "-q": "medium",
-- 
2.43.0


From 0a87c7be9df036e67a4116af8a4ba270491ef0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:39 +0000
Subject: [PATCH 070/107] fix: in-process forecasts vary the parameters at
 their own steps instead of always fourteen

---
 seyfert/main/cl_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/cl_core.py b/seyfert/main/cl_core.py
index 6886c6f..5973316 100644
--- a/seyfert/main/cl_core.py
+++ b/seyfert/main/cl_core.py
@@ -83,7 +83,7 @@ def compute_cls_variations(dvar: "str", fid_cls, ws, phys_pars, densities, forec
                            pmm_cfg=None, compute_pmm=False,
                            fiducial_cosmology=None) -> "Dict[int, AngularCoefficientsCollector]":
     cl_coll_variations = {0: fid_cls}
-    for step in np.r_[-7:0, 1:8]:
+    for step in phys_pars.stem_steps:
         logger.info(f"dvar {dvar}, step {step}")
         phys_pars.updatePhysicalParametersForDvarStep(dvar=dvar, step=step)
         if not compute_pmm:
-- 
2.43.0


From a001b4257ffe995f0389835d8fae6f2824c51c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 071/107] fix: in-process forecasts with voids give their bias
 the fiducial cosmology it needs

---
 seyfert/main/seyfert_core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index b12f5fb..aeda7db 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -87,7 +87,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
 
     if not fid_cl_file.is_file():
         fid_cls = cl_core.compute_cls(cosmology=fid_cosmo, phys_pars=phys_pars, densities=densities,
-                                      forecast_config=fcfg, angular_config=main_configs['Angular'])
+                                      forecast_config=fcfg, angular_config=main_configs['Angular'],
+                                      fiducial_cosmology=fid_cosmo)
         fid_cl_file.parent.mkdir(exist_ok=True, parents=True)
         fid_cls.saveToHDF5(fid_cl_file)
     else:
-- 
2.43.0


From 5b9707db4232c7a74b870d344d26b93233d867f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 072/107] fix: final results fix, in each Fisher matrix, the
 parameters it has beyond those of the cosmology

---
 seyfert/fisher/final_results_core.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/seyfert/fisher/final_results_core.py b/seyfert/fisher/final_results_core.py
index 722e288..7488edb 100644
--- a/seyfert/fisher/final_results_core.py
+++ b/seyfert/fisher/final_results_core.py
@@ -65,13 +65,9 @@ def create_results_for_cosmology(fisher_matrices, cosmology, params, post_fisher
         name: fiducial for name, fiducial in params.free_cosmo_pars_fiducials.items()
         if name in free_params_names
     }
-    fixed_cosmo_pars = {
-        name: fiducial for name, fiducial in params.free_cosmo_pars_fiducials.items()
-        if name not in free_params_names
-    }
 
     for fisher_name in Fs:
-        Fs[fisher_name].fixParameters(set(fixed_cosmo_pars))
+        Fs[fisher_name].fixParameters(set(Fs[fisher_name].cosmological_parameters) - set(free_cosmo_pars))
 
     if fix_nuisance:
         for fisher_name in Fs:
-- 
2.43.0


From d192a046a38670552846b65d6447a18c486e2d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:11 +0000
Subject: [PATCH 073/107] fix: a run interrupted while computing the
 derivatives can be continued

---
 seyfert/main/seyfert_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index aeda7db..e6dd65a 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -99,9 +99,9 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
 
 def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities, fid_cls):
     cl_ders_file = ws.der_dir / "cl_ders.pickle"
-    if not ws.der_dir.is_dir():
-        ws.der_dir.mkdir()
-        cl_ders_file = ws.der_dir / "cl_ders.pickle"
+    # derivatives of another run are only read, those of an interrupted run are computed again
+    if not ws.der_dir.is_symlink() and not cl_ders_file.is_file():
+        ws.der_dir.mkdir(exist_ok=True)
 
         data = {
             "fid_cls": fid_cls,
-- 
2.43.0


From 20c808a703e06ba61a3e77142dc24f411d44f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:26 +0000
Subject: [PATCH 074/107] fix: files of an interrupted run are either complete
 or absent when it is continued

---
 seyfert/main/seyfert_core.py      | 14 +++++++++-----
 seyfert/utils/filesystem_utils.py | 12 ++++++++++++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index e6dd65a..630ed2f 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -74,7 +74,8 @@ def compute_densities(ws, fcfg, fid_cosmo):
             densities[probe].evaluate(z_grid=fid_cosmo.z_grid)
             densities[probe].evaluateSurfaceDensity()
 
-        redshift_density.save_densities_to_file(densities=densities, file=ws.niz_file)
+        with fsu.complete_file(ws.niz_file) as tmp_file:
+            redshift_density.save_densities_to_file(densities=densities, file=tmp_file)
     else:
         densities = redshift_density.load_densities_from_file(file=ws.niz_file)
 
@@ -90,7 +91,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
                                       forecast_config=fcfg, angular_config=main_configs['Angular'],
                                       fiducial_cosmology=fid_cosmo)
         fid_cl_file.parent.mkdir(exist_ok=True, parents=True)
-        fid_cls.saveToHDF5(fid_cl_file)
+        with fsu.complete_file(fid_cl_file) as tmp_file:
+            fid_cls.saveToHDF5(tmp_file)
     else:
         fid_cls = c_ells.AngularCoefficientsCollector.fromHDF5(fid_cl_file)
 
@@ -128,8 +130,9 @@ def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densiti
         logger.info("")
         logger.info(f"Cl derivatives total elapsed time: {formatters.string_time_format(tf - ti)}")
 
-        with open(cl_ders_file, mode="wb") as f:
-            pickle.dump(ders_dict, f)
+        with fsu.complete_file(cl_ders_file) as tmp_file:
+            with open(tmp_file, mode="wb") as f:
+                pickle.dump(ders_dict, f)
     else:
         with open(cl_ders_file, mode="rb") as f:
             ders_dict = pickle.load(f)
@@ -177,7 +180,8 @@ def do_forecast(args_dict, logfile):
         delta_cls = cl_core.DeltaClCollection.fromHDF5(ws.delta_cls_file)
     else:
         delta_cls = cl_core.compute_delta_cls(ws)
-        delta_cls.saveToHDF5(ws.delta_cls_file)
+        with fsu.complete_file(ws.delta_cls_file) as tmp_file:
+            delta_cls.saveToHDF5(tmp_file)
 
     compute_fishers(ws=ws, fcfg=fcfg, phys_pars=phys_pars, delta_cls=delta_cls, ders_dict=ders_dict)
 
diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index ccf0b22..32c2172 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -1,4 +1,5 @@
 from typing import Tuple, Dict, Union
+import contextlib
 import re
 import json
 import os
@@ -137,6 +138,17 @@ def get_fisher_jobdir_name_from_dvar1_dvar2(dvar1: str, dvar2: str) -> "str":
     return f'{dvar1}__{dvar2}'
 
 
+@contextlib.contextmanager
+def complete_file(file: "Union[str, Path]"):
+    """Gives the path of a temporary file to write, which takes the place of the file only once it is complete."""
+    file = Path(file)
+    tmp_file = file.with_name(f".{file.name}.part")
+    if tmp_file.exists():
+        tmp_file.unlink()
+    yield tmp_file
+    os.replace(tmp_file, file)
+
+
 def get_file_from_dir_with_pattern(directory: Path = None, pattern: str = None):
     candidates = list(directory.glob(pattern))
     if len(candidates) != 1:
-- 
2.43.0


From 90edf15fa598828f0b46ab16f0e1394f46337a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 075/107] fix: a Fisher matrix whose writing was interrupted is
 computed again

---
 seyfert/main/fisher_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/fisher_core.py b/seyfert/main/fisher_core.py
index d227bbb..d78b89d 100644
--- a/seyfert/main/fisher_core.py
+++ b/seyfert/main/fisher_core.py
@@ -6,6 +6,7 @@ from typing import Dict, List
 from seyfert.fisher.fisher_evaluator import FisherEvaluator
 from seyfert.fisher.datavector import ClDataVector
 from seyfert.fisher.fisher_matrix import FisherMatrix
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils.workspace import WorkSpace
 from seyfert.cosmology.parameter import PhysicalParametersCollection
 from seyfert.fisher.delta_cl import DeltaClCollection
@@ -89,7 +90,8 @@ def compute_and_save_fishers(brief_str_data_vectors, outdir, ws: "WorkSpace",
             fisher_matrix = compute_fisher_matrix(data_vector, ws, phys_pars, delta_cls, dcoll_dvar_dict)
             fishers.append(fisher_matrix)
             logger.info(f"Writing output file {output_file.name}")
-            fisher_matrix.writeToFile(outfile=output_file)
+            with fsu.complete_file(output_file) as tmp_file:
+                fisher_matrix.writeToFile(outfile=tmp_file)
 
         logger.info("# Done")
         logger.info(f"{'#' * 60}")
-- 
2.43.0


From 392f49fb2d41ec05da40d35b432af8c4bc1dbcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 076/107] fix: a run interrupted while its Fisher matrices or
 results are written can be continued

---
 seyfert/main/seyfert_core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 630ed2f..45523e8 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -156,7 +156,7 @@ def compute_fishers(ws, fcfg, phys_pars, delta_cls, ders_dict):
 
     f_gcsp_pk = FisherMatrix.from_ISTfile(fsu.get_ist_gcsp_pk_fisher_file(fcfg.scenario))
 
-    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5")
+    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5", overwrite=True)
 
     return auto_fishers + fishers
 
@@ -185,7 +185,8 @@ def do_forecast(args_dict, logfile):
 
     compute_fishers(ws=ws, fcfg=fcfg, phys_pars=phys_pars, delta_cls=delta_cls, ders_dict=ders_dict)
 
-    create_final_results(rundir=ws.run_dir, outdir_name="final_results")
+    # the results of a previous, maybe incomplete, execution in the same directory are replaced
+    create_final_results(rundir=ws.run_dir, outdir_name="final_results", overwrite=True)
 
     shutil.copy(logfile, ws.run_dir / Path(logfile).name)
 
-- 
2.43.0


From 1f145ba6f6609bcce7d5e62ee8587671e1fe573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 077/107] fix: in-process forecasts use the cls of another run
 also if they have been computed by jobs

---
 seyfert/main/seyfert_core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 45523e8..038f54d 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -84,7 +84,11 @@ def compute_densities(ws, fcfg, fid_cosmo):
 
 def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities):
     ws.cl_dir.mkdir(exist_ok=True)
-    fid_cl_file = ws.cl_dir / "dvar_central_step_0" / "cls_fiducial.h5"
+    if ws.cl_dir.is_symlink():
+        # cls of another run are only read, whichever name they have
+        fid_cl_file = ws.getClFile(dvar="central", step=0)
+    else:
+        fid_cl_file = ws.cl_dir / "dvar_central_step_0" / "cls_fiducial.h5"
 
     if not fid_cl_file.is_file():
         fid_cls = cl_core.compute_cls(cosmology=fid_cosmo, phys_pars=phys_pars, densities=densities,
-- 
2.43.0


From cc276be1a5eac57c0f63c1d490557ba751c5458c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 078/107] fix: the angular task can be run again in an existing
 run directory

---
 seyfert/main/task_runners.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index a4b2c67..3d1d498 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -551,8 +551,9 @@ class ForecastRunner:
             z_grid = cosmo.z_grid
 
         densities = cl_core.compute_densities(probe_configs=self.forecast_config.probe_configs, z_grid=z_grid)
-        for name in densities:
-            densities[name].saveToHDF5(self.workspace.niz_file, root=name)
+        with fsu.complete_file(self.workspace.niz_file) as tmp_file:
+            for name in densities:
+                densities[name].saveToHDF5(tmp_file, root=name)
 
     def computeDeltaCls(self):
         logger.info("Computing delta cls")
-- 
2.43.0


From cd012ea773d9fe5a1494589258dff7d530737eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 079/107] fix: jobs can be executed again in their directories

---
 bin/compute_cls              | 4 +++-
 bin/compute_delta_cls        | 5 ++++-
 bin/compute_pmm              | 4 +++-
 seyfert/main/task_runners.py | 3 ++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/bin/compute_cls b/bin/compute_cls
index bfaf957..b5a0198 100755
--- a/bin/compute_cls
+++ b/bin/compute_cls
@@ -62,7 +62,9 @@ def main(args_dict):
     outfile_name = 'cl_%s.h5' % ("_".join(forecast_config.present_probes))
     outfile = workdir / outfile_name
     logger.info(f'Writing results to file {outfile}')
-    cl_collector.saveToHDF5(outfile)
+    # a file left by a previous execution is replaced
+    with fsu.complete_file(outfile) as tmp_file:
+        cl_collector.saveToHDF5(tmp_file)
     tf = time.time()
     logger.info(f'Total elapsed time: {fm.string_time_format(tf-t0)}')
 
diff --git a/bin/compute_delta_cls b/bin/compute_delta_cls
index c96b010..81de876 100755
--- a/bin/compute_delta_cls
+++ b/bin/compute_delta_cls
@@ -5,6 +5,7 @@ from pathlib import Path
 
 from seyfert.utils.workspace import WorkSpace
 from seyfert.main.cl_core import compute_delta_cls
+from seyfert.utils.filesystem_utils import complete_file
 from seyfert.utils.general_utils import configure_logger
 
 logger = logging.getLogger()
@@ -22,7 +23,9 @@ def program_options() -> "argparse.ArgumentParser":
 def main(args):
     ws = WorkSpace(args.rundir)
     delta_cls = compute_delta_cls(ws)
-    delta_cls.saveToHDF5(ws.delta_cls_file)
+    # a file left by a previous execution is replaced
+    with complete_file(ws.delta_cls_file) as tmp_file:
+        delta_cls.saveToHDF5(tmp_file)
 
 
 if __name__ == '__main__':
diff --git a/bin/compute_pmm b/bin/compute_pmm
index f1c4f83..e6cdd57 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -44,7 +44,9 @@ def main(args_dict):
     cosmology.evaluateOverRedshiftGrid()
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
-    cosmology.saveToHDF5(p_mm_file)
+    # a file left by a previous execution is replaced
+    with fsu.complete_file(p_mm_file) as tmp_file:
+        cosmology.saveToHDF5(tmp_file)
 
 
 if __name__ == '__main__':
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 3d1d498..944e676 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -559,7 +559,8 @@ class ForecastRunner:
         logger.info("Computing delta cls")
         if self.args.execution != 'no':
             delta_cls = cl_core.compute_delta_cls(self.workspace)
-            delta_cls.saveToHDF5(self.workspace.delta_cls_file)
+            with fsu.complete_file(self.workspace.delta_cls_file) as tmp_file:
+                delta_cls.saveToHDF5(tmp_file)
         else:
             logger.info('Execution is "no", skipping DeltaCls computation')
 
-- 
2.43.0


From e3e0dd7ff21fab61ec85ac4005f2c48f3d7e4b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 080/107] fix: the configuration window uses the external
 multipoles file only if it is selected

---
 seyfert/gui/interface_window.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 319a3ae..0df3a85 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -153,7 +153,7 @@ class GUIFileInterface:
         }
 
         ell_input_file = opts['ell_external_filename'].text()
-        if ell_input_file:
+        if opts['ell_external_checkbox'].isChecked() and ell_input_file:
             json_opts['ell_external_filename'] = ell_input_file
         else:
             json_opts.update({
-- 
2.43.0


From da6d03c53341ef90c54fd0a08e2d2a6395f23d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 081/107] fix: the configuration window assigns the intrinsic
 alignment parameters to their probe

---
 seyfert/gui/interface_window.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/gui/interface_window.py b/seyfert/gui/interface_window.py
index 0df3a85..73f68a0 100644
--- a/seyfert/gui/interface_window.py
+++ b/seyfert/gui/interface_window.py
@@ -204,7 +204,8 @@ class GUIFileInterface:
                     fiducial = float(opts[key].text())
                     is_free_parameter = par_name != 'cIA' and include_IA
                     par_dict = dict(name=par_name, fiducial=fiducial, kind='NuisanceParameter', units='None',
-                                    probe=probe_name, is_free_parameter=is_free_parameter)
+                                    probe=ProbeName(probe_name).toLong().name,
+                                    is_free_parameter=is_free_parameter)
                     extra_nuis_params.append(par_dict)
 
         return extra_nuis_params
-- 
2.43.0


From f9adc71adbee81fccb4f0173c1264cdfac5db501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 082/107] fix: configurations without the derivative method of
 a bias, as the window writes for voids, can be loaded

---
 seyfert/config/probe_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/probe_config.py b/seyfert/config/probe_config.py
index 92d5165..2c3d8d1 100644
--- a/seyfert/config/probe_config.py
+++ b/seyfert/config/probe_config.py
@@ -72,7 +72,7 @@ class ProbeConfig:
         if self.long_name != "Lensing":
             self.bias_init_file = self.getProbeInitFile(probe_dict["bias_file"])
             self.marginalize_bias = probe_dict["marginalize_bias_flag"]
-            self.bias_diff_method = probe_dict["bias_derivative_method"]
+            self.bias_diff_method = probe_dict.get("bias_derivative_method")
 
         self.specific_settings = probe_dict["specific_settings"]
 
-- 
2.43.0


From b346807a9ccb67ee9fb3a200298380d6c3dc35b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 083/107] fix: configurations without synthetic options, as the
 window writes, have the usual shot noise

---
 seyfert/config/forecast_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/config/forecast_config.py b/seyfert/config/forecast_config.py
index b6e9e2a..8725f58 100644
--- a/seyfert/config/forecast_config.py
+++ b/seyfert/config/forecast_config.py
@@ -62,7 +62,7 @@ class ForecastConfig:
 
     @property
     def shot_noise_sp_reduced(self) -> "bool":
-        return self.synthetic_opts["shot_noise_sp_reduced"]
+        return self.synthetic_opts.get("shot_noise_sp_reduced", False)
 
     @property
     def synthetic_opts(self) -> "Dict":
-- 
2.43.0


From 78e51a2c8eeb96581d27dfdd1ef40897e66ab517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:54 +0000
Subject: [PATCH 084/107] fix: forecasts with a configuration without synthetic
 options, as the window writes, can be run

---
 seyfert/file_io/json_io.py   | 4 ++--
 seyfert/main/seyfert_core.py | 9 ++++++---
 seyfert/main/task_runners.py | 6 +++++-
 3 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/seyfert/file_io/json_io.py b/seyfert/file_io/json_io.py
index 5e16916..c5d2824 100644
--- a/seyfert/file_io/json_io.py
+++ b/seyfert/file_io/json_io.py
@@ -44,11 +44,11 @@ class JSONForecastConfig:
 
     @property
     def scenario(self) -> "str":
-        return self.synthetic_opts["scenario"]
+        return self.synthetic_opts.get("scenario")
 
     @property
     def n_sp_bins(self) -> "int":
-        return self.synthetic_opts["n_sp_bins"]
+        return self.synthetic_opts.get("n_sp_bins")
 
     @property
     def synthetic_opts(self) -> "Dict":
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 038f54d..9032137 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -158,9 +158,12 @@ def compute_fishers(ws, fcfg, phys_pars, delta_cls, ders_dict):
                                                    outdir=ws.base_fishers_dir, ws=ws, phys_pars=phys_pars,
                                                    delta_cls=delta_cls, dcoll_dvar_dict=ders_dict)
 
-    f_gcsp_pk = FisherMatrix.from_ISTfile(fsu.get_ist_gcsp_pk_fisher_file(fcfg.scenario))
+    if fcfg.scenario is not None:
+        f_gcsp_pk = FisherMatrix.from_ISTfile(fsu.get_ist_gcsp_pk_fisher_file(fcfg.scenario))
 
-    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5", overwrite=True)
+        f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5", overwrite=True)
+    else:
+        logger.warning("Scenario not specified in the forecast configuration, GCsp(Pk) Fisher not available")
 
     return auto_fishers + fishers
 
@@ -254,7 +257,7 @@ def compute_bsub_options(args_dict, fcfg: "ForecastConfig"):
         "queue": args_dict['queue'],
         "n_cores": args_dict['n_cores_per_job']
     }
-    if n_sp_bins > 24 and bsub_opts['memory_MB'] < 1e4:
+    if n_sp_bins is not None and n_sp_bins > 24 and bsub_opts['memory_MB'] < 1e4:
         logger.warning(f"Provided memory {bsub_opts['memory_MB']} could not be enough for {n_sp_bins} GCsp bins, "
                        f"defaulting to 10GB")
         bsub_opts['memory_MB'] = 10000
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 944e676..266efed 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -316,7 +316,8 @@ class FisherTaskRunner(TaskRunner):
     def submitBatchJobs(self):
         self.clearOutput()
         # set RAM usage according to the number of GCsp bins
-        if self.forecast_config.n_sp_bins > 24:
+        n_sp_bins = self.forecast_config.n_sp_bins
+        if n_sp_bins is not None and n_sp_bins > 24:
             self.RAM_memory_MB = 10000
 
         self.bsub.setOptions(queue=self.args.queue, memory_MB=self.RAM_memory_MB, n_cores=self.args.n_cores_per_job)
@@ -601,6 +602,9 @@ class ForecastRunner:
 
     def writeGCspPkFishersTo(self, outdir: "TPathLike"):
         outdir = Path(outdir)
+        if self.forecast_config.scenario is None:
+            logger.warning("Scenario not specified in the forecast configuration, GCsp(Pk) Fisher not available")
+            return
         logger.info(f"Writing GCsp Pk IST fishers into {outdir}")
         for cosmology in ["w0_wa_CDM"]:
             file = fsu.get_ist_gcsp_pk_fisher_file(scenario=self.forecast_config.scenario, cosmology=cosmology)
-- 
2.43.0


From f185c3f52b0c463d41a0fadabff1c5b7a5b889b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 085/107] fix: the plots of the correlation matrices can be
 made

---
 seyfert/fisher/fisher_plot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index c6b06e6..6a67e3c 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -320,8 +320,8 @@ class FisherPlotter:
                 self.setPlotProperties(i, j)
 
     def makeAllCorrelationPlots(self, outdir: "Union[str, Path]" = None, close_fig: "bool" = True) -> "None":
-        for name, correlation_matrix in self.analysis.correlation_matrices.items():
-            fig, ax = self.makeSingleCorrelationPlot(name, correlation_matrix)
+        for name in self.fisher_matrices:
+            fig, ax = self.makeSingleCorrelationPlot(name)
             if outdir is not None:
                 outfile_name = f'correlation_{self.analysis.name}_{name}.pdf'
                 outfile_path = Path(outdir) / outfile_name
@@ -336,7 +336,7 @@ class FisherPlotter:
         ax = plot_utils.heatmap(corr, usetex=True, vmin=-1.0, vmax=1.0,
                                 cmap='bwr', alpha=0.9, square=True, cbar_kws={'shrink': 0.825})
 
-        ax.set_title(rf'${self.translator.ProbeNameToTeX(name)}$')
+        ax.set_title(rf'${self.translator.translateToTeX(name)}$')
 
         return fig, ax
 
-- 
2.43.0


From fa5002d281755f1a3ade81e1c0a8c4a228889ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 086/107] fix: the text box of a contour plot has the font of
 the legend and is placed on the figure

---
 seyfert/fisher/fisher_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index 6a67e3c..4141ae6 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -457,7 +457,7 @@ class FisherPlotter:
         }
         kwds.update(kwargs)
 
-        plot_utils.misc.add_text_box(pl_obj=self.figure, x=x, y=y, text=text, **kwargs)
+        plot_utils.misc.add_text_box(pl_obj=self.figure, x=x, y=y, text=text, **kwds)
 
     def setFigureTitle(self) -> "None":
         pass
-- 
2.43.0


From 09c18038ed75643325351cd15891718b4253e174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 087/107] fix: the settings passed for a plot are used, also
 without a file

---
 seyfert/fisher/fisher_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/fisher_plot.py b/seyfert/fisher/fisher_plot.py
index 4141ae6..8937c66 100644
--- a/seyfert/fisher/fisher_plot.py
+++ b/seyfert/fisher/fisher_plot.py
@@ -262,13 +262,13 @@ class FisherPlotter:
             config_file = fsu.config_files_dir() / 'results_config.json'
             logger.info(f"Using default config {config_file}")
         else:
-            if config_file is None:
+            if config_file is None and config_dict is None:
                 raise ValueError('config file path needed when not using default. If you want to use '
                                  'the default one, call this function as "setPlotConfig(use_default=True)"')
 
         self.config = FisherPlotConfig(n_cosmo_pars=self.n_cosmo_pars, config_file=config_file)
         if config_dict is not None:
-            self.config.config_dict.update(config_dict)
+            self.config.loadFromConfigDict({**(self.config.config_dict or {}), **config_dict})
 
         self.params_ticks_fmts = {name: f"%.{self.config.ticks_label_num_digits}g" for name in self.pars_to_plot}
 
-- 
2.43.0


From 5a6cdec3934e0328381f6d0727cb5c512f8cf33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 088/107] fix: the results collector makes its plots, with the
 configured parameters, settings and ranges

---
 seyfert/fisher/fisher_results.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index 910238b..1097ffe 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -5,7 +5,7 @@ import logging
 from pathlib import Path
 from seyfert.fisher.fisher_analysis import FisherAnalysis
 from seyfert.cosmology.parameter import PhysicalParametersCollection
-from seyfert.fisher.fisher_plot import FisherPlotter, FisherPlotConfig
+from seyfert.fisher.fisher_plot import FisherPlotter
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
 
@@ -103,16 +103,10 @@ class FisherResultsCollector:
         self.plotters_dict = {}
         for cosmology_name, cosmo_dict in self.cosmologies_dict.items():
             fish_analysis = self.analysis_dict[cosmology_name]
-            pars_to_plot = cosmo_dict["pars_to_plot"]
-            fisher_plot_config = FisherPlotConfig(fishers=fish_analysis.fisher_matrices,
-                                                  n_cosmo_pars=len(pars_to_plot))
-            fisher_plot_config.loadFromConfigDict(self.plot_config_dict)
-            if self.plot_ranges_file is not None:
-                fisher_plot_config.loadParameterPlotRangesFromFile(self.plot_ranges_file)
-            fisher_plotter = FisherPlotter(fisher_analysis=fish_analysis,
-                                           config=fisher_plot_config,
-                                           pars_to_plot=pars_to_plot)
-            fisher_plotter.setUpDefault()
+            fisher_plotter = FisherPlotter(fisher_analysis=fish_analysis)
+            fisher_plotter.setParamsToPlot(pars_to_plot=cosmo_dict["pars_to_plot"])
+            fisher_plotter.setPlotConfig(config_dict=self.plot_config_dict)
+            fisher_plotter.setParametersPlotRanges(ranges_file=self.plot_ranges_file)
             self.plotters_dict[cosmology_name] = fisher_plotter
 
     def writeResultsAndDoPlots(self, outdir: Union[str, Path]) -> None:
-- 
2.43.0


From 22ec62c05d89152b198daef6eb9329a0df5bf118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 089/107] fix: the results collector loads the results it wrote

---
 seyfert/fisher/fisher_results.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/fisher/fisher_results.py b/seyfert/fisher/fisher_results.py
index 1097ffe..fc6b332 100644
--- a/seyfert/fisher/fisher_results.py
+++ b/seyfert/fisher/fisher_results.py
@@ -156,11 +156,11 @@ class FisherResultsCollector:
             fish_analysis = FisherAnalysis(cosmology_name=cosmology_name)
             fish_analysis.loadBaseFishersFromDir(subdirs_dict["fishers"])
             fish_analysis.useBaseFishers()
-            errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'errors*.csv')
-            relative_errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'relative_errors*.csv')
+            errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'marginalized_errors*.csv')
+            relative_errors_file = fsu.get_file_from_dir_with_pattern(subdirs_dict["errors"], 'relative_marginalized_errors*.csv')
             fish_analysis.marginalized_errors = pd.read_csv(errors_file, index_col=0)
             fish_analysis.relative_marginalized_errors = pd.read_csv(relative_errors_file, index_col=0)
             for corr_file in subdirs_dict["correlations"].iterdir():
-                fisher_name = corr_file.stem.split('_')[-1]
+                fisher_name = corr_file.stem.rsplit('_correlation_', 1)[-1]
                 fish_analysis.fisher_matrices[fisher_name].correlation = pd.read_csv(corr_file, index_col=0)
             self.analysis_dict[cosmology_name] = fish_analysis
-- 
2.43.0


From a66b7abbb4aaa665e1823ee9b6b7022e2d3768aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 090/107] fix: the matrices of an analysis are saved under the
 names they have in it, as its tables

---
 seyfert/fisher/fisher_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 9ad7f4a..20cccc5 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -228,7 +228,9 @@ class FisherAnalysis:
     def saveFishersToDisk(self, outdir: "Union[str, Path]", overwrite=False):
         outdir = Path(outdir)
         for key in self.fisher_matrices:
-            self.fisher_matrices[key].writeToFile(outdir=outdir, overwrite=overwrite)
+            fisher = self.fisher_matrices[key].copy()
+            fisher.name = key
+            fisher.writeToFile(outdir=outdir, overwrite=overwrite)
 
     def getSubsetAnalysis(self, fisher_names: "List[str]", recompute_errs=False) -> "FisherAnalysis":
         an = copy.deepcopy(self)
-- 
2.43.0


From 56a7b50d0196502bcfe12ba40ff33975f8957aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 091/107] fix: analyses of runs with a free growth index can be
 loaded for the cosmologies in which it is fixed

---
 seyfert/fisher/fisher_analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index 20cccc5..d244e4f 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -83,9 +83,9 @@ class FisherAnalysis:
         ws = WorkSpace(rundir)
         fishers_dir = ws.getResultsDir(cosmology=cosmology, res_subdir_name=res_subdir_name)
         params = ws.getParamsCollection()
-        if cosmology == "LCDM":
-            del params["w0"]
-            del params["wa"]
+        for name in {"LCDM": ["w0", "wa", "gamma"], "w0_wa_CDM": ["gamma"]}.get(cosmology, []):
+            if name in params:
+                del params[name]
 
         an = cls.fromFishersDir(fishers_dir=fishers_dir, params=params)
         fcfg = ws.getForecastConfiguration()
-- 
2.43.0


From a52b88a4af913986f2b1a101b9c5ea0c234a7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 092/107] fix: analyses can be selected by options which are
 strings

---
 seyfert/fisher/results_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 0c2e9d8..6e15fd2 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -119,7 +119,7 @@ class ResultsCollector:
         self.analyses_df.reset_index(inplace=True)
 
     def getFisherAnalysesSubDf(self, sel_dict: "Dict", sel_fishers: "List[str]" = None) -> "pd.DataFrame":
-        query_str = " and ".join(f"{key} == {value}" for key, value in sel_dict.items())
+        query_str = " and ".join(f"{key} == {value!r}" for key, value in sel_dict.items())
         subdf = self.analyses_df.query(query_str).reset_index()
 
         if sel_fishers is not None:
-- 
2.43.0


From 492d8f1cdede32de3b90b6310c77871cd9c8001c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 093/107] fix: the options of each analysis are assigned by
 name, in whatever order its configuration has them

---
 seyfert/fisher/results_collector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 6e15fd2..43bd77d 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -67,9 +67,9 @@ class ResultsCollector:
         rows = []
         for i, ws in enumerate(self.ws_list):
             an = FisherAnalysis.fromRundir(ws.run_dir, cosmology=cosmology, res_subdir_name=res_subdir_name)
-            rows.append([*self.fcfg_list[i].synthetic_opts.values(), an])
+            rows.append({**self.fcfg_list[i].synthetic_opts, 'analysis': an})
 
-        an_df = pd.DataFrame(rows, columns=[*self.fcfg_list[0].synthetic_opts.keys(), 'analysis'])
+        an_df = pd.DataFrame(rows)
 
         return an_df
 
-- 
2.43.0


From c649249ad00b645d933daed09544688632b79569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 094/107] fix: results can be collected into a directory given
 as a string

---
 seyfert/fisher/results_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 43bd77d..7ce53ee 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -1,4 +1,5 @@
 from typing import List, Dict
+from pathlib import Path
 import pandas as pd
 import logging
 
@@ -75,7 +76,7 @@ class ResultsCollector:
 
     def collectAndDumpResults(self, outdir: "TPathLike", cosmology: "str" = "w0_wa_CDM",
                               res_subdir_name: "str" = "marg_before"):
-        out_subdir = outdir / cosmology / res_subdir_name
+        out_subdir = Path(outdir) / cosmology / res_subdir_name
         out_subdir.mkdir(exist_ok=True, parents=True)
 
         logger.info("Building marginalized errors table")
-- 
2.43.0


From d8b8217c4e330cced2ae1d1f38a1781a125e635d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 095/107] fix: the relative errors of the 4 bins equivalents
 are replaced with their matrices

---
 seyfert/fisher/results_collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 7ce53ee..5bae517 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -115,7 +115,9 @@ class ResultsCollector:
                 for fisher_name in list(an_current.fisher_matrices):
                     if "Pk" in fisher_name:
                         an_current.fisher_matrices[fisher_name] = an_4_bins.fisher_matrices[fisher_name]
-                        an_current.marginalized_errors.loc[fisher_name] = an_4_bins.marginalized_errors.loc[fisher_name]
+                        for attr_name in ["marginalized_errors", "relative_marginalized_errors"]:
+                            errs_df = getattr(an_current, attr_name)
+                            errs_df.loc[fisher_name] = getattr(an_4_bins, attr_name).loc[fisher_name]
 
         self.analyses_df.reset_index(inplace=True)
 
-- 
2.43.0


From d31442f474dfd2da6e4815f6b6bac9b9a34f7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 096/107] fix: only the runs of the requested scenario are
 loaded from a directory

---
 seyfert/notebook_helpers/load_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/notebook_helpers/load_helpers.py b/seyfert/notebook_helpers/load_helpers.py
index f783ec1..f73e690 100644
--- a/seyfert/notebook_helpers/load_helpers.py
+++ b/seyfert/notebook_helpers/load_helpers.py
@@ -39,7 +39,7 @@ def load_workspaces_for_scenario(scenario: "str", gcph_sub_flag=False,
         base_dir = Path("/Users/lucapaganin/spectrophoto/production_runs/latest")
         base_dir = base_dir / {'optm': 'optimistic', 'pess': 'pessimistic'}[scenario]
 
-    base_selection = lambda x: x.is_dir() and generic_regex.match(x.name)
+    base_selection = lambda x: x.is_dir() and generic_regex.match(x.name) and x.name.startswith(scenario)
     if not gcph_sub_flag:
         selection_func = lambda x: base_selection(x) and not gcph_sub_gcsp_regex.search(x.name)
     else:
-- 
2.43.0


From d1f60fcc30dd32c99c58eaffcc8f45fa9d231823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 097/107] fix: modifying the matrices of a subset analysis
 leaves the whole analysis unchanged

---
 seyfert/fisher/fisher_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index d244e4f..e01c61f 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -235,8 +235,8 @@ class FisherAnalysis:
     def getSubsetAnalysis(self, fisher_names: "List[str]", recompute_errs=False) -> "FisherAnalysis":
         an = copy.deepcopy(self)
 
-        an.base_fishers = gu.subset_dict(self.base_fishers, fisher_names)
-        an.fisher_matrices = gu.subset_dict(self.fisher_matrices, fisher_names)
+        an.base_fishers = gu.subset_dict(an.base_fishers, fisher_names)
+        an.fisher_matrices = gu.subset_dict(an.fisher_matrices, fisher_names)
         an.fishers_order = fisher_names
         if recompute_errs:
             an.evaluateMarginalizedErrors()
-- 
2.43.0


From 84fff8f3670b5ae2e5c1358cdc4d67437fae394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:01 +0000
Subject: [PATCH 098/107] fix: matrices whose names contain spaces are found in
 an analysis

---
 seyfert/notebook_helpers/misc.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/seyfert/notebook_helpers/misc.py b/seyfert/notebook_helpers/misc.py
index 2b397db..cfce12c 100644
--- a/seyfert/notebook_helpers/misc.py
+++ b/seyfert/notebook_helpers/misc.py
@@ -13,11 +13,10 @@ def remove_spaces(string_list: "List[str]"):
 
 
 def get_subset_analyses_for_fishers(analyses: "Dict[int, FisherAnalysis]", fisher_names: "List[str]"):
-    filter_names = remove_spaces(fisher_names)
-
-    ans = {
-        nbins: all_fish_an.getSubsetAnalysis(filter_names) for nbins, all_fish_an in analyses.items()
-    }
+    ans = {}
+    for nbins, all_fish_an in analyses.items():
+        names_map = dict(zip(remove_spaces(all_fish_an.fisher_matrices), all_fish_an.fisher_matrices))
+        ans[nbins] = all_fish_an.getSubsetAnalysis([names_map[name] for name in remove_spaces(fisher_names)])
 
     for nbins in ans:
         ans[nbins].prepareFisherMatrices()
-- 
2.43.0


From e32916d1ef70ebbc851fcab622304719214704c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:00 +0000
Subject: [PATCH 099/107] fix: subsets of analyses made from matrices in
 memory, which have no base matrices, can be taken

---
 seyfert/fisher/fisher_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_analysis.py b/seyfert/fisher/fisher_analysis.py
index e01c61f..19d6ce8 100644
--- a/seyfert/fisher/fisher_analysis.py
+++ b/seyfert/fisher/fisher_analysis.py
@@ -235,7 +235,8 @@ class FisherAnalysis:
     def getSubsetAnalysis(self, fisher_names: "List[str]", recompute_errs=False) -> "FisherAnalysis":
         an = copy.deepcopy(self)
 
-        an.base_fishers = gu.subset_dict(an.base_fishers, fisher_names)
+        if an.base_fishers is not None:
+            an.base_fishers = gu.subset_dict(an.base_fishers, fisher_names)
         an.fisher_matrices = gu.subset_dict(an.fisher_matrices, fisher_names)
         an.fishers_order = fisher_names
         if recompute_errs:
-- 
2.43.0


From 3c5a49a128bb10bc389746786d7c5844380291e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 100/107] fix: objects whose arrays have different shapes
 compare as different

---
 seyfert/utils/general_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/general_utils.py b/seyfert/utils/general_utils.py
index d73a23c..cc7be30 100644
--- a/seyfert/utils/general_utils.py
+++ b/seyfert/utils/general_utils.py
@@ -145,7 +145,7 @@ def compare_objects(obj1: "object", obj2: "object", exclude_attrs: "Set") -> boo
             except AttributeError:
                 raise AttributeError(f'obj1 {obj1} and/or {obj2} have no attribute {key}')
             if isinstance(value1, np.ndarray) or isinstance(value2, np.ndarray):
-                cond = np.all(value1 == value2)
+                cond = np.array_equal(value1, value2)
             else:
                 cond = value1 == value2
             conds.append(cond)
-- 
2.43.0


From 59960d61454a6fe2abbb3a2c94eda6f10d98d401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 101/107] fix: angular spectra with different multipoles or
 bins compare as different

---
 seyfert/cosmology/c_ells.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 71da789..1473e62 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -286,9 +286,9 @@ class AngularCoefficient:
 
     def __eq__(self, other: "AngularCoefficient") -> "bool":
         return all([
-            np.all(self.c_lij == other.c_lij),
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths),
+            np.array_equal(self.c_lij, other.c_lij),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths),
         ])
 
     def plot(self, what: "str" = "cl", axes: "np.ndarray[plt.Axes]" = None,
-- 
2.43.0


From 03fced213383cdfd5bf73187ae9501444028bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 102/107] fix: collections of different sets of angular spectra
 compare as different

---
 seyfert/cosmology/c_ells.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 1473e62..3b4df0f 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -426,7 +426,7 @@ class AngularCoefficientsCollector:
         return h5cl_coll.load(file, root)
 
     def __eq__(self, other: "AngularCoefficientsCollector") -> "bool":
-        return all([self.cl_dict[key] == other.cl_dict[key] for key in self.cl_dict])
+        return self.cl_dict == other.cl_dict
         
 
 class H5Cl(AbstractH5FileIO):
-- 
2.43.0


From 00f7c03a5e019609316b8a9e659f7c074e9d6799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 103/107] fix: power spectra on different grids, and
 cosmologies with and without one, compare as different

---
 seyfert/cosmology/power_spectrum.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/seyfert/cosmology/power_spectrum.py b/seyfert/cosmology/power_spectrum.py
index 6f33b63..871f181 100644
--- a/seyfert/cosmology/power_spectrum.py
+++ b/seyfert/cosmology/power_spectrum.py
@@ -111,12 +111,14 @@ class PowerSpectrum:
         h5pmm.closeFile()
 
     def __eq__(self, other: "PowerSpectrum") -> "bool":
+        if not isinstance(other, PowerSpectrum):
+            return NotImplemented
         return all([
-            np.all(self.z_grid == other.z_grid),
-            np.all(self.k_grid == other.k_grid),
-            np.all(self.lin_p_mm_z_k == other.lin_p_mm_z_k),
-            np.all(self.nonlin_p_mm_z_k == other.nonlin_p_mm_z_k),
-            np.all(self.transfer_function == other.transfer_function)
+            np.array_equal(self.z_grid, other.z_grid),
+            np.array_equal(self.k_grid, other.k_grid),
+            np.array_equal(self.lin_p_mm_z_k, other.lin_p_mm_z_k),
+            np.array_equal(self.nonlin_p_mm_z_k, other.nonlin_p_mm_z_k),
+            np.array_equal(self.transfer_function, other.transfer_function)
         ])
 
 
-- 
2.43.0


From 6884c7dc01eeefe65b1f43b57a8b61ffbb9b0cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 104/107] fix: weight functions on different grids or with
 different bins compare as different

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 63de82b..2b3a173 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -121,7 +121,7 @@ class WeightFunction(ABC):
         self.w_bin_z = np.zeros((self.n_bins, len(self.z_grid)))
 
     def __eq__(self, other: "WeightFunction") -> bool:
-        return np.all(self.z_grid == other.z_grid) and np.all(self.w_bin_z == other.w_bin_z)
+        return np.array_equal(self.z_grid, other.z_grid) and np.array_equal(self.w_bin_z, other.w_bin_z)
 
 
 # noinspection PyTypeChecker
-- 
2.43.0


From 6e273c829e842b39cd4acbd787e9e18e90d52d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:19 +0000
Subject: [PATCH 105/107] fix: noisy spectra with different multipoles or bins
 compare as different

---
 seyfert/fisher/delta_cl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index be0fe84..3ebb31b 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -75,10 +75,10 @@ class DeltaCl:
 
     def __eq__(self, other: "DeltaCl") -> "bool":
         return all([
-            np.all(self.delta_c_lij == other.delta_c_lij),
-            np.all(self.noise_lij == other.noise_lij),
-            np.all(self.l_bin_centers == other.l_bin_centers),
-            np.all(self.l_bin_widths == other.l_bin_widths)
+            np.array_equal(self.delta_c_lij, other.delta_c_lij),
+            np.array_equal(self.noise_lij, other.noise_lij),
+            np.array_equal(self.l_bin_centers, other.l_bin_centers),
+            np.array_equal(self.l_bin_widths, other.l_bin_widths)
         ])
 
     def computeNoise(self) -> "np.ndarray":
-- 
2.43.0


From 0ef35bbfb325c92e818fc8d802742b22e7c62061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 106/107] fix: Fisher matrices of different parameters can be
 compared

---
 seyfert/fisher/fisher_matrix.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 5fe60e9..1a2cd33 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -161,10 +161,10 @@ class FisherMatrix:
         return fisher_sum
 
     def __eq__(self, other: "FisherMatrix") -> "bool":
-        return all([np.all(self.matrix.sort_index(axis=0).sort_index(axis=1) ==
-                           other.matrix.sort_index(axis=0).sort_index(axis=1)),
-                    self.name == other.name,
-                    self.physical_parameters == other.physical_parameters])
+        if self.name != other.name or self.physical_parameters != other.physical_parameters:
+            return False
+        return bool(np.all(self.matrix.sort_index(axis=0).sort_index(axis=1) ==
+                           other.matrix.sort_index(axis=0).sort_index(axis=1)))
 
     def __repr__(self) -> "str":
         return f"{self.name}\n {repr(self.matrix)}"
-- 
2.43.0


From 6c95310d4c623dbe361a0834b1c0d1eee8341c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:46 +0000
Subject: [PATCH 107/107] fix: kernels and bias models with and without a
 weight function or cosmology can be compared

---
 seyfert/cosmology/cosmology.py        | 2 ++
 seyfert/cosmology/weight_functions.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/seyfert/cosmology/cosmology.py b/seyfert/cosmology/cosmology.py
index 29878d5..8e2e1a0 100644
--- a/seyfert/cosmology/cosmology.py
+++ b/seyfert/cosmology/cosmology.py
@@ -382,6 +382,8 @@ class Cosmology:
                 self.power_spectrum = PowerSpectrum.fromHDF5(file, root)
 
     def __eq__(self, other: "Cosmology") -> "bool":
+        if not isinstance(other, Cosmology):
+            return NotImplemented
         return all([
             self.params == other.params,
             self.model_name == other.model_name,
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 2b3a173..298c0e0 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -121,6 +121,8 @@ class WeightFunction(ABC):
         self.w_bin_z = np.zeros((self.n_bins, len(self.z_grid)))
 
     def __eq__(self, other: "WeightFunction") -> bool:
+        if not isinstance(other, WeightFunction):
+            return NotImplemented
         return np.array_equal(self.z_grid, other.z_grid) and np.array_equal(self.w_bin_z, other.w_bin_z)
 
 
-- 
2.43.0

