From c04ffb8f2e6129a20be0ad73f9c44e909f99cf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:56 +0000
Subject: [PATCH 01/39] fix: gap_statistic draws from its own generator instead
 of reseeding NumPy's global one

---
 quantfinlib/clustering/metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/metrics.py b/quantfinlib/clustering/metrics.py
index 3eda08c..ce382ef 100644
--- a/quantfinlib/clustering/metrics.py
+++ b/quantfinlib/clustering/metrics.py
@@ -70,8 +70,8 @@ def gap_statistic(
         seed = 0
     for b in range(nb):
         # Create a reference distance matrix by drawing random samples from the distance matrix
-        np.random.seed(seed + b)
-        dist_ref = np.random.uniform(0, np.max(dist), size=(n, n))
+        rng = np.random.RandomState(seed + b)
+        dist_ref = rng.uniform(0, np.max(dist), size=(n, n))
         # Make the reference distance matrix symmetric
         dist_ref = np.triu(dist_ref) + np.triu(dist_ref).T
         # Make sure the diagonal elements of reference distance matrix are zero
-- 
2.43.0


From fb619c1c79d2e10ae24a0cb83bddd945e377fd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:09 +0000
Subject: [PATCH 02/39] fix: nll, aic and bic no longer overwrite what a model
 remembers about its fit

---
 quantfinlib/sim/_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index f5e78b7..3dddbae 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -10,6 +10,7 @@ Copyright: (c) 2024 Thijs van den Berg
 License:   MIT License
 """
 
+import copy
 import math
 from abc import ABC, abstractmethod
 from typing import Any, List, Optional, Tuple, Union
@@ -435,7 +436,8 @@ class SimNllMixin:
             The computed negative log-likelihood.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        # work on a copy: scoring must not overwrite what the model remembers about its fit
+        values, dt = copy.copy(self)._preprocess_fit_x_and_dt(x, dt)
         return self._nll(values, dt)
 
     def aic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
@@ -454,7 +456,8 @@ class SimNllMixin:
             The computed Akaike Information Criterion (AIC) value.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        # work on a copy: scoring must not overwrite what the model remembers about its fit
+        values, dt = copy.copy(self)._preprocess_fit_x_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
 
@@ -473,6 +476,7 @@ class SimNllMixin:
         bic : float
             The computed Bayesian Information Criterion (BIC) value.
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
+        # work on a copy: scoring must not overwrite what the model remembers about its fit
+        values, dt = copy.copy(self)._preprocess_fit_x_and_dt(x, dt)
         num_samples = x.shape[0]
         return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
-- 
2.43.0


From 8cf45e52ca459d12c0ac6eb5a7684d4b450c86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:52 +0000
Subject: [PATCH 03/39] fix: denoising eigenvalues no longer zeroes entries of
 the caller's array

---
 quantfinlib/math/cov.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/math/cov.py b/quantfinlib/math/cov.py
index a50acd5..98041ac 100644
--- a/quantfinlib/math/cov.py
+++ b/quantfinlib/math/cov.py
@@ -373,6 +373,7 @@ def _eigen_values_denoise(
     info["fitted"] = False
     num_assets = len(eigen_values)
     if num_assets > num_timesteps:
+        eigen_values = eigen_values.copy()
         eigen_values[-(num_assets - num_timesteps):] = 0.0
     if k is None:
         # Fit the Marchenko Pastur distribution to the eigenvalues and find the noise-var shape parameter,
-- 
2.43.0


From 76b8c5f164a19e5045fccb72ef83bc45f11bbdac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:16 +0000
Subject: [PATCH 04/39] fix: simulation models keep their own copy of
 parameters and of the fitted data's end points

---
 quantfinlib/sim/_base.py | 4 ++--
 quantfinlib/sim/_bm.py   | 6 +++---
 quantfinlib/sim/_gbm.py  | 6 +++---
 quantfinlib/sim/_ou.py   | 8 ++++----
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 3dddbae..c67f07b 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -166,8 +166,8 @@ class SimBase(ABC):
         if values.ndim == 1:
             values = values.reshape(-1, 1)
         self.fit_num_cols_ = values.shape[1]
-        self.fit_x0_ = values[0, :].reshape(1, -1)
-        self.fit_xn_ = values[-1, :].reshape(1, -1)
+        self.fit_x0_ = values[0, :].reshape(1, -1).copy()
+        self.fit_xn_ = values[-1, :].reshape(1, -1).copy()
         self.fit_num_rows_ = values.shape[0]
 
         # if dt is not provided then we need to infer it
diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index da188be..089c413 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -143,15 +143,15 @@ class BrownianMotion(SimBase, SimNllMixin):
         super().__init__()
 
         # Parameters
-        self.drift = _to_numpy(drift).reshape(1, -1)
-        self.vol = _to_numpy(vol).reshape(1, -1)
+        self.drift = _to_numpy(drift).reshape(1, -1).copy()
+        self.vol = _to_numpy(vol).reshape(1, -1).copy()
 
         # Private attributes
         if cor is None:
             self.cor = None
             self.L_ = None
         else:
-            self.cor = np.asarray(cor)
+            self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
         self.num_parameters_ = len(self.drift) + len(self.vol)
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 2418148..59bce62 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -151,15 +151,15 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
         self.x0_default = 100
 
         # Parameters
-        self.drift = _to_numpy(drift).reshape(1, -1)
-        self.vol = _to_numpy(vol).reshape(1, -1)
+        self.drift = _to_numpy(drift).reshape(1, -1).copy()
+        self.vol = _to_numpy(vol).reshape(1, -1).copy()
 
         # Private attributes
         if cor is None:
             self.cor = None
             self.L_ = None
         else:
-            self.cor = np.asarray(cor)
+            self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
         self.num_parameters_ = len(self.drift) + len(self.vol)
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 188a7d8..dd986c5 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -172,16 +172,16 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         super().__init__()
 
         # Parameters
-        self.mean = _to_numpy(mean).reshape(1, -1)
-        self.mrr = _to_numpy(mrr).reshape(1, -1)
-        self.vol = _to_numpy(vol).reshape(1, -1)
+        self.mean = _to_numpy(mean).reshape(1, -1).copy()
+        self.mrr = _to_numpy(mrr).reshape(1, -1).copy()
+        self.vol = _to_numpy(vol).reshape(1, -1).copy()
 
         # Private attributes
         if cor is None:
             self.cor = None
             self.L_ = None
         else:
-            self.cor = np.asarray(cor)
+            self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
         self.num_parameters_ = len(self.mean) + len(self.mrr) + len(self.vol)
-- 
2.43.0


From fdcababe5390035bee1c48e451e02cc3decf9198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:31 +0000
Subject: [PATCH 05/39] fix: QuasiRandom objects no longer share one default
 base model

---
 quantfinlib/sim/_quasi_random.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/sim/_quasi_random.py b/quantfinlib/sim/_quasi_random.py
index aa59b03..ecbd525 100644
--- a/quantfinlib/sim/_quasi_random.py
+++ b/quantfinlib/sim/_quasi_random.py
@@ -40,7 +40,7 @@ class QuasiRandom(SimBase):
         self,
         tech_ind_func: Callable[[np.ndarray], np.ndarray],
         f_signal_vol: Union[float, np.ndarray] = 0.1,
-        base_model: BaseModel = BrownianMotion(),
+        base_model: Optional[BaseModel] = None,
     ):
         r"""Initializes the QuasiBrownianMotion instance for simulating a semi-random process.
         First a random path is generated using Brownian motion, then the technical indicator is
@@ -55,12 +55,12 @@ class QuasiRandom(SimBase):
             The factor by which to scale the signal volatility compared to the Brownian motion
             volatility (default is 0.1).
         base_model : BaseModel
-            The base simulation model to use (default is BrownianMotion).
+            The base simulation model to use (default is a new BrownianMotion).
         """
         super().__init__()
         self.tech_ind_func = tech_ind_func
         self.f_signal_vol = f_signal_vol
-        self.base_model = base_model
+        self.base_model = BrownianMotion() if base_model is None else base_model
 
     def __repr__(self) -> str:
         """Return a string representation of the QuasiBrownianMotion instance."""
-- 
2.43.0


From 82cd528d8d29fe8b7f4398b2cab37683bc86e5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:48 +0000
Subject: [PATCH 06/39] fix: bands keep their own data and hand out copies

---
 quantfinlib/feature/indicators/_bands.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/feature/indicators/_bands.py b/quantfinlib/feature/indicators/_bands.py
index d83b803..4aaf0d3 100644
--- a/quantfinlib/feature/indicators/_bands.py
+++ b/quantfinlib/feature/indicators/_bands.py
@@ -50,9 +50,9 @@ class GenericBands:
         multiplier: int,
         basename: str = "",
     ):
-        self.ts = ts
-        self.rolling_mean = rolling_mean
-        self.rolling_std = rolling_std
+        self.ts = ts.copy()
+        self.rolling_mean = rolling_mean.copy()
+        self.rolling_std = rolling_std.copy()
         self.multiplier = multiplier
         if isinstance(ts, pd.Series) or isinstance(rolling_mean, pd.Series) or isinstance(rolling_std, pd.Series):
             self._rename = self._rename_pd
@@ -94,7 +94,7 @@ class GenericBands:
         Union[pd.Series, np.ndarray]
             The middle band values.
         """
-        return self._rename(self.rolling_mean, "Middle")
+        return self._rename(self.rolling_mean.copy(), "Middle")
 
     def bandwidth(self) -> Union[pd.Series, np.ndarray]:
         """
-- 
2.43.0


From ca54625c8befb1b480f9c328bf38947333f0a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:54 +0000
Subject: [PATCH 07/39] fix: the technical indicator receives its own copy of a
 simulated path

---
 quantfinlib/sim/_quasi_random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_quasi_random.py b/quantfinlib/sim/_quasi_random.py
index ecbd525..b9b1321 100644
--- a/quantfinlib/sim/_quasi_random.py
+++ b/quantfinlib/sim/_quasi_random.py
@@ -86,7 +86,7 @@ class QuasiRandom(SimBase):
         # Generate the technical indicator signal
         indicator = np.zeros_like(bm_ans)
         for i in range(bm_ans.shape[1]):
-            indicator[1:, i] = np.nan_to_num(self.tech_ind_func(bm_ans[:-1, i]))
+            indicator[1:, i] = np.nan_to_num(self.tech_ind_func(bm_ans[:-1, i].copy()))
 
         # Scale the signal volatility
         signal_vol = self.f_signal_vol * np.tile(self.base_model.vol, num_paths)
-- 
2.43.0


From 2609008c4c9b5490bde28f1915607f1d729ac28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:44 +0000
Subject: [PATCH 08/39] fix: a hierarchical clustering keeps its own distance
 and linkage matrices

---
 quantfinlib/clustering/hierarchical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index 43d7cf4..5c37014 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -81,7 +81,7 @@ class HC:
         if dist is None:
             self._compute_distance_matrix()
         else:
-            self.dist = dist
+            self.dist = dist.copy()
         self._linkage = None
 
     def _compute_distance_matrix(self):
@@ -119,7 +119,7 @@ class HC:
                 method=self.linkage_method,
                 optimal_ordering=self.optimal_ordering,
             )
-        return self._linkage
+        return self._linkage.copy()
 
     def get_clusters(self, n_clusters: int) -> np.ndarray:
         """Get the clusters based on the threshold.
-- 
2.43.0


From 157bda561089685d17bac06e2fbf317e15145042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:31 +0000
Subject: [PATCH 09/39] fix: simulations print nothing on standard output

---
 quantfinlib/sim/_base.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index c67f07b..3cacafb 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -88,8 +88,6 @@ def _triangular_index(T_n: int) -> int:
 
 
 def _make_cor_from_upper_tri(values: _SimFitDataType) -> np.ndarray:
-    print("_make_cor_from_upper_tri", values)
-
     values = _to_numpy(values)
 
     # We support 1 list, or a row/col from a matrix, as long as it's effectively 1d
@@ -203,7 +201,6 @@ class SimBase(ABC):
             else:
                 x0 = np.array([[self.x0_default]])
         elif isinstance(x0, str):
-            print(x0, is_fitted, need_datetime_index, label_start)
             if x0 == "first":
                 if not is_fitted:
                     raise ValueError('x0: "first" can not be used because the model is not fitted.')
-- 
2.43.0


From 71909474e71fc8a90bff60566fcf2e8d1bd50a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:43 +0000
Subject: [PATCH 10/39] fix: von_neuman_divergence leaves NumPy's global random
 generator alone

---
 quantfinlib/distance/matrix_divergence.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/distance/matrix_divergence.py b/quantfinlib/distance/matrix_divergence.py
index 820f312..517689d 100644
--- a/quantfinlib/distance/matrix_divergence.py
+++ b/quantfinlib/distance/matrix_divergence.py
@@ -1,7 +1,6 @@
 """Matrix divergence measures for positive definite matrices."""
 
 import numpy as np
-from scipy.linalg import logm
 
 
 def _assert_positive_definite(p: np.ndarray, q: np.ndarray) -> None:
@@ -9,6 +8,12 @@ def _assert_positive_definite(p: np.ndarray, q: np.ndarray) -> None:
     assert np.all(np.linalg.eigvals(p) > 0) and np.all(np.linalg.eigvals(q) > 0), "Matrices must be positive definite"
 
 
+def _log_positive_definite(m: np.ndarray) -> np.ndarray:
+    """Matrix logarithm of a positive definite matrix, without scipy's logm, which draws global random numbers."""
+    eigen_values, eigen_vectors = np.linalg.eigh(m)
+    return (eigen_vectors * np.log(eigen_values)) @ eigen_vectors.T
+
+
 def log_det_divergence(p: np.ndarray, q: np.ndarray) -> float:
     r"""Calculate log determinant divergence between two positive definite matrices p and q.
 
@@ -55,8 +60,8 @@ def von_neuman_divergence(p: np.ndarray, q: np.ndarray) -> float:
         Von Neumann divergence between p and q.
     """
     _assert_positive_definite(p, q)  # Ensure the matrices are positive definite
-    log_p = logm(p)  # Compute the matrix logarithm of p
-    log_q = logm(q)  # Compute the matrix logarithm of q
+    log_p = _log_positive_definite(p)  # Compute the matrix logarithm of p
+    log_q = _log_positive_definite(q)  # Compute the matrix logarithm of q
     first_term = np.trace(p @ (log_p - log_q))
     second_term = np.trace(-p + q)
     return first_term + second_term
-- 
2.43.0


From 1a91d7ad6b89a7bcb7eeac09a4b596788561655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 11/39] fix: a fitted Ornstein-Uhlenbeck model keeps one set of
 parameters per column and can be simulated with any number of paths

---
 quantfinlib/sim/_ou.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index dd986c5..2ba6fb8 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -246,9 +246,12 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         # Compute OU params from slope, intercept, residual_std
         res_std = np.std(residuals, axis=0, ddof=1, keepdims=True)
 
-        self.mrr = -np.log(slope) / dt
-        self.mean = intercept / (1 - slope)
-        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slope**2))
+        slopes = slopes.reshape(1, -1)
+        intercepts = intercepts.reshape(1, -1)
+
+        self.mrr = -np.log(slopes) / dt
+        self.mean = intercepts / (1 - slopes)
+        self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
         return self
 
@@ -280,7 +283,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         _fill_with_correlated_noise(dx, loc=mean_term, scale=scale_factor, L=self.L_, random_state=random_state)
 
         # Forward step trough OU
-        mrr_factor = mrr_factor.reshape(-1)
+        mrr_factor = np.tile(mrr_factor.reshape(-1), ans.shape[1] // mrr_factor.size)
         for i in range(ans.shape[0] - 1):
             ans[i + 1, :] += ans[i, :] * mrr_factor
 
-- 
2.43.0


From 0e4a6b1a53c958af670c71f54b81de8bc8af0577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:57 +0000
Subject: [PATCH 12/39] fix: a model fitted to data without dates can be
 simulated

---
 quantfinlib/sim/_base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 3cacafb..408666b 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -288,6 +288,7 @@ class SimBase(ABC):
             or (columns is not None)
         )
 
+        index = None
         if need_date_time_index:
             index = self._make_date_time_index(ans.shape[0], label_start, label_freq)
 
-- 
2.43.0


From 61d05b45b31ee26b82cc92d2703034398d7fe421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:09 +0000
Subject: [PATCH 13/39] fix: leaving out the start value works for simulations
 returned as a Series

---
 quantfinlib/sim/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 408666b..2edeebb 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -311,7 +311,7 @@ class SimBase(ABC):
             return ans
         else:
             if isinstance(ans, (pd.DataFrame, pd.Series)):
-                return ans.iloc[1:, :]
+                return ans.iloc[1:]
             else:
                 return ans[1:, :]
 
-- 
2.43.0


From 764888257ef49642b1c8b6265aba8c10bce02502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:20 +0000
Subject: [PATCH 14/39] fix: a fit that fails leaves the model as it was

---
 quantfinlib/sim/_base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 2edeebb..7792cf6 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -411,8 +411,11 @@ class SimBase(ABC):
             The fitted model instance.
 
         """
-        values, dt = self._preprocess_fit_x_and_dt(x, dt)
-        self._fit_np(values, dt)
+        # calibrate a copy, so that a fit that fails leaves this model as it was
+        fitted = copy.copy(self)
+        values, dt = fitted._preprocess_fit_x_and_dt(x, dt)
+        fitted._fit_np(values, dt)
+        self.__dict__.update(fitted.__dict__)
         return self
 
 
-- 
2.43.0


From 0248b413c65b30fcaf36869cbf01bd75ddcc4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:30 +0000
Subject: [PATCH 15/39] fix: a walk-forward splitter reports the splits of its
 latest completed iteration

---
 quantfinlib/train_test_split/walk_forward.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index a9c6311..93342e7 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -122,6 +122,7 @@ class WalkForward(BaseCV):
             np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
         ]
         test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
+        n_splits = 0
         while train_end_group < groups[-1]:
             train_index = indices[(groups >= train_start_group) & (groups <= train_end_group)]
             test_index = indices[(groups >= test_start_group) & (groups <= test_end_group)]
@@ -136,10 +137,9 @@ class WalkForward(BaseCV):
                     n_embargo=self.n_embargo,
                 )
             yield train_index, test_index
-            self.n_splits += 1
+            n_splits += 1
             # if the current end group of the test set is the last group, then we have reached the end of the data
             if test_end_group >= groups[-1]:
-                self._finalized_splits = True
                 break
             # update the boundaries of the training and test sets
             if self.split_type == "rolling":
@@ -149,6 +149,8 @@ class WalkForward(BaseCV):
             test_end_group = groups[
                 np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
             ]
+        self.n_splits = n_splits
+        self._finalized_splits = True
 
 
 def _to_timedelta(x: int, freq: str) -> pd.Timedelta:  # progma: no cover
-- 
2.43.0


From 20b609470fdfcd1471d8e74e3ce3351e86944e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:57 +0000
Subject: [PATCH 16/39] fix: importing the distance module no longer resets the
 configured log verbosity

---
 quantfinlib/distance/distance_matrix.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/quantfinlib/distance/distance_matrix.py b/quantfinlib/distance/distance_matrix.py
index 8ec038e..37ac07b 100644
--- a/quantfinlib/distance/distance_matrix.py
+++ b/quantfinlib/distance/distance_matrix.py
@@ -20,7 +20,6 @@ from quantfinlib.util import (
 )
 
 logger = logging.getLogger("quantfinlib")
-logger.setLevel(logging.WARNING)
 
 CORR_TO_DIST_METHOD_MAP = {
     "angular": corr_to_angular_dist,
-- 
2.43.0


From 0cf0cbf1feb9a5125c5e8256284d5bb792d56b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:57 +0000
Subject: [PATCH 17/39] fix: configure_logger puts a new configuration in force
 all at once, or not at all

---
 quantfinlib/util/_logging.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/quantfinlib/util/_logging.py b/quantfinlib/util/_logging.py
index ce13efb..fb8d05a 100644
--- a/quantfinlib/util/_logging.py
+++ b/quantfinlib/util/_logging.py
@@ -2,11 +2,15 @@
 
 import logging
 import logging.config
+import threading
 
 # Global logger
 logger = logging.getLogger("quantfinlib")
 logger.setLevel(logging.WARN)
 
+_config_lock = threading.Lock()
+_own_handlers = []  # the handlers of the configuration in force
+
 
 def configure_logger(verbosity=logging.WARNING, log_to_file=False, log_file_path="quantfinlib.log"):
     """Configure the logger
@@ -17,27 +21,31 @@ def configure_logger(verbosity=logging.WARNING, log_to_file=False, log_file_path
     >>> logger.info("Logger INFO test 1,2,3...")
     >>> logger.warning("Logger WARNING test 1,2,3...")
     """
-    global logger
-
-    logger.setLevel(verbosity)
-
-    # Clear any existing handlers
-    for handler in logger.handlers[:]:
-        logger.removeHandler(handler)
-
     # Stream handler for console logging
     stream_handler = logging.StreamHandler()
     stream_handler.setLevel(verbosity)
     formatter = logging.Formatter("%(asctime)s - %(name)s - %(module)s:%(lineno)d - %(levelname)s - %(message)s")
     stream_handler.setFormatter(formatter)
-    logger.addHandler(stream_handler)
+    handlers = [stream_handler]
 
     # File handler for file logging
     if log_to_file:
         file_handler = logging.FileHandler(log_file_path)
         file_handler.setLevel(verbosity)
         file_handler.setFormatter(formatter)
-        logger.addHandler(file_handler)
+        handlers.append(file_handler)
+
+    # Everything that can fail is done: put the new configuration in force at once
+    with _config_lock:
+        superseded = list(_own_handlers)
+        _own_handlers[:] = handlers
+        logger.setLevel(verbosity)
+        logger.handlers = handlers
+    for handler in superseded:
+        try:
+            handler.close()
+        except OSError:
+            pass  # a sink that could not be written cannot be flushed either
 
     logger.info("Logger configured successfully")
 
-- 
2.43.0


From c811a98e8b5323b65777791a9ba578f4a2b49ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:54 +0000
Subject: [PATCH 18/39] fix: bands of arrays can be pickled and copied

---
 quantfinlib/feature/indicators/_bands.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/feature/indicators/_bands.py b/quantfinlib/feature/indicators/_bands.py
index 4aaf0d3..1c069f2 100644
--- a/quantfinlib/feature/indicators/_bands.py
+++ b/quantfinlib/feature/indicators/_bands.py
@@ -54,14 +54,10 @@ class GenericBands:
         self.rolling_mean = rolling_mean.copy()
         self.rolling_std = rolling_std.copy()
         self.multiplier = multiplier
-        if isinstance(ts, pd.Series) or isinstance(rolling_mean, pd.Series) or isinstance(rolling_std, pd.Series):
-            self._rename = self._rename_pd
-        else:
-            self._rename = lambda x, _: x
         self.basename = basename
 
-    def _rename_pd(self, s: pd.Series, name: str) -> pd.Series:
-        return s.rename(name + self.basename)
+    def _rename(self, s: Union[pd.Series, np.ndarray], name: str) -> Union[pd.Series, np.ndarray]:
+        return s.rename(name + self.basename) if isinstance(s, pd.Series) else s
 
     def upper(self) -> Union[pd.Series, np.ndarray]:
         """
-- 
2.43.0


From d358b9b9f07ce3c53772fd4b3bff8c7451084b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:39 +0000
Subject: [PATCH 19/39] fix: walk-forward splits of groups with gaps never
 train on what they test

With groups that are not consecutive (business days, holidays, missing dates)
the end of the training set and the start of the test set were moved
independently and could land on the same group, and successive test sets
overlapped or left observations out.  The training set now ends with the
previous test set and the test set starts right after it; nothing changes
for consecutive groups.
---
 quantfinlib/train_test_split/walk_forward.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 93342e7..8c953a2 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -118,9 +118,7 @@ class WalkForward(BaseCV):
             np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="left")
         ]
         # Calculate the boundaries of the test set
-        test_start_group = groups[
-            np.searchsorted(groups, train_start_group + self.train_window - time_unit, side="right")
-        ]
+        test_start_group = groups[np.searchsorted(groups, train_end_group, side="right")]
         test_end_group = groups[np.searchsorted(groups, test_start_group + self.test_window - time_unit, side="left")]
         n_splits = 0
         while train_end_group < groups[-1]:
@@ -141,13 +139,14 @@ class WalkForward(BaseCV):
             # if the current end group of the test set is the last group, then we have reached the end of the data
             if test_end_group >= groups[-1]:
                 break
-            # update the boundaries of the training and test sets
+            # update the boundaries of the training and test sets: the groups need not be consecutive,
+            # so the training set ends with the previous test set and the test set starts right after it
+            train_end_group = test_end_group
             if self.split_type == "rolling":
-                train_start_group = train_start_group + self.test_window
-            train_end_group = groups[np.searchsorted(groups, train_end_group + self.test_window, side="left")]
-            test_start_group = groups[np.searchsorted(groups, test_start_group + self.test_window, side="left")]
+                train_start_group = train_end_group - self.train_window + time_unit
+            test_start_group = groups[np.searchsorted(groups, train_end_group, side="right")]
             test_end_group = groups[
-                np.searchsorted(groups, min(test_end_group + self.test_window, groups[-1]), side="left")
+                np.searchsorted(groups, min(test_start_group + self.test_window - time_unit, groups[-1]), side="left")
             ]
         self.n_splits = n_splits
         self._finalized_splits = True
-- 
2.43.0


From 5a592fccc8d45ebc65cfd42f1666479cf413e466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 20/39] fix: the likelihood of geometric Brownian motion uses
 the drift of one time step

---
 quantfinlib/sim/_gbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 59bce62..18eb32e 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -231,7 +231,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
     def _nll(self, x: np.ndarray, dt: float):
         dx = np.log(x[1:, ...] / x[:-1, ...])
-        mean_ = (self.drift - 0.5 * self.vol**2).flatten()
+        mean_ = ((self.drift - 0.5 * self.vol**2) * dt).flatten()
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-- 
2.43.0


From abdb621e2e03fee8990a65a7215bf3fdbb27e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 21/39] fix: fitting geometric Brownian motion returns the
 drift that is simulated

---
 quantfinlib/sim/_gbm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 18eb32e..6a38e90 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -179,7 +179,8 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
 
         # Mean and standard deviation of the changes
         self.vol = np.std(dx, axis=0, ddof=1, keepdims=True) / np.sqrt(dt)
-        self.drift = np.mean(dx, axis=0, keepdims=True) / dt
+        # the log changes have a drift of mu - 1/2 vol^2
+        self.drift = np.mean(dx, axis=0, keepdims=True) / dt + 0.5 * self.vol**2
 
         # Optionally correlations if we have multiple columns
         if x.shape[1] > 1:
-- 
2.43.0


From 352b133c6d00b885d8a9978457c6ed0fbbe02034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:01 +0000
Subject: [PATCH 22/39] fix: information criteria weigh the likelihood once and
 count the parameters of every variate

---
 quantfinlib/sim/_base.py | 12 +++++++++---
 quantfinlib/sim/_bm.py   |  7 +++----
 quantfinlib/sim/_gbm.py  |  7 +++----
 quantfinlib/sim/_ou.py   |  7 +++----
 4 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 7792cf6..2fe044b 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -76,6 +76,13 @@ def _fill_with_correlated_noise(
         ans[:, :] += loc
 
 
+def _count_parameters(*params: np.ndarray, cor: Optional[np.ndarray] = None) -> int:
+    num = sum(p.size for p in params)
+    if cor is not None:
+        num += cor.shape[0] * (cor.shape[0] - 1) // 2
+    return num
+
+
 def _triangular_index(T_n: int) -> int:
     # Calculate the potential index using the derived formula
     n = (-1 + math.sqrt(1 + 8 * T_n)) / 2
@@ -459,8 +466,7 @@ class SimNllMixin:
         """
         # work on a copy: scoring must not overwrite what the model remembers about its fit
         values, dt = copy.copy(self)._preprocess_fit_x_and_dt(x, dt)
-        num_samples = x.shape[0]
-        return 2 * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return 2 * self.num_parameters_ + 2 * self._nll(values, dt)
 
     def bic(self, x: Union[np.ndarray, pd.DataFrame, pd.Series], dt: Optional[float] = None) -> float:
         r"""Calculate the Bayesian Information Criterion (BIC) for a given path.
@@ -480,4 +486,4 @@ class SimNllMixin:
         # work on a copy: scoring must not overwrite what the model remembers about its fit
         values, dt = copy.copy(self)._preprocess_fit_x_and_dt(x, dt)
         num_samples = x.shape[0]
-        return 2 * np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt) * num_samples
+        return np.log(num_samples) * self.num_parameters_ + 2 * self._nll(values, dt)
diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index 089c413..96ff582 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -18,7 +18,7 @@ from typing import Optional, Union
 import numpy as np
 from scipy.stats import multivariate_normal, norm
 
-from quantfinlib.sim._base import SimBase, SimNllMixin, _fill_with_correlated_noise, _to_numpy
+from quantfinlib.sim._base import SimBase, SimNllMixin, _count_parameters, _fill_with_correlated_noise, _to_numpy
 
 
 class BrownianMotion(SimBase, SimNllMixin):
@@ -154,9 +154,7 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self.num_parameters_ = _count_parameters(self.drift, self.vol, cor=self.cor)
 
     def __repr__(self) -> str:
         """Return a string representation of the BrownianMotion instance."""
@@ -186,6 +184,7 @@ class BrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self.num_parameters_ = _count_parameters(self.drift, self.vol, cor=self.cor)
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 6a38e90..972ebf6 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -18,7 +18,7 @@ from typing import Optional, Union
 import numpy as np
 from scipy.stats import multivariate_normal, norm
 
-from quantfinlib.sim._base import SimBase, SimNllMixin, _fill_with_correlated_noise, _to_numpy
+from quantfinlib.sim._base import SimBase, SimNllMixin, _count_parameters, _fill_with_correlated_noise, _to_numpy
 
 
 class GeometricBrownianMotion(SimBase, SimNllMixin):
@@ -162,9 +162,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.drift) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.drift) * (len(self.drift) - 1) / 2
+        self.num_parameters_ = _count_parameters(self.drift, self.vol, cor=self.cor)
 
     def __repr__(self) -> str:
         """Return a string representation of the GeometriCBrownianMotion instance."""
@@ -195,6 +193,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
             self.cor = None
             self.L_ = None
 
+        self.num_parameters_ = _count_parameters(self.drift, self.vol, cor=self.cor)
         return self
 
     def _path_sample_np(
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 2ba6fb8..56223f1 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -19,7 +19,7 @@ from typing import Optional, Union
 import numpy as np
 from scipy.stats import multivariate_normal, norm
 
-from quantfinlib.sim._base import SimBase, SimNllMixin, _fill_with_correlated_noise, _to_numpy
+from quantfinlib.sim._base import SimBase, SimNllMixin, _count_parameters, _fill_with_correlated_noise, _to_numpy
 
 
 class OrnsteinUhlenbeck(SimBase, SimNllMixin):
@@ -184,9 +184,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
             self.cor = np.array(cor)
             self.L_ = np.linalg.cholesky(self.cor)
 
-        self.num_parameters_ = len(self.mean) + len(self.mrr) + len(self.vol)
-        if self.cor is not None:
-            self.num_parameters_ += len(self.mean) * (len(self.mean) - 1) / 2
+        self.num_parameters_ = _count_parameters(self.mean, self.mrr, self.vol, cor=self.cor)
 
     def __repr__(self):
         """Return a string representation of the OrnsteinUhlenbeck instance."""
@@ -253,6 +251,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         self.mean = intercepts / (1 - slopes)
         self.vol = np.sqrt((2 * self.mrr * res_std**2) / (1 - slopes**2))
 
+        self.num_parameters_ = _count_parameters(self.mean, self.mrr, self.vol, cor=self.cor)
         return self
 
     def _path_sample_np(
-- 
2.43.0


From 2f09e62edbd960cf46eb0e3658ca31f0b5870bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:01 +0000
Subject: [PATCH 23/39] fix: the time step of a simulation follows label_freq,
 as documented

---
 quantfinlib/sim/_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/sim/_base.py b/quantfinlib/sim/_base.py
index 2fe044b..d5b99d0 100644
--- a/quantfinlib/sim/_base.py
+++ b/quantfinlib/sim/_base.py
@@ -229,10 +229,10 @@ class SimBase(ABC):
 
         # if dt not t is provided then align dt with the fitting()
         if dt is None:
-            if is_fitted:
-                dt = self.fit_dt_
-            else:
-                dt = 1.0 / 252.0
+            if label_freq is not None:
+                dt = time_series_freq_to_duration(label_freq)
+            if dt is None:
+                dt = self.fit_dt_ if is_fitted else 1.0 / 252.0
         assert dt is not None
         assert dt > 0
 
-- 
2.43.0


From e7fbe3c418ea79f59f883830f9336567a36633f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:15 +0000
Subject: [PATCH 24/39] fix: weekly, quarterly and yearly data have a time step
 when pandas anchors their frequency

---
 quantfinlib/_datatypes/timeseries.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 4cf113d..3989d21 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -196,4 +196,6 @@ def time_series_freq_to_duration(freq: str) -> Optional[float]:
 
     #  secs = pd.to_timedelta(pd.tseries.frequencies.to_offset("H")).total_seconds()
 
+    if isinstance(freq, str):
+        freq = freq.split("-")[0]  # pandas anchors the codes it infers, e.g. W-SUN and QE-DEC
     return _time_series_freq_to_duration_map.get(freq, None)
-- 
2.43.0


From f21a86d817b596572485baabbc506b88c76408cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:07 +0000
Subject: [PATCH 25/39] fix: the likelihood of correlated variates accepts a
 volatility shared by all of them

---
 quantfinlib/sim/_bm.py  | 3 +--
 quantfinlib/sim/_gbm.py | 3 +--
 quantfinlib/sim/_ou.py  | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/sim/_bm.py b/quantfinlib/sim/_bm.py
index 96ff582..a552c3b 100644
--- a/quantfinlib/sim/_bm.py
+++ b/quantfinlib/sim/_bm.py
@@ -222,8 +222,7 @@ class BrownianMotion(SimBase, SimNllMixin):
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-            D = np.diag(std_)
-            cov_ = D @ self.cor @ D
+            cov_ = np.outer(std_, std_) * self.cor
             var = multivariate_normal(mean=mean_, cov=cov_)
         else:
             var = norm(loc=mean_, scale=std_)
diff --git a/quantfinlib/sim/_gbm.py b/quantfinlib/sim/_gbm.py
index 972ebf6..2b63edb 100644
--- a/quantfinlib/sim/_gbm.py
+++ b/quantfinlib/sim/_gbm.py
@@ -235,8 +235,7 @@ class GeometricBrownianMotion(SimBase, SimNllMixin):
         std_ = (self.vol * dt**0.5).flatten()
 
         if self.cor is not None:
-            D = np.diag(std_)
-            cov_ = D @ self.cor @ D
+            cov_ = np.outer(std_, std_) * self.cor
             var = multivariate_normal(mean=mean_, cov=cov_)
         else:
             var = norm(loc=mean_, scale=std_)
diff --git a/quantfinlib/sim/_ou.py b/quantfinlib/sim/_ou.py
index 56223f1..6d828a5 100644
--- a/quantfinlib/sim/_ou.py
+++ b/quantfinlib/sim/_ou.py
@@ -300,8 +300,7 @@ class OrnsteinUhlenbeck(SimBase, SimNllMixin):
         dx = x[1:, ...] - mrr_factor * x[:-1, ...]
 
         if self.cor is not None:
-            D = np.diag(std_)
-            cov_ = D @ self.cor @ D
+            cov_ = np.outer(std_, std_) * self.cor
             var = multivariate_normal(mean=mean_, cov=cov_)
         else:
             var = norm(loc=mean_, scale=std_)
-- 
2.43.0


From 5034c19e6bda3a9390a6951f63e48fd904b1afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:09 +0000
Subject: [PATCH 26/39] fix: splits of groups given as a Series go by position,
 not by the labels of its index

---
 quantfinlib/train_test_split/_base.py        | 9 +++++++++
 quantfinlib/train_test_split/kfoldpe.py      | 3 ++-
 quantfinlib/train_test_split/walk_forward.py | 3 ++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/train_test_split/_base.py b/quantfinlib/train_test_split/_base.py
index 2754fc7..6c981b3 100644
--- a/quantfinlib/train_test_split/_base.py
+++ b/quantfinlib/train_test_split/_base.py
@@ -131,6 +131,15 @@ def _embargo(
     return train_index
 
 
+def _groups_by_position(groups: Optional[GroupType]) -> Optional[GroupType]:
+    """Convert the groups of a Series, so that they are addressed by position and not by the labels of its index."""
+    if not isinstance(groups, pd.Series):
+        return groups
+    if pd.api.types.is_datetime64_any_dtype(groups):
+        return pd.DatetimeIndex(groups)
+    return groups.to_numpy()
+
+
 class BaseCV(ABC):
     """Base class for cross-validation splitters."""
 
diff --git a/quantfinlib/train_test_split/kfoldpe.py b/quantfinlib/train_test_split/kfoldpe.py
index cd48d6d..4cc4649 100644
--- a/quantfinlib/train_test_split/kfoldpe.py
+++ b/quantfinlib/train_test_split/kfoldpe.py
@@ -6,7 +6,7 @@ from typing import Generator, Optional, Tuple
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _purge, _embargo, _groups_by_position
 from quantfinlib.train_test_split._dtypes import BoundPerFoldType, GroupType, IndexType, XType, YType
 
 
@@ -127,6 +127,7 @@ class TimeAwareKFold(BaseCV):
             Train and test indices.
         """
         super().split(X, y, groups)
+        groups = _groups_by_position(groups)
         _validate_split_settings(
             n_samples=X.shape[0], n_folds=self.n_folds, n_embargo=self.n_embargo, n_purge=self.n_purge
         )
diff --git a/quantfinlib/train_test_split/walk_forward.py b/quantfinlib/train_test_split/walk_forward.py
index 8c953a2..c325fe1 100644
--- a/quantfinlib/train_test_split/walk_forward.py
+++ b/quantfinlib/train_test_split/walk_forward.py
@@ -7,7 +7,7 @@ import warnings
 import numpy as np
 import pandas as pd
 
-from quantfinlib.train_test_split._base import BaseCV, _embargo
+from quantfinlib.train_test_split._base import BaseCV, _embargo, _groups_by_position
 from quantfinlib.train_test_split._dtypes import GroupType, IndexType, XType, YType
 
 
@@ -107,6 +107,7 @@ class WalkForward(BaseCV):
 
         """
         super().split(X, y, groups)
+        groups = _groups_by_position(groups)
         n_samples = X.shape[0]
         indices = np.arange(n_samples)
         groups = groups if groups is not None else np.arange(n_samples)
-- 
2.43.0


From f7d005dabcdcc18f46b1bbc156e86a1d3ca4ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:32 +0000
Subject: [PATCH 27/39] fix: the CUSUM test of a Series goes by position, not
 by the labels of its index

---
 quantfinlib/feature/structural_breaks/cusumtest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/feature/structural_breaks/cusumtest.py b/quantfinlib/feature/structural_breaks/cusumtest.py
index 028f8b5..0b9de20 100644
--- a/quantfinlib/feature/structural_breaks/cusumtest.py
+++ b/quantfinlib/feature/structural_breaks/cusumtest.py
@@ -56,7 +56,7 @@ def chu_stinchcombe_white_cusum_test(y: np.ndarray) -> tuple[np.ndarray, np.ndar
     """
     T = len(y)
     b_alpha = 4.6  # Derived via Monte Carlo for alpha=0.05
-    log_y = np.log(y)  # Precompute log-prices
+    log_y = np.log(np.asarray(y))  # Precompute log-prices, by position whatever the labels of a Series
     # Compute the moving average standard deviation up to each time point
     squared_diffs = (log_y[1:] - log_y[:-1]) ** 2.0
     sigma_hats = np.sqrt(np.cumsum(squared_diffs) / np.arange(1, T))
-- 
2.43.0


From d7fe6c97dee73990f9191dee7a667feb8776654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:32 +0000
Subject: [PATCH 28/39] fix: the gap statistic selects the largest number of
 clusters when no smaller one qualifies

---
 quantfinlib/clustering/hierarchical.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index 5c37014..2acc23b 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -176,8 +176,10 @@ def optimize_n_clusters(
             gap_values.append(gap)
             gap_std_values.append(gap_std)
         gap_values, gap_std_values = np.array(gap_values), np.array(gap_std_values)
-        k = np.where(gap_values[:-1] - gap_values[1:] + gap_std_values[1:] > 0)[0][0]
-        return int(k + 2)
+        candidates = np.where(gap_values[:-1] - gap_values[1:] + gap_std_values[1:] > 0)[0]
+        if len(candidates) == 0:
+            return max_clust  # the gap keeps growing up to the largest number of clusters considered
+        return int(candidates[0] + 2)
     elif metric == "silhouette":
         silh_values = []
         for k in nclust_range:
-- 
2.43.0


From 785edfbd0c7b33d603a36044e0161aba9a1f08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:32 +0000
Subject: [PATCH 29/39] fix: the number of bins of exactly anticorrelated
 variables is finite

---
 quantfinlib/distance/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index b468fb5..06783c7 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -16,7 +16,7 @@ def _get_nb_bins_from_xy(x: np.ndarray, y: Optional[np.ndarray] = None) -> int:
         return _get_optimal_nb_bins(x.shape[0], None)
     else:
         corr = np.corrcoef(x, y)[0, 1]
-        if corr == 1 or abs(corr - 1) < 1e-5:
+        if abs(abs(corr) - 1) < 1e-5:
             return _get_optimal_nb_bins(x.shape[0], None)
         else:
             return _get_optimal_nb_bins(x.shape[0], corr=np.corrcoef(x, y)[0, 1])
-- 
2.43.0


From 12b99d226a4688e5285df9824a5c1bb4c8cfb06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:32 +0000
Subject: [PATCH 30/39] fix: correlation matrices whose diagonal is one up to
 rounding are accepted

---
 quantfinlib/distance/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index b6232e4..2a10fe7 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -23,7 +23,7 @@ def _validate_correlation_matrix(corr: np.ndarray) -> None:
     assert corr.ndim == 2, "Input must be a 2D matrix"
     assert corr.shape[0] == corr.shape[1], "Input must be a square matrix"
     assert np.allclose(corr, corr.T), "Correlation matrix must be symmetric"
-    assert np.all(np.diag(corr) == 1), "Diagonal elements of a correlation matrix must be 1"
+    assert np.allclose(np.diag(corr), 1), "Diagonal elements of a correlation matrix must be 1"
 
 
 def _convert_correlation_to_distance(
-- 
2.43.0


From 98816b9c7205a83e9f47984188db56219718a2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:32 +0000
Subject: [PATCH 31/39] fix: the distance of a correlation frame is zero on the
 diagonal

---
 quantfinlib/distance/correlation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/quantfinlib/distance/correlation.py b/quantfinlib/distance/correlation.py
index 2a10fe7..404072c 100644
--- a/quantfinlib/distance/correlation.py
+++ b/quantfinlib/distance/correlation.py
@@ -4,6 +4,7 @@ from typing import Callable, Union
 from functools import partial
 
 import numpy as np
+import pandas as pd
 
 
 def _fix_diagonal_dist(dist: np.ndarray) -> np.ndarray:
@@ -36,6 +37,9 @@ def _convert_correlation_to_distance(
     dist = _clip_values(dist, 0.0, 1.0)
     if isinstance(corr, np.ndarray):
         return _fix_diagonal_dist(dist)
+    if isinstance(corr, pd.DataFrame):
+        values = _fix_diagonal_dist(dist.to_numpy(copy=True))
+        return pd.DataFrame(values, index=corr.index, columns=corr.columns)
     return dist
 
 
-- 
2.43.0


From c5d9784a61415dbf0ed6253f218405b0897c21e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:00 +0000
Subject: [PATCH 32/39] fix: the rolling edge spread accepts prices with
 repeated dates

---
 quantfinlib/feature/micro_structure/_price_sequences.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/quantfinlib/feature/micro_structure/_price_sequences.py b/quantfinlib/feature/micro_structure/_price_sequences.py
index 5a77cb7..d6c1c2d 100644
--- a/quantfinlib/feature/micro_structure/_price_sequences.py
+++ b/quantfinlib/feature/micro_structure/_price_sequences.py
@@ -281,10 +281,9 @@ def get_edge_spread(
     rolling_spread = Parallel(n_jobs=-1)(
         delayed(_apply_edge_spread)(price_df.iloc[i : i + window]) for i in range(len(price_df) - window + 1)
     )
-    rolling_spread = pd.Series(rolling_spread, index=price_df.index[window - 1 :])
-
-    rolling_spread = rolling_spread.reindex(price_df.index, fill_value=np.nan)
-    return rolling_spread
+    # No estimate before the first complete window, placed by position since labels may repeat
+    missing = [np.nan] * (len(price_df) - len(rolling_spread))
+    return pd.Series(missing + rolling_spread, index=price_df.index)
 
 
 def _edge_spread(
-- 
2.43.0


From f066aeab4e8f24532e42212a2194d06954101dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:50 +0000
Subject: [PATCH 33/39] fix: clusters of centroid and median linkages are the
 requested number when heights decrease

---
 quantfinlib/clustering/hierarchical.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/quantfinlib/clustering/hierarchical.py b/quantfinlib/clustering/hierarchical.py
index 2acc23b..445b370 100644
--- a/quantfinlib/clustering/hierarchical.py
+++ b/quantfinlib/clustering/hierarchical.py
@@ -134,13 +134,24 @@ class HC:
         np.ndarray
             The cluster labels.
         """
-        return hierarchy.cut_tree(Z=self.linkage, n_clusters=n_clusters).flatten()
+        return _cut_linkage(linkage=self.linkage, n_clusters=n_clusters)
 
     def get_optimal_nclusters(self, max_clust: int = 20, metric: str = "gap", nb: int = 10) -> int:
         """Get the optimal number of clusters."""
         return optimize_n_clusters(linkage=self.linkage, dist=self.dist, max_clust=max_clust, metric=metric, nb=nb)
 
 
+def _cut_linkage(linkage: np.ndarray, n_clusters: int) -> np.ndarray:
+    """Cut the tree after its first merges.
+
+    The merges are taken in their order, since `cut_tree` goes by the heights and these
+    may decrease in the linkage methods 'centroid' and 'median'.
+    """
+    ordered = np.array(linkage, dtype=float)
+    ordered[:, 2] = np.arange(1, len(ordered) + 1)
+    return hierarchy.cut_tree(Z=ordered, n_clusters=n_clusters).flatten()
+
+
 def optimize_n_clusters(
     linkage: np.ndarray, dist: np.ndarray, max_clust: int = 20, metric: str = "gap", nb: int = 10
 ) -> int:
@@ -171,7 +182,7 @@ def optimize_n_clusters(
         gap_values = []
         gap_std_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_linkage(linkage=linkage, n_clusters=k)
             gap, gap_std = gap_statistic(dist=dist, labels=labels, nb=nb)
             gap_values.append(gap)
             gap_std_values.append(gap_std)
@@ -183,7 +194,7 @@ def optimize_n_clusters(
     elif metric == "silhouette":
         silh_values = []
         for k in nclust_range:
-            labels = hierarchy.cut_tree(linkage, n_clusters=k).flatten()
+            labels = _cut_linkage(linkage=linkage, n_clusters=k)
             silh_values.append(silhouette_tstat(dist=dist, labels=labels))
         return int(np.argmax(silh_values) + 2)
     else:
-- 
2.43.0


From eee46832c7de1a3f2aa095a88d98f95911112a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:53 +0000
Subject: [PATCH 34/39] fix: the variation of information is never negative

---
 quantfinlib/distance/information.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/distance/information.py b/quantfinlib/distance/information.py
index 06783c7..54585f4 100644
--- a/quantfinlib/distance/information.py
+++ b/quantfinlib/distance/information.py
@@ -184,7 +184,7 @@ def var_info(x: SeriesOrArray, y: SeriesOrArray, bins: Optional[int] = None, nor
         bins = _get_nb_bins_from_xy(x, y)
     h_x, h_y, h_xy = compute_entropies(x, y, bins)  # Compute entropies
     # Compute variation of information
-    var_info_xy = 2 * h_xy - h_x - h_y
+    var_info_xy = max(2 * h_xy - h_x - h_y, 0.0)  # rounding may leave a negative number
     if norm:
         var_info_xy /= h_xy  # Normalized variation of information
     return var_info_xy
-- 
2.43.0


From 482f2b6ebf44dbb39a260156e9cf0360403373c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 35/39] fix: daily time series in a time zone with daylight
 saving time are daily

---
 quantfinlib/_datatypes/timeseries.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 3989d21..abeb05a 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -68,8 +68,9 @@ def time_series_freq(ts_obj) -> Optional[str]:
     else:
         dt_ndx = ts_obj
 
-    # Calculate the time deltas between consecutive time points
-    time_deltas = dt_ndx.to_series().diff().dropna()
+    # Calculate the time deltas between consecutive time points, on the clock of the time zone: days that
+    # daylight saving time starts or ends are days too
+    time_deltas = dt_ndx.tz_localize(None).to_series().diff().dropna()
 
     # Ensure there are enough data points to make a determination
     if len(time_deltas) < 2:
-- 
2.43.0


From 233ac36b23ec7e3da7a155161c18f49f22b49a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 36/39] fix: only yearly, quarterly and monthly time steps make
 year, quarter and month frequencies

---
 quantfinlib/_datatypes/timeseries.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index abeb05a..3e2d09e 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -79,34 +79,38 @@ def time_series_freq(ts_obj) -> Optional[str]:
     # Count the occurrences of each time delta
     delta_counts = time_deltas.value_counts()
 
+    # The typical number of days between consecutive time points
+    typical = time_deltas.abs().dt.days.sort_values().iloc[(len(time_deltas) - 1) // 2]
+    yearly, quarterly, monthly = 363 <= typical <= 368, 88 <= typical <= 94, 26 <= typical <= 33
+
     # Check if timestamps are year-ends
     year_ends = dt_ndx.is_year_end.sum()
-    if (year_ends >= 2) and (len(dt_ndx) - year_ends <= 2):
+    if yearly and (year_ends >= 2) and (len(dt_ndx) - year_ends <= 2):
         return "YE"
 
     # Check if timestamps are year-starts
     year_starts = dt_ndx.is_year_start.sum()
-    if (year_starts >= 2) and (len(dt_ndx) - year_starts <= 2):
+    if yearly and (year_starts >= 2) and (len(dt_ndx) - year_starts <= 2):
         return "YS"
 
     # Check if timestamps are quarter-ends
     quarter_ends = dt_ndx.is_quarter_end.sum()
-    if (quarter_ends >= 2) and (len(dt_ndx) - quarter_ends <= 2):
+    if quarterly and (quarter_ends >= 2) and (len(dt_ndx) - quarter_ends <= 2):
         return "QE"
 
     # Check if timestamps are quarter-starts
     quarter_starts = dt_ndx.is_quarter_start.sum()
-    if (quarter_starts >= 2) and (len(dt_ndx) - quarter_starts <= 2):
+    if quarterly and (quarter_starts >= 2) and (len(dt_ndx) - quarter_starts <= 2):
         return "QS"
 
     # Check if timestamps are month-ends
     month_ends = dt_ndx.is_month_end.sum()
-    if (month_ends >= 2) and (len(dt_ndx) - month_ends <= 2):
+    if monthly and (month_ends >= 2) and (len(dt_ndx) - month_ends <= 2):
         return "ME"
 
     # Check if timestamps are month-starts
     month_starts = dt_ndx.is_month_start.sum()
-    if (month_starts >= 2) and (len(dt_ndx) - month_starts <= 2):
+    if monthly and (month_starts >= 2) and (len(dt_ndx) - month_starts <= 2):
         return "MS"
 
     # Check for daily frequency (7 days a week)
-- 
2.43.0


From 82281ece211a3008fb9c385448d6db93fdddc6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 37/39] fix: short time series without daily steps are not
 daily

---
 quantfinlib/_datatypes/timeseries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 3e2d09e..42fd9c0 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -115,7 +115,7 @@ def time_series_freq(ts_obj) -> Optional[str]:
 
     # Check for daily frequency (7 days a week)
     daily_count = delta_counts.get(pd.Timedelta(days=1), 0)
-    daily_resolution = len(time_deltas) - daily_count <= 2
+    daily_resolution = (daily_count >= 2) and (len(time_deltas) - daily_count <= 2)
     if daily_resolution:
         return "D"
 
-- 
2.43.0


From a7d3205842fee26df64e1c4b49588eb39d63ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 38/39] fix: working-day time series of one or two weekends are
 not daily

---
 quantfinlib/_datatypes/timeseries.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index 42fd9c0..ff23eed 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -116,7 +116,9 @@ def time_series_freq(ts_obj) -> Optional[str]:
     # Check for daily frequency (7 days a week)
     daily_count = delta_counts.get(pd.Timedelta(days=1), 0)
     daily_resolution = (daily_count >= 2) and (len(time_deltas) - daily_count <= 2)
-    if daily_resolution:
+    weekend_count = delta_counts.get(pd.Timedelta(days=3), 0)
+    skips_weekends = (weekend_count > 0) and (dt_ndx.dayofweek < 5).all()
+    if daily_resolution and not skips_weekends:
         return "D"
 
     # Check for working-day frequency (5 days a week)
-- 
2.43.0


From a23435fc449e14480995fbf0310589562687a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:18 +0000
Subject: [PATCH 39/39] fix: time steps of 36 hours or three days are not
 working days

---
 quantfinlib/_datatypes/timeseries.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantfinlib/_datatypes/timeseries.py b/quantfinlib/_datatypes/timeseries.py
index ff23eed..6e8df5a 100644
--- a/quantfinlib/_datatypes/timeseries.py
+++ b/quantfinlib/_datatypes/timeseries.py
@@ -122,8 +122,8 @@ def time_series_freq(ts_obj) -> Optional[str]:
         return "D"
 
     # Check for working-day frequency (5 days a week)
-    weekday_deltas = time_deltas[time_deltas.dt.days.isin([1, 3])]
-    weekday_resolution = (len(weekday_deltas) / len(time_deltas)) >= 0.9
+    weekday_count = daily_count + weekend_count
+    weekday_resolution = (daily_count >= weekend_count) and (weekday_count / len(time_deltas) >= 0.9)
     if weekday_resolution:
         return "B"
 
-- 
2.43.0

