From 115e2bf3786b99529bc501dd407106106b5dc3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 01/49] fix: use the t-score with n-1 degrees of freedom in
 ConfidenceCriterion

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1366d47..00185b1 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -283,7 +283,7 @@ class ConfidenceCriterion(ConvergenceCriterion):
 		std_dev = est._cov.covariance() ** (1 / 2)
 		std_error = std_dev / np.sqrt(est.n_samples)
 		rel_error = abs(std_error / est.estimate)
-		score = self.t_scores[est.n_samples] if est.n_samples < 30 else self.z
+		score = self.t_scores[est.n_samples - 2] if est.n_samples < 30 else self.z  # t-score w/ n - 1 degrees of freedom
 		margin_of_error = score * std_error
 		return (margin_of_error, rel_error)
 
-- 
2.43.0


From 4b48a5a95eb4c21b6b332b28783e8c444334eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 02/49] fix: use the running sample mean in KneeCriterion

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 00185b1..6549489 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -310,7 +310,7 @@ class KneeCriterion(ConvergenceCriterion):
 
 		## Extract the differences between the sample means
 		mv = np.array(est.values).ravel()
-		cum_sample_mean = mv / np.arange(1, len(mv) + 1)
+		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)
 		mu_cum_diffs = np.cumsum(np.abs(np.diff(cum_sample_mean)))
 
 		## Normalize to [0, 1], calculate difference curve
-- 
2.43.0


From b6571e84aa293215df33eb291bca869ce94f3d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 03/49] fix: treat a constant sample mean as converged in
 KneeCriterion

---
 src/primate/estimators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 6549489..20d2426 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -315,6 +315,8 @@ class KneeCriterion(ConvergenceCriterion):
 
 		## Normalize to [0, 1], calculate difference curve
 		y = mu_cum_diffs
+		if y.max() == y.min():
+			return True  # the sample mean no longer changes
 		y_norm = (y - y.min()) / (y.max() - y.min())
 		diff_curve = y_norm - np.linspace(0, 1, len(y))
 
-- 
2.43.0


From 2b0513b3065f3f0bddc6bb7fee54dd9a6d1f6e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 04/49] fix: do not hand out the internal running mean by
 reference

---
 src/primate/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 2216d0c..237bbed 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -13,12 +13,12 @@ class Mean:
 	def __call__(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def mean(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def update(self, X: Union[float, np.ndarray]) -> None:
 		"""Update sample mean estimates based on new observations.
-- 
2.43.0


From cf0661b2e49060912b5297b568ed21b2a4b25d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 05/49] fix: record copies of the samples in MeanEstimator

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 20d2426..daadaf2 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -138,7 +138,7 @@ class MeanEstimator(Estimator):
 			self.delta = self._mean.mu - old_mu
 		self.n_samples += x.shape[0]
 		if self.values is not None:
-			self.values.extend(x)
+			self.values.extend(x.copy())
 
 	@property
 	def estimate(self) -> Union[float, np.ndarray]:
-- 
2.43.0


From 402b5fdd5abd700b2e85b6e79d39080a2d8fbfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:40 +0000
Subject: [PATCH 06/49] fix: ignore empty batches when updating the running
 moments

---
 src/primate/stats.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 237bbed..f3abab6 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -30,6 +30,9 @@ class Mean:
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
 
+		if X.shape[0] == 0:
+			return
+
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
 		delta_mean = batch_mean - self.mu
@@ -73,6 +76,9 @@ class Covariance(Mean):
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
 
+		if X.shape[0] == 0:
+			return
+
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
 		delta_mean = batch_mean - self.mu
-- 
2.43.0


From 36b8fae610e5f768dddad6c72af67db6f820475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 07/49] fix: allow single-row updates and degenerate controls
 in ControlVariableEstimator

---
 src/primate/estimators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index daadaf2..0cd7303 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -167,10 +167,10 @@ class ControlVariableEstimator(MeanEstimator):
 		samples: np.ndarray = np.atleast_1d(samples)
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
-		C = self.cov(ddof=1)
-		if self._estimate_cor:
+		if self._estimate_cor and self.n_samples > 1:
+			C = self.cov(ddof=1)
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
-			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+			self.alpha = np.linalg.lstsq(C_11, C_01)[0]  # minimum norm solution if the controls are degenerate (so far)
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
@@ -188,7 +188,7 @@ class ControlVariableEstimator(MeanEstimator):
 
 	@property
 	def estimate(self):
-		if self.n_samples == 0:
+		if self.n_samples == 0 or self.alpha is None:
 			return np.nan
 		cv_est = self.cov.mu[0] - np.dot(self.alpha, self.cov.mu[1:] - self.ecv)
 		# alpha = self.alpha if self.alpha is not None else (C[0, 1] / C[1, 1])
-- 
2.43.0


From 454dcce0f2be1e4489517cc186b9c5419a199827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 08/49] fix: track the change of the estimate and the samples
 in ControlVariableEstimator

---
 src/primate/estimators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 0cd7303..a72622e 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -157,7 +157,7 @@ class ControlVariableEstimator(MeanEstimator):
 		self.cov = Covariance(dim=len(ecv) + 1)
 		self._estimate_cor = alpha is None
 		self.n_samples = 0
-		self.delta = np.inf
+		self.delta = np.atleast_1d(np.inf)
 
 	def __len__(self) -> int:
 		return self.n_samples
@@ -165,12 +165,16 @@ class ControlVariableEstimator(MeanEstimator):
 	@typing.no_type_check
 	def update(self, samples: ArrayLike):
 		samples: np.ndarray = np.atleast_1d(samples)
+		old_estimate = self.estimate
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
 		if self._estimate_cor and self.n_samples > 1:
 			C = self.cov(ddof=1)
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
 			self.alpha = np.linalg.lstsq(C_11, C_01)[0]  # minimum norm solution if the controls are degenerate (so far)
+		self.delta = np.atleast_1d(self.estimate - old_estimate)
+		if self.values is not None:
+			self.values.extend(samples.copy())
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From 07258023ae4d399924e4dd71b79446f141c9e5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 09/49] fix: make the documented softsign function available by
 name

---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index bf5c0ff..cab78aa 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union
 import numpy as np
 
 ## Natively support matrix functions
-_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "numrank"]
+_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]
 
 
 def softsign(x: Optional[np.ndarray] = None, q: int = 1) -> Union[Callable, np.ndarray]:
-- 
2.43.0


From dc59f2729dec655af4ed044d032821fa090b909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 10/49] fix: keep the precision of the inputs in update_trinv

---
 src/primate/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/linalg.py b/src/primate/linalg.py
index 513ccf0..3fbbbb7 100644
--- a/src/primate/linalg.py
+++ b/src/primate/linalg.py
@@ -17,7 +17,7 @@ def update_trinv(B_inv: np.ndarray, b: np.ndarray):
 	b = np.atleast_2d(b).reshape((n + 1, 1))
 	assert B_inv.dtype == b.dtype, "dtypes of `B_inv` and `b` did not match."
 
-	B_ast = np.zeros(shape=(n + 1, n + 1))
+	B_ast = np.zeros(shape=(n + 1, n + 1), dtype=B_inv.dtype)
 	B_ast[:n, :n] = B_inv
 	B_ast[n, n] = np.reciprocal(b[-1]).item()
 	B_ast[:n, [-1]] = B_ast[n, n] * ((-B_inv) @ b[:-1])
-- 
2.43.0


From 24f941658cc9065f54b8a70f391c8be279661ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 11/49] fix: allow single precision output arrays for
 rademacher samples

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index 7ee99fa..0a80f1a 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -20,7 +20,7 @@ _ISO_DISTRIBUTIONS = {
 
 ## NOTE: It's 2-3x faster to use the four ufuncs below than sign
 def _rademacher_inplace(rng: np.random.Generator, out: np.ndarray) -> None:
-	rng.random(out=out)
+	rng.random(out=out, dtype=out.dtype)
 	# np.subtract(out, 0.5, out=out)
 	# np.sign(out, out=out)
 	np.multiply(out, 2, out=out)  # [0, 2]
-- 
2.43.0


From 5fd536ca15d4cf8178f7b6dd749a60bbe6f568a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 12/49] fix: clip negative prescribed eigenvalues in symmetric
 when pd=True

---
 src/primate/random.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/random.py b/src/primate/random.py
index 0a80f1a..cc4bbf4 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -175,6 +175,7 @@ def symmetric(
 	if ew is None:
 		ew = rng.uniform(size=n, low=0.0 if pd else -1.0, high=1.0)
 	ew = np.atleast_1d(ew)
+	ew = np.maximum(ew, 0.0) if pd else ew
 	A = Q @ np.diag(ew) @ Q.T
 	A = (A + A.T) / 2
 	return A
-- 
2.43.0


From d49046f45c31cde0cf089ae9d3c907593977eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 13/49] fix: initialize the LinearOperator base class of
 MatrixFunction and Toeplitz

---
 src/primate/operators.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index a9fb30b..acf2f6a 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,8 +57,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		self.shape = A.shape
-		self.dtype = np.dtype(dtype)
+		super().__init__(np.dtype(dtype), A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -121,7 +120,8 @@ class MatrixFunction(LinearOperator):
 		## TODO: call the lapack function with pre-allocated memory for extra speed
 		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		y = x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		return y.ravel() if y.shape[1] == 1 else y
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
@@ -171,8 +171,7 @@ class Toeplitz(LinearOperator):
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
 		self._dfft = np.real(np.fft.fft(self._d))
 		self._z = np.zeros(len(c) * 2)  # workspace
-		self.shape = (len(c), len(c))
-		self.dtype = dtype
+		super().__init__(np.dtype(dtype), (len(c), len(c)))
 
 	## NOTE: We return a copy because the output cannot be a view
 	def _matvec(self, x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 52532b8f0a6a08c5188054ac76581905c82728b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 14/49] fix: keep the complex spectrum of non-symmetric
 Toeplitz operators

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index acf2f6a..fa4ed42 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -169,7 +169,7 @@ class Toeplitz(LinearOperator):
 		self.c = np.array(c)
 		self.r = np.array(c if r is None else r)
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
-		self._dfft = np.real(np.fft.fft(self._d))
+		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
 		super().__init__(np.dtype(dtype), (len(c), len(c)))
 
-- 
2.43.0


From fc15c6e7d6893bdf461d2d6d6e84d39ec515dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 15/49] fix: execute the Lanczos method in the requested
 precision

---
 src/primate/lanczos.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index d641026..5a16ee1 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -77,11 +77,11 @@ def lanczos(
 	## Basic parameter validation
 	n: int = A.shape[0]
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
-	dt = dtype if dtype is not None else (A @ np.zeros(A.shape[1])).dtype
 	assert deg > 0, "Number of steps must be positive!"
 
 	## Get the dtype; infer it if it's not available
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
+	f_dtype = np.dtype(dtype) if dtype is not None else f_dtype
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
 
 	## Determine number of projections + lanczos vectors
@@ -92,9 +92,9 @@ def lanczos(
 	## Generate the starting vector if none is specified
 	if v0 is None:
 		rng = np.random.default_rng(seed)
-		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(dt)
+		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(f_dtype)
 	else:
-		v0: np.ndarray = np.array(v0).astype(dt)
+		v0: np.ndarray = np.array(v0).astype(f_dtype)
 	assert len(v0) == A.shape[1], "Invalid starting vector; must match the number of columns of A."  # type: ignore
 
 	## Allocate the tridiagonal elements + lanczos vectors in column-major storage
-- 
2.43.0


From 3724ac839caacea20c75cdc023965e16296d8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 16/49] fix: reset the Lanczos workspaces at the start of the
 recurrence

---
 src/primate/include/lanczos.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 13c2d3a..989cdd0 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -116,9 +116,10 @@ void lanczos_recurrence(
 
   // Setup for first iteration
   std::array< int, 3 > pos = { int(ncv) - 1, 0, 1 };          // Indices for the recurrence
-  Q.col(pos[0]) = static_cast< VectorF >(VectorF::Zero(n));   // Ensure previous is 0
+  Q.setZero();                                                // Ensure no projections onto vectors left from previous calls
   Q.col(0) = v.normalized();                                  // Load unit-norm v as q0
-  beta[0] = 0.0;                                              // Ensure beta_0 is 0
+  std::fill(alpha, alpha + deg + 1, F(0));                    // Ensure no coefficients are left from previous calls
+  std::fill(beta, beta + deg + 1, F(0));                      // (in particular, ensure beta_0 is 0)
 
   for (int j = 0; j < deg; ++j) {
 
-- 
2.43.0


From 15bf19406f0b72c516f5543ced4e7293a8605dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 17/49] fix: use only the Krylov subspace actually reached in
 MatrixFunction

---
 src/primate/_lanczos.cpp      |  4 ++--
 src/primate/include/lanczos.h |  6 ++++--
 src/primate/operators.py      | 18 ++++++++++++------
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/primate/_lanczos.cpp b/src/primate/_lanczos.cpp
index 13cd1f3..6918dab 100644
--- a/src/primate/_lanczos.cpp
+++ b/src/primate/_lanczos.cpp
@@ -50,7 +50,7 @@ void _lanczos_wrapper(nb::module_& m){
   ){ 
     const auto op = Wrapper(A);
     const size_t ncv = static_cast< size_t >(Q.shape(1));
-    lanczos_recurrence(
+    return lanczos_recurrence(
       op, v.data(), lanczos_degree, lanczos_rtol, orth, 
       alpha.data(), beta.data(), Q.data(), ncv
     );
@@ -92,7 +92,7 @@ void _lanczos_wrapper(py::module& m){
   ){ 
     const auto op = Wrapper(A);
     const size_t ncv = static_cast< size_t >(Q.shape(1));
-    lanczos_recurrence(
+    return lanczos_recurrence(
       op, v.mutable_data(), lanczos_degree, lanczos_rtol, orth, 
       alpha.mutable_data(), beta.mutable_data(), Q.mutable_data(), ncv
     );
diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 989cdd0..3c277e4 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -89,8 +89,9 @@ constexpr int param_orth(const int orth, const int deg, const int ncv, const std
 // Paige's A27 variant of the Lanczos method
 // Computes the first k elements (a,b) := (alpha,beta) of the tridiagonal matrix T(a,b) where T = Q^T A Q
 // Precondition: orth < ncv <= deg and ncv >= 2.
+// Returns the number of steps carried out, i.e. the size of T, which is less than deg if an invariant subspace was found
 template< std::floating_point F, LinearOperator Matrix >
-void lanczos_recurrence(
+int lanczos_recurrence(
   const Matrix& A,            // Symmetric linear operator 
   F* q,                       // vector to expand the Krylov space K(A, q)
   const int deg,              // Dimension of the Krylov subspace to capture
@@ -139,7 +140,7 @@ void lanczos_recurrence(
     // Early-stop criterion is when K_j(A, v) is near invariant subspace.
     beta[j+1] = v.norm();
     if (beta[j+1] < residual_tol || (j+1) == deg) { // additional break prevents overriding qn
-      break;
+      return j+1;
     }
     Q.col(n) = v / beta[j+1]; // normalize such that Q stays orthonormal
 
@@ -147,6 +148,7 @@ void lanczos_recurrence(
     std::rotate(pos.begin(), pos.begin() + 1, pos.end());
     pos[2] = mod(j+2, ncv);
   }
+  return deg;
 }
 
 enum weight_method { golub_welsch = 0, fttr = 1 };
diff --git a/src/primate/operators.py b/src/primate/operators.py
index fa4ed42..c9812dc 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -115,12 +115,15 @@ class MatrixFunction(LinearOperator):
 		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization
 		x = x.astype(self.dtype).reshape(-1)
 		x_norm = np.linalg.norm(x)
-		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
+		## NOTE: the number of steps k is less than the degree if the Krylov subspace is exhausted early
+		k = _lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
-		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
+		rw, Y = eigh_tridiag(self._alpha[:k], self._beta[1:k])  # O(d^2) space
+		fw = np.atleast_2d(self._fun(rw))
+		fw = fw if x_norm > 0.0 else np.zeros_like(fw)
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		y = x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		y = x_norm * self._Q[:, :k] @ Y @ (fw * Y[0, :]).T
 		return y.ravel() if y.shape[1] == 1 else y
 
 	def quad(self, x: np.ndarray):
@@ -145,9 +148,12 @@ class MatrixFunction(LinearOperator):
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
-			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
-			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
-			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
+			if x_norm_sq == 0.0:
+				continue
+			k = _lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
+			nodes, weights = self._nodes[:k], self._weights[:k]
+			quadrature(self._alpha, self._beta, deg=k, quad="gw", nodes=nodes, weights=weights)
+			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq
 		return y
 
 
-- 
2.43.0


From 3b82263026ee346429e712a46eb7d4852cacd7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:19 +0000
Subject: [PATCH 18/49] fix: drop spurious Ritz values beyond an invariant
 subspace in rayleigh_ritz

---
 src/primate/lanczos.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 5a16ee1..02d1022 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -155,6 +155,13 @@ def rayleigh_ritz(
 	else:
 		(a, b) = lanczos(A, deg=deg, return_basis=False, **kwargs)
 
+	## Only use the coefficients of the Krylov subspace actually reached
+	exhausted = np.flatnonzero(b < np.sqrt(n) * kwargs.get("rtol", 1e-8))
+	k = len(a) if len(exhausted) == 0 else exhausted[0] + 1
+	a, b = a[:k], b[: (k - 1)]
+	if Q_basis:
+		Q = Q[:, :k]
+
 	## Return Rayleigh-Ritz values, Ritz vectors Y (if requested), and Lanczos basis Q (if requested)
 	if return_eigenvectors:
 		rw, Y = eigh_tridiag(a, b)
-- 
2.43.0


From f81800119cb5ae39acdf94fd93115827a2aa8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 19/49] fix: correct the shift and the deflation in tqli

---
 src/primate/tqli.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 7e5c736..3654629 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -3,8 +3,8 @@ import numpy as np
 
 # pythran export sign(float, float)
 def sign(a: float, b: float):
-	# return 1 if b > 0 else (-1 if a < 0 else 1)
-	return int(b > 1) - int(a < 0) + 1
+	## Magnitude of a with the sign of b
+	return abs(a) if b >= 0.0 else -abs(a)
 
 
 ## Based on: https://github.com/rappoccio/PHY410/blob/f6a183eb48807841f6d35be45b4aa845d905a04c/cpt_python/cpt.py#L438
@@ -57,10 +57,10 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				ii += 1
 				g = (d[it + 1] - d[it]) / (2.0 * e[it])  # shift
 				r = np.hypot(g, 1.0)  # pythag
-				g = d[m] - d[it]
-				g += e[it] / (g + sign(r, g))  # dm - ks
+				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
+				underflow = False
 				for i in range(m - 1, it - 1, -1):
 					## Plane rotation followed by Givens to restore tridiagonal
 					f, b = s * e[i], c * e[i]
@@ -69,6 +69,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 						# if abs(r) <= 2.2250738585072014e-128:
 						d[i + 1] -= p
 						e[m] = 0.0
+						underflow = True
 						break
 					s, c = (f / r, g / r)
 					g = d[i + 1] - p
@@ -81,7 +82,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 							f = Z[k][i + 1]
 							Z[k][i + 1] = s * Z[k][i] + c * f
 							Z[k][i] = c * Z[k][i] - s * f
-				if r == 0.0 and i >= it:
+				if underflow:
 					continue
 				d[it] -= p
 				e[it] = g
-- 
2.43.0


From 41dbc55241c5fc9028ebdbb67201ded32d0866c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 20/49] fix: honor the degree and the boundary cases of the
 FTTR quadrature

---
 src/primate/fttr.py      | 7 ++++---
 src/primate/integrate.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 2f133a5..b308b1e 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -4,7 +4,8 @@ import numpy as np
 # pythran export ortho_poly(float, float, float[:], float[:], float[:], int)
 def ortho_poly(x: float, mu_sqrt_rec: float, a: np.ndarray, b: np.ndarray, z: np.ndarray, n: int):
 	z[0] = mu_sqrt_rec
-	z[1] = (x - a[0]) * z[0] / b[1]
+	if n > 1:
+		z[1] = (x - a[0]) * z[0] / b[1]
 	for i in range(2, n):
 		s = (x - a[i - 1]) / b[i]
 		t = -b[i - 1] / b[i]
@@ -19,8 +20,8 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 
 	This functions computes the weights of the Gaussian quadrature of nodes `theta` w.r.t a basis of orthogonal polynomials.
 	"""
-	n = len(alpha)
-	mu_0 = np.sum(np.abs(theta[:k]))
+	n = k
+	mu_0 = 1.0  # the weights of a Jacobi matrix sum to 1
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
 	for i in range(k):
diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 3609ac2..d562ba1 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,9 +64,9 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d, e, **kwargs)
+		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d, e, deg, tau)
+		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From 060b7668f5d8d1d3eda3aabe1c8d478e667c657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 21/49] fix: support Jacobi matrices with zero off-diagonals in
 the FTTR quadrature

---
 src/primate/integrate.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index d562ba1..9056671 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,9 +64,15 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
+		## NOTE: the recurrence is only defined on the leading irreducible block, nodes from other blocks have zero weight
+		splits = np.flatnonzero(e[1:deg] == 0.0)
+		k = deg if len(splits) == 0 else int(splits[0]) + 1
+		theta = eigvalsh_tridiag(d[:k], e[:k], **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d[:deg], e[:deg], deg, tau)
+		fttr(theta, d[:k], e[:k], k, tau)
+		if k < deg:
+			theta = np.append(theta, eigvalsh_tridiag(d[k:deg], e[k:deg], **kwargs))
+			tau = np.append(tau, np.zeros(deg - k, dtype=tau.dtype))
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From e4c3166cccd377804b17e9577adcb56bb6133ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 22/49] fix: accept callable distributions in hutchpp and diag

---
 src/primate/diagonal.py | 2 +-
 src/primate/trace.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0c7f167..bb9b06a 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -58,7 +58,7 @@ def diag(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	estimator = MeanEstimator(dim=N, covariance=False, record=record)
 	converge = convergence_criterion(converge, **kwargs)
 
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 373f10e..7c964ef 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -137,7 +137,7 @@ def hutchpp(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 
 	## Prepare quadratic form evaluator
 	# quad_form = (lambda v: A.quad(v)) if hasattr(A, "quad") else (lambda v: (v.T @ (A @ v)).item())
-- 
2.43.0


From 5b28c27a79d82c314ea53942c5b44d6efe573287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 23/49] fix: use at least one sample in hutchpp

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 7c964ef..bb2137a 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -148,7 +148,7 @@ def hutchpp(
 		return 0.0 if not full else (0.0, EstimatorResult())
 
 	## Setup constants
-	nb = (N // 3) if m is None else m  # number of samples to dedicate to deflation
+	nb = max(N // 3, 1) if m is None else m  # number of samples to dedicate to deflation
 	nb += nb % 3  # ensure nb divides by 3
 	# maxiter: int = (N // 3) if maxiter == "auto" else int(maxiter)  # residual samples; default rule uses Hutch++ result
 	# assert nb % 3 == 0, "Number of samples must be divisible by 3"
-- 
2.43.0


From 3960dc03cf67ea65fafdd8b8393596fe501078ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 24/49] fix: collect the samples of operators with a quad
 method in hutchpp

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index bb2137a..fa58404 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -163,7 +163,7 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T])
+	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.ravel([quad_form(q) for q in Q.T])
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
-- 
2.43.0


From 7be23304fc628668e8107eb7e04549be427ab857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 25/49] fix: keep the results passed to the callbacks of hutch
 and diag up to date

---
 src/primate/diagonal.py | 3 ++-
 src/primate/trace.py    | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index bb9b06a..66fd8ac 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -77,9 +77,10 @@ def diag(
 			numer += u * v.ravel()
 			denom += np.square(v.ravel())
 			estimator.update(np.atleast_2d(numer / denom))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			if callback is not None:
 				callback(result)
-		result.estimate = estimator.estimate
+		result.estimate, result.nit = estimator.estimate, len(estimator)
 		return (estimator.estimate, result)
 	else:
 		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)
diff --git a/src/primate/trace.py b/src/primate/trace.py
index fa58404..defa7fa 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -107,7 +107,9 @@ def hutch(
 		while not converge(estimator):
 			v = pdf(size=(N, batch)).astype(f_dtype)
 			estimator.update(quad_form(v))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			callback(result)
+		result.estimate, result.nit = estimator.estimate, len(estimator)
 		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
 	else:
-- 
2.43.0


From 7174531e91b459de2b1bd5bb788153b394d940bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 26/49] fix: apply the convergence criterion given to xtrace

---
 src/primate/trace.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index defa7fa..ef8f612 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -267,14 +267,13 @@ def xtrace(
 	n = A.shape[0]
 	callback = (lambda result: ...) if not callable(callback) else callback
 	record = kwargs.pop("record", False)
-	estimator = MeanEstimator(record=record)
+	estimator = MeanEstimator(covariance=True, record=record)
 
 	## Parameterize the convergence criteria
 	if converge == "default":
 		converge = CountCriterion(count=n)
 	else:
-		converge = CountCriterion(count=n)
-		converge |= convergence_criterion(converge, **kwargs)
+		converge = CountCriterion(count=n) | convergence_criterion(converge, **kwargs)
 	assert isinstance(converge, ConvergenceCriterion)
 
 	## Setup outputs. TODO: these should really be resizable arrays
@@ -307,8 +306,10 @@ def xtrace(
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
 
 		## Test for convergence
-		estimator = MeanEstimator(record=record)  # degenerate approach since XTrace tracks this
+		old_estimate = estimator.estimate if len(estimator) > 0 else 0.0
+		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		estimator.delta = np.atleast_1d(estimator.estimate - old_estimate)
 		callback(result)
 
 	result.estimator = estimator
-- 
2.43.0


From be5533f8c6b0d9db729f1c17dc954c9c7f895bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 27/49] fix: apply the norm correction for sphere samples in
 xtrace

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index ef8f612..8e19cb2 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -286,7 +286,7 @@ def xtrace(
 	## Commence the batch-iterations
 	result = EstimatorResult()
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
+	sampler = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
 		## Determine number of new sample vectors to generate
 		ns = min(A.shape[1] - W.shape[1], int(batch))
@@ -294,7 +294,7 @@ def xtrace(
 		## Sample a batch of random isotropic vectors
 		## TODO: replace with proper batch updates
 		## TODO: https://stackoverflow.com/questions/6042308/numpy-inverting-an-upper-triangular-matrix
-		N = pdf(size=(n, ns))  # 'new' vectors
+		N = sampler(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
 			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
-- 
2.43.0


From 120838e1852762665015dd4410b2e38132998fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 28/49] fix: keep the result passed to the callback of xtrace
 up to date

---
 src/primate/trace.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 8e19cb2..bc4b788 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -284,7 +284,7 @@ def xtrace(
 	R_inv = np.zeros(shape=(0, 0))
 
 	## Commence the batch-iterations
-	result = EstimatorResult()
+	result = EstimatorResult(estimator, converge)
 	rng = np.random.default_rng(seed)
 	sampler = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
@@ -310,9 +310,8 @@ def xtrace(
 		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
 		estimator.delta = np.atleast_1d(estimator.estimate - old_estimate)
+		result.estimator, result.estimate, result.nit = estimator, estimator.estimate, len(estimator)
 		callback(result)
 
-	result.estimator = estimator
 	result.estimate = estimator.estimate
-	result.criterion = converge
 	return (result.estimate, result) if full else result.estimate
-- 
2.43.0


From 4a7a9d64821d1efdcc754c070bd5229e4b38973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 29/49] fix: ignore rounding errors of a constant sample mean
 in KneeCriterion

---
 src/primate/estimators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index a72622e..87422c5 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -319,7 +319,8 @@ class KneeCriterion(ConvergenceCriterion):
 
 		## Normalize to [0, 1], calculate difference curve
 		y = mu_cum_diffs
-		if y.max() == y.min():
+		tol = np.finfo(y.dtype).eps * len(mv) ** 2 * np.max(np.abs(cum_sample_mean))  # rounding errors of the running mean
+		if y.max() - y.min() <= tol:
 			return True  # the sample mean no longer changes
 		y_norm = (y - y.min()) / (y.max() - y.min())
 		diff_curve = y_norm - np.linspace(0, 1, len(y))
-- 
2.43.0


From 4366343580bd95f017192700699f13d7d860bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 30/49] fix: report the contribution of each vector in the
 samples of hutchpp

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index bc4b788..754b78f 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -165,13 +165,13 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.ravel([quad_form(q) for q in Q.T])
+	rng_ests = np.einsum("...i,...i->...", (A @ Q).T, Q.T) if mode == "full" else np.ravel([quad_form(q) for q in Q.T])
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
 	G = pdf(size=(N, nb)).astype(f_dtype)
 	G -= Q @ (Q.T @ G)
-	defl_ests = np.einsum("...i,...i->...", A @ G, G)  # [(g @ A @ g) for g in G[g_1, g_2, ..., g_nb]]
+	defl_ests = np.einsum("...i,...i->...", (A @ G).T, G.T)  # [(g @ A @ g) for g in G[g_1, g_2, ..., g_nb]]
 	tr_defl = (1 / nb) * np.sum(defl_ests)
 
 	if not full:
-- 
2.43.0


From c6bf13f94b04d9cb7f427f897e1a09ca4ba33895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 31/49] fix: support 1 x 1 operators in xtrace

---
 src/primate/trace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 754b78f..a7c7a02 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -297,7 +297,11 @@ def xtrace(
 		N = sampler(size=(n, ns))  # 'new' vectors
 		Y = A @ N
 		for j in range(ns):
-			Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
+			## NOTE: qr_insert does not support inserting the first column of a 1 x 1 factorization
+			if Q.shape[1] == 0:
+				Q, R = np.linalg.qr(Y[:, [j]], mode="reduced")
+			else:
+				Q, R = qr_insert(Q, R, u=Y[:, j], k=Q.shape[1], which="col")  # rcond=FLOAT_MIN
 			R_inv = update_trinv(R_inv, R[:, -1])
 		W = np.c_[W, N]
 		Z = np.c_[Z, A @ Q[:, -ns:]]
-- 
2.43.0


From 0b72e21f92ac89816be1a82af4f9dea7e3bbbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 32/49] fix: reject non-square operators in lanczos instead of
 aborting the process

---
 src/primate/lanczos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 02d1022..5036377 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -75,6 +75,7 @@ def lanczos(
 		1. Paige, Christopher C. "Computational variants of the Lanczos method for the eigenproblem." IMA Journal of Applied Mathematics 10.3 (1972): 373-381.
 	"""
 	## Basic parameter validation
+	assert len(A.shape) == 2 and A.shape[0] == A.shape[1], "The Lanczos method only works with square, symmetric operators!"
 	n: int = A.shape[0]
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
 	assert deg > 0, "Number of steps must be positive!"
-- 
2.43.0


From 31cb03dfcbc1d4137a5e16ba552c731e032470f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 33/49] fix: recognize operators that are not two-dimensional
 as invalid

---
 src/primate/operators.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index c9812dc..8bcb4e2 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -15,7 +15,7 @@ F64: np.dtype = np.dtype("float64")
 def is_valid_operator(A: Union[np.ndarray, LinearOperator]) -> np.dtype:
 	attr_checks = [hasattr(A, "__matmul__"), hasattr(A, "matmul"), hasattr(A, "dot"), hasattr(A, "matvec")]
 	assert any(attr_checks), "Invalid operator; must have an overloaded 'matvec' or 'matmul' method"
-	assert hasattr(A, "shape") and len(A.shape) >= 2, "Operator must be at least two dimensional."
+	assert hasattr(A, "shape") and len(A.shape) == 2, "Operator must be two dimensional."
 	assert A.shape[0] == A.shape[1], "This function only works with square, symmetric matrices!"
 	assert hasattr(A, "shape"), "Operator 'A' must have a valid 'shape' attribute!"
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
@@ -28,8 +28,8 @@ def is_linear_op(A: Any) -> bool:
 	attr_checks = [hasattr(A, "__matmul__"), hasattr(A, "matmul"), hasattr(A, "dot"), hasattr(A, "matvec")]
 	is_valid_op = True
 	is_valid_op &= any(attr_checks)  # , "Invalid operator; must have an overloaded 'matvec' or 'matmul' method"
-	is_valid_op &= hasattr(A, "shape") and len(A.shape) >= 2  # , "Operator must be at least two dimensional."
-	is_valid_op &= A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
+	is_valid_op &= hasattr(A, "shape") and len(A.shape) == 2  # , "Operator must be two dimensional."
+	is_valid_op = is_valid_op and A.shape[0] == A.shape[1]  # , "This function only works with square, symmetric matrices!"
 	return is_valid_op
 
 
-- 
2.43.0


From e430deaa098e1eeb40a2ae3a17246c0644cc3f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:44 +0000
Subject: [PATCH 34/49] fix: reject empty batches in hutch instead of looping
 forever

---
 src/primate/trace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index a7c7a02..fc00c71 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -79,6 +79,7 @@ def hutch(
 		from primate.trace import hutch
 		```
 	"""
+	assert batch >= 1, "Batch size must be positive."
 	f_dtype = is_valid_operator(A)
 	N: int = A.shape[0]
 
-- 
2.43.0


From 219f0587e1ff69a76536edbbee6320f1ffbf479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:35 +0000
Subject: [PATCH 35/49] fix: reject vectors of the wrong length in
 MatrixFunction

---
 src/primate/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 8bcb4e2..56da7b6 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -114,6 +114,7 @@ class MatrixFunction(LinearOperator):
 		# self.Q.fill(0)  # this is necessary to prevent orthogonalization
 		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization
 		x = x.astype(self.dtype).reshape(-1)
+		assert len(x) == self.shape[1], "Invalid vector; must match the number of columns of A."
 		x_norm = np.linalg.norm(x)
 		## NOTE: the number of steps k is less than the degree if the Krylov subspace is exhausted early
 		k = _lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
@@ -143,6 +144,7 @@ class MatrixFunction(LinearOperator):
 		x = x.astype(self.dtype)
 		x = np.atleast_2d(x).T if x.ndim == 1 else x
 		x = np.array(x, order="F", copy=None)
+		assert x.ndim == 2 and x.shape[0] == self.shape[1], "Invalid vector(s); must match the number of columns of A."
 		x_norm_sq = np.square(np.linalg.norm(x, axis=0))
 		y = np.zeros(x.shape[1])
 		for j in range(x.shape[1]):
-- 
2.43.0


From c845009d8b38491c0e1d366cf1965262d3660bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 36/49] fix: leave out missing samples in figure_sequence

---
 src/primate/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index ce0578a..bdce5ab 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -77,7 +77,7 @@ def figure_sequence(estimator: Union[Estimator, Sequence], mu: Optional[float] =
 	fig_kwargs = dict(width=400, height=300, title=fig_title)
 	p = figure(**(fig_kwargs | kwargs))
 	p.toolbar_location = None
-	p.scatter(sample_index, sample_vals, size=4.0, color="gray", legend_label="samples")
+	p.scatter(sample_index, sample_vals[valid_samples], size=4.0, color="gray", legend_label="samples")
 	p.title.align = "center"
 	p.legend.location = "top_left"
 	p.yaxis.axis_label = "Estimates"
-- 
2.43.0


From 18fe6b0c8fd9e1cf078ee0c24a551d3ed4273eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 37/49] fix: draw the error with respect to the given value in
 figure_error

---
 src/primate/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index bdce5ab..8bd07c3 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -147,7 +147,8 @@ def figure_error(
 
 	if mu is not None:
 		cum_abs_error = np.abs(mu - sample_avgs)
-		cum_rel_error = np.abs(mu - sample_avgs / mu)
+		cum_rel_error = np.abs((mu - sample_avgs) / mu)
+		cum_error = cum_abs_error if absolute else cum_rel_error
 	else:
 		est = MeanEstimator(covariance=True)
 		cc = ConfidenceCriterion(confidence=0.95)
-- 
2.43.0


From bf5fd8a58bc08a4d22430c14447bca2dca1d96fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 38/49] fix: read the entries of strided products of
 matrix-free operators in Lanczos

---
 src/primate/include/pylinop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 6f3d39f..f7cc257 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -33,7 +33,7 @@ struct PyLinearOperator {
     auto ts = hr_clock::now(); 
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
-    py::array_t< F > output = matvec_out.cast< py::array_t< F > >();
+    py_array< F > output = matvec_out.cast< py_array< F > >(); // contiguous
     // std::copy(output.data(), output.data() + output.size(), out);
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
-- 
2.43.0


From 8618c1d51334366000a68ff24d8c17fd5cb4d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 39/49] fix: reject products of the wrong size of matrix-free
 operators in Lanczos

---
 src/primate/include/pylinop.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index f7cc257..fbe3bc8 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -34,6 +34,7 @@ struct PyLinearOperator {
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
     py_array< F > output = matvec_out.cast< py_array< F > >(); // contiguous
+    if (size_t(output.size()) != _shape.first) { throw std::invalid_argument("Result of 'matvec' does not match the shape of the operator."); }
     // std::copy(output.data(), output.data() + output.size(), out);
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
-- 
2.43.0


From 6bbbcdcd87287db66807ca4adc18a2c35b25ac53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 40/49] fix: Gram operator (C++ header) multiplies matrices by
 A'A and reports its shape

---
 src/primate/include/eigen_operators.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/primate/include/eigen_operators.h b/src/primate/include/eigen_operators.h
index a037bf7..be15a97 100644
--- a/src/primate/include/eigen_operators.h
+++ b/src/primate/include/eigen_operators.h
@@ -93,13 +93,18 @@ struct SparseEigenLinearOperator {
   void matmat(const F* X, F* Y, const size_t k) const noexcept {
     auto ts = hr_clock::now();
     Eigen::Map< const DenseMatrix< F > > XM(X, A.cols(), k);
-    Eigen::Map< DenseMatrix< F > > YM(Y, A.rows(), k);
-    YM = A * XM;
+    if constexpr(gram){
+      Eigen::Map< DenseMatrix< F > > YM(Y, A.cols(), k);
+      YM = A.adjoint() * (A * XM);
+    } else {
+      Eigen::Map< DenseMatrix< F > > YM(Y, A.rows(), k);
+      YM = A * XM;
+    }
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
   }
 
   auto shape() const noexcept -> std::pair< size_t, size_t > {
-    return std::make_pair((size_t) A.rows(), (size_t) A.cols());
+    return std::make_pair((size_t) (gram ? A.cols() : A.rows()), (size_t) A.cols());
   }
 };
 
-- 
2.43.0


From f7c58a7873fe5d228f6489c0020165b7dbaf6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 41/49] fix: Lanczos with a tolerance that is no Python float
 returned zeros

---
 src/primate/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 5036377..e68dbf5 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -107,7 +107,7 @@ def lanczos(
 	assert Q.ndim == 2 and Q.shape == (n, ncv) and Q.flags["F_CONTIGUOUS"] and Q.flags["WRITEABLE"] and Q.flags["OWNDATA"]
 
 	## Call the procedure
-	_lanczos.lanczos(A, v0, deg, rtol, orth, alpha, beta, Q)
+	_lanczos.lanczos(A, v0, deg, float(rtol), orth, alpha, beta, Q)
 
 	## Format the output(s)
 	if sparse_mat:
-- 
2.43.0


From 7dc4ce306f7ee43e649ac040db1f66d2bf988d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 42/49] fix: reject non-contiguous Lanczos output arrays
 instead of returning zeros

---
 src/primate/lanczos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index e68dbf5..083de61 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -104,6 +104,7 @@ def lanczos(
 	Q = kwargs.get("Q", np.zeros((n, ncv), dtype=f_dtype, order="F"))
 	assert isinstance(alpha, np.ndarray) and len(alpha) == deg + 1 and alpha.dtype == f_dtype and alpha.flags["WRITEABLE"]
 	assert isinstance(beta, np.ndarray) and len(beta) == deg + 1 and beta.dtype == f_dtype and beta.flags["WRITEABLE"]
+	assert alpha.flags["C_CONTIGUOUS"] and beta.flags["C_CONTIGUOUS"], "Output arrays must be contiguous to be written in-place"
 	assert Q.ndim == 2 and Q.shape == (n, ncv) and Q.flags["F_CONTIGUOUS"] and Q.flags["WRITEABLE"] and Q.flags["OWNDATA"]
 
 	## Call the procedure
-- 
2.43.0


From 9091f2688cfd9bcd7d17eaabe11b58d50d0e422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 43/49] fix: operators in non-native byte order or
 non-canonical sparse format in Lanczos

---
 src/primate/lanczos.py   | 16 +++++++++++++++-
 src/primate/operators.py |  7 ++++---
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 083de61..8a55f51 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -2,7 +2,7 @@ import typing
 from typing import Any, Optional, Union
 
 import numpy as np
-from scipy.sparse import sparray, spdiags
+from scipy.sparse import issparse, sparray, spdiags
 from scipy.sparse.linalg import LinearOperator
 
 from . import _lanczos  # type: ignore
@@ -22,6 +22,18 @@ def _validate_lanczos(N: int, ncv: int, deg: int, orth: int, atol: float, rtol:
 	return N, ncv, deg, orth, atol, rtol
 
 
+def _as_native(A: Any) -> Any:
+	"""Converts array operators to what the extension modules expect: native byte order, writeable arrays in canonical format."""
+	if isinstance(A, np.ndarray) and not A.dtype.isnative:
+		return A.astype(A.dtype.newbyteorder("="))
+	if issparse(A):
+		readonly = A.format == "csc" and not all(x.flags["WRITEABLE"] for x in (A.data, A.indices, A.indptr))
+		if readonly or not getattr(A, "has_canonical_format", True):
+			A = A.copy()
+			A.sum_duplicates()
+	return A
+
+
 def lanczos(
 	A: Union[np.ndarray, sparray, LinearOperator],
 	v0: Optional[np.ndarray] = None,
@@ -84,6 +96,8 @@ def lanczos(
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
 	f_dtype = np.dtype(dtype) if dtype is not None else f_dtype
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
+	f_dtype = f_dtype.newbyteorder("=")  # the extension modules only operate on native byte order
+	A = _as_native(A)
 
 	## Determine number of projections + lanczos vectors
 	orth: int = deg if orth < 0 or orth > deg else orth
diff --git a/src/primate/operators.py b/src/primate/operators.py
index 56da7b6..951c284 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -5,7 +5,7 @@ from scipy.sparse.linalg import LinearOperator, aslinearoperator, eigsh
 from scipy.sparse.linalg._interface import IdentityOperator
 
 from .integrate import quadrature
-from .lanczos import _lanczos
+from .lanczos import _as_native, _lanczos
 from .special import param_callable
 from .tridiag import eigh_tridiag
 
@@ -57,7 +57,8 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		super().__init__(np.dtype(dtype), A.shape)
+		dtype = np.dtype(dtype).newbyteorder("=")
+		super().__init__(dtype, A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -77,7 +78,7 @@ class MatrixFunction(LinearOperator):
 		assert self._Q.flags["F_CONTIGUOUS"] and self._Q.flags["WRITEABLE"] and self._Q.flags["OWNDATA"]
 		self._rtol = 1e-8
 		self._orth = self._deg if orth < 0 or orth > self._deg else orth
-		self._A = A
+		self._A = _as_native(A)
 
 	@property
 	def degree(self) -> int:
-- 
2.43.0


From a21e1994a0fce9ec8f794fca6ba6e88173f475b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 44/49] fix: tqli on single precision and integer tridiagonals

---
 src/primate/tridiag.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/tridiag.py b/src/primate/tridiag.py
index 0430f9c..ac15823 100644
--- a/src/primate/tridiag.py
+++ b/src/primate/tridiag.py
@@ -10,7 +10,8 @@ def _eigh_tridiag(d: np.ndarray, e: np.ndarray, Z: np.ndarray, method: str = "au
 		eigh_solver = eigvalsh_tridiagonal if np.prod(Z.shape) == 0 else eigh_tridiagonal
 		return eigh_solver(d, e[1:])
 	elif method == "tqli":
-		tqli(d, e, Z, maxiter)
+		d, e, Z = d.astype(np.float64), e.astype(np.float64), Z.astype(np.float64)  # the compiled routine needs doubles
+		tqli(d, e, Z, int(maxiter))
 		return d if np.prod(Z.shape) == 0 else (d, Z)
 	else:
 		try:
-- 
2.43.0


From 0344a973f6fc30ad539502b24cdaa9f28557673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 45/49] fix: fttr quadrature of non-contiguous or single
 precision diagonals

---
 src/primate/integrate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 9056671..bc4c3a1 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -67,9 +67,11 @@ def quadrature(
 		## NOTE: the recurrence is only defined on the leading irreducible block, nodes from other blocks have zero weight
 		splits = np.flatnonzero(e[1:deg] == 0.0)
 		k = deg if len(splits) == 0 else int(splits[0]) + 1
-		theta = eigvalsh_tridiag(d[:k], e[:k], **kwargs)
+		theta = eigvalsh_tridiag(d[:k], e[:k], **kwargs).astype(np.float64)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d[:k], e[:k], k, tau)
+		## NOTE: the compiled recurrence needs contiguous arrays of doubles
+		alpha, beta = np.ascontiguousarray(d[:k], dtype=np.float64), np.ascontiguousarray(e[:k], dtype=np.float64)
+		fttr(theta, alpha, beta, k, tau)
 		if k < deg:
 			theta = np.append(theta, eigvalsh_tridiag(d[k:deg], e[k:deg], **kwargs))
 			tau = np.append(tau, np.zeros(deg - k, dtype=tau.dtype))
-- 
2.43.0


From 8162ca9280e46b7db24f76ef5478d6068899664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:56 +0000
Subject: [PATCH 46/49] fix: built-in inverse of integers truncated to zero

---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index cab78aa..2048e6c 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -89,7 +89,7 @@ def param_callable(fun: Union[str, None], **kwargs) -> Callable:
 	elif fun == "log":
 		return lambda x: np.log(np.maximum(x, np.finfo(np.float64).eps))
 	elif fun == "inv":
-		return np.reciprocal
+		return lambda x: np.divide(1.0, x)
 	elif fun == "exp":
 		t = kwargs.pop("t", 1.0)  # type: ignore
 		return exp(t=t)
-- 
2.43.0


From 0b14697b759d29aea2b62a63ee58c0554fe140e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:20 +0000
Subject: [PATCH 47/49] fix: lengths given as numpy integers changed the shape
 of isotropic samples

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index cc4bbf4..a37f3eb 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -72,7 +72,7 @@ def isotropic(
 		iso = _ISO_FUNCS[pdf]
 
 		def _isotropic(size: Union[int, tuple]):
-			size = (size, 1) if isinstance(size, int) else size
+			size = (size, 1) if isinstance(size, Integral) else size
 			W = np.empty(shape=size, dtype=np.float64, order="F")
 			iso(rng, out=W)
 			return W
-- 
2.43.0


From addf1bc35330e4f0d84a680783dc22217e528ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:48 +0000
Subject: [PATCH 48/49] fix: quadrature ignored an output array given alone

---
 src/primate/integrate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index bc4c3a1..b0b1d44 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -77,8 +77,10 @@ def quadrature(
 			tau = np.append(tau, np.zeros(deg - k, dtype=tau.dtype))
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
-	if nodes is not None and weights is not None:
-		assert len(nodes) == deg and len(weights) == deg, "`nodes` and `weights` output arrays must be `deg` in length."
+	assert nodes is None or len(nodes) == deg, "`nodes` output array must be `deg` in length."
+	assert weights is None or len(weights) == deg, "`weights` output array must be `deg` in length."
+	if nodes is not None:
 		np.copyto(nodes, theta)
+	if weights is not None:
 		np.copyto(weights, tau)
 	return theta, tau
-- 
2.43.0


From a494021587fd42d8f0743791ae42ff1207b81921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:57 +0000
Subject: [PATCH 49/49] fix: xtrace of operators whose products are single
 precision

---
 src/primate/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index fc00c71..55a55b0 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -296,7 +296,7 @@ def xtrace(
 		## TODO: replace with proper batch updates
 		## TODO: https://stackoverflow.com/questions/6042308/numpy-inverting-an-upper-triangular-matrix
 		N = sampler(size=(n, ns))  # 'new' vectors
-		Y = A @ N
+		Y = np.asarray(A @ N, dtype=np.float64)  # the factorization is carried out in double precision
 		for j in range(ns):
 			## NOTE: qr_insert does not support inserting the first column of a 1 x 1 factorization
 			if Q.shape[1] == 0:
-- 
2.43.0

