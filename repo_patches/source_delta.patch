From 546a9c4a2c0fcdc4b9d1d152bf87077981354b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:00 +0000
Subject: [PATCH 01/57] fix: tqli used a wrong implicit shift and could divide
 by zero

The shift overwrote g before forming sign(r, g), and sign() ignored the
magnitude of r, so the denominator could vanish (abort in the compiled
extension). Also flag the underflow exit explicitly: in Python the loop
variable does not tell a completed sweep from an early break.
---
 src/primate/tqli.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index 7e5c736..c667b51 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -3,8 +3,7 @@ import numpy as np
 
 # pythran export sign(float, float)
 def sign(a: float, b: float):
-	# return 1 if b > 0 else (-1 if a < 0 else 1)
-	return int(b > 1) - int(a < 0) + 1
+	return np.copysign(a, b)
 
 
 ## Based on: https://github.com/rappoccio/PHY410/blob/f6a183eb48807841f6d35be45b4aa845d905a04c/cpt_python/cpt.py#L438
@@ -57,10 +56,10 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 				ii += 1
 				g = (d[it + 1] - d[it]) / (2.0 * e[it])  # shift
 				r = np.hypot(g, 1.0)  # pythag
-				g = d[m] - d[it]
-				g += e[it] / (g + sign(r, g))  # dm - ks
+				g = d[m] - d[it] + e[it] / (g + sign(r, g))  # dm - ks
 				# g = d[m] - d[l] + e[l] if np.isclose(g + sign(r, g), 0.0) else (d[m] - d[l] + e[l] / (g + sign(r, g)))
 				s, c, p = 1.0, 1.0, 0.0
+				underflow = False
 				for i in range(m - 1, it - 1, -1):
 					## Plane rotation followed by Givens to restore tridiagonal
 					f, b = s * e[i], c * e[i]
@@ -69,6 +68,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 						# if abs(r) <= 2.2250738585072014e-128:
 						d[i + 1] -= p
 						e[m] = 0.0
+						underflow = True
 						break
 					s, c = (f / r, g / r)
 					g = d[i + 1] - p
@@ -81,7 +81,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 							f = Z[k][i + 1]
 							Z[k][i + 1] = s * Z[k][i] + c * f
 							Z[k][i] = c * Z[k][i] - s * f
-				if r == 0.0 and i >= it:
+				if underflow:
 					continue
 				d[it] -= p
 				e[it] = g
-- 
2.43.0


From d13bbb190eff32fb06d9070c16386fab901809d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 02/57] fix: fttr wrote out of bounds for a 1 x 1 Jacobi matrix

---
 src/primate/fttr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 2f133a5..9950717 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -4,7 +4,8 @@ import numpy as np
 # pythran export ortho_poly(float, float, float[:], float[:], float[:], int)
 def ortho_poly(x: float, mu_sqrt_rec: float, a: np.ndarray, b: np.ndarray, z: np.ndarray, n: int):
 	z[0] = mu_sqrt_rec
-	z[1] = (x - a[0]) * z[0] / b[1]
+	if n > 1:
+		z[1] = (x - a[0]) * z[0] / b[1]
 	for i in range(2, n):
 		s = (x - a[i - 1]) / b[i]
 		t = -b[i - 1] / b[i]
-- 
2.43.0


From 45a28ba21f5ecace4cf614888fa2db7eb2b4d3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:28 +0000
Subject: [PATCH 03/57] fix: quadrature(quad='fttr') ignored deg when building
 the rule

---
 src/primate/integrate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index 3609ac2..d562ba1 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,9 +64,9 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d, e, **kwargs)
+		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
 		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d, e, deg, tau)
+		fttr(theta, d[:deg], e[:deg], deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From 2777829a24883a9d76d1a6bc68e0b5c374676415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 04/57] fix: fttr divided by zero when every node is zero

---
 src/primate/fttr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 9950717..7b70298 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -22,6 +22,8 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 	"""
 	n = len(alpha)
 	mu_0 = np.sum(np.abs(theta[:k]))
+	if mu_0 == 0.0:
+		mu_0 = 1.0  # the weights do not depend on the scale
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
 	for i in range(k):
-- 
2.43.0


From a6afb4a7b45f65f482fa19e7eb20be763f30cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 05/57] fix: lanczos overran its buffers on non-square
 operators

---
 src/primate/lanczos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index d641026..2beec23 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -75,6 +75,7 @@ def lanczos(
 		1. Paige, Christopher C. "Computational variants of the Lanczos method for the eigenproblem." IMA Journal of Applied Mathematics 10.3 (1972): 373-381.
 	"""
 	## Basic parameter validation
+	assert len(A.shape) == 2 and A.shape[0] == A.shape[1], "Operator must be square."
 	n: int = A.shape[0]
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
 	dt = dtype if dtype is not None else (A @ np.zeros(A.shape[1])).dtype
-- 
2.43.0


From 5fbdd974f4b60354c19ee54af38ef73832bab1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 06/57] fix: matvec results that are strided views or too short
 were misread

---
 src/primate/include/pylinop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/include/pylinop.h b/src/primate/include/pylinop.h
index 6f3d39f..6710657 100644
--- a/src/primate/include/pylinop.h
+++ b/src/primate/include/pylinop.h
@@ -33,7 +33,8 @@ struct PyLinearOperator {
     auto ts = hr_clock::now(); 
     py_array< F > input({ static_cast<py::ssize_t>(_shape.second) }, inp);
     py::object matvec_out = _op.attr("matvec")(input);
-    py::array_t< F > output = matvec_out.cast< py::array_t< F > >();
+    auto output = matvec_out.cast< py::array_t< F, py::array::c_style | py::array::forcecast > >(); // may be strided or a view
+    if (static_cast< size_t >(output.size()) != _shape.first){ throw std::invalid_argument("'matvec' returned an output of the wrong length."); }
     // std::copy(output.data(), output.data() + output.size(), out);
 		std::copy(output.data(), output.data() + _shape.first, out);
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
-- 
2.43.0


From 33ec40763e776f66cdef9ecba2bef3d4f52b1317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:57 +0000
Subject: [PATCH 07/57] fix: initialise LinearOperator so matrix functions and
 Toeplitz support @

---
 src/primate/operators.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index a9fb30b..33d5476 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,8 +57,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		self.shape = A.shape
-		self.dtype = np.dtype(dtype)
+		super().__init__(dtype=np.dtype(dtype), shape=A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -171,8 +170,7 @@ class Toeplitz(LinearOperator):
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
 		self._dfft = np.real(np.fft.fft(self._d))
 		self._z = np.zeros(len(c) * 2)  # workspace
-		self.shape = (len(c), len(c))
-		self.dtype = dtype
+		super().__init__(dtype=np.dtype(dtype), shape=(len(c), len(c)))
 
 	## NOTE: We return a copy because the output cannot be a view
 	def _matvec(self, x: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 79a2f46ea467099cd2b64e23fa10cca02f0bfbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 08/57] fix: matrix functions read out of bounds on vectors of
 the wrong length

---
 src/primate/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 33d5476..bdde2db 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -114,6 +114,7 @@ class MatrixFunction(LinearOperator):
 		# self.Q.fill(0)  # this is necessary to prevent orthogonalization
 		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization
 		x = x.astype(self.dtype).reshape(-1)
+		assert len(x) == self.shape[1], "Input vector must match the number of columns of the operator."
 		x_norm = np.linalg.norm(x)
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 
@@ -138,6 +139,7 @@ class MatrixFunction(LinearOperator):
 			self._Q.resize((self.shape[0], self._deg))
 		x = x.astype(self.dtype)
 		x = np.atleast_2d(x).T if x.ndim == 1 else x
+		assert len(x) == self.shape[1], "Input vector(s) must match the number of columns of the operator."
 		x = np.array(x, order="F", copy=None)
 		x_norm_sq = np.square(np.linalg.norm(x, axis=0))
 		y = np.zeros(x.shape[1])
-- 
2.43.0


From 43ae0e9cf09754ab9120a8910f96825393056125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:01 +0000
Subject: [PATCH 09/57] fix: matrix functions reused stale Lanczos state
 between products

Re-orthogonalization ran against vectors of the previous product, stale
coefficients survived an early termination, and a terminated expansion was
padded with zero Ritz values (f(0) is not finite for e.g. the inverse).
---
 src/primate/operators.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index bdde2db..c7e6d16 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -98,6 +98,16 @@ class MatrixFunction(LinearOperator):
 	def _adjoint(self):
 		return self
 
+	def _krylov(self, x: np.ndarray) -> int:
+		"""Expands the Krylov subspace of `x` from a clean workspace, returning the dimension it reached (at most `deg`)."""
+		self._Q.fill(0)  # stale vectors would corrupt the re-orthogonalization
+		self._alpha.fill(0)
+		self._beta.fill(0)
+		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
+		residual_tol = self.dtype.type(np.sqrt(self.shape[0]) * self.dtype.type(self._rtol))
+		converged = np.flatnonzero(self._beta[1 : self._deg] < residual_tol)
+		return self._deg if len(converged) == 0 else int(converged[0]) + 1
+
 	def _matvec(self, x: np.ndarray):
 		r"""Estimates the matrix-vector action using the Lanczos method.
 
@@ -111,17 +121,15 @@ class MatrixFunction(LinearOperator):
 		"""
 		if self._Q.shape[1] < self._deg:
 			self._Q = np.zeros((self.shape[0], self._deg), dtype=self.dtype, order="F")
-		# self.Q.fill(0)  # this is necessary to prevent orthogonalization
-		self._Q[:, -self._deg :].fill(0)  # this is necessary to prevent NaN's during re-orthogonalization
 		x = x.astype(self.dtype).reshape(-1)
 		assert len(x) == self.shape[1], "Input vector must match the number of columns of the operator."
 		x_norm = np.linalg.norm(x)
-		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
+		k = self._krylov(x)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
-		rw, Y = eigh_tridiag(self._alpha[: self._deg], self._beta[1 : self._deg])  # O(d^2) space
+		rw, Y = eigh_tridiag(self._alpha[:k], self._beta[1:k])  # O(d^2) space
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
-		return x_norm * self._Q @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
+		return x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
 
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
@@ -146,9 +154,10 @@ class MatrixFunction(LinearOperator):
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
-			_lanczos.lanczos(self._A, xc, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
-			quadrature(self._alpha, self._beta, deg=self._deg, quad="gw", nodes=self._nodes, weights=self._weights)
-			y[j] = np.sum(self._fun(self._nodes) * self._weights, axis=-1) * x_norm_sq
+			k = self._krylov(xc)
+			nodes, weights = self._nodes[:k], self._weights[:k]
+			quadrature(self._alpha, self._beta, deg=k, quad="gw", nodes=nodes, weights=weights)
+			y[j] = np.sum(self._fun(nodes) * weights, axis=-1) * x_norm_sq
 		return y
 
 
-- 
2.43.0


From da8237f78fc44293322810be58a5ed8a434fd687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 10/57] fix: matrix functions returned NaN on the zero vector

---
 src/primate/operators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index c7e6d16..17b9583 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -124,6 +124,8 @@ class MatrixFunction(LinearOperator):
 		x = x.astype(self.dtype).reshape(-1)
 		assert len(x) == self.shape[1], "Input vector must match the number of columns of the operator."
 		x_norm = np.linalg.norm(x)
+		if x_norm == 0.0:
+			return x[:, np.newaxis]  # f(A) maps 0 to 0, even if f(0) is not finite
 		k = self._krylov(x)
 
 		## TODO: call the lapack function with pre-allocated memory for extra speed
@@ -154,6 +156,8 @@ class MatrixFunction(LinearOperator):
 		for j in range(x.shape[1]):
 			xc = x[:, j]
 			x_norm_sq = np.linalg.norm(xc) ** 2
+			if x_norm_sq == 0.0:
+				continue  # the form vanishes at 0, even if f(0) is not finite
 			k = self._krylov(xc)
 			nodes, weights = self._nodes[:k], self._weights[:k]
 			quadrature(self._alpha, self._beta, deg=k, quad="gw", nodes=nodes, weights=weights)
-- 
2.43.0


From da95448c46daea8e23481a29b2050291fc471092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 11/57] fix: Toeplitz products were wrong unless the matrix was
 symmetric

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 17b9583..17cae2c 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -183,7 +183,7 @@ class Toeplitz(LinearOperator):
 		self.c = np.array(c)
 		self.r = np.array(c if r is None else r)
 		self._d = np.concatenate((self.c, [0], np.flip(self.r[1:])))
-		self._dfft = np.real(np.fft.fft(self._d))
+		self._dfft = np.fft.fft(self._d)
 		self._z = np.zeros(len(c) * 2)  # workspace
 		super().__init__(dtype=np.dtype(dtype), shape=(len(c), len(c)))
 
-- 
2.43.0


From 44bb2bfd6fcf6aa5852a4fab37c168902884de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:34 +0000
Subject: [PATCH 12/57] fix: lanczos returned zeros when dtype differed from
 that of the operator

---
 src/primate/lanczos.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 2beec23..aacbb33 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -78,12 +78,13 @@ def lanczos(
 	assert len(A.shape) == 2 and A.shape[0] == A.shape[1], "Operator must be square."
 	n: int = A.shape[0]
 	deg: int = A.shape[1] if deg is None else min(deg, A.shape[1])
-	dt = dtype if dtype is not None else (A @ np.zeros(A.shape[1])).dtype
 	assert deg > 0, "Number of steps must be positive!"
 
 	## Get the dtype; infer it if it's not available
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
+	f_dtype = np.dtype(f_dtype if dtype is None else dtype)
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
+	A = A.astype(f_dtype, copy=False) if hasattr(A, "astype") else A
 
 	## Determine number of projections + lanczos vectors
 	orth: int = deg if orth < 0 or orth > deg else orth
@@ -93,9 +94,9 @@ def lanczos(
 	## Generate the starting vector if none is specified
 	if v0 is None:
 		rng = np.random.default_rng(seed)
-		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(dt)
+		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(f_dtype)
 	else:
-		v0: np.ndarray = np.array(v0).astype(dt)
+		v0: np.ndarray = np.array(v0).astype(f_dtype)
 	assert len(v0) == A.shape[1], "Invalid starting vector; must match the number of columns of A."  # type: ignore
 
 	## Allocate the tridiagonal elements + lanczos vectors in column-major storage
-- 
2.43.0


From 49bbd8d8f6c70199002acd6e6651d87162c9316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:54 +0000
Subject: [PATCH 13/57] fix: rayleigh_ritz reported padding as Ritz values
 after early termination

---
 src/primate/lanczos.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index aacbb33..9f2fb72 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -157,6 +157,13 @@ def rayleigh_ritz(
 	else:
 		(a, b) = lanczos(A, deg=deg, return_basis=False, **kwargs)
 
+	## If an invariant subspace was found early, the remaining entries are padding and not Ritz values of `A`
+	converged = np.flatnonzero(b < b.dtype.type(np.sqrt(n) * b.dtype.type(kwargs.get("rtol", 1e-8))))
+	if len(converged) > 0:
+		k = int(converged[0]) + 1
+		a, b = a[:k], b[: k - 1]
+		Q = Q[:, :k] if Q_basis else None
+
 	## Return Rayleigh-Ritz values, Ritz vectors Y (if requested), and Lanczos basis Q (if requested)
 	if return_eigenvectors:
 		rw, Y = eigh_tridiag(a, b)
-- 
2.43.0


From f547ce53f13eb57b4459c62e5fc0dd4132c00d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:59 +0000
Subject: [PATCH 14/57] fix: rayleigh_ritz ignored its method and maxiter
 arguments

---
 src/primate/lanczos.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 9f2fb72..e194a4d 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -150,6 +150,8 @@ def rayleigh_ritz(
 	assert deg > 0, "Number of steps must be positive!"
 
 	## Run the lanczos method
+	assert method.lower() in {"rrr", "mrrr", "auto", "tqli"}, f"Invalid tridiagonal solver '{method}'"
+	solver = {"method": "tqli" if method.lower() == "tqli" else "auto", "maxiter": kwargs.pop("maxiter", 30)}
 	deg = np.clip([deg], 2, n).item()
 	Q_basis = kwargs.pop("return_basis", False)
 	if Q_basis:
@@ -166,10 +168,10 @@ def rayleigh_ritz(
 
 	## Return Rayleigh-Ritz values, Ritz vectors Y (if requested), and Lanczos basis Q (if requested)
 	if return_eigenvectors:
-		rw, Y = eigh_tridiag(a, b)
+		rw, Y = eigh_tridiag(a, b, **solver)
 		return (rw, Y) if not Q_basis else (rw, Y, Q)
 	else:
-		rw = eigvalsh_tridiag(a, b)
+		rw = eigvalsh_tridiag(a, b, **solver)
 		return rw if not Q_basis else (rw, Q)
 
 
-- 
2.43.0


From ca7c730c0da9082b08e9ef7746419d8abfd0f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 15/57] fix: the tqli solver rejected anything but float64

---
 src/primate/tridiag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/tridiag.py b/src/primate/tridiag.py
index 0430f9c..0424d52 100644
--- a/src/primate/tridiag.py
+++ b/src/primate/tridiag.py
@@ -10,6 +10,7 @@ def _eigh_tridiag(d: np.ndarray, e: np.ndarray, Z: np.ndarray, method: str = "au
 		eigh_solver = eigvalsh_tridiagonal if np.prod(Z.shape) == 0 else eigh_tridiagonal
 		return eigh_solver(d, e[1:])
 	elif method == "tqli":
+		d, e, Z = (np.asarray(x, dtype=np.float64) for x in (d, e, Z))  # the only precision tqli is compiled for
 		tqli(d, e, Z, maxiter)
 		return d if np.prod(Z.shape) == 0 else (d, Z)
 	else:
-- 
2.43.0


From be16110d5559d9165379b423ea3440b2e0deb647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:26 +0000
Subject: [PATCH 16/57] fix: ConfidenceCriterion used t-scores with two degrees
 of freedom too many

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1366d47..d490169 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -283,7 +283,7 @@ class ConfidenceCriterion(ConvergenceCriterion):
 		std_dev = est._cov.covariance() ** (1 / 2)
 		std_error = std_dev / np.sqrt(est.n_samples)
 		rel_error = abs(std_error / est.estimate)
-		score = self.t_scores[est.n_samples] if est.n_samples < 30 else self.z
+		score = self.t_scores[est.n_samples - 2] if est.n_samples < 30 else self.z  # df = n - 1
 		margin_of_error = score * std_error
 		return (margin_of_error, rel_error)
 
-- 
2.43.0


From 1601026256544eea4f28510daaaacfb535f06309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:26 +0000
Subject: [PATCH 17/57] fix: hutch never filled in the estimate and nit of its
 result

---
 src/primate/trace.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 373f10e..3b09b4d 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -107,6 +107,7 @@ def hutch(
 		while not converge(estimator):
 			v = pdf(size=(N, batch)).astype(f_dtype)
 			estimator.update(quad_form(v))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			callback(result)
 		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
-- 
2.43.0


From c9ea1cf14463e07fb2d0b801d4f30ebbe1b56b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 18/57] fix: xtrace ignored the convergence criterion it was
 given

---
 src/primate/trace.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 3b09b4d..b6ec782 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -266,14 +266,13 @@ def xtrace(
 	n = A.shape[0]
 	callback = (lambda result: ...) if not callable(callback) else callback
 	record = kwargs.pop("record", False)
-	estimator = MeanEstimator(record=record)
+	estimator = MeanEstimator(covariance=True, record=record)
 
 	## Parameterize the convergence criteria
 	if converge == "default":
 		converge = CountCriterion(count=n)
 	else:
-		converge = CountCriterion(count=n)
-		converge |= convergence_criterion(converge, **kwargs)
+		converge = CountCriterion(count=n) | convergence_criterion(converge, **kwargs)
 	assert isinstance(converge, ConvergenceCriterion)
 
 	## Setup outputs. TODO: these should really be resizable arrays
@@ -306,7 +305,7 @@ def xtrace(
 		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
 
 		## Test for convergence
-		estimator = MeanEstimator(record=record)  # degenerate approach since XTrace tracks this
+		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
 		callback(result)
 
-- 
2.43.0


From e71d284d8d88645dd6ba646da68a4c3af238a1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:06 +0000
Subject: [PATCH 19/57] fix: xtrace never applied the spherical correction to
 its estimates

The helper compared the sampler with the name 'sphere', but it was handed
the sampling function.
---
 src/primate/trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index b6ec782..12ed050 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -285,6 +285,7 @@ def xtrace(
 	## Commence the batch-iterations
 	result = EstimatorResult()
 	rng = np.random.default_rng(seed)
+	dist = pdf if isinstance(pdf, str) else "custom"
 	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	while not converge(estimator):
 		## Determine number of new sample vectors to generate
@@ -302,7 +303,7 @@ def xtrace(
 		Z = np.c_[Z, A @ Q[:, -ns:]]
 
 		## Expand the subspace
-		t_samples = _xtrace(W, Z, Q, R, R_inv, pdf)
+		t_samples = _xtrace(W, Z, Q, R, R_inv, dist)
 
 		## Test for convergence
 		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
-- 
2.43.0


From 497f7d29f820b4e72f8e801f904e2f47e27c25c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:29 +0000
Subject: [PATCH 20/57] fix: xtrace handed its callback an empty result

---
 src/primate/trace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 12ed050..082f41e 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -308,9 +308,12 @@ def xtrace(
 		## Test for convergence
 		estimator = MeanEstimator(covariance=True, record=record)  # degenerate approach since XTrace tracks this
 		estimator.update(t_samples.ravel())
+		result.estimator, result.criterion = estimator, converge
+		result.estimate, result.nit = estimator.estimate, len(estimator)
 		callback(result)
 
 	result.estimator = estimator
 	result.estimate = estimator.estimate
 	result.criterion = converge
+	result.message = converge.message(estimator)
 	return (result.estimate, result) if full else result.estimate
-- 
2.43.0


From 34576fe0d7b06b461867bf4b967088784cf7ef6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 21/57] fix: hutchpp and diag rejected the callable samplers
 they document

---
 src/primate/diagonal.py | 2 +-
 src/primate/trace.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index 0c7f167..bb9b06a 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -58,7 +58,7 @@ def diag(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 	estimator = MeanEstimator(dim=N, covariance=False, record=record)
 	converge = convergence_criterion(converge, **kwargs)
 
diff --git a/src/primate/trace.py b/src/primate/trace.py
index 082f41e..521b74b 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -138,7 +138,7 @@ def hutchpp(
 
 	## Parameterize the random vector generation
 	rng = np.random.default_rng(seed)
-	pdf = isotropic(pdf=pdf, seed=rng)
+	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
 
 	## Prepare quadratic form evaluator
 	# quad_form = (lambda v: A.quad(v)) if hasattr(A, "quad") else (lambda v: (v.T @ (A @ v)).item())
-- 
2.43.0


From 775221450b11041a8258008fe4d63bf91a2f522c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:40 +0000
Subject: [PATCH 22/57] fix: hutchpp failed on operators of size 1 and 2, and
 on quad operators with full=True

---
 src/primate/trace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 521b74b..1aaa2f7 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -149,7 +149,7 @@ def hutchpp(
 		return 0.0 if not full else (0.0, EstimatorResult())
 
 	## Setup constants
-	nb = (N // 3) if m is None else m  # number of samples to dedicate to deflation
+	nb = max(N // 3, 1) if m is None else m  # number of samples to dedicate to deflation
 	nb += nb % 3  # ensure nb divides by 3
 	# maxiter: int = (N // 3) if maxiter == "auto" else int(maxiter)  # residual samples; default rule uses Hutch++ result
 	# assert nb % 3 == 0, "Number of samples must be divisible by 3"
@@ -164,7 +164,7 @@ def hutchpp(
 	## https://stackoverflow.com/questions/18541851/calculate-vt-a-v-for-a-matrix-of-vectors-v
 	# np.einsum("...i,...i->...", V.T, A.dot(V).T)
 	# np.einsum("...i,...i->...", v.T, (A @ v).T) # should one works even for n x 1
-	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T])
+	rng_ests = np.einsum("...i,...i->...", A @ Q, Q) if mode == "full" else np.array([quad_form(q) for q in Q.T]).ravel()
 	tr_rng = np.sum(rng_ests)
 
 	## Estimate trace of the residual on the deflated subspaces
-- 
2.43.0


From 4bf48c83961053e10613f0e811145be6728672ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 23/57] fix: diag never filled in the nit and message of its
 result

---
 src/primate/diagonal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/diagonal.py b/src/primate/diagonal.py
index bb9b06a..ff098f6 100644
--- a/src/primate/diagonal.py
+++ b/src/primate/diagonal.py
@@ -77,9 +77,11 @@ def diag(
 			numer += u * v.ravel()
 			denom += np.square(v.ravel())
 			estimator.update(np.atleast_2d(numer / denom))
+			result.estimate, result.nit = estimator.estimate, len(estimator)
 			if callback is not None:
 				callback(result)
 		result.estimate = estimator.estimate
+		result.message = converge.message(estimator)
 		return (estimator.estimate, result)
 	else:
 		numer, denom = np.zeros(N, dtype=f_dtype), np.zeros(N, dtype=f_dtype)
-- 
2.43.0


From 49c18cdf2bb8f13dad09d490228dd1f39ec36cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:19 +0000
Subject: [PATCH 24/57] fix: ControlVariableEstimator failed on a single sample
 and never updated delta and values

---
 src/primate/estimators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index d490169..37c7739 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -165,12 +165,18 @@ class ControlVariableEstimator(MeanEstimator):
 	@typing.no_type_check
 	def update(self, samples: ArrayLike):
 		samples: np.ndarray = np.atleast_1d(samples)
+		old_estimate = self.estimate
 		self.cov.update(samples)  # type: ignore
 		self.n_samples = self.cov.n
 		C = self.cov(ddof=1)
-		if self._estimate_cor:
+		if self._estimate_cor and self.n_samples < 2:
+			self.alpha = np.zeros(len(self.ecv))  # the correlation is not defined yet
+		elif self._estimate_cor:
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
 			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+		self.delta = np.atleast_1d(np.inf if np.isnan(old_estimate) else self.estimate - old_estimate)
+		if self.values is not None:
+			self.values.extend(samples.copy())
 		# C_00, C_01, C_11 = C[0, 0], C[1:, 0], C[1:, 1:]
 		# C_inner = (C_00 - C_01**2 / C_11) if self.cov.dim == 2 else (C_00 - np.dot(C_01, np.linalg.solve(C_11, C_01)))
 		# SE = np.sqrt((1.0 / self.n_samples) * C_inner)
-- 
2.43.0


From e1a3a519e4df2d7ef8c84dad104b6f8354e654ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:27 +0000
Subject: [PATCH 25/57] fix: KneeCriterion did not look at the sequence of
 sample means

It divided the samples by their index instead of their running sum, and a
sample mean that stands still was never accepted (0/0).
---
 src/primate/estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 37c7739..258ad6e 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -316,11 +316,13 @@ class KneeCriterion(ConvergenceCriterion):
 
 		## Extract the differences between the sample means
 		mv = np.array(est.values).ravel()
-		cum_sample_mean = mv / np.arange(1, len(mv) + 1)
+		cum_sample_mean = np.cumsum(mv) / np.arange(1, len(mv) + 1)
 		mu_cum_diffs = np.cumsum(np.abs(np.diff(cum_sample_mean)))
 
 		## Normalize to [0, 1], calculate difference curve
 		y = mu_cum_diffs
+		if y.max() == y.min():
+			return True  # the sample mean stopped moving altogether
 		y_norm = (y - y.min()) / (y.max() - y.min())
 		diff_curve = y_norm - np.linspace(0, 1, len(y))
 
-- 
2.43.0


From 34bb45639f46c789a4e6eb4761333a2de184c5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:33 +0000
Subject: [PATCH 26/57] fix: hutch(converge='knee') never terminated unless the
 samples were recorded

---
 src/primate/trace.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/trace.py b/src/primate/trace.py
index 1aaa2f7..156861d 100644
--- a/src/primate/trace.py
+++ b/src/primate/trace.py
@@ -11,6 +11,7 @@ from .estimators import (
 	ConvergenceCriterion,
 	CountCriterion,
 	EstimatorResult,
+	KneeCriterion,
 	MeanEstimator,
 	convergence_criterion,
 )
@@ -85,7 +86,8 @@ def hutch(
 	## Parameterize the various quantities
 	rng = np.random.default_rng(seed)
 	pdf = isotropic(pdf=pdf, seed=rng) if isinstance(pdf, str) else pdf
-	estimator = MeanEstimator(covariance=True, record=kwargs.pop("record", False))
+	needs_values = isinstance(converge, KneeCriterion) or (isinstance(converge, str) and converge.lower() == "knee")
+	estimator = MeanEstimator(covariance=True, record=kwargs.pop("record", False) or needs_values)
 	if converge == "default":
 		cc1 = CountCriterion(count=200)
 		cc2 = ConfidenceCriterion(confidence=0.95, atol=1.0, rtol=0.0)
-- 
2.43.0


From efd8dbddf9ca3fdd67f8769832c409fb190ef4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 27/57] fix: symmetric(pd=True) did not clip the eigenvalues it
 was given

---
 src/primate/random.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/random.py b/src/primate/random.py
index 7ee99fa..d98a390 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -175,6 +175,7 @@ def symmetric(
 	if ew is None:
 		ew = rng.uniform(size=n, low=0.0 if pd else -1.0, high=1.0)
 	ew = np.atleast_1d(ew)
+	ew = np.maximum(ew, np.finfo(np.float64).eps) if pd else ew
 	A = Q @ np.diag(ew) @ Q.T
 	A = (A + A.T) / 2
 	return A
-- 
2.43.0


From 6a2462f7572b0dcf70876879e97b5034f01f821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:47 +0000
Subject: [PATCH 28/57] fix: rademacher vectors could not fill float32 arrays

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index d98a390..43b65e7 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -20,7 +20,7 @@ _ISO_DISTRIBUTIONS = {
 
 ## NOTE: It's 2-3x faster to use the four ufuncs below than sign
 def _rademacher_inplace(rng: np.random.Generator, out: np.ndarray) -> None:
-	rng.random(out=out)
+	rng.random(out=out, dtype=out.dtype)
 	# np.subtract(out, 0.5, out=out)
 	# np.sign(out, out=out)
 	np.multiply(out, 2, out=out)  # [0, 2]
-- 
2.43.0


From d625b44e33bc302c4c99fe589a2095ebf75c4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:53 +0000
Subject: [PATCH 29/57] fix: param_callable rejected its own softsign function

---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index bf5c0ff..cab78aa 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -4,7 +4,7 @@ from typing import Any, Callable, Optional, Union
 import numpy as np
 
 ## Natively support matrix functions
-_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "numrank"]
+_BUILTIN_MATRIX_FUNCTIONS = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"]
 
 
 def softsign(x: Optional[np.ndarray] = None, q: int = 1) -> Union[Callable, np.ndarray]:
-- 
2.43.0


From 77af351132527fc544bb8a664329839eb288ab45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 30/57] fix: estimates and recorded values aliased internal and
 caller-owned arrays

---
 src/primate/estimators.py | 2 +-
 src/primate/stats.py      | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 258ad6e..f493ae3 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -138,7 +138,7 @@ class MeanEstimator(Estimator):
 			self.delta = self._mean.mu - old_mu
 		self.n_samples += x.shape[0]
 		if self.values is not None:
-			self.values.extend(x)
+			self.values.extend(x.copy())
 
 	@property
 	def estimate(self) -> Union[float, np.ndarray]:
diff --git a/src/primate/stats.py b/src/primate/stats.py
index 2216d0c..237bbed 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -13,12 +13,12 @@ class Mean:
 	def __call__(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def mean(self) -> Union[float, np.ndarray]:
 		if self.n == 0:
 			return np.nan
-		return self.mu.item() if self.dim == 1 else self.mu
+		return self.mu.item() if self.dim == 1 else self.mu.copy()
 
 	def update(self, X: Union[float, np.ndarray]) -> None:
 		"""Update sample mean estimates based on new observations.
-- 
2.43.0


From d8aeaf6ac45a25dfea15447c73a855df6009731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:06 +0000
Subject: [PATCH 31/57] fix: figure_error could not plot against a known mean,
 and figures mishandled missing samples

---
 src/primate/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index ce0578a..8bd07c3 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -77,7 +77,7 @@ def figure_sequence(estimator: Union[Estimator, Sequence], mu: Optional[float] =
 	fig_kwargs = dict(width=400, height=300, title=fig_title)
 	p = figure(**(fig_kwargs | kwargs))
 	p.toolbar_location = None
-	p.scatter(sample_index, sample_vals, size=4.0, color="gray", legend_label="samples")
+	p.scatter(sample_index, sample_vals[valid_samples], size=4.0, color="gray", legend_label="samples")
 	p.title.align = "center"
 	p.legend.location = "top_left"
 	p.yaxis.axis_label = "Estimates"
@@ -147,7 +147,8 @@ def figure_error(
 
 	if mu is not None:
 		cum_abs_error = np.abs(mu - sample_avgs)
-		cum_rel_error = np.abs(mu - sample_avgs / mu)
+		cum_rel_error = np.abs((mu - sample_avgs) / mu)
+		cum_error = cum_abs_error if absolute else cum_rel_error
 	else:
 		est = MeanEstimator(covariance=True)
 		cc = ConfidenceCriterion(confidence=0.95)
-- 
2.43.0


From 3581420a51136b04928d93cb0be61e2f55457124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 32/57] fix: products of matrix functions with matrices had a
 spurious axis

---
 src/primate/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 17cae2c..9f92e34 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -133,6 +133,9 @@ class MatrixFunction(LinearOperator):
 		# return x_norm * self._Q @ Y @ (self._fun(rw) * Y[0, :])[:, np.newaxis]
 		return x_norm * self._Q[:, :k] @ Y @ (np.atleast_2d(self._fun(rw)) * Y[0, :]).T
 
+	def _matmat(self, X: np.ndarray):
+		return np.hstack([self._matvec(x) for x in X.T])  # `_matvec` yields columns, which SciPy would stack as such
+
 	def quad(self, x: np.ndarray):
 		r"""Estimates the quadratic form using Lanczos quadrature.
 
-- 
2.43.0


From 2916e6da60b0f3c45d4eba68cd3d090975190d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:42 +0000
Subject: [PATCH 33/57] fix: quadrature(quad='fttr') rejected strided and
 non-float64 coefficients

---
 src/primate/integrate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index d562ba1..e17c4cc 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -65,8 +65,9 @@ def quadrature(
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
 		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
-		tau = np.zeros(len(theta), dtype=theta.dtype)
-		fttr(theta, d[:deg], e[:deg], deg, tau)
+		tau = np.zeros(len(theta), dtype=np.float64)
+		x, a, b = (np.ascontiguousarray(z, dtype=np.float64) for z in (theta, d[:deg], e[:deg]))  # all that fttr is compiled for
+		fttr(x, a, b, deg, tau)
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From 61889100ec7c8f959168f2b46fbfddf1c8ca862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 34/57] fix: ControlVariableEstimator failed while its control
 variables were collinear or constant

---
 src/primate/estimators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index f493ae3..1202b73 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -173,7 +173,10 @@ class ControlVariableEstimator(MeanEstimator):
 			self.alpha = np.zeros(len(self.ecv))  # the correlation is not defined yet
 		elif self._estimate_cor:
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
-			self.alpha = (C[0, 1] / C[1, 1]) if self.cov.dim == 2 else np.linalg.solve(C_11, C_01)
+			sd = np.sqrt(np.diag(C_11))
+			sd[sd == 0.0] = 1.0
+			## Solve for the correlations, which may be singular, e.g. if there are few samples or constant variables
+			self.alpha = np.linalg.lstsq(C_11 / np.outer(sd, sd), C_01 / sd, rcond=None)[0] / sd
 		self.delta = np.atleast_1d(np.inf if np.isnan(old_estimate) else self.estimate - old_estimate)
 		if self.values is not None:
 			self.values.extend(samples.copy())
-- 
2.43.0


From 08a148fdca2260be6507fd5258cbc7eedd14fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:29 +0000
Subject: [PATCH 35/57] fix: ToleranceCriterion failed on a
 ControlVariableEstimator without samples

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 1202b73..71cb5e1 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -238,7 +238,7 @@ class ToleranceCriterion(ConvergenceCriterion):
 	def __call__(self, est: Estimator) -> bool:
 		if est.estimate is None:
 			return False
-		error = np.linalg.norm(est.delta, ord=self.ord)
+		error = np.linalg.norm(np.atleast_1d(est.delta), ord=self.ord)
 		estimate = np.atleast_1d(est.estimate)
 		return bool(error < self.atol or error < self.rtol * np.linalg.norm(estimate, ord=self.ord))
 
-- 
2.43.0


From 676b980d28c7705132d10a12e35545d0a7761094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 36/57] fix: ControlVariableEstimator amplified rounding errors
 of constant control variables

---
 src/primate/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index 71cb5e1..ea235ad 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -174,7 +174,7 @@ class ControlVariableEstimator(MeanEstimator):
 		elif self._estimate_cor:
 			C_01, C_11 = C[1:, 0], C[1:, 1:]
 			sd = np.sqrt(np.diag(C_11))
-			sd[sd == 0.0] = 1.0
+			sd[sd <= 1e-14 * np.abs(self.cov.mu[1:])] = np.inf  # ignore variables that are constant (up to rounding)
 			## Solve for the correlations, which may be singular, e.g. if there are few samples or constant variables
 			self.alpha = np.linalg.lstsq(C_11 / np.outer(sd, sd), C_01 / sd, rcond=None)[0] / sd
 		self.delta = np.atleast_1d(np.inf if np.isnan(old_estimate) else self.estimate - old_estimate)
-- 
2.43.0


From b491d899c93a09e62a5790008e53cffd67ce15cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:12 +0000
Subject: [PATCH 37/57] fix: lanczos ignored workspaces that were strided or of
 another precision, and returned zeros

---
 src/primate/lanczos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index e194a4d..3c8ff86 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -106,6 +106,9 @@ def lanczos(
 	assert isinstance(alpha, np.ndarray) and len(alpha) == deg + 1 and alpha.dtype == f_dtype and alpha.flags["WRITEABLE"]
 	assert isinstance(beta, np.ndarray) and len(beta) == deg + 1 and beta.dtype == f_dtype and beta.flags["WRITEABLE"]
 	assert Q.ndim == 2 and Q.shape == (n, ncv) and Q.flags["F_CONTIGUOUS"] and Q.flags["WRITEABLE"] and Q.flags["OWNDATA"]
+	assert alpha.ndim == 1 and alpha.flags["C_CONTIGUOUS"], "Workspace 'alpha' must be a contiguous vector."
+	assert beta.ndim == 1 and beta.flags["C_CONTIGUOUS"], "Workspace 'beta' must be a contiguous vector."
+	assert Q.dtype == f_dtype, "Workspace 'Q' must match the precision of the expansion."
 
 	## Call the procedure
 	_lanczos.lanczos(A, v0, deg, rtol, orth, alpha, beta, Q)
-- 
2.43.0


From aa0569db4accd41e4b2f485075ceb775bc82258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 38/57] fix: empty batches turned streaming means and
 covariances into NaN

---
 src/primate/stats.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 237bbed..319ed1a 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -29,6 +29,8 @@ class Mean:
 		X = np.atleast_1d(X)
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
+		if X.shape[0] == 0:
+			return  # the mean of an empty batch is undefined
 
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
@@ -72,6 +74,8 @@ class Covariance(Mean):
 		X = np.atleast_1d(X)
 		X = X[:, None] if X.ndim == 1 else X
 		assert X.shape[1] == self.dim, f"Expected shape (n, {self.dim}), got {X.shape}"
+		if X.shape[0] == 0:
+			return  # the mean of an empty batch is undefined
 
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
-- 
2.43.0


From 66591cccb5c47f1c5a660170174d9586033a285e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 39/57] fix: ControlVariableEstimator aliased the caller's
 coefficients and expected values

---
 src/primate/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/estimators.py b/src/primate/estimators.py
index ea235ad..4ecedc9 100644
--- a/src/primate/estimators.py
+++ b/src/primate/estimators.py
@@ -147,10 +147,10 @@ class MeanEstimator(Estimator):
 
 class ControlVariableEstimator(MeanEstimator):
 	def __init__(self, ecv: Union[float, np.ndarray], alpha: Union[float, np.ndarray, None] = None, record: bool = False):
-		ecv: np.ndarray = np.atleast_1d(ecv).ravel()
+		ecv: np.ndarray = np.atleast_1d(ecv).flatten()  # a copy, as the caller may reuse its array
 		super().__init__(len(ecv), covariance=False, record=record)
 		if alpha is not None:
-			alpha: np.ndarray = np.atleast_1d(alpha).ravel()
+			alpha: np.ndarray = np.atleast_1d(alpha).flatten()
 			assert len(ecv) == len(alpha), "Coefficients alpha must have same length as the control variables."  # type: ignore
 		self.alpha = alpha
 		self.ecv = ecv
-- 
2.43.0


From 0286273faadb815147bf54a8189c53454281d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 40/57] fix: gram operator reported the shape and matrix
 product of its factor

---
 src/primate/include/eigen_operators.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/primate/include/eigen_operators.h b/src/primate/include/eigen_operators.h
index a037bf7..c0e20b7 100644
--- a/src/primate/include/eigen_operators.h
+++ b/src/primate/include/eigen_operators.h
@@ -93,13 +93,17 @@ struct SparseEigenLinearOperator {
   void matmat(const F* X, F* Y, const size_t k) const noexcept {
     auto ts = hr_clock::now();
     Eigen::Map< const DenseMatrix< F > > XM(X, A.cols(), k);
-    Eigen::Map< DenseMatrix< F > > YM(Y, A.rows(), k);
-    YM = A * XM;
+    Eigen::Map< DenseMatrix< F > > YM(Y, shape().first, k);
+    if constexpr(gram){
+      YM = A.adjoint() * (A * XM);
+    } else {
+      YM = A * XM;
+    }
     matvec_time += duration_cast< us >(dur_seconds(hr_clock::now() - ts)).count();
   }
 
   auto shape() const noexcept -> std::pair< size_t, size_t > {
-    return std::make_pair((size_t) A.rows(), (size_t) A.cols());
+    return std::make_pair((size_t) (gram ? A.cols() : A.rows()), (size_t) A.cols());
   }
 };
 
-- 
2.43.0


From a0b1ea7a3bd834c3acfb1e973f7d0a59c4d70884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:44 +0000
Subject: [PATCH 41/57] fix: Isotropic.fill returned normally when a worker had
 failed, leaving columns unfilled

---
 src/primate/random.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/primate/random.py b/src/primate/random.py
index 43b65e7..b2b8e70 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -137,6 +137,8 @@ class Isotropic:
 			args = (_fill, self._random_generators[i], self.values, i * self.step, (i + 1) * self.step)
 			futures[self.executor.submit(*args)] = i
 		concurrent.futures.wait(futures)
+		for future in futures:
+			future.result()  # raises what the worker raised
 
 	def __del__(self):
 		self.executor.shutdown(False)
-- 
2.43.0


From 18231d78e98691bd05f504564fc2469603a0bf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 42/57] fix: figure_csm drew a wrong distribution for unsorted
 eigenvalues or eigenvalues above 1

---
 src/primate/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index 8bd07c3..8f41f29 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -7,6 +7,7 @@ from .estimators import Estimator, ConfidenceCriterion, MeanEstimator
 def figure_csm(values: np.ndarray, **kwargs):
 	from bokeh.plotting import figure
 
+	values = np.sort(values)
 	m = 1 / len(values)
 	csm = lambda x: np.searchsorted(values, x) * m
 	p = figure(
@@ -21,7 +22,7 @@ def figure_csm(values: np.ndarray, **kwargs):
 	# x = np.linspace(np.min(values), np.max(values), 5000)
 	# p.line(x, csm(x))
 	p.scatter(values, 0, size=7.5, color="red", marker="x", legend_label="Eigenvalues")
-	p.varea_step(x=np.append(values, 1.0), y1=np.zeros(len(values) + 1), y2=np.append(csm(values), 1.0), fill_alpha=0.15)
+	p.varea_step(x=np.append(values, max(values[-1], 1.0)), y1=np.zeros(len(values) + 1), y2=np.append(csm(values), 1.0), fill_alpha=0.15)
 	p.legend.location = "top_left"
 	p.legend.margin = 5
 	p.legend.padding = 2
-- 
2.43.0


From bff247fade021bd894d2e8f1aa8727ac486e55e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:57 +0000
Subject: [PATCH 43/57] fix: figure_csm raised for figure options it has a
 default for

---
 src/primate/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/primate/plotting.py b/src/primate/plotting.py
index 8f41f29..b79bfa6 100644
--- a/src/primate/plotting.py
+++ b/src/primate/plotting.py
@@ -10,14 +10,14 @@ def figure_csm(values: np.ndarray, **kwargs):
 	values = np.sort(values)
 	m = 1 / len(values)
 	csm = lambda x: np.searchsorted(values, x) * m
-	p = figure(
+	fig_kwargs = dict(
 		width=350,
 		height=250,
 		title="Cumulative spectral density",
 		x_axis_label="Spectrum",
 		y_axis_label=r"$$\mathbf{1}(\lambda \leq x)$$",
-		**kwargs,
 	)
+	p = figure(**(fig_kwargs | kwargs))
 	p.title.align = "center"
 	# x = np.linspace(np.min(values), np.max(values), 5000)
 	# p.line(x, csm(x))
-- 
2.43.0


From f29b7b24a53b5de24fbf4d513987479cfbffee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 44/57] fix: exactly vanishing residuals with rtol=0 gave NaN
 Lanczos coefficients

---
 src/primate/include/lanczos.h | 2 +-
 src/primate/lanczos.py        | 2 +-
 src/primate/operators.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/include/lanczos.h b/src/primate/include/lanczos.h
index 13c2d3a..d95bfef 100644
--- a/src/primate/include/lanczos.h
+++ b/src/primate/include/lanczos.h
@@ -137,7 +137,7 @@ void lanczos_recurrence(
 
     // Early-stop criterion is when K_j(A, v) is near invariant subspace.
     beta[j+1] = v.norm();
-    if (beta[j+1] < residual_tol || (j+1) == deg) { // additional break prevents overriding qn
+    if (beta[j+1] <= residual_tol || (j+1) == deg) { // additional break prevents overriding qn
       break;
     }
     Q.col(n) = v / beta[j+1]; // normalize such that Q stays orthonormal
diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 3c8ff86..f9fea9d 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -163,7 +163,7 @@ def rayleigh_ritz(
 		(a, b) = lanczos(A, deg=deg, return_basis=False, **kwargs)
 
 	## If an invariant subspace was found early, the remaining entries are padding and not Ritz values of `A`
-	converged = np.flatnonzero(b < b.dtype.type(np.sqrt(n) * b.dtype.type(kwargs.get("rtol", 1e-8))))
+	converged = np.flatnonzero(b <= b.dtype.type(np.sqrt(n) * b.dtype.type(kwargs.get("rtol", 1e-8))))
 	if len(converged) > 0:
 		k = int(converged[0]) + 1
 		a, b = a[:k], b[: k - 1]
diff --git a/src/primate/operators.py b/src/primate/operators.py
index 9f92e34..9ea998e 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -105,7 +105,7 @@ class MatrixFunction(LinearOperator):
 		self._beta.fill(0)
 		_lanczos.lanczos(self._A, x, self._deg, self._rtol, self._orth, self._alpha, self._beta, self._Q)
 		residual_tol = self.dtype.type(np.sqrt(self.shape[0]) * self.dtype.type(self._rtol))
-		converged = np.flatnonzero(self._beta[1 : self._deg] < residual_tol)
+		converged = np.flatnonzero(self._beta[1 : self._deg] <= residual_tol)
 		return self._deg if len(converged) == 0 else int(converged[0]) + 1
 
 	def _matvec(self, x: np.ndarray):
-- 
2.43.0


From 0748ddac95abbc7cea14478400a3238524220a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 45/57] fix: long batches gave constant control variables a
 spurious variance

The rounding errors of the mean of a long batch looked like a spread of the
constant column, which ControlVariableEstimator then regressed on.
---
 src/primate/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/stats.py b/src/primate/stats.py
index 319ed1a..04dd827 100644
--- a/src/primate/stats.py
+++ b/src/primate/stats.py
@@ -79,6 +79,7 @@ class Covariance(Mean):
 
 		## Compute batch mean and update overall mean
 		batch_mean = X.mean(axis=0)
+		batch_mean = batch_mean + (X - batch_mean).mean(axis=0)  # corrects the rounding errors of summing many samples
 		delta_mean = batch_mean - self.mu
 		new_n = self.n + X.shape[0]
 		self.mu += (X.shape[0] / new_n) * delta_mean
-- 
2.43.0


From 3c093949bc9d3c3cbd1084af24c2449ec2964258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:44 +0000
Subject: [PATCH 46/57] fix: tqli returned unconverged eigenvalues when
 products of subdiagonals underflowed

---
 src/primate/tqli.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/primate/tqli.py b/src/primate/tqli.py
index c667b51..212fe31 100644
--- a/src/primate/tqli.py
+++ b/src/primate/tqli.py
@@ -33,6 +33,8 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 	n = len(d)
 	e[:-1] = e[1:]
 	e[n - 1] = 0.0
+	## Subdiagonals whose products with the others would underflow cannot be rotated away, but are negligible anyways
+	negligible = 1e-50 * (np.max(np.abs(d)) + np.max(np.abs(e)))
 	for it in range(n):
 		ii = 0
 		m = it
@@ -41,7 +43,7 @@ def tqli(d: np.ndarray, e: np.ndarray, Z: np.ndarray, max_iter: int = 30):
 			for ml in range(it, n - 1):
 				m = ml
 				dd = abs(d[m]) + abs(d[m + 1])
-				if (abs(e[m]) + dd) == dd:
+				if (abs(e[m]) + dd) == dd or abs(e[m]) <= negligible:
 					break
 				else:
 					m += 1
-- 
2.43.0


From 5422d006cbb89fd715a1d3c7a4c7d7bf6df81473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 47/57] fix: softsign acts entry by entry on arrays with more
 than one axis

---
 src/primate/special.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index cab78aa..681f17e 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -20,10 +20,8 @@ def softsign(x: Optional[np.ndarray] = None, q: int = 1) -> Union[Callable, np.n
 	J = np.append([1], np.cumprod([(2 * j - 1) / (2 * j) for j in np.arange(1, q + 1)]))
 
 	def _sign(x: Union[float, np.ndarray]) -> np.ndarray:
-		x = np.clip(x, -1.0, +1.0)
-		x = np.atleast_2d(x).T
-		sx = np.ravel(np.sum(x * (1 - x**2) ** I * J, axis=1))
-		return sx
+		x = np.atleast_1d(np.clip(x, -1.0, +1.0))[..., np.newaxis]
+		return np.sum(x * (1 - x**2) ** I * J, axis=-1)
 
 	return _sign(x) if x is not None else _sign
 
-- 
2.43.0


From 36ec45eb656e4cf93d9d76d2f6b666e2e7cbc9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 48/57] fix: the 'inv' function truncated the inverses of
 integers to zero

---
 src/primate/special.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/special.py b/src/primate/special.py
index 681f17e..741f457 100644
--- a/src/primate/special.py
+++ b/src/primate/special.py
@@ -87,7 +87,7 @@ def param_callable(fun: Union[str, None], **kwargs) -> Callable:
 	elif fun == "log":
 		return lambda x: np.log(np.maximum(x, np.finfo(np.float64).eps))
 	elif fun == "inv":
-		return np.reciprocal
+		return lambda x: np.divide(1.0, x)
 	elif fun == "exp":
 		t = kwargs.pop("t", 1.0)  # type: ignore
 		return exp(t=t)
-- 
2.43.0


From fda4d0736914cdd6251d45eaea1f3f4395c24f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 49/57] fix: update_trinv truncated the inverse diagonal of
 integer matrices to zero

---
 src/primate/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/linalg.py b/src/primate/linalg.py
index 513ccf0..40bb444 100644
--- a/src/primate/linalg.py
+++ b/src/primate/linalg.py
@@ -19,6 +19,6 @@ def update_trinv(B_inv: np.ndarray, b: np.ndarray):
 
 	B_ast = np.zeros(shape=(n + 1, n + 1))
 	B_ast[:n, :n] = B_inv
-	B_ast[n, n] = np.reciprocal(b[-1]).item()
+	B_ast[n, n] = np.divide(1.0, b[-1]).item()
 	B_ast[:n, [-1]] = B_ast[n, n] * ((-B_inv) @ b[:-1])
 	return B_ast
-- 
2.43.0


From 7ebe8583d8d9b5373f4d72febdbd84ec2a04c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 50/57] fix: arrays of the other byte order gave zero
 coefficients in lanczos and were refused by MatrixFunction

---
 src/primate/lanczos.py   | 2 +-
 src/primate/operators.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index f9fea9d..7d5f669 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -82,7 +82,7 @@ def lanczos(
 
 	## Get the dtype; infer it if it's not available
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
-	f_dtype = np.dtype(f_dtype if dtype is None else dtype)
+	f_dtype = np.dtype(f_dtype if dtype is None else dtype).newbyteorder("=")
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
 	A = A.astype(f_dtype, copy=False) if hasattr(A, "astype") else A
 
diff --git a/src/primate/operators.py b/src/primate/operators.py
index 9ea998e..5d94b54 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,7 +57,8 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		super().__init__(dtype=np.dtype(dtype), shape=A.shape)
+		dtype = np.dtype(dtype).newbyteorder("=")
+		super().__init__(dtype=dtype, shape=A.shape)
 
 		## Parmaeterize function
 		fun = fun if fun is not None else lambda x: x
@@ -77,7 +78,7 @@ class MatrixFunction(LinearOperator):
 		assert self._Q.flags["F_CONTIGUOUS"] and self._Q.flags["WRITEABLE"] and self._Q.flags["OWNDATA"]
 		self._rtol = 1e-8
 		self._orth = self._deg if orth < 0 or orth > self._deg else orth
-		self._A = A
+		self._A = A.astype(A.dtype.newbyteorder("="), copy=False) if isinstance(A, np.ndarray) else A
 
 	@property
 	def degree(self) -> int:
-- 
2.43.0


From 07dfc9e4de48d24b863442112547a0289808cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 51/57] fix: lanczos read outside starting vectors of shape (n,
 0) and ignored the other columns of blocks

---
 src/primate/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 7d5f669..92505cb 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -97,7 +97,7 @@ def lanczos(
 		v0: np.ndarray = rng.uniform(size=A.shape[1], low=-1.0, high=+1.0).astype(f_dtype)
 	else:
 		v0: np.ndarray = np.array(v0).astype(f_dtype)
-	assert len(v0) == A.shape[1], "Invalid starting vector; must match the number of columns of A."  # type: ignore
+	assert len(v0) == A.shape[1] == v0.size, "Invalid starting vector; must match the number of columns of A."  # type: ignore
 
 	## Allocate the tridiagonal elements + lanczos vectors in column-major storage
 	alpha = kwargs.get("alpha", np.zeros(deg + 1, dtype=f_dtype))
-- 
2.43.0


From 1112f538f0eb9c9407dec2a25840139fbc540db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 52/57] fix: a tolerance that is not a Python float made
 lanczos return zeros

---
 src/primate/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index 92505cb..c312fd9 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -111,7 +111,7 @@ def lanczos(
 	assert Q.dtype == f_dtype, "Workspace 'Q' must match the precision of the expansion."
 
 	## Call the procedure
-	_lanczos.lanczos(A, v0, deg, rtol, orth, alpha, beta, Q)
+	_lanczos.lanczos(A, v0, deg, float(rtol), orth, alpha, beta, Q)  # other types of numbers select another precision
 
 	## Format the output(s)
 	if sparse_mat:
-- 
2.43.0


From 35dcd1febe078e1931f4a3ec36de008e361cc571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 53/57] fix: MatrixFunction accepted types other than floats
 and answered zeros

---
 src/primate/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index 5d94b54..ba348c2 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -58,6 +58,7 @@ class MatrixFunction(LinearOperator):
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
 		dtype = np.dtype(dtype).newbyteorder("=")
+		assert dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floats are supported."
 		super().__init__(dtype=dtype, shape=A.shape)
 
 		## Parmaeterize function
-- 
2.43.0


From 2bbaa6a6cfe2ecf0949b3445d2931def81739b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 54/57] fix: MatrixFunction.quad answered for blocks with three
 axes

---
 src/primate/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/operators.py b/src/primate/operators.py
index ba348c2..6c1669e 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -154,7 +154,7 @@ class MatrixFunction(LinearOperator):
 			self._Q.resize((self.shape[0], self._deg))
 		x = x.astype(self.dtype)
 		x = np.atleast_2d(x).T if x.ndim == 1 else x
-		assert len(x) == self.shape[1], "Input vector(s) must match the number of columns of the operator."
+		assert x.ndim == 2 and len(x) == self.shape[1], "Input vector(s) must match the number of columns of the operator."
 		x = np.array(x, order="F", copy=None)
 		x_norm_sq = np.square(np.linalg.norm(x, axis=0))
 		y = np.zeros(x.shape[1])
-- 
2.43.0


From f2e42bcf618515234eb36c4f4259d5dcf6e658a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:26 +0000
Subject: [PATCH 55/57] fix: isotropic gave one axis for sizes that are NumPy
 integers

---
 src/primate/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primate/random.py b/src/primate/random.py
index b2b8e70..baeb7e1 100644
--- a/src/primate/random.py
+++ b/src/primate/random.py
@@ -72,7 +72,7 @@ def isotropic(
 		iso = _ISO_FUNCS[pdf]
 
 		def _isotropic(size: Union[int, tuple]):
-			size = (size, 1) if isinstance(size, int) else size
+			size = (size, 1) if isinstance(size, (int, np.integer)) else size
 			W = np.empty(shape=size, dtype=np.float64, order="F")
 			iso(rng, out=W)
 			return W
-- 
2.43.0


From 3487171cacbfbb4b3850e0bc6318a1ceff3d1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:41 +0000
Subject: [PATCH 56/57] fix: quadrature(quad='fttr') aborted the process on
 split and on huge Jacobi matrices

The recurrence divides by the off-diagonal entries: exact zeros, as in the padded coefficients of a Lanczos
expansion that ended early, failed an assertion of the compiled module. The rule of such a matrix is that of
its leading block; the other nodes have no weight.
---
 src/primate/fttr.py      |  2 +-
 src/primate/integrate.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/primate/fttr.py b/src/primate/fttr.py
index 7b70298..dc74cdf 100644
--- a/src/primate/fttr.py
+++ b/src/primate/fttr.py
@@ -22,7 +22,7 @@ def fttr(theta: np.ndarray, alpha: np.ndarray, beta: np.ndarray, k: int, weights
 	"""
 	n = len(alpha)
 	mu_0 = np.sum(np.abs(theta[:k]))
-	if mu_0 == 0.0:
+	if mu_0 == 0.0 or mu_0 == np.inf:
 		mu_0 = 1.0  # the weights do not depend on the scale
 	mu_sqrt_rec = 1.0 / np.sqrt(mu_0)
 	p = np.zeros(n)
diff --git a/src/primate/integrate.py b/src/primate/integrate.py
index e17c4cc..cf6304e 100644
--- a/src/primate/integrate.py
+++ b/src/primate/integrate.py
@@ -64,10 +64,15 @@ def quadrature(
 		tau = np.square(ev[0, :])
 	elif quad == "fttr":
 		## Uses the Forward Three Term Recurrence (FTTR) approach
-		theta = eigvalsh_tridiag(d[:deg], e[:deg], **kwargs)
+		k = int(np.argmax(np.append(e[1:deg] == 0.0, True))) + 1  # the recurrence ends where the matrix splits
+		theta = eigvalsh_tridiag(d[:k], e[:k], **kwargs)
 		tau = np.zeros(len(theta), dtype=np.float64)
-		x, a, b = (np.ascontiguousarray(z, dtype=np.float64) for z in (theta, d[:deg], e[:deg]))  # all that fttr is compiled for
-		fttr(x, a, b, deg, tau)
+		x, a, b = (np.ascontiguousarray(z, dtype=np.float64) for z in (theta, d[:k], e[:k]))  # all that fttr is compiled for
+		fttr(x, a, b, k, tau)
+		if k < deg:  # the nodes of the remaining part carry no weight
+			theta = np.append(theta, eigvalsh_tridiag(d[k:deg], e[k + 1 : deg], **kwargs))
+			order = np.argsort(theta)
+			theta, tau = theta[order], np.append(tau, np.zeros(deg - k))[order]
 	else:
 		raise ValueError(f"Invalid quadrature method '{quad}' supplied")
 	if nodes is not None and weights is not None:
-- 
2.43.0


From 198dcda3d740bcfffc148a105b82db1e225e0826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:02 +0000
Subject: [PATCH 57/57] fix: use the canonical dtype objects in lanczos and
 MatrixFunction

Fresh dtype objects for the native byte order are leaked by np.linalg.norm, a few bytes per product.
---
 src/primate/lanczos.py   | 2 +-
 src/primate/operators.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/primate/lanczos.py b/src/primate/lanczos.py
index c312fd9..7b5a59d 100644
--- a/src/primate/lanczos.py
+++ b/src/primate/lanczos.py
@@ -82,7 +82,7 @@ def lanczos(
 
 	## Get the dtype; infer it if it's not available
 	f_dtype = (A @ np.zeros(A.shape[1])).dtype if not hasattr(A, "dtype") else A.dtype
-	f_dtype = np.dtype(f_dtype if dtype is None else dtype).newbyteorder("=")
+	f_dtype = np.dtype(np.dtype(f_dtype if dtype is None else dtype).type)
 	assert f_dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floating point numbers are supported."
 	A = A.astype(f_dtype, copy=False) if hasattr(A, "astype") else A
 
diff --git a/src/primate/operators.py b/src/primate/operators.py
index 6c1669e..864588c 100644
--- a/src/primate/operators.py
+++ b/src/primate/operators.py
@@ -57,7 +57,7 @@ class MatrixFunction(LinearOperator):
 	) -> None:
 		assert is_linear_op(A), "Invalid operator `A`; must be dim=2 symmetric operator with defined matvec"
 		assert deg >= 2, "Degree must be >= 2"
-		dtype = np.dtype(dtype).newbyteorder("=")
+		dtype = np.dtype(np.dtype(dtype).type)
 		assert dtype.type in {np.float32, np.float64}, "Only 32- or 64-bit floats are supported."
 		super().__init__(dtype=dtype, shape=A.shape)
 
@@ -79,7 +79,7 @@ class MatrixFunction(LinearOperator):
 		assert self._Q.flags["F_CONTIGUOUS"] and self._Q.flags["WRITEABLE"] and self._Q.flags["OWNDATA"]
 		self._rtol = 1e-8
 		self._orth = self._deg if orth < 0 or orth > self._deg else orth
-		self._A = A.astype(A.dtype.newbyteorder("="), copy=False) if isinstance(A, np.ndarray) else A
+		self._A = A.astype(A.dtype.type, copy=False) if isinstance(A, np.ndarray) else A
 
 	@property
 	def degree(self) -> int:
-- 
2.43.0

