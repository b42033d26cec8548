"""Workload generators and spies shared by the checks."""

import numpy as np
import scipy.sparse as ss
from scipy.sparse.linalg import LinearOperator, aslinearoperator

from .core import Budget

KINDS = ["normal", "psd", "diag", "lowrank", "clustered", "repeated", "path", "integer", "indef", "graded", "blocks", "rank1", "sparse"]


def sym(kind, n, seed):
	"""A symmetric n x n float64 matrix of spectral norm about 1 to 10; a pure function of its arguments."""
	r = np.random.default_rng([7, seed, n])
	qr = lambda: np.linalg.qr(r.normal(size=(n, n)))[0]
	if kind == "normal":
		A = r.normal(size=(n, n)) / np.sqrt(n)
		A = A + A.T
	elif kind == "psd":
		B = r.normal(size=(n, n))
		A = B @ B.T / n + 0.1 * np.eye(n)
	elif kind == "diag":
		A = np.diag(r.uniform(-2, 3, size=n))
	elif kind == "lowrank":
		k = max(1, n // 4)
		U = np.linalg.qr(r.normal(size=(n, k)))[0]
		A = U @ np.diag(r.uniform(0.5, 3, size=k)) @ U.T
	elif kind == "rank1":
		u = r.normal(size=n)
		A = np.outer(u, u) / n
	elif kind == "clustered":
		Q = qr()
		A = Q @ np.diag(np.sort(np.repeat([1.0, 2.0, -1.5], -(-n // 3))[:n] + 1e-3 * r.normal(size=n))) @ Q.T
	elif kind == "repeated":
		Q = qr()
		A = Q @ np.diag(r.choice([1.0, 2.0, 3.0], size=n)) @ Q.T
	elif kind == "path":
		A = 2 * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
	elif kind == "integer":
		A = r.integers(-3, 4, size=(n, n)).astype(float)
		A = np.triu(A) + np.triu(A, 1).T
	elif kind == "indef":
		Q = qr()
		A = Q @ np.diag(r.uniform(-3, 3, size=n)) @ Q.T
	elif kind == "graded":
		Q = qr()
		A = Q @ np.diag(np.geomspace(1e-3, 5, n)) @ Q.T
	elif kind == "blocks":
		A = np.zeros((n, n))
		i = 0
		while i < n:
			k = min(int(r.integers(1, 4)), n - i)
			B = r.normal(size=(k, k))
			A[i : i + k, i : i + k] = B + B.T
			i += k
	elif kind == "sparse":
		A = r.normal(size=(n, n)) * (r.random((n, n)) < 0.2)
		A = A + A.T + np.diag(r.uniform(0, 2, size=n))
	else:
		raise ValueError(kind)
	return np.ascontiguousarray((A + A.T) / 2)


def general(n, seed):
	r = np.random.default_rng([8, seed, n])
	return r.normal(size=(n, n))


class Duck:
	"""Minimal operator: only what the documentation asks for (shape, dtype, matvec and @)."""

	def __init__(self, A, mode="plain"):
		self.A, self.shape, self.dtype, self.mode = A, A.shape, A.dtype, mode

	def matvec(self, x):
		y = self.A @ np.asarray(x).reshape(-1)
		if self.mode == "scribble" and isinstance(x, np.ndarray) and x.flags.writeable:  # overwrites the array it was handed
			x[...] = 1e6
			return y
		if self.mode == "keep":  # keeps what it is handed, and answers from it later
			if hasattr(self, "_kept") and not all(np.array_equal(a, b) for a, b in self._kept):
				self.disturbed = True
			self._kept = [*getattr(self, "_kept", []), (x, np.array(x))]
			return y
		if self.mode == "list":
			return [float(t) for t in y]
		if self.mode == "bigendian":
			return y.astype(y.dtype.newbyteorder(">"))
		if self.mode == "row":
			return y[None, :]
		if self.mode == "readonly":
			y.flags.writeable = False
			return y
		if self.mode == "strided":
			z = np.full((len(y), 3), 1e30, dtype=y.dtype)
			z[:, 1] = y
			return z[:, 1]
		if self.mode == "reversed":
			return y[::-1].copy()[::-1]
		if self.mode == "column":
			return y[:, None]
		if self.mode == "fcol":
			return np.asfortranarray(np.c_[y, y * 0 + 1e30, y * 0 + 1e30])[:, 0]
		if self.mode == "f8":
			return y.astype(np.float64)
		if self.mode == "buffer":  # returns the same buffer every time
			if not hasattr(self, "_buf"):
				self._buf = np.empty_like(y)
			self._buf[:] = y
			return self._buf
		return y

	def __matmul__(self, x):
		return self.A @ x


FORMATS = ["C", "F", "view", "rev", "csr", "csc", "coo", "csr_m", "csc_m", "dia", "lo", "lo_sparse", "duck"]


def wrap(A, fmt):
	if fmt == "C":
		return np.ascontiguousarray(A)
	if fmt == "F":
		return np.asfortranarray(A)
	if fmt == "view":
		n, m = A.shape
		B = np.full((2 * n, 3 * m), 1e30, dtype=A.dtype)
		B[::2, ::3] = A
		return B[::2, ::3]
	if fmt == "rev":
		return A[::-1, ::-1].copy()[::-1, ::-1]
	if fmt == "swapped":  # the other byte order
		return np.array(A, dtype=A.dtype.newbyteorder(), order="CF"[A.shape[0] % 2])
	if fmt == "csr":
		return ss.csr_array(A)
	if fmt == "csc":
		return ss.csc_array(A)
	if fmt == "coo":
		if A.shape[0] == 1:  # SciPy answers a 1 x 1 coo_array @ vector with a scalar
			return ss.csr_array(A)
		return ss.coo_array(A)
	if fmt == "csr_m":
		return ss.csr_matrix(A)
	if fmt == "csc_m":
		return ss.csc_matrix(A)
	if fmt == "dia":
		return ss.dia_array(A)
	if fmt == "lo":
		return aslinearoperator(np.ascontiguousarray(A))
	if fmt == "lo_sparse":
		return aslinearoperator(ss.csr_array(A))
	if fmt.startswith("duck"):
		return Duck(A, fmt[5:] or "plain")
	raise ValueError(fmt)


class Spy(LinearOperator):
	"""Linear operator that records every vector it is applied to and what it answered."""

	def __init__(self, A, budget=10**6, zeros=False):
		super().__init__(dtype=A.dtype, shape=A.shape)
		self.zeros = zeros  # also record zero vectors
		self.A, self.log, self.budget, self.n_applied = A, [], budget, 0

	def _rec(self, X, Y):
		for j in range(X.shape[1]):
			x = np.array(X[:, j], dtype=float)
			if self.zeros or np.any(x != 0):
				self.log.append((x, np.array(Y[:, j], dtype=float)))
				self.n_applied += 1
		if self.n_applied > self.budget:
			raise Budget(f"operator applied to more than {self.budget} vectors")

	def _matvec(self, x):
		x2 = np.asarray(x).reshape(-1, 1)
		y = self.A @ x2
		self._rec(x2, y)
		return y.reshape(-1)

	def _matmat(self, X):
		X = np.asarray(X)
		Y = self.A @ X
		self._rec(X, Y)
		return Y

	def _rmatvec(self, x):
		x2 = np.asarray(x).reshape(-1, 1)
		y = self.A.T @ x2
		self._rec(x2, y)
		return y.reshape(-1)

	def _rmatmat(self, X):
		X = np.asarray(X)
		Y = self.A.T @ X
		self._rec(X, Y)
		return Y

	@property
	def probes(self):
		return np.array([x for x, _ in self.log]).reshape(-1, self.shape[1])

	@property
	def forms(self):
		return np.array([float(x @ y) for x, y in self.log])


class SpyPdf:
	"""Callable sampler that records every column it hands out. `draw(k)` returns column number k of an endless design."""

	def __init__(self, draw, budget=10**6):
		self.draw, self.cols, self.budget = draw, [], budget

	def __call__(self, size=None, *a, **kw):
		n, k = (size, 1) if np.isscalar(size) else size
		out = np.empty((int(n), int(k)), order="F")
		for j in range(int(k)):
			out[:, j] = self.draw(int(n), len(self.cols))
			self.cols.append(out[:, j].copy())
		if len(self.cols) > self.budget:
			raise Budget(f"more than {self.budget} vectors sampled")
		return out


def design(kind, seed):
	"""Endless column designs. Full periods of the first three average v v^T to exactly the identity."""
	if kind == "axes":  # sqrt(n) e_i
		return lambda n, k: np.sqrt(n) * np.eye(n)[:, k % n]
	if kind == "hadamard":  # n must be a power of two

		def h(n, k):
			return np.array([(-1.0) ** bin(i & (k % n)).count("1") for i in range(n)])

		return h
	if kind == "signs":  # all 2^n sign vectors

		def s(n, k):
			return np.array([1.0 if (k >> i) & 1 else -1.0 for i in range(n)])

		return s
	if kind == "randsigns":

		def rs(n, k):
			return np.random.default_rng([seed, k]).choice([-1.0, 1.0], size=n)

		return rs
	if kind == "random":

		def r(n, k):
			return np.random.default_rng([seed, k]).normal(size=n)

		return r
	raise ValueError(kind)


def pick(rng, xs):
	return xs[int(rng.integers(len(xs)))]


def size(rng, lo, hi, tail=None):
	"""Log-uniform size, small sizes over-represented; about 1 in 40 is well above `hi` (up to `tail`, default 320)."""
	if tail != 0 and rng.random() < 0.025:
		return int(rng.integers(hi, max(hi, tail or 320) + 1))
	if rng.random() < 0.15:
		return int(rng.integers(lo, min(hi, lo + 4) + 1))
	return int(np.clip(np.exp(rng.uniform(np.log(max(lo, 1)), np.log(hi + 1))), lo, hi))


def sketched(V, batch, n):
	"""The sketch vectors of an xtrace run: the operator sees W-batch, Q-batch, W-batch, Q-batch...; the sketch vectors are the W parts."""
	out, i, got = [], 0, 0
	while i < len(V) and got < n:
		k = min(batch, n - got)
		out.append(V[i : i + k])
		got += len(V[i : i + k])
		i += 2 * k
	return np.concatenate(out).T if out else np.zeros((n, 0))


def magnitude(rng):
	"""Scale of an operator: mostly 1, sometimes far from it (within float32's comfort for float32 operators, see `scaled`)."""
	return float(pick(rng, [1.0, 1.0, 1.0, 1e-10, 1e-5, 1e4, 1e10]))


def scaled(A, mag, f4=False):
	return A * (float(np.clip(mag, 1e-4, 1e4)) if f4 else mag)
