"""Toeplitz operators multiply like the Toeplitz matrix; normalize_unit maps the spectrum into [-1, 1]."""

import numpy as np
import scipy.linalg as sl

from ..gens import KINDS, pick, size, sym, wrap

PROPERTY = "C27"
COUNTS = {"quick": 20000, "thorough": 150000}
REQUIRED = ["products", "nonsymmetric", "circulant_like", "float32", "blocks", "interleaved", "normalized", "negative_dominant", "rejected", "dense_rebuilds", "columns", "workspace_reuse"]
RULE = (
	"Toeplitz operators from random, integer, symmetric, circulant and sparse generators (list, array, strided, read-only, "
	"float32), n = 1..150, products with vectors, columns, blocks and the identity, two operators interleaved; reference "
	"scipy.linalg.toeplitz. normalize_unit on random symmetric operators in every container; keyed by (what, generator, n, form)"
)
ASSUMES = ["normalize_unit is asked for n >= 3 and a non-zero operator, as scipy's eigsh requires"]


def gen(rng, i, tier):
	return {
		"what": pick(rng, ["toeplitz", "toeplitz", "toeplitz", "normalize"]),
		"c": pick(rng, ["random", "integer", "circulant", "sparse", "graded", "zero"]),
		"r": pick(rng, ["none", "random", "same", "longer_tail", "mismatch0"]),
		"form": pick(rng, ["array", "list", "view", "readonly", "f4"]),
		"dtype": pick(rng, ["f8", "f8", "f4"]),
		"n": size(rng, 1, 150),
		"cols": int(rng.integers(1, 6)),
		"unit": pick(rng, [1, 1, 1, 1e-20, 1e-6, 1e9]),
		"kind": pick(rng, KINDS),
		"fmt": pick(rng, ["C", "F", "csr", "csc", "lo", "view", "lo_sparse"]),
		"shift": float(pick(rng, [0, 0, 3, -3, -10])),
		"seed": int(rng.integers(1 << 30)),
	}


def vec(kind, n, r):
	x = r.normal(size=n)
	if kind == "integer":
		x = r.integers(-4, 5, size=n).astype(float)
	elif kind == "sparse":
		x = x * (r.random(n) < 0.2)
	elif kind == "graded":
		x = np.geomspace(1, 1e-8, n) * np.sign(x)
	elif kind == "zero":
		x = np.zeros(n)
	return x


def put(x, form):
	if form == "list":
		return [float(t) for t in x]
	if form == "view":
		return np.repeat(x, 2)[::2]
	if form == "readonly":
		y = x.copy()
		y.flags.writeable = False
		return y
	if form == "f4":
		return x.astype(np.float32)
	return x.copy()


def run(p, obs):
	r = np.random.default_rng(p["seed"])
	(normalize if p["what"] == "normalize" else toeplitz)(p, obs, r)


def toeplitz(p, obs, r):
	from primate.operators import Toeplitz

	n, cols = p["n"], p["cols"]
	unit = float(p["unit"])
	c = vec(p["c"], n, r) * unit
	row = None
	if p["c"] == "circulant":
		row = np.r_[c[0], c[:0:-1]]
		obs.count("circulant_like")
	elif p["r"] in ("random", "longer_tail", "mismatch0"):
		row = vec("random", n, r) * unit
		row[0] = c[0] if p["r"] != "mismatch0" else row[0]  # the first element of r is ignored, as in SciPy
	elif p["r"] == "same":
		row = c.copy()
	if p["form"] == "f4":
		c, row = c.astype(np.float32).astype(float), None if row is None else row.astype(np.float32).astype(float)
	R = sl.toeplitz(c, c if row is None else row)
	cc, rr = put(c, p["form"]), None if row is None else put(row, p["form"])
	dt = {"f8": np.float64, "f4": np.float32}[p["dtype"]]
	T = Toeplitz(cc, rr, dtype=dt) if p["dtype"] == "f4" or p["seed"] % 2 else Toeplitz(cc, rr)
	dt = np.dtype(T.dtype)
	obs.check(T.shape == (n, n) and dt == np.dtype({"f8": np.float64, "f4": np.float32}[p["dtype"]]), "wrong shape or dtype", shape=T.shape, dtype=str(dt))
	other = Toeplitz(vec("random", n, r))
	if p["form"] in ("array", "view"):
		cc[...] = 1e9  # the operator owns its generators
		if rr is not None:
			rr[...] = 1e9
	eps = np.finfo(dt).eps
	big = np.abs(c).max() + (np.abs(row).max() if row is not None else 0) + 1e-30
	w = {"n": n, "c": p["c"], "r": p["r"], "form": p["form"], "dtype": p["dtype"]}
	tol = lambda x: 50 * eps * big * (np.abs(x).sum() + 1) if dt == np.float64 else 50 * eps * big * (np.abs(x).sum() + 1)
	prev = None
	for k in range(3):
		x = vec(["random", "integer", "sparse"][k], n, r)
		xin = x if r.random() < 0.7 else np.repeat(x, 3)[::3]
		x0 = x.copy()
		way = int(r.integers(4))
		y = [lambda: T @ xin, lambda: T.matvec(xin), lambda: T.dot(xin), lambda: T(xin)][way]()
		obs.check(np.array_equal(xin, x0), "the vector was modified", **w)
		obs.check(isinstance(y, np.ndarray) and y.shape == (n,) and y.dtype == np.result_type(dt), "wrong shape or dtype of the product", got=(np.shape(y), getattr(y, "dtype", None)), **w)
		obs.close(y, R @ x, tol(x), "wrong Toeplitz product", **w)
		if prev is not None:
			obs.close(prev[0], prev[1], 0.0, "an earlier product changed", **w)
		prev = (y, y.copy())
		if k:
			other @ x
			obs.count("interleaved")
			obs.close(T @ x, y, 0.0, "the same product differs after others", **w)
			obs.count("workspace_reuse")
		obs.count("products")
	x = r.normal(size=(n, 1))
	obs.close(np.asarray(T @ x), R @ x, tol(x), "wrong product with a column", **w)
	obs.count("columns")
	X = r.normal(size=(n, cols))
	X = np.asfortranarray(X) if r.random() < 0.5 else X
	Y = T @ X
	obs.close(Y, R @ X, tol(X), "wrong product with a block", **w)
	obs.count("blocks")
	if n <= 40:
		obs.close(T @ np.eye(n), R, 50 * eps * big * 3, "the operator times the identity is not the Toeplitz matrix", **w)
		obs.count("dense_rebuilds")
	for bad in (n + 1, 2 * n + 3):
		obs.raises(lambda: T @ np.ones(bad), (ValueError, AssertionError), "a vector of the wrong length was accepted", length=bad, **w)
		obs.count("rejected")
	obs.count("nonsymmetric", row is not None and not np.allclose(R, R.T))
	obs.count("float32", dt == np.float32)
	obs.sig("toeplitz", p["c"], p["r"], p["form"], n)


def normalize(p, obs, r):
	from primate.operators import normalize_unit

	n = max(p["n"] % 40, 3)
	A = sym(p["kind"], n, p["seed"]) + p["shift"] * np.eye(n)
	lam = np.linalg.eigvalsh(A)
	if np.abs(lam).max() < 1e-6:
		return
	M = wrap(A, p["fmt"])
	if abs(np.abs(lam).max() - 0) > 0 and lam.max() > 0 > lam.min() and abs(lam.max() + lam.min()) < 1e-6 * np.abs(lam).max():
		return  # two dominant eigenvalues of opposite sign: either answer is right, and eigsh may not converge
	B = normalize_unit(M)
	obs.check(B.shape == (n, n), "wrong shape", shape=B.shape)
	D = B @ np.eye(n)
	a = lam[np.argmax(np.abs(lam))]
	mu = np.linalg.eigvalsh((D + D.T) / 2)
	obs.check(mu.min() >= -1 - 1e-9 and mu.max() <= 1 + 1e-9, "the spectrum is not in [-1, 1]", lo=mu.min(), hi=mu.max(), kind=p["kind"])
	U = np.linalg.eigh(A)[1]
	off = U.T @ D @ U
	obs.close(off - np.diag(np.diag(off)), np.zeros((n, n)), 1e-7, "the eigenvectors changed")
	if np.ptp(lam) > 1e-6 * np.abs(lam).max():  # an affine image of the operator, not a collapsed one
		k, t = np.polyfit(lam, np.diag(off), 1)
		obs.check(abs(k) * np.abs(lam).max() > 0.1, "the spectrum collapsed", slope=k, kind=p["kind"])
		obs.close(np.diag(off), k * lam + t, 1e-7, "the spectrum is not an affine image of the original one", kind=p["kind"])
	obs.close(D, (A + a * np.eye(n)) / (2 * a), 1e-7, "not the affine image (A + alpha I) / (2 alpha)", kind=p["kind"], alpha=a)
	x = r.normal(size=n)
	obs.close(np.ravel(B @ x), D @ x, 1e-9 * np.linalg.norm(x), "the product with a vector differs from that with the identity")
	obs.count("normalized")
	obs.count("negative_dominant", a < 0)
	obs.sig("normalize", p["kind"], p["shift"], p["fmt"], n)
