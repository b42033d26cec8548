"""MatrixFunction @ v is f(A) v: exactly for low-degree polynomials and for full expansions."""

import numpy as np

from ..gens import KINDS, pick, size, sym, wrap

PROPERTY = "C11"
COUNTS = {"quick": 20000, "thorough": 150000}
REQUIRED = ["full_expansions", "polynomials", "invariant_vectors", "matrix_products", "zero_vectors", "named_functions", "homogeneity", "ghost_spectra", "dtype_pairs"]
RULE = (
	"random symmetric operators (n = 2..48), full expansions of smooth, entire and named functions, polynomials of degree "
	"below the Krylov degree, vectors in invariant subspaces (for functions not finite off the spectrum too), products with "
	"blocks of vectors, float32/64; reference U f(L) U' v; keyed by (case, kind, function, n, deg)"
)
ASSUMES = ["full or nearly full re-orthogonalisation; conditioning of f limited by keeping the spectrum in [-1, 1] or [0.2, 2]"]
FUNS = ["wave", "wave", "identity", "exp", "abs", "sqrt", "log", "inv", "softsign", "smoothstep", "numrank", "lambda", "none"]


def gen(rng, i, tier):
	n = size(rng, 2, 48)
	return {
		"case": pick(rng, ["full", "full", "poly", "poly", "invariant", "block", "zero", "factory", "ghosts", "dtypes"]),
		"kind": pick(rng, KINDS),
		"n": n,
		"deg": int(rng.integers(2, n + 3)),
		"k": int(rng.integers(1, 7)),
		"fun": pick(rng, FUNS),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"fmt": pick(rng, ["C", "F", "csr", "lo", "duck", "view"]),
		"dtype": pick(rng, ["f8", "f8", "f8", "f4"]),
		"orth": pick(rng, ["deg", "neg", "big"]),
		"scale": float(pick(rng, [1.0, 1.0, 1e-5, 1e5, 1e-40, 1e-100, 1e60])),
		"cols": int(rng.integers(1, 6)) if rng.random() < 0.9 else int(rng.integers(20, 90)),
	}


def reference_fun(name, t):
	eps = np.finfo(float).eps
	if name in ("identity", "none"):
		return lambda x: x
	if name == "exp":
		return lambda x: np.exp(t * x)
	if name == "abs":
		return np.abs
	if name == "sqrt":
		return np.sqrt
	if name == "log":
		return lambda x: np.log(np.maximum(x, eps))
	if name == "inv":
		return lambda x: 1.0 / x
	if name == "softsign":

		def s(x):
			x = np.clip(x, -1, 1)
			out, c = 0.0, 1.0
			for j in range(11):
				out = out + c * x * (1 - x**2) ** j
				c *= (2 * j + 1) / (2 * j + 2)
			return out

		return s
	if name == "smoothstep":

		def st(x):
			y = np.clip((x - 0.1) / 0.8, 0, 1)
			return 3 * y**2 - 2 * y**3

		return st
	if name == "numrank":
		return lambda x: (np.abs(x) >= 0.3) * 1.0
	if name == "wave":
		return lambda x: np.cos(t * x)
	if name == "lambda":
		return lambda x: np.cos(3 * x) + x**2
	raise ValueError(name)


def operator(p, lo_hi=None):
	n = p["n"]
	A = sym(p["kind"], n, p["mseed"])
	lam, U = np.linalg.eigh(A)
	span = max(lam[-1] - lam[0], 1e-12)
	lo, hi = lo_hi or (-1.0, 1.0)
	lam = lo + (hi - lo) * (lam - lam[0]) / span
	return lam, U, (U * lam) @ U.T


def run(p, obs):
	from primate.operators import MatrixFunction, matrix_function

	n, f4, case = p["n"], p["dtype"] == "f4", p["case"]
	r = np.random.default_rng(p["seed"])
	if case == "ghosts":  # outliers beside a cluster: without full re-orthogonalisation they come back as copies
		n = 24 + p["seed"] % 30
		k = 1 + p["k"] % 3
		U = np.linalg.qr(r.normal(size=(n, n)))[0]
		lam = np.r_[0.1 * (0.5 - 0.5 * np.cos(np.pi * (np.arange(n - k) + 0.5) / (n - k))), r.uniform(4, 10, size=k)]
		A = (U * lam) @ U.T
		A = (A + A.T) / 2
		lam, U = np.linalg.eigh(A)
		v, w = r.normal(size=n), 12 * n
		f = lambda x: np.cos(w * x)
		deg = n + p["seed"] % 3
		M = MatrixFunction(wrap(A, p["fmt"]), fun=f, deg=deg, orth={"deg": n, "neg": -1, "big": 10 * n}[p["orth"]])
		obs.count("ghost_spectra")
		obs.close(M @ v, U @ (f(lam) * (U.T @ v)), 1e-6 * np.linalg.norm(v), "full re-orthogonalisation does not keep a full expansion exact", n=n, orth=p["orth"], deg=deg)
		obs.sig(case, n, k, p["orth"], p["fmt"])
		return
	if case == "dtypes":  # entries and vectors that every type represents exactly
		n = min(n, 12)
		A = r.integers(-3, 4, size=(n, n))
		A = A + A.T
		lam, U = np.linalg.eigh(A.astype(float))
		v = r.integers(-5, 6, size=n)
		v[0] = 7
		f = lambda x: np.cos(x / 2)
		dts = [p["dtype"], "f8", "f4", "i4", "i8"]
		da, dv = pick(r, dts), pick(r, ["f8", "f8", "f4", "i4"])
		if dv == "f8":
			v = v + r.normal(size=n)
		M = MatrixFunction(wrap(A.astype(da), p["fmt"]), fun=f, deg=max(2, n), orth=-1)
		want = U @ (f(lam) * (U.T @ v))
		x = v.astype(dv)
		obs.count("dtype_pairs")
		obs.check(M.dtype == np.dtype("f8"), "a matrix function runs in double precision unless asked otherwise", dtype=M.dtype)
		tol8 = 1e-9 * n * np.linalg.norm(v)
		obs.close(M @ x, want, tol8, "the product depends on the type of the operator or of the vector", operator=da, vector=dv, n=n)
		obs.close(M.quad(x), [v @ want], tol8 * np.linalg.norm(v), "the form depends on the type of the operator or of the vector", operator=da, vector=dv, n=n)
		obs.sig(case, n, da, dv, p["fmt"])
		return
	name, t = p["fun"], 0.7
	if f4:
		p = {**p, "scale": float(np.clip(p["scale"], 1e-5, 1e5))}
	if name == "wave":
		if f4:
			name = "exp"
		else:
			t = 1.5 * n  # oscillates faster than a polynomial of a lower degree can follow
	if case == "full" and name in ("numrank", "abs"):
		name = "exp"  # not smooth: rounding of an eigenvalue at the jump is not an error of the code
	if f4 and case != "poly" and name in ("sqrt", "log", "inv"):
		# in float32 the expansion continues on rounding noise after the subspace is exhausted (the tolerance is fixed at
		# 1e-8), and may leave the domain of the function: see DESIGN.md
		name = "exp"
	positive = name in ("sqrt", "log", "inv")
	lam, U, A = operator(p, (0.2, 2.0) if positive else None)
	A = ((A + A.T) / 2).astype(p["dtype"])
	lam, U = np.linalg.eigh(A.astype(float))
	f = reference_fun(name, t)
	kwf = {"exp": {"t": t}, "smoothstep": {"a": 0.1, "b": 0.9}, "numrank": {"threshold": 0.3}}.get(name, {})
	fun = {"lambda": f, "wave": f, "none": None}.get(name, name)
	if name not in ("lambda", "none", "wave"):
		obs.count("named_functions")
	deg = p["deg"]
	eps = np.finfo(p["dtype"]).eps
	v = r.normal(size=n) * p["scale"]
	poly = None
	if case in ("full", "block", "factory"):
		deg = n + (p["seed"] % 2)
	elif case == "poly":
		d = int(r.integers(0, min(deg, n, 10) if f4 else min(deg, n)))  # degree at most deg - 1: the Krylov approximation is exact
		c = r.normal(size=d + 1) / (d + 1)
		poly = np.polynomial.chebyshev.Chebyshev(c)
		f = lambda x: np.asarray(poly(np.asarray(x, dtype=float)))
		lam0, U0, A = operator(p)
		A = ((A + A.T) / 2).astype(p["dtype"])
		lam, U = np.linalg.eigh(A.astype(float))
		fun, kwf = f, {}
	elif case == "invariant":
		ks = r.choice(n, size=min(p["k"], n), replace=False)
		v = U[:, ks] @ r.uniform(1, 2, size=len(ks)) * p["scale"]
		deg = n
	orth = {"deg": min(deg, n), "neg": -1, "big": 10 * n}[p["orth"]]
	if deg < 2:
		deg = 2
	M = MatrixFunction(wrap(A, p["fmt"]), fun=fun, deg=deg, orth=orth, dtype=np.dtype(p["dtype"]), **kwf)
	obs.check(M.shape == (n, n) and M.dtype == np.dtype(p["dtype"]), "wrong shape or dtype")
	exact = lambda x: U @ (f(lam) * (U.T @ x.astype(float)))
	amp = 1 + np.max(np.abs(f(lam)))
	soft = {"sqrt": 10, "log": 20, "inv": 50, "softsign": 50, "abs": 1e9, "numrank": 1e9, "wave": 10 + 3 * n}.get(name, 10) if case != "poly" else 50 * (1 + len(poly.coef)) ** 2
	def tol(x):
		stop = np.sqrt(n) * 1e-8 * 10  # an expansion stopped as invariant is accurate to the stopping tolerance
		return (200 * eps * n + stop) * soft * amp * np.linalg.norm(x.astype(float))
	if f4 and case in ("full", "block", "factory", "invariant"):
		# float32 with the fixed tolerance 1e-8 keeps expanding after the subspace is exhausted
		loose = 50.0
	else:
		loose = 1.0

	def expect(x, y, what):
		obs.close(y, exact(x), loose * tol(x), what, n=n, deg=deg, fun=name, kind=p["kind"])

	if case == "zero":
		y = M @ np.zeros(n)
		obs.count("zero_vectors")
		obs.close(np.ravel(y), np.zeros(n), 0.0, "f(A) 0 is not 0", fun=name)
		obs.check(np.shape(y) == (n,), "wrong shape of a product with a vector", shape=np.shape(y))
		obs.sig(case, name, n)
		return
	x = v.astype(p["dtype"])
	if name in ("abs", "numrank") and case != "poly":
		if case == "invariant" and np.min(np.abs(np.abs(lam[ks]) - (0.3 if name == "numrank" else 0))) > 1e-2 and not f4:
			soft = 1e3
		else:
			return
	if case == "block":
		X = (r.normal(size=(n, p["cols"])) * p["scale"]).astype(p["dtype"])
		Y = M @ X
		obs.count("matrix_products")
		if obs.check(np.shape(Y) == X.shape, "wrong shape of a product with a matrix", got=np.shape(Y), want=X.shape):
			for j in range(p["cols"]):
				expect(X[:, j], Y[:, j], "a column of f(A) X is wrong")
				obs.close(Y[:, j], M @ X[:, j], loose * tol(X[:, j]), "a column differs from the product with that column")
		Z = M @ X[:, :1]
		obs.check(np.shape(Z) == (n, 1), "wrong shape of a product with a column", shape=np.shape(Z))
		obs.sig(case, p["kind"], name, n, p["cols"])
		return
	if case == "factory":
		F = matrix_function(wrap(A, p["fmt"]), fun=f, deg=max(2, deg))
		y = F @ v
		obs.check(isinstance(F, MatrixFunction), "matrix_function does not return a matrix function")
		z = matrix_function(wrap(A, p["fmt"]), fun=f, v=v, deg=max(2, deg))
		obs.close(np.ravel(z), np.ravel(y), 1e-12 * (1 + np.max(np.abs(y))), "matrix_function(v) differs from the product")
		if n <= 8 and not f4:
			obs.close(y, exact(v), 1e6 * tol(v), "the default orthogonalisation is far off on a small operator")
		obs.sig(case, p["kind"], name, n)
		return
	keep = x.copy()
	y = M @ x
	obs.check(np.array_equal(x, keep), "the input vector was modified")
	if not obs.check(np.shape(y) == (n,), "wrong shape of a product with a vector", shape=np.shape(y)):
		return
	expect(x, y, {"full": "full expansion is not f(A) v", "poly": "not exact for a polynomial of degree below the Krylov degree", "invariant": "wrong on an invariant subspace"}[case])
	obs.count({"full": "full_expansions", "poly": "polynomials", "invariant": "invariant_vectors"}[case])
	obs.count("homogeneity")
	obs.close(M @ (-3 * x), -3 * y, 6 * loose * tol(x), "not homogeneous")
	obs.close(M.matvec(x), y, loose * tol(x), "matvec differs from @")
	obs.close(M.T @ x if hasattr(M, "T") else y, y, loose * tol(x), "not its own transpose")
	obs.sig(case, p["kind"], name, n, deg, p["dtype"])
