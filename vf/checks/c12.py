"""MatrixFunction.quad is Gauss quadrature of v' f(A) v, and drives the stochastic trace of f(A)."""

import numpy as np

from ..gens import KINDS, SpyPdf, design, pick, size, wrap
from .c11 import operator

PROPERTY = "C12"
COUNTS = {"quick": 5000, "thorough": 150000}
REQUIRED = ["gauss_exact", "full_expansions", "blocks", "zero_columns", "positive_weights", "traces_over_designs", "matvec_pairs", "constants", "tiny_components"]
RULE = (
	"random symmetric operators (n = 2..40), random vectors and blocks with zero columns, polynomials of degree up to "
	"2 deg - 1 (exact), smooth functions at full degree, and hutch over full isotropic designs against tr f(A); keyed by "
	"(case, kind, n, deg, columns, orth)"
)
ASSUMES = ["Chebyshev polynomials on [-1, 1], which Lanczos quadrature integrates stably even without re-orthogonalisation"]


def gen(rng, i, tier):
	n = size(rng, 2, 40)
	return {
		"case": pick(rng, ["gauss", "gauss", "gauss", "full", "block", "trace", "const", "tiny"]),
		"kind": pick(rng, KINDS),
		"n": n,
		"deg": int(rng.integers(2, n + 3)),
		"orth": pick(rng, ["zero", "three", "deg", "neg"]),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"fmt": pick(rng, ["C", "F", "csr", "lo", "duck"]),
		"dtype": pick(rng, ["f8", "f8", "f8", "f4"]),
		"cols": int(rng.integers(1, 6)),
		"scale": float(pick(rng, [1.0, 1.0, 1e-5, 1e5, 1e-40, 1e60])),
		"batch": int(pick(rng, [1, 2, 4, 8])),
	}


def run(p, obs):
	from primate.operators import MatrixFunction
	from primate.trace import hutch

	n, case, f4 = p["n"], p["case"], p["dtype"] == "f4"
	if f4:
		p = {**p, "scale": float(np.clip(p["scale"], 1e-5, 1e5))}
	r = np.random.default_rng(p["seed"])
	if case == "tiny":  # a component of relative weight 1e-8 to 1e-14 which the function multiplies back to order one
		n = 3 + n % 6
		U = np.linalg.qr(r.normal(size=(n, n)))[0]
		A = (U * np.r_[np.linspace(-1, 0, n - 1) + r.uniform(-0.1, 0.1, size=n - 1) / n, 1.0]) @ U.T
		A = (A + A.T) / 2
		lam, U = np.linalg.eigh(A)
		wt = 10.0 ** -r.uniform(8, 14)
		c = r.uniform(0.5, 1, size=n) * r.choice([-1, 1], size=n)
		c[-1] = np.sqrt(wt) * np.linalg.norm(c[:-1])
		v = U @ c * p["scale"]
		f = lambda x: np.exp(np.log(1 / wt) * np.maximum(x, -1))
		want = np.sum(f(lam) * (U.T @ v) ** 2)
		M = MatrixFunction(wrap(A, p["fmt"]), fun=f, deg=n + p["seed"] % 2, orth=-1)
		obs.count("tiny_components")
		obs.close(M.quad(v), [want], (1e-5 + 100 * n * np.finfo(float).eps / np.sqrt(wt)) * want, "a small component with a large function value is lost", weight=wt, n=n)
		obs.close(v @ np.ravel(M @ v), want, (1e-5 + 100 * n * np.finfo(float).eps / wt) * want, "the product loses a small component with a large function value", weight=wt, n=n)
		obs.sig(case, n, p["fmt"], int(-np.log10(wt)))
		return
	lam, U, A = operator(p)
	A = ((A + A.T) / 2).astype(p["dtype"])
	lam, U = np.linalg.eigh(A.astype(float))
	deg = p["deg"]
	if case in ("full", "trace"):
		deg = max(2, n)
	d = min(deg, n)
	orth = {"zero": 0, "three": min(3, d), "deg": d, "neg": -1}[p["orth"]]
	if case in ("full", "trace"):
		orth = -1
	eps = np.finfo(p["dtype"]).eps
	stop = np.sqrt(n) * 1e-8
	mk = lambda f: MatrixFunction(wrap(A, p["fmt"]), fun=f, deg=deg, orth=orth, dtype=np.dtype(p["dtype"]))
	exact = lambda f, X: np.array([np.sum(f(lam) * (U.T @ x) ** 2) for x in X.astype(float).T])
	if case == "trace":
		f = [np.exp, lambda x: np.cos(2 * x), lambda x: x**3 - x, lambda x: 1 / (2 + x)][p["seed"] % 4]
		dn = "axes" if p["seed"] % 3 else "signs"
		if dn == "signs" and n > 7:
			dn = "axes"
		period = n if dn == "axes" else 2**n
		b = [x for x in (p["batch"], 4, 2, 1) if period % x == 0][0]
		pdf = SpyPdf(design(dn, 0), 4 * period + 64)
		got = hutch(mk(f), converge="count", count=period, batch=b, pdf=pdf, full=bool(p["seed"] % 5))
		got = got[0] if isinstance(got, tuple) else got
		obs.count("traces_over_designs")
		obs.close(got, np.sum(f(lam)), (2e-3 if f4 else 1e-6) * n * (1 + np.max(np.abs(f(lam)))) * 3, "stochastic trace over a full design is not tr f(A)", design=dn, n=n)
		obs.sig(case, p["kind"], n, dn, b)
		return
	cols = p["cols"] if case == "block" else 1
	X = (r.normal(size=(n, cols)) * p["scale"]).astype(p["dtype"])
	zero = None
	if case == "block" and p["seed"] % 2:
		zero = int(r.integers(cols))
		X[:, zero] = 0
	keep = X.copy()
	j = int(r.integers(0, 2 * d))  # degree at most 2 deg - 1
	if case == "const":
		f, j = lambda x: np.full(np.shape(x), 2.5), 0
	elif case == "full":
		f = [np.exp, lambda x: np.cos(2 * x), lambda x: 1 / (2 + x)][p["seed"] % 3]
		j = 20
	else:
		f = lambda x: np.cos(j * np.arccos(np.clip(x, -1, 1))) + 0.0
	M = mk(f)
	arg = X if case == "block" else (X[:, 0] if p["seed"] % 2 else X)
	y = M.quad(arg)
	obs.check(np.array_equal(X, keep), "the input was modified")
	if not obs.check(np.shape(y) == (cols,), "wrong shape", got=np.shape(y), want=(cols,)):
		return
	nrm = np.sum(X.astype(float) ** 2, axis=0)
	# early stopping moves the nodes by at most the stopping tolerance; a Chebyshev polynomial has slope at most j^2
	tol = nrm.max() * (1000 * eps * n * (j + 3) * (1 if not f4 else 3) + (case != "const") * 4 * stop * (j + 1) ** 2)
	obs.close(y, exact(f, X), tol, "quadratic form is wrong" if case != "gauss" else "not exact for a polynomial of degree below 2 deg", degree=j, deg=deg, n=n, orth=orth, kind=p["kind"])
	obs.count({"gauss": "gauss_exact", "const": "constants", "full": "full_expansions", "block": "blocks"}[case])
	if zero is not None:
		obs.count("zero_columns")
		obs.check(y[zero] == 0.0, "the form of the zero vector is not 0", got=y[zero])
	if case == "block":
		one = np.array([M.quad(X[:, c]).item() for c in range(cols)])
		obs.close(one, y, nrm * 1000 * eps * n * (j + 3) ** 2, "columns of a block influence one another")
		one = np.array([M.quad(X[:, [c]].copy(order="C")).item() for c in range(cols)])
		obs.close(one, y, nrm * 1000 * eps * n * (j + 3) ** 2, "a one-column block differs from the block it is taken from")
	if case == "full":
		obs.count("matvec_pairs")
		obs.close(y, [X[:, 0].astype(float) @ np.ravel(M @ X[:, 0])], tol * 100 + nrm.max() * 1e-6, "quad differs from the product followed by an inner product")
	Mp = mk(lambda x: (np.asarray(x) - 0.3) ** 2)
	obs.count("positive_weights")
	obs.check(np.all(Mp.quad(X) >= 0), "form of a non-negative function is negative", got=Mp.quad(X))
	obs.sig(case, p["kind"], n, deg, cols, p["orth"], p["dtype"])
