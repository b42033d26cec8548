"""A degree-k quadrature rule is the Gauss rule of the leading k x k Jacobi matrix."""

import numpy as np

from ..gens import pick, size

PROPERTY = "C15"
COUNTS = {"quick": 8000, "thorough": 200000}
REQUIRED = ["gw_rules", "fttr_rules", "truncated_rules", "moments", "rule_agreements", "outputs_filled", "bad_outputs", "bad_e", "bad_quad", "from_lanczos", "size_one", "zero_nodes", "split_fttr_rules", "tqli_rules", "shifted_rules", "single_precision", "tiny_weights"]
RULE = (
	"random Jacobi matrices (n = 1..200: classical weights, random, discrete measures, from Lanczos; any sign of the "
	"off-diagonal for Golub-Welsch), degree 1..n+2 or default, both rules, every solver, both subdiagonal lengths, output "
	"arrays of right and wrong size; keyed by (kind, n, deg, rule, solver)"
)
ASSUMES = ["the forward recurrence is judged only for unreduced Jacobi matrices, with a tolerance that follows the growth of its polynomials"]
QKINDS = ["legendre", "chebyshev", "hermite", "laguerre", "random", "lanczos", "measure", "symmetric", "reducible", "negoff", "invariant"]


def jacobi(kind, n, r):
	k = np.arange(1, n)
	d, e = np.zeros(n), np.zeros(n - 1)
	if kind == "legendre":
		e = k / np.sqrt(4.0 * k**2 - 1)
	elif kind == "chebyshev":
		e = np.full(n - 1, 0.5)
		e[:1] = np.sqrt(0.5)
	elif kind == "hermite":
		e = np.sqrt(k / 2.0)
	elif kind == "laguerre":
		d, e = 2.0 * np.arange(n) + 1, k * 1.0
	elif kind in ("random", "negoff", "reducible"):
		d, e = r.normal(size=n), r.uniform(0.2, 1.5, size=n - 1)
		if kind == "negoff":
			e *= r.choice([-1, 1], size=n - 1)
		if kind == "reducible" and n > 1:
			e[int(r.integers(n - 1))] = 0.0
	elif kind == "symmetric":
		e = r.uniform(0.5, 1.0, size=n - 1)
	elif kind == "measure":  # Stieltjes for a discrete measure with well separated nodes
		x = np.cos(np.pi * (np.arange(n) + 0.5) / n) + r.uniform(-0.2, 0.2, size=n) / n**2
		w = r.uniform(0.5, 1.5, size=n)
		Q, q = np.zeros((n, n)), np.sqrt(w / w.sum())
		for j in range(n):
			Q[:, j] = q
			d[j] = q @ (x * q)
			z = x * q - Q[:, : j + 1] @ (Q[:, : j + 1].T @ (x * q))
			z -= Q[:, : j + 1] @ (Q[:, : j + 1].T @ z)
			if j < n - 1:
				e[j] = np.linalg.norm(z)
				q = z / e[j]
	return d, e


def gen(rng, i, tier):
	n = 1 if rng.random() < 0.05 else size(rng, 2, 40, 200)
	return {
		"case": pick(rng, ["rule", "rule", "rule", "rule", "rule", "rule", "outputs", "bad_outputs", "bad_e", "bad_quad"]),
		"kind": pick(rng, QKINDS),
		"n": n,
		"deg": int(pick(rng, [0, 0, n, n + 2, int(rng.integers(1, n + 1)), int(rng.integers(1, n + 1))])),
		"quad": pick(rng, ["gw", "golub_welsch", "fttr", "fttr"]),
		"method": pick(rng, ["", "", "tqli", "mrrr", "auto"]),
		"maxiter": int(pick(rng, [0, 0, 60])),
		"elen": int(rng.integers(2)),
		"shift": float(pick(rng, [0, 0, 0, 5, -3])),
		"scale": float(pick(rng, [1, 1, 1, 10, 0.01])),
		"dtype": pick(rng, ["f8", "f8", "f8", "f8", "f4"]),
		"strided": bool(rng.random() < 0.2),
		"seed": int(rng.integers(1 << 30)),
	}


def exact(d, e):
	T = np.diag(d) + np.diag(e, 1) + np.diag(e, -1) if len(d) > 1 else np.array([[d[0]]])
	return T


def run(p, obs):
	from primate.integrate import quadrature

	n, r = p["n"], np.random.default_rng(p["seed"])
	if p["kind"] in ("lanczos", "invariant"):
		from primate.lanczos import lanczos

		A = np.diag(np.sort(r.uniform(-1, 1, size=n + 4)))
		if p["kind"] == "invariant":  # the expansion ends early, and the coefficients are padded with zeros
			A = np.diag(r.permutation(np.arange(n + 4) % min(n + 4, int(r.integers(1, 6))) - 2.0))
		a, b = lanczos(A, v0=np.ones(n + 4), deg=n, orth=n)
		d, e = np.array(a, dtype=float), np.array(b, dtype=float)[: n - 1]
		obs.count("from_lanczos")
	else:
		d, e = jacobi(p["kind"], n, r)
	d, e = (d * p["scale"] + p["shift"]).astype(p["dtype"]), (e * p["scale"]).astype(p["dtype"])
	quad = p["quad"]
	kw = {}
	if p["method"]:
		kw["method"] = p["method"]
	if p["maxiter"]:
		kw["maxiter"] = p["maxiter"]
	if p["deg"]:
		kw["deg"] = p["deg"]
	deg = min(p["deg"], n) or n
	ein = np.append(np.zeros(1, e.dtype), e) if p["elen"] else e.copy()
	din = d.copy()
	if p["strided"]:
		z = np.full((n, 2), 9.0, dtype=p["dtype"])
		z[:, 0] = d
		din = z[:, 0]
	case = p["case"]
	if case == "bad_quad":
		obs.count("bad_quad")
		for bad in ("gauss", "GW", "", "tqli"):
			obs.raises(lambda: quadrature(din, ein, quad=bad, **kw), ValueError, "an unknown quadrature rule was accepted", quad=bad)
		return
	if case == "bad_e":
		obs.count("bad_e")
		x = float(pick(r, [1.0, -0.3, 1e-3, 50.0]))
		for q in ("gw", "fttr"):
			obs.raises(lambda: quadrature(din, np.append(x, e), quad=q, **kw), (AssertionError, ValueError), "a subdiagonal whose first entry is not zero was accepted", first=x)
			obs.raises(lambda: quadrature(din, np.append(e, [0.0, 0.0]), quad=q, **kw), (AssertionError, ValueError), "a subdiagonal that is too long was accepted")
		return
	if case == "bad_outputs":
		obs.count("bad_outputs")
		for a_, b_ in ((deg + 1, deg), (deg, deg + 1), (deg - 1, deg - 1)):
			if a_ > 0 and b_ > 0:
				obs.raises(lambda: quadrature(din, ein, quad=quad, nodes=np.zeros(a_), weights=np.zeros(b_), **kw), (AssertionError, ValueError), "output arrays of the wrong length were accepted", sizes=(a_, b_), deg=deg)
		return
	if case == "outputs":
		N, W = (np.full(deg, np.nan) for _ in range(2))
		if r.random() < 0.3:  # a view into a larger buffer
			big = np.full((deg, 4), np.nan)
			N, W = big[:, 1], big[:, 2]
		x, w = quadrature(din, ein, quad=quad, nodes=N, weights=W, **kw)
		obs.count("outputs_filled")
		obs.check(np.array_equal(N, x) and np.array_equal(W, w), "the output arrays were not filled with the rule", nodes=N, weights=W)
	else:
		x, w = quadrature(din, ein, quad=quad, **kw)
	x, w = np.array(x, dtype=float), np.array(w, dtype=float)
	obs.check(np.array_equal(din, d) and np.array_equal(ein, np.append(0.0, e) if p["elen"] else e), "the rule overwrote its input")
	obs.count("fttr_rules" if quad == "fttr" else "gw_rules")
	if p["method"] == "tqli":
		obs.count("tqli_rules")
	if deg < n:
		obs.count("truncated_rules")
	if n == 1:
		obs.count("size_one")
	if p["dtype"] == "f4":
		obs.count("single_precision")
	if p["shift"]:
		obs.count("shifted_rules")
	if not obs.check(x.shape == (deg,) and w.shape == (deg,), "wrong size of the rule", nodes=x.shape, weights=w.shape, deg=deg):
		return
	d, e = d.astype(float), e.astype(float)
	T = exact(d[:deg], e[: deg - 1])
	lam, V = np.linalg.eigh(T)
	s = np.argsort(x)
	x, w = x[s], w[s]
	if not np.any(np.abs(x) > 1e-12):
		obs.count("zero_nodes")
	norm = np.abs(lam).max() + 1e-300
	eps = np.finfo(p["dtype"]).eps
	lim = 1e-6 if p["dtype"] == "f8" else 1e-2
	obs.close(x, lam, 300 * eps * n * norm, "nodes are not the eigenvalues of the leading Jacobi matrix", deg=deg, n=n)
	obs.check(np.all(w >= 0), "negative weight", w=w)
	# the recurrence evaluated at nodes with rounding errors: first-order growth of its last polynomials
	tol = 1e3 * eps * n
	if quad == "fttr" and deg > 1:
		P, G = np.zeros((deg, deg)), np.zeros((deg, deg))  # values, error bounds
		P[0], G[0] = 1.0, eps
		dx = 300 * eps * n * norm
		c = np.abs(e)
		for i in range(1, deg):
			if c[i - 1] == 0.0:  # the measure ends here
				break
			P[i] = ((x - d[i - 1]) * P[i - 1] - (e[i - 2] * P[i - 2] if i > 1 else 0.0)) / e[i - 1]
			G[i] = (np.abs(x - d[i - 1]) * G[i - 1] + dx * np.abs(P[i - 1]) + eps * norm + (c[i - 2] * G[i - 2] if i > 1 else 0.0)) / c[i - 1] + 4 * eps * np.abs(P[i])
		S = np.sum(P**2, axis=0)
		tol = np.maximum(tol, 4 * np.sum((np.abs(P) + G) * G, axis=0) / S)
		if not np.max(tol) <= 100 * lim:
			obs.count("unstable_recurrences_skipped")
			return
	if quad == "fttr":
		obs.count("split_fttr_rules", int(np.any(e[: deg - 1] == 0)))
	gap = np.min(np.diff(lam)) if deg > 1 else norm
	wt = V[0] ** 2
	if 100 * eps * n * norm / gap < lim:
		obs.close(w, wt, tol + 100 * eps * n * norm / gap, "weights are not the squared first components", quad=quad, deg=deg)
		obs.count("rule_agreements")
		if quad != "fttr":  # tiny weights count too: functions may be huge at their nodes
			obs.close(np.sqrt(w), np.abs(V[0]), 1e3 * eps * n * (1 + norm / gap), "weights are not the squared first components, relative to small weights", quad=quad, deg=deg)
			obs.count("tiny_weights", int(np.min(wt) < 1e-10))
	tot = float(np.sum(np.broadcast_to(tol, w.shape)))
	obs.close(w.sum(), 1.0, tot, "the weights do not sum to one", quad=quad)
	# exactness: Chebyshev moments up to degree 2 deg - 1, on the full Jacobi matrix
	B = exact(d, e)
	bound = np.abs(np.linalg.eigvalsh(B)).max() * 1.001 + 1e-300
	m0, m1 = np.eye(n)[0], B[:, 0] / bound
	t0, t1 = np.ones(deg), x / bound
	bad = None
	for j in range(2 * deg):
		err = abs(float(w @ t0) - m0[0])
		obs.count("moments")
		if err > tot + 1e3 * eps * n * (j + 1) and bad is None:
			bad = (j, err)
		m0, m1 = m1, 2 * (B @ m1) / bound - m0
		t0, t1 = t1, 2 * x / bound * t1 - t0
	obs.check(bad is None, "the rule is not exact to degree 2k-1", at=bad, deg=deg, n=n, quad=quad)
	obs.sig(p["kind"], n, deg, quad, p["method"], case)
