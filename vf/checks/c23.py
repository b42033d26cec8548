"""Random vectors are isotropic: right support, zero mean, identity covariance, independent columns."""

import numpy as np
from scipy import stats

from ..gens import pick, size

PROPERTY = "C23"
EXTS = ()
COUNTS = {"quick": 12000, "thorough": 60000}
REQUIRED = ["draws", "rademacher", "normal", "sphere", "in_place", "samplers", "float32", "moment_tests", "column_tests", "distribution_tests", "odd_outputs", "rejected", "successive_draws", "bulk_draws"]
RULE = (
	"every distribution and alias, through every way to draw (size as int or tuple, curried sampler, in-place output in C or "
	"Fortran order and both precisions), n from 1 to 400, sometimes to 8000, and a few draws of 1.2e8 entries each; each draw is checked entry by entry for its support, and against "
	"the exact first, second, fourth and cross moments with bounds a correct sampler exceeds less than once in 1e9 tests; "
	"keyed by (pdf, way, dtype, n, columns)"
)
ASSUMES = ["statistical deviations are judged at 6.5 standard errors (and 1e-9 p-values)"]
ALIAS = {"rademacher": "rademacher", "signs": "rademacher", "normal": "normal", "gaussian": "normal", "sphere": "sphere"}


def gen(rng, i, tier):
	big = rng.random() < 0.02
	return {
		"bulk": ["rademacher", "normal", "sphere"][i // 4000 % 3] if i % 4000 == 7 else None,
		"pdf": pick(rng, list(ALIAS)),
		"way": pick(rng, ["tuple", "int", "sampler", "out_F", "out_C", "out_32", "out_32C", "out_bad"]),
		"n": int(rng.integers(400, 8000)) if big else size(rng, 1, 400),
		"k": size(rng, 1, 400),
		"seed": int(rng.integers(1 << 30)),
		"gen": pick(rng, ["int", "generator", "bitgen", "seq"]),
	}


def moments(V, pdf, obs, **w):
	"""V: n x k with k independent isotropic columns."""
	n, k = V.shape
	N = n * k
	Z = 6.5
	m4 = {"rademacher": 1.0, "normal": 3.0, "sphere": 3 * n / (n + 2)}[pdf]
	if N < 100:
		return
	V = V.astype(float)
	obs.check(abs(V.sum()) <= Z * np.sqrt(N), "the entries do not have zero mean", z=V.sum() / np.sqrt(N), pdf=pdf, **w)
	if pdf == "normal":
		obs.check(abs((V**2).sum() - N) <= Z * np.sqrt(2 * N) + 20, "the entries do not have unit variance", ratio=(V**2).mean(), pdf=pdf, **w)
		if N >= 1000:
			obs.check(stats.kstest(V.ravel(), "norm").pvalue > 1e-9, "the entries are not normally distributed", pdf=pdf, **w)
			obs.count("distribution_tests")
	if pdf == "sphere" and n >= 2 and k >= 100:
		obs.check(stats.kstest((V[0] ** 2) / n, stats.beta(0.5, (n - 1) / 2).cdf).pvalue > 1e-9, "the entries are not those of a uniform direction", **w)
		obs.check(abs((V**4).sum() - N * m4) <= 8 * np.sqrt(N * 105) + 1, "wrong fourth moment", got=(V**4).mean(), want=m4, **w)
		obs.count("distribution_tests")
	if n >= 2:  # rows i and i+1 uncorrelated: sum of V[i] V[i+1] has variance (n-1) k (at most)
		for d in {1, n // 2}:
			if d and (n - d) * k >= 100:
				x = (V[:-d] * V[d:]).sum()
				obs.check(abs(x) <= Z * np.sqrt((n - d) * k) + 20, "entries of a vector are correlated", z=x / np.sqrt((n - d) * k), lag=d, pdf=pdf, **w)
		obs.count("moment_tests")
	if k >= 2:
		for d in {1, k // 2}:
			if d and n * (k - d) >= 100:
				x = (V[:, :-d] * V[:, d:]).sum()
				obs.check(abs(x) <= Z * np.sqrt(n * (k - d)) + 20, "successive vectors are correlated", z=x / np.sqrt(n * (k - d)), lag=d, pdf=pdf, **w)
		obs.count("column_tests")
	if k >= 100 and n >= 2:  # per-row balance: no coordinate is favoured
		rows = V.sum(axis=1) / np.sqrt(k)
		obs.check(np.abs(rows).max() <= Z + np.sqrt(2 * np.log(n)), "a coordinate has a non-zero mean", worst=np.abs(rows).max(), pdf=pdf, **w)
		sd = np.sqrt(max(m4 - 1, 0.0)) + 1e-12
		rows = ((V**2).sum(axis=1) - k) / np.sqrt(k)
		obs.check(np.abs(rows).max() <= (Z + np.sqrt(2 * np.log(n))) * sd * 1.6 + 1e-6 * np.sqrt(k), "a coordinate does not have unit variance", worst=np.abs(rows).max(), sd=sd, pdf=pdf, **w)


def bulk(obs, pdf, seed):
	"""Moments over so many entries that deviations of a thousandth show."""
	from primate.random import isotropic

	s, n, k, N = isotropic(pdf=pdf, seed=seed), 2000, 1000, 0
	sums = np.zeros(5)
	for _ in range(60):
		V = s((n, k))
		W = V * V
		sums += [V.sum(), W.sum(), np.einsum("ij,ij->", W, W), np.einsum("ij,ij->", V[1:], V[:-1]), np.einsum("ij,ij->", V[:, 1:], V[:, :-1])]
		N += V.size
	m4 = {"rademacher": 1.0, "normal": 3.0, "sphere": 3 * n / (n + 2)}[pdf]
	obs.check(abs(sums[0]) <= 6.5 * np.sqrt(N), "the entries do not have zero mean", z=sums[0] / np.sqrt(N), pdf=pdf, N=N)
	obs.check(abs(sums[1] - N) <= (6.5 * np.sqrt(2 * N) if pdf == "normal" else 1e-9 * N), "the entries do not have unit variance", ratio=sums[1] / N, pdf=pdf, N=N)
	obs.check(abs(sums[2] - m4 * N) <= 6.5 * np.sqrt(96 * N), "wrong fourth moment", got=sums[2] / N, want=m4, pdf=pdf, N=N)
	for x, what in ((sums[3], "entries of a vector are correlated"), (sums[4], "successive vectors are correlated")):
		obs.check(abs(x) <= 6.5 * np.sqrt(N), what, z=x / np.sqrt(N), pdf=pdf, N=N)
	obs.count("bulk_draws")
	obs.sig("bulk", pdf)


def support(V, pdf, obs, **w):
	n = V.shape[0]
	tol = 1e-5 if V.dtype == np.float32 else 1e-12
	obs.check(np.all(np.isfinite(V)), "entries that are not finite", pdf=pdf, **w)
	if pdf == "rademacher":
		obs.check(np.all(np.abs(V) == 1.0), "entries that are not signs", values=np.unique(V)[:5], **w)
	elif pdf == "sphere":
		obs.close(np.linalg.norm(V.astype(float), axis=0), np.full(V.shape[1], np.sqrt(n)), tol * np.sqrt(n) * 10, "vectors off the sphere of radius sqrt(n)", **w)
	else:
		obs.check(len(np.unique(V)) >= 0.99 * V.size, "repeated entries in a continuous distribution", **w)
	obs.count(pdf)


def run(p, obs):
	from primate.random import isotropic

	name, way, n, k = p["pdf"], p["way"], p["n"], p["k"]
	pdf = ALIAS[name]
	seed = lambda: {"int": p["seed"], "generator": np.random.default_rng(p["seed"]), "bitgen": np.random.PCG64(p["seed"]), "seq": np.random.SeedSequence(p["seed"])}[p["gen"]]
	w = {"way": way, "n": n, "k": k}
	if n * k > 40000:
		k = max(1, 40000 // n)
	if p["bulk"]:
		return bulk(obs, p["bulk"], p["seed"])
	if way.startswith("out"):
		dt = np.float32 if "32" in way else np.float64
		order = "C" if way.endswith("C") else "F"
		if way == "out_bad":
			# outputs NumPy cannot fill directly must be refused or filled completely, never half-filled
			B = np.full((2 * n + 1, 3 * k + 1), np.nan)
			out = B[: 2 * n : 2, : 3 * k : 3]
			try:
				isotropic(pdf=name, seed=seed(), out=out)
			except (ValueError, AssertionError, TypeError):
				obs.count("odd_outputs")
			else:
				support(out, pdf, obs, **w)
			obs.count("odd_outputs")
			mask = np.ones_like(B, bool)
			mask[: 2 * n : 2, : 3 * k : 3] = False
			obs.check(np.isnan(B[mask]).all(), "elements outside the output were written", **w)
			obs.raises(lambda: isotropic(pdf=name, seed=1, out=np.zeros((n, k), dtype=np.int64)), (TypeError, ValueError, AssertionError), "an integer output was accepted")
			obs.raises(lambda: isotropic(pdf=name, seed=1, out=[0.0] * n), (TypeError, ValueError, AssertionError), "a list was accepted as output")
			obs.count("rejected", 2)
			obs.sig(pdf, way, n, k)
			return
		V = np.full((n, k), np.nan, dtype=dt, order=order)
		R = isotropic(pdf=name, seed=seed(), out=V)
		obs.check(R is None or R is V, "something else than the filled output was returned", got=type(R).__name__, **w)
		W = np.full((n, k), np.nan, dtype=dt, order=order)
		isotropic(pdf=name, seed=seed(), out=W)
		obs.check(np.array_equal(V, W), "the same seed fills different values", **w)
		obs.count("in_place")
		obs.count("float32", dt == np.float32)
		g = np.random.default_rng(p["seed"])
		X = np.empty((n, k), dtype=dt, order=order)
		Y = np.empty((n, k), dtype=dt, order=order)
		isotropic(pdf=name, seed=g, out=X)
		isotropic(pdf=name, seed=g, out=Y)
		obs.check(n * k < 40 or not np.array_equal(X, Y), "a generator was not advanced", **w)
		obs.count("successive_draws")
	elif way == "sampler":
		s = isotropic(pdf=name, seed=seed())
		obs.check(callable(s), "no sampler was returned")
		V = s(size=(n, k)) if p["seed"] % 2 else s((n, k))
		V2 = s((n, k))
		obs.check(n * k < 40 or not np.array_equal(V, V2), "a sampler repeats itself", **w)
		moments(np.hstack([V, V2]), pdf, obs, way="two draws", n=n, k=k)
		u = s([int, np.int64, np.int32][p["seed"] % 3](n))
		obs.check(np.shape(u) == (n, 1), "a sampler asked for n does not give one column", shape=np.shape(u))
		t = isotropic(pdf=name, seed=seed())
		obs.check(np.array_equal(t((n, k)), V) and np.array_equal(t((n, k)), V2), "samplers of the same seed differ", **w)
		obs.count("samplers")
	else:
		k = 1 if way == "int" else k
		V = isotropic([int, np.int64, np.int16][p["seed"] % 3](n) if way == "int" else (n, k), pdf=name, seed=seed())
		obs.check(np.array_equal(V, isotropic((n, k), pdf=name, seed=seed())), "the same seed gives different values", **w)
		g = np.random.default_rng(p["seed"])
		X, Y = isotropic((n, k), pdf=name, seed=g), isotropic((n, k), pdf=name, seed=g)
		obs.check(n * k < 40 or not np.array_equal(X, Y), "a generator was not advanced", **w)
		obs.check(n * k < 40 or not np.array_equal(X, isotropic((n, k), pdf=name, seed=p["seed"] + 1)), "different seeds give the same values", **w)
		U = isotropic((n, k), pdf=name)
		obs.check(n * k < 40 or not np.array_equal(U, isotropic((n, k), pdf=name)), "unseeded draws repeat themselves", **w)
		support(U, pdf, obs, way="unseeded")
		obs.count("successive_draws")
	obs.check(isinstance(V, np.ndarray) and V.shape == (n, k) and V.dtype.kind == "f", "wrong shape or type", shape=np.shape(V), **w)
	support(V, pdf, obs, **w)
	moments(V, pdf, obs, **w)
	obs.raises(lambda: isotropic((n, k), pdf="cauchy"), (AssertionError, ValueError, KeyError), "an unknown distribution was accepted")
	obs.count("rejected")
	obs.count("draws")
	obs.sig(pdf, way, p["gen"], n, k)
