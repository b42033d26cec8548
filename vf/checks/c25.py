"""Random symmetric matrices have exactly the spectrum that was asked for."""

import numpy as np
from scipy import stats

from ..gens import pick, size

PROPERTY = "C25"
EXTS = ()
COUNTS = {"quick": 10000, "thorough": 120000}
REQUIRED = ["matrices", "symmetric_matrices", "haar_matrices", "given_spectra", "random_spectra", "clipped_spectra", "definite", "reproduced", "rejected", "haar_tests", "extreme_spectra"]
RULE = (
	"symmetric() for both entry distributions, with and without pd, and haar(), for n up to 60, with given spectra (repeated, "
	"zero, negative, graded over 12 decades, all equal, all zero, tiny, integer) and random ones; eigenvalues are recomputed; one case in 50 "
	"tests the eigenvectors of 300 haar matrices against the exact law; keyed by (function, n, spectrum, options)"
)
ASSUMES = ["eigenvalues are compared to 1e-12 of the largest"]


def gen(rng, i, tier):
	return {
		"fun": "law" if i % 50 == 0 else pick(rng, ["symmetric", "symmetric", "haar"]),
		"n": size(rng, 1, 60),
		"dist": pick(rng, ["normal", "uniform"]),
		"pd": bool(rng.random() < 0.5),
		"ew": pick(rng, ["none", "none", "normal", "repeated", "zero", "negative", "graded", "equal", "int", "list", "zeros", "tiny", "one_negative", "wide"]),
		"seed": int(rng.integers(1 << 30)),
		"gen": bool(rng.random() < 0.5),
	}


def spectrum(kind, n, r):
	return {
		"none": lambda: None,
		"normal": lambda: r.normal(size=n) * 3,
		"repeated": lambda: r.choice([-1.0, 0.5, 2.0], size=n),
		"zero": lambda: np.where(np.arange(n) % 2 == 0, 0.0, r.uniform(1, 2, size=n)),
		"negative": lambda: -np.abs(r.normal(size=n)) - 0.1,
		"graded": lambda: np.geomspace(1e-9, 1e3, n),
		"equal": lambda: np.full(n, 1.5),
		"zeros": lambda: np.zeros(n),
		"tiny": lambda: r.uniform(1, 2, size=n) * 10.0 ** -float(r.integers(6, 40)),
		"one_negative": lambda: np.where(np.arange(n) == n // 2, -1.0, r.uniform(1, 2, size=n)),
		"wide": lambda: r.normal(size=n) * 10.0 ** float(r.integers(3, 30)),
		"int": lambda: r.integers(-4, 5, size=n),
		"list": lambda: [float(x) for x in r.uniform(-1, 4, size=n)],
	}[kind]()


def run(p, obs):
	from primate.random import haar, symmetric

	r = np.random.default_rng(p["seed"])
	n = p["n"]
	if p["fun"] == "law":
		return law(p, obs, haar)
	fun = haar if p["fun"] == "haar" else symmetric
	n = max(n, 2) if fun is haar else n
	ew = spectrum(p["ew"], n, r)
	kw = {} if fun is haar else {"dist": p["dist"], "pd": p["pd"]}
	pd = kw.get("pd", False)
	ew0 = None if ew is None else np.array(ew, copy=True)
	seed = lambda: np.random.default_rng(p["seed"]) if p["gen"] else p["seed"]
	A = fun(n, ew=ew, seed=seed(), **kw)
	w = {"n": n, "ew": p["ew"], **kw}
	obs.check(ew is None or np.array_equal(np.array(ew), ew0), "the prescribed eigenvalues were modified", **w)
	obs.check(isinstance(A, np.ndarray) and A.shape == (n, n) and A.dtype == np.float64, "wrong shape or type", **w)
	sc = 1e-300 + (np.abs(A).max() if ew0 is None else np.abs(ew0).max())
	floor = 3e-16 if pd else 0.0  # what pd raises eigenvalues to is up to it, but no more than machine precision
	obs.close(A, A.T, 1e-13 * sc * n if fun is haar else 0.0, "the matrix is not symmetric", **w)
	lam = np.linalg.eigvalsh((A + A.T) / 2)
	if ew0 is not None:
		want = np.sort(ew0.astype(float))
		if pd:
			want = np.maximum(want, 0.0)
			sc = max(sc, 1e-15)
			obs.count("clipped_spectra", bool((ew0 <= 0).any()))
		obs.close(lam, want, 1e-12 * sc + floor, "the spectrum is not the prescribed one", **w)
		if np.all(ew0 == ew0[0]) and not (pd and ew0[0] <= 0):
			obs.close(A, ew0[0] * np.eye(n), 1e-12 * sc + floor, "equal eigenvalues do not give a multiple of the identity", **w)
		obs.count("given_spectra")
		obs.count("extreme_spectra", p["ew"] in ("graded", "tiny", "zeros"))
	else:
		lo, hi = (0.0 if pd else -1.0), 1.0
		obs.check(lam.min() >= lo - 1e-12 and lam.max() <= hi + 1e-12, "random eigenvalues out of range", lo=lam.min(), hi=lam.max(), **w)
		obs.check(n < 6 or np.ptp(lam) > 1e-3, "random eigenvalues are all equal", **w)
		obs.check(pd or n < 40 or lam.min() < 0 < lam.max(), "random eigenvalues are of one sign", **w)
		obs.count("random_spectra")
	if pd:
		obs.check(lam.min() >= -1e-13 * sc * n, "the matrix is not positive (semi)definite", lowest=lam.min(), **w)
		obs.count("definite")
	B = fun(n, ew=ew, seed=seed(), **kw)
	obs.check(np.array_equal(A, B), "the same seed gives another matrix", **w)
	if n >= 3 and p["ew"] not in ("equal", "zeros") and not (pd and p["ew"] == "tiny") and not (ew0 is not None and (np.ptp(np.maximum(ew0, 0) if pd else ew0) == 0)):
		C = fun(n, ew=ew, seed=p["seed"] + 1, **kw)
		obs.check(not np.allclose(A, C, rtol=0, atol=1e-9 * sc), "another seed gives the same matrix", **w)
	obs.count("reproduced")
	if n > 1:
		for m in {n + 1, max(1, n - 1), 2 * n}:
			obs.raises(lambda: fun(n, ew=r.normal(size=m), seed=seed(), **kw), (AssertionError, ValueError), "a spectrum of the wrong length was accepted", length=m, **w)
	if fun is symmetric:
		obs.raises(lambda: symmetric(n, dist="cauchy"), ValueError, "an unknown distribution was accepted")
	else:
		obs.raises(lambda: haar(n, ew=np.ones(n + 1)), (AssertionError, ValueError), "a spectrum of the wrong length was accepted")
	obs.count("rejected")
	obs.count("haar_matrices" if fun is haar else "symmetric_matrices")
	obs.count("matrices")
	obs.sig(p["fun"], n, p["ew"], p["dist"], pd)


def law(p, obs, haar):
	"""Eigenvectors of haar(): u_i^2 follows Beta(1/2, (n-1)/2), and coordinates have independent signs."""
	n, N = 2 + p["n"] % 7, 300
	ew = np.zeros(n)
	j = p["seed"] % n
	ew[j] = 1.0
	g = np.random.default_rng(p["seed"])
	U = np.array([haar(n, ew=ew, seed=g) for _ in range(N)])
	i = (p["seed"] // 7) % n
	obs.check(stats.kstest(np.clip(U[:, i, i], 0, 1), stats.beta(0.5, (n - 1) / 2).cdf).pvalue > 1e-9, "the eigenvectors are not uniformly distributed", n=n, i=i, j=j)
	k = (i + 1) % n
	x = np.sign(U[:, i, k]).sum()
	obs.check(abs(x) <= 6.5 * np.sqrt(N), "the coordinates of the eigenvectors prefer a common sign", z=x / np.sqrt(N))
	obs.count("haar_tests")
	obs.sig("law", n, i, j)
