"""Confidence intervals, and the confidence criterion that rests on them, have the stated coverage."""

import numpy as np
from scipy import stats

from ..gens import pick, size
from .c18 import cut
from .c20 import history, same, state

PROPERTY = "C22"
EXTS = ()
COUNTS = {"quick": 900, "thorough": 30000}
REQUIRED = ["intervals", "t_intervals", "normal_intervals", "extreme_confidences", "rejected", "criterion_decisions", "true", "false", "few_samples", "large_samples", "equivariance", "nestings", "coverage_runs", "zero_spread", "zero_means", "undefined_estimates"]
RULE = (
	"random samples (normal, heavy-tailed, shifted, constant, integer; lists and arrays) against the textbook t and normal "
	"intervals, their scaling, shifting and nesting, and the empirical coverage of 1000 intervals per coverage case; "
	"random histories of covariance-tracking estimators with the criterion asked at tolerances just above and below the "
	"recomputed margin and relative error, over the switch from t to normal scores; keyed by (what, n, confidence, decisions)"
)
ASSUMES = ["coverage cases accept deviations of five standard errors of the empirical coverage"]


def gen(rng, i, tier):
	return {
		"what": "coverage" if i % 30 == 0 else pick(rng, ["interval", "criterion"]),
		"n": size(rng, 2, 60, 250),
		"hist": pick(rng, ["normal", "normal", "shift", "decay", "constant", "int", "heavy"]),
		"conf": pick(rng, [0.0, 1.0, 0.5, 0.9, 0.95, 0.99, "r", "r"]),
		"cuts": pick(rng, ["ones", "ones", "random", "geometric"]),
		"sdist": pick(rng, ["t", "normal"]),
		"seed": int(rng.integers(1 << 30)),
	}


def run(p, obs):
	r = np.random.default_rng(p["seed"])
	conf = float(r.uniform(0.01, 0.999)) if p["conf"] == "r" else p["conf"]
	{"interval": interval, "criterion": criterion, "coverage": coverage}[p["what"]](p, obs, r, conf)


def draw(kind, n, r):
	return r.standard_t(3, size=n) * 10 if kind == "heavy" else history(kind, n, 1, r)[:, 0]


def interval(p, obs, r, conf):
	from primate.stats import confidence_interval

	n, sd = p["n"], p["sdist"]
	x = draw(p["hist"], n, r)
	a = [list, np.array, lambda z: np.repeat(z, 2)[::2], tuple][int(r.integers(4))](x)
	kw = {"sdist": sd}
	if conf == 0.95 and r.random() < 0.5:
		got = confidence_interval(a, **kw)  # the default
	else:
		got = confidence_interval(a, confidence=conf, **kw)
	obs.check(np.array_equal(np.array(a), x), "the sample was modified")
	m, se = x.mean(), x.std(ddof=1) / np.sqrt(n)
	sc = (np.abs(x).max() + 1e-300) * 1e-11
	obs.check(len(got) == 2, "an interval has two ends", got=got)
	lo, hi = (float(v) for v in got)
	if se <= 1e-14 * np.abs(x).max():  # constant samples
		if 0 < conf < 1 and sd == "t":
			obs.close([lo, hi], [m, m], sc, "wrong interval of a constant sample")
		obs.count("zero_spread")
	elif conf == 1.0:
		obs.check(lo == -np.inf and hi == np.inf, "full confidence is not the whole line", got=(lo, hi))
		obs.count("extreme_confidences")
	else:
		z = stats.t.ppf((1 + conf) / 2, n - 1) if sd == "t" else stats.norm.ppf((1 + conf) / 2)
		obs.close([lo, hi], [m - z * se, m + z * se], sc + 1e-9 * z * se, f"wrong {sd} interval", n=n, conf=conf)
		obs.close((lo + hi) / 2, m, sc + 1e-9 * z * se, "the interval is not centred at the mean")
		obs.count("extreme_confidences", conf == 0.0)
		if sd == "t":  # half lengths invert the distribution function
			obs.close(stats.t.cdf((hi - m) / se, n - 1) - stats.t.cdf((lo - m) / se, n - 1), conf, 1e-7 + 1e-9 * np.abs(m) / se, "the interval does not hold the stated probability")
		k = float(r.choice([-1, 1]) * 2.0 ** int(r.integers(-8, 9)))
		l2, h2 = confidence_interval(k * x, confidence=conf, **kw)
		obs.close([min(l2, h2), max(l2, h2)], sorted([k * lo, k * hi]), abs(k) * (sc + 1e-9 * z * se), "rescaled samples do not rescale the interval")
		l3, h3 = confidence_interval(x + 7.0, confidence=conf, **kw)
		obs.close([l3 - 7, h3 - 7], [lo, hi], 100 * sc + 1e-13 + 1e-9 * z * se, "shifted samples do not shift the interval")
		l4, h4 = confidence_interval(r.permutation(x), confidence=conf, **kw)
		obs.close([l4, h4], [lo, hi], sc + 1e-9 * z * se, "the order of the samples matters")
		obs.count("equivariance")
		l5, h5 = confidence_interval(x, confidence=conf + 0.5 * (1 - conf), **kw)
		obs.check(l5 <= lo + sc and h5 >= hi - sc, "a more confident interval is not wider", inner=(lo, hi), outer=(l5, h5))
		lt, ht = confidence_interval(x, confidence=conf, sdist="t")
		ln, hn = confidence_interval(x, confidence=conf, sdist="normal")
		obs.check(lt <= ln + sc and ht >= hn - sc, "the normal interval exceeds the t interval", t=(lt, ht), normal=(ln, hn))
		obs.count("nestings")
	obs.count("intervals")
	obs.count("t_intervals" if sd == "t" else "normal_intervals")
	for bad in (-0.01, 1.01, "0.9", None):
		obs.raises(lambda: confidence_interval(x, confidence=bad, sdist=sd), (AssertionError, ValueError, TypeError), "an invalid confidence was accepted", confidence=bad)
	obs.raises(lambda: confidence_interval(x, confidence=0.9, sdist="student"), ValueError, "an unknown sampling distribution was accepted")
	obs.count("rejected", 5)
	obs.sig("interval", n, p["hist"], round(conf, 3), sd)


def criterion(p, obs, r, conf):
	from primate.estimators import ConfidenceCriterion, MeanEstimator

	if conf in (0.0, 1.0):
		obs.raises(lambda: ConfidenceCriterion(conf), (AssertionError, ValueError), "a degenerate confidence was accepted", confidence=conf)
		obs.count("rejected")
		conf = 0.95
	n = p["n"]
	x = draw(p["hist"], n, r) * float(r.choice([1.0, 1.0, 1e-12, 1e-60, 1e12]))
	e = MeanEstimator(dim=1, covariance=True, record=bool(r.random() < 0.5))
	obs.check(not ConfidenceCriterion(conf, atol=1e300, rtol=1e300)(e), "an empty estimator converged")
	dec, at = [], 0
	for b in cut(p["cuts"], n, r):
		e.update(x[at : at + b])
		at += b
		P = x[:at]

		def ask(atol, rtol, want, **w):
			before = state(e)
			kw = {"atol": atol, "rtol": rtol} if r.random() < 0.8 or (atol, rtol) != (0.0, 0.01) else {}
			c = ConfidenceCriterion(conf, **kw)
			got = c(e)
			obs.check(isinstance(got, (bool, np.bool_)) and bool(got) == want == bool(c(e)), "wrong decision of the confidence criterion", got=repr(got), want=want, n=at, confidence=conf, atol=atol, rtol=rtol, **w)
			obs.check(isinstance(c.message(e), str), "no message")
			obs.check(same(before, state(e)), "the criterion modified the estimator")
			obs.count("criterion_decisions")
			obs.count("true" if want else "false")
			dec.append(want)

		if at < 3:
			ask(1e300, 1e300, False)
			obs.count("few_samples")
			continue
		m, s = P.mean(), P.std(ddof=1)
		if s <= 1e-9 * np.abs(P).max():  # (nearly) constant
			if s == 0 or p["hist"] == "constant":
				ask(1e-9 * np.abs(m) + 1e-300, 0.0, True)
				ask(0.0, 1e-9, True)
				obs.count("zero_spread")
			continue
		se = s / np.sqrt(at)
		score = stats.t.ppf((1 + conf) / 2, at - 1) if at < 30 else stats.norm.ppf((1 + conf) / 2)
		moe, rel = score * se, se / abs(m) if abs(m) > 1e-12 * s else None
		d = 1e-6
		for f, want in ((1 + d, True), (1 - d, False), (50.0, True), (0.02, False)):
			ask(moe * f, 0.0, want, moe=moe)
			if rel is not None:
				ask(0.0, rel * f, want, rel=rel)
				ask(moe * 0.5, rel * f, want, rel=rel)
				ask(moe * f, rel * 0.5, want, moe=moe)
				ask(None, rel * f, want, rel=rel)
			ask(moe * f, None, want, moe=moe)
		if rel is not None and abs(rel - 0.01) > 1e-8:
			ask(0.0, 0.01, bool(rel <= 0.01), defaults=True)
		obs.count("large_samples", at >= 30)
	undefined(obs, r, conf, x)
	obs.sig("criterion", n, p["hist"], round(conf, 3), p["cuts"], sum(dec))


def undefined(obs, r, conf, x):
	"""A mean of exactly zero has no relative error below any tolerance, and an undefined sample leaves the margin undefined."""
	from primate.estimators import ConfidenceCriterion, MeanEstimator

	e = MeanEstimator(dim=1, covariance=True)
	a = float(np.abs(x).max()) or 1.0
	e.update([a, -a, 0.0, 0.0])
	if e.estimate == 0.0:
		obs.check(not ConfidenceCriterion(conf, atol=0.0, rtol=1e300)(e), "a mean of zero has a small relative error", confidence=conf)
		obs.check(not ConfidenceCriterion(conf, atol=0.0, rtol=max(10.0, 10 * a))(e), "a mean of zero has a small relative error", confidence=conf, samples=a)
		obs.count("zero_means")
	e = MeanEstimator(dim=1, covariance=True)
	e.update(x)
	e.update([np.nan])
	e.update(x)
	if len(e) >= 3:
		obs.check(not ConfidenceCriterion(conf, atol=1e300, rtol=1e300)(e), "a criterion is met although the estimate is undefined", confidence=conf)
		obs.count("undefined_estimates")


def coverage(p, obs, r, conf):
	from primate.estimators import ConfidenceCriterion, MeanEstimator
	from primate.stats import confidence_interval

	conf = min(max(conf, 0.2), 0.95)
	n, N = int(r.integers(3, 12)), 1000
	X = r.normal(size=(N, n)) * 2 + 5
	hits = 0
	for x in X:
		lo, hi = confidence_interval(x, confidence=conf)
		hits += lo <= 5 <= hi
	dev = 5 * np.sqrt(conf * (1 - conf) / N) + 1.0 / N
	obs.close(hits / N, conf, dev, "the intervals do not have the stated coverage", n=n, N=N)
	# the criterion's margin covers the true mean as often: it holds at atol = |error| iff the margin is at most the error
	miss = 0
	for x in X[:400]:
		e = MeanEstimator(dim=1, covariance=True)
		e.update(x)
		miss += bool(ConfidenceCriterion(conf, atol=abs(x.mean() - 5.0), rtol=0.0)(e))
	obs.close(1 - miss / 400, conf, 5 * np.sqrt(conf * (1 - conf) / 400) + 1.0 / 400, "the criterion's margin of error does not have the stated coverage", n=n)
	obs.count("coverage_runs")
	obs.sig("coverage", n, round(conf, 3))
