"""Each stopping criterion decides by its documented rule, at its threshold, without side effects."""

import copy

import numpy as np

from ..gens import pick, size
from .c18 import cut

PROPERTY = "C20"
EXTS = ()
COUNTS = {"quick": 4000, "thorough": 300000}
REQUIRED = ["count_decisions", "tolerance_decisions", "knee_decisions", "knee_true", "knee_false", "undecided", "vector_tolerances", "at_threshold", "factories", "rejected_names", "messages", "purity_checks", "custom_estimators", "control_variates", "unrecorded", "undefined_estimates"]
RULE = (
	"random estimator histories (mean estimators of 1..5, sometimes up to 150 dimensions, control variates, user-written estimators) with every "
	"criterion asked after every batch at thresholds just above and just below the recomputed error; criteria are built "
	"directly and by name; keyed by (criterion, estimator, dim, history kind, decisions)"
)
ASSUMES = ["decisions closer to the threshold than 1e-9 are not judged"]


def gen(rng, i, tier):
	return {
		"crit": pick(rng, ["count", "tolerance", "tolerance", "knee", "knee", "factory"]),
		"est": pick(rng, ["mean", "mean", "cov", "cv", "user"]),
		"dim": int(rng.integers(6, 150)) if rng.random() < 0.06 else int(pick(rng, [1, 1, 2, 3, 5])),
		"n": size(rng, 1, 60, 400 if rng.random() < 0.6 else 4000),
		"cuts": pick(rng, ["ones", "ones", "random", "geometric"]),
		"hist": pick(rng, ["normal", "decay", "constant", "knee", "late", "shift", "int", "nan"]),
		"ord": pick(rng, [2, 2, None, 1, float("inf")]),
		"S": float(np.round(np.exp(rng.uniform(-3, 3)), 4)),
		"seed": int(rng.integers(1 << 30)),
	}


def history(kind, n, dim, r):
	X = r.normal(size=(n, dim))
	t = np.arange(1, n + 1)[:, None]
	if kind == "decay":
		X = 3 + X / t**2
	elif kind == "constant":
		X = np.tile(r.normal(size=dim), (n, 1))
	elif kind == "knee":
		X = np.where(t < max(2, n // 4), 50 * X, 1 + 1e-3 * X)
	elif kind == "late":
		X = np.where(t > n // 2, 5 + X, 1e-6 * X)
	elif kind == "shift":
		X = X + 100
	elif kind == "nan":  # one undefined sample makes every later estimate undefined
		X[int(r.integers(n))] = np.nan
	elif kind == "int":
		X = r.integers(-3, 4, size=(n, dim)).astype(float)
	return X


class UserEstimator:
	"""The estimator protocol, implemented by a user."""

	def __init__(self, dim):
		self.n_samples, self.values, self.delta, self.est = 0, [], np.full(dim, np.inf), np.full(dim, np.nan)

	def __len__(self):
		return self.n_samples

	def update(self, x):
		x = np.atleast_2d(x)
		old = np.zeros(x.shape[1]) if self.n_samples == 0 else self.est
		self.values.extend(x)
		self.n_samples = len(self.values)
		self.est = np.mean(self.values, axis=0)
		self.delta = self.est - old

	@property
	def estimate(self):
		return self.est


def state(e):
	"""What a user can see of an estimator."""
	v = None if e.values is None else [np.array(x, copy=True) for x in e.values]
	return len(e), np.array(e.estimate, copy=True), np.array(e.delta, copy=True), v


def same(s, t):
	eq = lambda a, b: np.array_equal(a, b, equal_nan=True)
	return s[0] == t[0] and eq(s[1], t[1]) and eq(s[2], t[2]) and ((s[3] is None and t[3] is None) or (len(s[3]) == len(t[3]) and all(eq(a, b) for a, b in zip(s[3], t[3]))))


def knee_margin(values):
	"""max difference curve times (m - 1): the knee is found iff S is below it; None if undecided, inf if the mean stopped."""
	x = np.ravel(values)
	if len(x) < 3:
		return None
	mu = np.cumsum(x) / np.arange(1, len(x) + 1)
	d = np.abs(np.diff(mu))
	y = np.cumsum(d)
	if np.all(np.diff(x) == 0) and np.all(d == 0):
		return np.inf
	if np.any(np.isnan(y)):
		return np.nan
	if y[-1] - y[0] <= 1e-12 * (np.abs(x).max() + 1e-300):
		return np.nan  # rounding decides
	yn = (y - y[0]) / (y[-1] - y[0])
	return float(np.max(yn - np.arange(len(y)) / (len(y) - 1)) * (len(y) - 1))


def run(p, obs):
	from primate.estimators import ControlVariableEstimator, CountCriterion, KneeCriterion, MeanEstimator, ToleranceCriterion, convergence_criterion

	r = np.random.default_rng(p["seed"])
	crit, kind, n, dim = p["crit"], p["est"], p["n"], p["dim"]
	if crit == "factory":
		factory(p, obs, r)
		return
	record = crit == "knee" or r.random() < 0.5
	if kind == "cv":
		X = history("normal" if p["hist"] == "nan" else p["hist"], n, 2, r)
		e = ControlVariableEstimator(0.0, alpha=[0.0, None, 0.5][int(r.integers(3))], record=record)
		dim = 1
		obs.count("control_variates")
	else:
		dim = 1 if crit == "knee" else dim
		X = history(p["hist"], n, dim, r)
		e = UserEstimator(dim) if kind == "user" else MeanEstimator(dim=dim, covariance=kind == "cov", record=record)
		obs.count("custom_estimators", kind == "user")
	decisions = []

	def ask(c, want, kind_, /, **w):
		before = state(e)
		got = c(e)
		obs.check(isinstance(got, (bool, np.bool_)), "a decision is not a Boolean", got=repr(got), crit=kind_)
		again = c(e)
		obs.check(bool(got) == bool(again), "a criterion decides differently when asked again", crit=kind_)
		if want is not None:
			obs.check(bool(got) == want, f"wrong decision of the {kind_} criterion", got=got, want=want, n=len(e), **w)
			decisions.append(bool(got))
		if r.random() < 0.3:
			m = c.message(e)
			obs.check(isinstance(m, str) and len(m) > 0, "no message", message=repr(m), crit=kind_)
			obs.count("messages")
		obs.check(same(before, state(e)), "a criterion modified the estimator", crit=kind_)
		obs.count("purity_checks")
		return got

	def consult():
		if crit == "count":
			k = len(e)
			for c in {0, 1, k - 1, k, k + 1, int(r.integers(0, 2 * n + 2))}:
				if c >= 0:
					ask(CountCriterion(c), k >= c, "count", count=c)
					obs.count("count_decisions")
		elif crit == "tolerance":
			o = p["ord"]
			err = float(np.linalg.norm(np.ravel(e.delta), ord=o))
			nrm = float(np.linalg.norm(np.ravel(e.estimate), ord=o))
			if len(e) == 0:
				ask(ToleranceCriterion(rtol=0.5, atol=0.5, ord=o), False, "tolerance")
				return
			if not np.isfinite(err):
				obs.count("undefined_estimates")
				ask(ToleranceCriterion(), False, "tolerance", undefined=True)
				ask(ToleranceCriterion(rtol=0.5, atol=1e6, ord=o), False, "tolerance")
				return
			if err == 0:
				ask(ToleranceCriterion(rtol=0.0, atol=1e-300, ord=o), True, "tolerance")
				ask(ToleranceCriterion(rtol=0.0, atol=0.0, ord=o), False, "tolerance")  # strictly below the threshold
				obs.count("at_threshold")
			else:
				for f, want in ((1 + 1e-7, True), (1 - 1e-7, False), (1e3, True), (1e-3, False)):
					ask(ToleranceCriterion(rtol=0.0, atol=err * f, ord=o), want, "tolerance", err=err, atol=err * f, ord=o)
					if nrm > 1e-9:
						ask(ToleranceCriterion(rtol=err / nrm * f, atol=0.0, ord=o), want, "tolerance", err=err, norm=nrm, rtol=err / nrm * f, ord=o)
						ask(ToleranceCriterion(rtol=err / nrm * f, atol=err * 0.5, ord=o), want, "tolerance", err=err, norm=nrm, rtol=err / nrm * f, ord=o)
						ask(ToleranceCriterion(rtol=err / nrm * 0.5, atol=err * f, ord=o), want, "tolerance", err=err, norm=nrm, atol=err * f, ord=o)
					obs.count("at_threshold")
			e2 = float(np.linalg.norm(np.ravel(e.delta)))
			n2 = float(np.linalg.norm(np.ravel(e.estimate)))
			dflt = e2 < 1.49e-8 or e2 < 0.01 * n2
			if min(abs(e2 - 1.49e-8), abs(e2 - 0.01 * n2)) > 1e-9 * (e2 + n2 * 0.01):
				ask(ToleranceCriterion(), bool(dflt), "tolerance", err=e2, norm=n2, defaults=True)
			obs.count("tolerance_decisions")
			obs.count("vector_tolerances", dim > 1)
		else:
			if e.values is None:
				obs.count("unrecorded")
				ask(KneeCriterion(p["S"]), False, "knee")
				return
			v = np.array(e.values)
			v = v.reshape(len(v), -1) if len(v) else np.zeros((0, 1))
			if v.shape[1] > 1:
				return  # the samples come with control variables: only single sequences are documented
			m = knee_margin(v)
			for S in {p["S"], 1.0} | ({m * 0.999, m * 1.001} if m is not None and np.isfinite(m) and m > 0.01 else set()):
				if m is None:
					want = False
					obs.count("undecided")
				elif np.isnan(m) or (np.isfinite(m) and abs(m - S) < 1e-6 * (1 + abs(m))):
					want = None
				else:
					want = bool(m > S)
				ask(KneeCriterion(S), want, "knee", S=S, margin=m)
				obs.count("knee_decisions")
				if want is not None:
					obs.count("knee_true" if want else "knee_false")
			if m is not None and np.isfinite(m) and m > 0 and abs(m - 1.0) > 1e-6:
				# the decision does not depend on the unit of the samples
				f = UserEstimator(1)
				f.update(np.ravel(v)[:, None] * 2.0 ** int(r.integers(-20, 20)))
				obs.check(bool(KneeCriterion(1.0)(f)) == bool(m > 1.0), "rescaling the samples changes the knee decision", margin=m)

	if crit == "knee" and kind != "user" and kind != "cv":
		u = MeanEstimator(dim=1)
		u.update(r.normal(size=20))
		obs.check(not KneeCriterion()(u), "a knee was found although no samples were recorded")
		obs.count("unrecorded")
	consult()
	at = 0
	for b in cut(p["cuts"] if n < 500 else "geometric", n, r):
		e.update(X[at : at + b])
		at += b
		consult()
	obs.sig(crit, kind, dim, n, p["hist"], p["cuts"], sum(decisions))


def factory(p, obs, r):
	"""convergence_criterion builds the named criterion from the options that concern it."""
	from primate.estimators import ConfidenceCriterion, ConvergenceCriterion, CountCriterion, KneeCriterion, MeanEstimator, ToleranceCriterion, convergence_criterion

	e = MeanEstimator(dim=1, covariance=True, record=True)
	kw = {"count": int(r.integers(1, 40)), "rtol": float(10 ** r.uniform(-4, 0)), "atol": float(10 ** r.uniform(-4, 0)), "S": p["S"], "confidence": float(r.uniform(0.5, 0.99)), "unrelated": 3, "ord": 1}
	zero = pick(r, [None, None, "rtol", "atol", "both", "count"])
	for key in ("rtol", "atol") if zero == "both" else (zero,) if zero else ():
		kw[key] = 0 if key == "count" else 0.0
	direct = {
		"count": CountCriterion(kw["count"]),
		"tolerance": ToleranceCriterion(rtol=kw["rtol"], atol=kw["atol"], ord=1),
		"knee": KneeCriterion(kw["S"]),
		"confidence": ConfidenceCriterion(kw["confidence"], atol=kw["atol"], rtol=kw["rtol"]),
	}
	named = {}
	for name, d in direct.items():
		spell = "".join(c.upper() if r.random() < 0.4 else c for c in name)
		named[name] = convergence_criterion(spell, **kw)
		obs.check(type(named[name]) is type(d), "the wrong criterion was built", name=spell, got=type(named[name]).__name__)
		obs.check(convergence_criterion(d, **kw) is d, "a criterion object was not passed through", name=name)
	own = ConvergenceCriterion(lambda est: len(est) > 3)
	obs.check(convergence_criterion(own, count=1) is own, "a criterion object was not passed through")
	for bad in ("", "counts", "none", None, 3, len):
		obs.raises(lambda: convergence_criterion(bad, **kw), (AssertionError, ValueError, TypeError), "an unknown criterion was accepted", name=repr(bad))
		obs.count("rejected_names")
	X = history(p["hist"], p["n"], 1, r)
	for i in range(p["n"]):
		e.update(X[i])
		for name, d in direct.items():
			obs.check(bool(named[name](e)) == bool(d(e)), "the criterion built by name decides differently", name=name, n=i + 1, kw=kw)
	obs.count("factories")
	obs.sig("factory", p["hist"], p["n"])
