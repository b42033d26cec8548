"""Estimators are the mean (or control-variate) estimates of exactly the samples they were given."""

import numpy as np

from ..gens import pick, size
from .c18 import cut, form

PROPERTY = "C19"
EXTS = ()
COUNTS = {"quick": 15000, "thorough": 300000}
REQUIRED = ["mean_histories", "cv_histories", "updates", "deltas", "recorded_values", "unrecorded", "fixed_alphas", "estimated_alphas", "exact_regressions", "degenerate_controls", "interleaved_estimators", "multi_controls", "rejected_alphas", "empty_batches", "reused_arguments", "nearly_constant_controls", "zero_estimates", "long_streams"]
RULE = (
	"random histories of one or two interleaved estimators (mean with and without covariance, 1..5, sometimes up to 200 dimensions; control variates "
	"with 1..4 controls, given or estimated coefficients, collinear and constant controls), in random batches, with the caller's "
	"arrays overwritten afterwards; keyed by (type, dim, n, batching, options)"
)
ASSUMES = ["regression coefficients are judged in proportion to the condition number of the controls"]


def gen(rng, i, tier):
	long = rng.random() < 0.012
	return {
		"type": pick(rng, ["mean", "cv"]),
		"dim": int(rng.integers(6, 200)) if rng.random() < 0.03 and not long else int(pick(rng, [1, 1, 2, 3, 5])),
		"n": int(rng.integers(600, 7000)) if long else size(rng, 1, 80, 600),
		"cuts": pick(rng, ["all", "geometric", "large"] if long else ["ones", "ones", "random", "all", "geometric"]),
		"cov": bool(rng.random() < 0.5),
		"record": bool(rng.random() < 0.6),
		"alpha": pick(rng, ["est", "est", "fixed", "zero"]),
		"controls": pick(rng, ["random", "random", "linear", "linear", "constant", "collinear", "scaled", "offset", "whole"]),
		"form": pick(rng, ["list", "array", "scalar"]),
		"seed": int(rng.integers(1 << 30)),
	}


def mean_case(p, obs, r):
	from primate.estimators import MeanEstimator

	dim, n = p["dim"], p["n"]
	ests = [MeanEstimator(dim=dim, covariance=p["cov"], record=p["record"]) for _ in range(2)]
	X = [r.normal(size=(n, dim)) * 3 + 1 for _ in ests]
	for e in ests:
		obs.check(len(e) == 0 and np.all(np.isnan(e.estimate)), "a new estimator is not empty", estimate=e.estimate)
		obs.check(np.all(np.isinf(e.delta)), "a new estimator has a finite change", delta=e.delta)
	at = 0
	for b in cut(p["cuts"], n, r):
		for e, x in zip(ests, X):
			if at and r.random() < 0.1:
				e.update(np.empty((0, dim)))
				obs.check(len(e) == at, "an empty batch changed the number of samples", got=len(e))
				obs.close(np.ravel(e.estimate), x[:at].mean(axis=0), 1e-12, "an empty batch changed the estimate")
				obs.close(np.ravel(e.delta), np.zeros(dim), 1e-12, "an empty batch changed the estimate according to delta")
				obs.count("empty_batches")
			batch = form(x[at : at + b].copy(), r, obs)
			kept = e.estimate
			kept0 = np.array(kept, copy=True)
			delta0 = np.array(e.delta, copy=True)
			held = e.delta
			e.update(batch)
			obs.count("updates")
			obs.check(np.array_equal(kept, kept0, equal_nan=True) and np.array_equal(held, delta0, equal_nan=True), "an estimate handed out earlier changed")
			if isinstance(batch, np.ndarray) and batch.flags.writeable:
				batch[...] = -1e9  # the caller may reuse its array
			new = x[: at + b].mean(axis=0)
			old = x[:at].mean(axis=0) if at else np.zeros(dim)
			obs.check(len(e) == e.n_samples == at + b, "wrong number of samples", got=len(e), want=at + b)
			obs.check((np.ndim(e.estimate) == 0) if dim == 1 else np.shape(e.estimate) == (dim,), "wrong shape of the estimate", shape=np.shape(e.estimate))
			obs.close(np.ravel(e.estimate), new, 1e-12, "the estimate is not the sample mean", n=at + b)
			obs.close(np.ravel(e.mean), new, 1e-12, "mean and estimate disagree")
			if at or not np.all(np.isinf(e.delta)):
				obs.close(np.ravel(e.delta), new - old, 1e-12, "delta is not the change of the estimate", n=at + b)
			obs.count("deltas")
			if p["record"]:
				got = np.array([np.ravel(v) for v in e.values])
				obs.close(got, x[: at + b], 0.0, "the recorded values are not the samples, in order")
				obs.count("recorded_values", b)
			else:
				obs.check(e.values is None, "values were recorded unasked", values=repr(e.values)[:80])
				obs.count("unrecorded")
		at += b
	obs.count("mean_histories")
	obs.count("long_streams", n > 1000)
	obs.count("interleaved_estimators")


def cv_case(p, obs, r):
	from primate.estimators import ControlVariableEstimator

	q, n = min(p["dim"], 4), p["n"]
	ecv = r.normal(size=q)
	C = ecv + r.normal(size=(n, q))
	beta, a0 = r.normal(size=q), float(r.normal())
	kind = p["controls"]
	if kind == "constant":
		C[:, 0] = ecv[0]
	elif kind == "collinear" and q > 1:
		C[:, 1] = 2 * C[:, 0]
		ecv[1] = 2 * ecv[0]
	elif kind == "scaled":
		f = 10.0 ** r.uniform(-7, 7, size=q)
		C, ecv, beta = C * f, ecv * f, beta / f
	elif kind == "offset":  # the controls are all but constant
		rel = 10.0 ** r.uniform(-11, -2, size=q)
		C, ecv = 1 + rel * C, 1 + rel * ecv
		beta = beta / rel
	elif kind == "whole":  # integer samples, so that estimates are often exactly zero
		a0, beta = 0.0, np.zeros(q)
	y = a0 + (C - (ecv if kind == "offset" else 0)) @ beta + (0 if kind == "linear" else 1) * r.normal(size=n)
	if kind == "whole":
		y = r.integers(-2, 3, size=n).astype(float)
	S = np.c_[y, C]
	alpha = {"est": None, "fixed": r.normal(size=q) * beta, "zero": np.zeros(q)}[p["alpha"]]
	fmt = {"list": list, "array": np.array, "scalar": lambda z: float(z[0]) if q == 1 else np.array(z)}[p["form"]]
	obs.raises(lambda: ControlVariableEstimator(ecv, alpha=np.ones(q + 1)), (AssertionError, ValueError), "coefficients of the wrong length were accepted")
	obs.count("rejected_alphas")
	mine = [fmt(ecv), None if alpha is None else fmt(alpha)]
	e = ControlVariableEstimator(mine[0], alpha=mine[1], record=p["record"])
	for a in mine:
		if isinstance(a, (np.ndarray, list)):
			a[:] = [1e9] * q  # the caller may reuse its arguments
			obs.count("reused_arguments")
	other = ControlVariableEstimator(fmt(ecv), alpha=None if alpha is None else fmt(alpha), record=p["record"])
	obs.check(len(e) == 0 and np.isnan(e.estimate) and np.all(np.isinf(e.delta)), "a new estimator is not empty")
	at, last = 0, None
	for b in cut(p["cuts"], n, r):
		if at and r.random() < 0.1:
			e.update(np.empty((0, q + 1)))
			obs.check(len(e) == at and e.estimate == last, "an empty batch changed the estimate", got=e.estimate, want=last, n=len(e))
			obs.count("empty_batches")
		batch = S[at : at + b].copy()
		e.update(batch)
		batch[...] = -1e9
		obs.count("updates")
		at += b
		P = S[:at]
		obs.check(len(e) == at and len(other) == 0, "wrong number of samples", got=len(e), want=at, other=len(other))
		D = P - P.mean(axis=0)
		al, tol = np.zeros(q), 1e-9 * (1 + np.abs(P[:, 0]).max())
		judged = True
		if alpha is not None:
			al = np.asarray(alpha, float)
			obs.count("fixed_alphas")
		elif at >= 2:
			sd = np.sqrt((D[:, 1:] ** 2).sum(axis=0))
			live = (sd > 1e-13 * np.abs(P[:, 1:]).max(axis=0)) & (np.ptp(P[:, 1:], axis=0) > 0)
			Z = D[:, 1:][:, live] / sd[live]
			sv = np.linalg.svd(Z, compute_uv=False)
			if len(sv) and not (at > live.sum() and sv.min() > 1e-4):
				judged = at > live.sum() and kind == "collinear" and q == 2  # the coefficients are not unique, the estimate is
				if judged:
					x, ex = P[:, 1], ecv[0]
					al = np.array([np.cov(P[:, 0], x)[0, 1] / np.var(x, ddof=1), 0.0])
					tol *= 1e3
			elif len(sv):
				al[live] = np.linalg.lstsq(Z, D[:, 0], rcond=None)[0] / sd[live]
				tol *= 10 / sv.min()
				if kind == "offset":  # the samples are only known to rounding
					big, off = np.abs(P[:, 1:]).max(axis=0)[live], np.abs(P[:, 1:].mean(axis=0) - ecv)[live]
					rounding = np.finfo(float).eps * big * np.sqrt(at) / sd[live]
					amp = (np.abs(al[live]) + np.linalg.norm(D[:, 0]) / sd[live]) * (sd[live] + off)
					tol += 50 / sv.min() ** 2 * rounding.max() * amp.sum()
					judged = bool(np.all(live) and rounding.max() < 1e-3)
					obs.count("nearly_constant_controls", judged and sd.min() < 1e-8 * np.sqrt(at))
			obs.count("estimated_alphas")
			obs.count("degenerate_controls", kind in ("constant", "collinear"))
		if kind == "offset":
			tol += 10 * np.finfo(float).eps * np.abs(al) @ np.abs(P[:, 1:]).max(axis=0) * np.sqrt(at)
		want = P[:, 0].mean() - al @ (P[:, 1:].mean(axis=0) - ecv)
		obs.check(np.isfinite(e.estimate), "the estimate is not finite", n=at, kind=kind, alpha=e.alpha)
		if judged:
			obs.close(e.estimate, want, tol + 1e-8 * abs(want), "wrong control-variate estimate", n=at, controls=kind, alpha=p["alpha"])
			if kind == "linear" and alpha is None and at >= q + 2 and tol < 1e-6:
				obs.close(e.estimate, a0 + beta @ ecv, tol * 100, "an exactly linear control variable does not remove the error", n=at)
				obs.count("exact_regressions")
		if last is not None:
			obs.count("zero_estimates", last == 0)
			obs.close(np.ravel(e.delta), [e.estimate - last], 1e-12 * (1 + abs(e.estimate)), "delta is not the change of the estimate", n=at)
			obs.count("deltas")
		last = e.estimate
		if p["record"]:
			obs.close(np.array([np.ravel(v) for v in e.values]), P, 0.0, "the recorded values are not the samples, in order")
			obs.count("recorded_values", b)
		else:
			obs.check(e.values is None, "values were recorded unasked")
			obs.count("unrecorded")
	obs.count("multi_controls", q > 1)
	obs.count("long_streams", n > 1000)
	obs.count("cv_histories")


def run(p, obs):
	r = np.random.default_rng(p["seed"])
	(mean_case if p["type"] == "mean" else cv_case)(p, obs, r)
	obs.sig(p["type"], p["dim"], p["n"], p["cuts"], p["cov"], p["record"], p["alpha"], p["controls"])
