"""Sampling stops exactly when the convergence criterion is first met."""

import numpy as np
import scipy.special as sc

from ..core import Budget
from .c20 import knee_margin
from ..gens import KINDS, SpyPdf, design, pick, size, sym

PROPERTY = "C02"
COUNTS = {"quick": 15000, "thorough": 150000}
REQUIRED = ["draws", "criterion_evaluations", "runs_ending_in_true", "named_criteria_replayed", "default_rule_replayed", "zero_tolerances", "named_knees"]
RULE = (
	"hutch (plain/full), diag and xtrace driven with scripted, count, tolerance, confidence, knee, composite and default "
	"criteria, random batch sizes; an online monitor checks the draw/evaluate event order, an offline one recomputes the "
	"stopping index from the logged probes; keyed by (estimator, criterion, batch, samples used)"
)
ASSUMES = ["stopping decisions within relative 1e-9 of a threshold are not judged"]


def gen(rng, i, tier):
	return {
		"est": pick(rng, ["hutch", "hutch_full", "hutch_cb", "diag", "diag_full", "xtrace", "xtrace"]),
		"crit": pick(rng, ["scripted", "scripted", "count", "tolerance", "confidence", "composite", "composite", "default", "knee", "named", "named"]),
		"kind": pick(rng, [k for k in KINDS if k not in ("lowrank", "rank1")]),
		"n": size(rng, 4, 40),
		"mseed": int(rng.integers(1 << 30)),
		"batch": int(pick(rng, [1, 2, 3, 5, 8, 13, 32, 64, 100])),
		"count": (size(rng, 80, 700) if rng.random() < 0.9 else int(rng.integers(700, 5500))) if rng.random() < 0.06 else int(rng.integers(1, 80)),
		"fires": int(rng.integers(0, 12)),
		"atol": float(10.0 ** rng.uniform(-1, 2)),
		"rtol": float(10.0 ** rng.uniform(-3, -0.3)),
		"conf": float(pick(rng, [0.5, 0.8, 0.9, 0.95, 0.99])),
		"name": pick(rng, ["count", "tolerance", "confidence", "knee"]),
		"S": float(np.round(np.exp(rng.uniform(-1.5, 2.5)), 3)),
		"expr": int(rng.integers(6)),
		"shift": float(pick(rng, [0, 0, 100, 1000, 1e4])),
		"zeroed": pick(rng, ["", "", "", "atol", "rtol"]),
	}


def t_or_z(conf, n):
	return sc.stdtrit(n - 1, (1 + conf) / 2) if n < 30 else sc.ndtri((1 + conf) / 2)


def norm(x):
	return float(np.linalg.norm(np.atleast_1d(x)))


def stops(name, p, forms, batch):
	"""Reference stopping index: number of forms after which the named criterion is first met (None: a borderline decision)."""
	"""Scalars or vectors; the estimate is their mean."""
	mu_prev, k = 0.0, 0
	while True:
		if name == "count":
			if k >= p["count"]:
				return k
		elif name == "tolerance" and k > 0:
			mu = np.mean(forms[:k], axis=0)
			err = norm(mu - mu_prev)
			for thr in (p["atol"], p["rtol"] * norm(mu)):
				if abs(err - thr) <= 1e-9 * (1 + norm(mu)):
					return None
			if err < p["atol"] or err < p["rtol"] * norm(mu):
				return k
			mu_prev = mu
		elif name == "knee" and k >= 3:
			m = knee_margin(forms[:k])
			if np.ptp(forms[:k]) <= 1e-9 * np.max(np.abs(forms[:k])):
				return None  # rounding decides whether the mean still moves
			if np.isnan(m) or abs(m - p["S"]) < 1e-6 * (1 + m):
				return None
			if m > p["S"]:
				return k
		elif name in ("confidence", "default"):
			if name == "default" and k >= 200:
				return k
			conf, atol, rtol = (0.95, 1.0, 0.0) if name == "default" else (p["conf"], p["atol"], p["rtol"])
			if k >= 3:
				mu, se = np.mean(forms[:k]), np.std(forms[:k], ddof=1) / np.sqrt(k)
				moe, rel = t_or_z(conf, k) * se, (abs(se / mu) if mu != 0 else np.inf)
				scale = np.max(np.abs(forms[:k]))
				if abs(moe - atol) < 1e-9 * (1 + scale) or (rtol > 0 and abs(rel - rtol) < 1e-9) or se < 1e-9 * scale or abs(mu) < 1e-9 * scale:
					return None
				if moe <= atol or (rtol > 0 and rel <= rtol):
					return k
		k += batch
		if k > len(forms):
			return -1


def run(p, obs):
	from primate.diagonal import diag
	from primate.estimators import (
		ConfidenceCriterion,
		ConvergenceCriterion,
		CountCriterion,
		KneeCriterion,
		ToleranceCriterion,
	)
	from primate.trace import hutch, xtrace

	n, kind = p["n"], p["est"].split("_")[0]
	if p["zeroed"] and p["crit"] == "named":  # a tolerance of exactly zero switches that half of the criterion off
		p = {**p, p["zeroed"]: 0.0}
		obs.count("zero_tolerances")
	A = sym(p["kind"], n, p["mseed"]) + (0.5 * np.eye(n) if kind == "xtrace" else 0)
	shift = p["shift"] if kind == "hutch" else 0.0  # a large trace with a small relative spread
	A = A + shift * np.eye(n)
	events = []

	class Pdf(SpyPdf):
		def __call__(self, size=None, *a, **kw):
			out = super().__call__(size)
			events.append(("draw", out.shape[1], len(self.cols)))
			return out

	class Log(ConvergenceCriterion):
		def __init__(self, inner):
			self.inner = inner

		def __call__(self, est):
			r = self.inner(est)
			events.append(("eval", len(est), bool(r)))
			return r

		def message(self, est):
			return "logged"

	class Scripted(ConvergenceCriterion):
		def __init__(self, k):
			self.left = k

		def __call__(self, est):
			self.left -= 1
			return self.left < 0

		def message(self, est):
			return f"scripted {self.left}"

	crit = p["crit"]
	if kind == "diag" and (crit in ("confidence", "default", "knee") or (crit == "named" and p["name"] not in ("count", "tolerance"))):
		crit = "tolerance"  # the vector estimator keeps no covariance
	if crit == "knee" and kind == "xtrace":
		crit = "count"
	# any base criterion, and anything composed of it, is cut by a count so that a run is finite whatever the data are
	cap = CountCriterion(400)
	tol_c = lambda: ToleranceCriterion(atol=p["atol"] * 1e-2, rtol=p["rtol"])
	conf_c = lambda: ConfidenceCriterion(confidence=p["conf"], atol=p["atol"], rtol=p["rtol"])
	kw, ref = {}, None
	if crit == "scripted":
		c = Scripted(p["fires"])
	elif crit == "count":
		c = CountCriterion(p["count"])
	elif crit == "tolerance":
		c = tol_c() | cap
	elif crit == "confidence":
		c = conf_c() | cap
	elif crit == "knee":
		c = KneeCriterion() | CountCriterion(150)
		kw["record"] = True
	elif crit == "composite":
		a, b = CountCriterion(p["count"]), (tol_c() if kind != "hutch" else conf_c())
		c = [a | b, (a & b) | cap, a | (b & CountCriterion(3)), ~(~a) , (a & CountCriterion(p["count"] // 2)) | cap, (~CountCriterion(1) & b) | a][p["expr"]]
	elif crit == "named":
		name = p["name"] if kind != "xtrace" else "count"
		c, ref = name, name
		kw.update({"count": {"count": p["count"]}, "tolerance": {"atol": p["atol"], "rtol": p["rtol"]}, "confidence": {"confidence": p["conf"], "atol": p["atol"], "rtol": p["rtol"]}, "knee": {"S": p["S"]}}[name])
		obs.count("named_knees", name == "knee")
	else:
		c, ref = "default", "default"
	c = Log(c) if not isinstance(c, str) else c
	def samples(V):
		if kind == "diag":
			return np.cumsum(V * (V @ A), axis=0) / np.cumsum(V * V, axis=0)
		return np.einsum("ij,jk,ik->i", V, A, V)

	pdf = Pdf(design("randsigns" if shift else "random", p["mseed"] ^ 77), 6000)
	try:
		if kind == "hutch":
			if p["est"] == "hutch_full":
				kw["full"] = True
			elif p["est"] == "hutch_cb":
				kw["callback"] = lambda r: None
			out = hutch(A, converge=c, pdf=pdf, batch=p["batch"], **kw)
		elif kind == "diag":
			kw.pop("record", None)
			out = diag(A, converge=c, pdf=pdf, full=p["est"] == "diag_full", **kw)
		else:
			out = xtrace(A, converge=c, pdf=pdf, batch=p["batch"], **kw)
	except Budget:
		if ref in ("tolerance", "confidence", "knee"):  # these may legitimately never be met within the budget
			V = np.array(pdf.cols)
			if stops(ref, p, samples(V), 1 if p["est"] == "hutch" or kind == "diag" else p["batch"]) in (None, -1):
				obs.count("unfinished_runs")
				return
		obs.fail("sampling went on long after the criterion was met", events=events[-6:])
		return
	drawn = len(pdf.cols)
	obs.count("draws", sum(e[0] == "draw" for e in events))
	obs.count("criterion_evaluations", sum(e[0] == "eval" for e in events))

	# online order: every draw follows a refusal issued on everything drawn so far; nothing is drawn after an acceptance
	if isinstance(c, Log):
		total, refused_at, accepted = 0, None, False
		for e in events:
			if e[0] == "eval":
				if e[1] != total:
					obs.fail("the criterion saw an estimator of the wrong length", seen=e[1], drawn=total)
					return
				accepted |= e[2]
				refused_at = None if e[2] else total
			else:
				if accepted:
					obs.fail("samples were drawn after the criterion was met", events=events[-6:])
					return
				if refused_at != total:
					obs.fail("a batch was drawn without asking the criterion first", events=events[-6:])
					return
				total = e[2]
				if kind == "hutch" and p["est"] != "hutch":
					obs.check(e[1] == p["batch"], "batch of the wrong size", got=e[1], want=p["batch"])
				if kind == "xtrace":
					obs.check(e[1] == min(p["batch"], n - (total - e[1])), "batch of the wrong size", got=e[1], want=p["batch"])
		obs.check(accepted or (kind == "xtrace" and drawn >= n), "sampling stopped although the criterion was not met", events=events[-6:])
		obs.count("runs_ending_in_true", int(accepted))
		obs.sig(p["est"], crit, p["batch"], drawn)
	if crit == "count" or (crit == "named" and ref == "count"):
		b = 1 if p["est"] == "hutch" or kind == "diag" else p["batch"]
		want = -(-p["count"] // b) * b
		want = min(want, n) if kind == "xtrace" else want
		obs.check(drawn == want, "wrong number of samples for a count criterion", got=drawn, want=want)
	if crit == "default" and kind == "xtrace":
		obs.check(drawn == n, "xtrace's default criterion is the operator's size", got=drawn, want=n)
	if ref and kind in ("hutch", "diag"):
		b = 1 if p["est"] == "hutch" or kind == "diag" else p["batch"]
		want = stops(ref, p, samples(np.array(pdf.cols)), b)
		obs.count("named_criteria_replayed", int(ref != "default"))
		obs.count("default_rule_replayed", int(ref == "default"))
		if want is not None:
			obs.check(drawn == want, "stopped at the wrong sample", criterion=ref, got=drawn, want=want if want >= 0 else "later")
		obs.sig(p["est"], "replay", ref, p["batch"], drawn)
