"""Criteria combined with &, | and ~ decide as the Boolean combination of their parts."""

import numpy as np

from ..gens import SpyPdf, design, pick, size, sym
from .c20 import history, same, state

PROPERTY = "C21"
COUNTS = {"quick": 6000, "thorough": 120000}
REQUIRED = ["trees", "evaluations", "true", "false", "operand_rechecks", "shared_subtrees", "user_criteria", "full_runs", "deep_trees", "truthy_leaves", "diag_runs", "xtrace_runs"]
RULE = (
	"random trees of up to 5 levels over count, tolerance, confidence, knee and user-written criteria (with shared subtrees and "
	"reuse of the operands), evaluated after every batch of random histories against the truth table of the leaves; one case in "
	"eight runs hutch, diag or xtrace with the tree and compares the stopping point; keyed by (shape, n, decisions)"
)
ASSUMES = ["leaf criteria are judged by C20 and C22; here their own answers are the truth values"]


def gen(rng, i, tier):
	return {
		"run": bool(i % 8 == 0),
		"depth": int(rng.integers(1, 6)),
		"n": size(rng, 1, 50, 300),
		"hist": pick(rng, ["normal", "decay", "constant", "knee", "late", "shift"]),
		"cov": True,
		"batch": int(pick(rng, [1, 1, 2, 3, 7])),
		"seed": int(rng.integers(1 << 30)),
	}


def leaves(r, obs):
	from primate.estimators import ConfidenceCriterion, ConvergenceCriterion, CountCriterion, KneeCriterion, ToleranceCriterion

	class Mine(ConvergenceCriterion):
		def __init__(self, m):
			self.m = m

		def __call__(self, est):
			return len(est) % self.m == 0

	def truthy(m, typ):
		return ConvergenceCriterion(lambda est: typ(len(est) // m % 2))

	k = int(r.integers(1, 30))
	makers = [
		lambda: CountCriterion(k),
		lambda: CountCriterion(int(r.integers(0, 60))),
		lambda: ToleranceCriterion(rtol=float(10 ** r.uniform(-4, 0)), atol=float(10 ** r.uniform(-6, 0))),
		lambda: ConfidenceCriterion(float(r.uniform(0.5, 0.99)), atol=float(10 ** r.uniform(-3, 1)), rtol=float(10 ** r.uniform(-3, 0))),
		lambda: KneeCriterion(float(np.exp(r.uniform(-2, 2)))),
		lambda: ConvergenceCriterion(lambda est: len(est) % 3 == 1),
		lambda: Mine(int(r.integers(2, 6))),
		lambda: truthy(int(r.integers(1, 5)), [bool, np.bool_][int(r.integers(2))]),
	]
	out = []
	for _ in range(int(r.integers(2, 6))):
		j = int(r.integers(len(makers)))
		out.append(makers[j]())
		obs.count("user_criteria", j in (5, 6))
		obs.count("truthy_leaves", j == 7)
	return out


def tree(L, depth, r, pool, obs):
	"""(criterion, expression) with the expression a nested tuple over leaf numbers."""
	if pool and r.random() < 0.25:
		obs.count("shared_subtrees")
		return pool[int(r.integers(len(pool)))]
	if depth == 0 or r.random() < 0.1:
		j = int(r.integers(len(L)))
		return L[j], j
	op = "&|~"[int(r.integers(3))]
	a, ea = tree(L, depth - 1, r, pool, obs)
	if op == "~":
		t = (~a, ("~", ea))
	else:
		b, eb = tree(L, depth - 1, r, pool, obs)
		t = (a & b, ("&", ea, eb)) if op == "&" else (a | b, ("|", ea, eb))
	pool.append(t)
	return t


def value(e, bits):
	if not isinstance(e, tuple):
		return bits[e]
	if e[0] == "~":
		return not value(e[1], bits)
	a, b = value(e[1], bits), value(e[2], bits)
	return (a and b) if e[0] == "&" else (a or b)


def run(p, obs):
	from primate.estimators import ConvergenceCriterion, CountCriterion, MeanEstimator

	r = np.random.default_rng(p["seed"])
	L = leaves(r, obs)
	pool = []
	t, expr = tree(L, p["depth"], r, pool, obs)
	obs.check(isinstance(t, ConvergenceCriterion), "a combination is not a criterion")
	obs.count("trees")
	obs.count("deep_trees", p["depth"] >= 4)
	if p["run"]:
		return (other_run if p["seed"] % 3 == 0 else hutch_run)(p, obs, L, t, expr, r)
	e = MeanEstimator(dim=1, covariance=True, record=True)
	X = history(p["hist"], p["n"], 1, r)
	seen = []
	extra = []
	for at in range(0, p["n"], p["batch"]):
		e.update(X[at : at + p["batch"]])
		before = state(e)
		bits = [bool(c(e)) for c in L]
		for c, x in [(t, expr)] + pool[-6:] + extra:
			got, want = c(e), bool(value(x, bits))
			obs.check(isinstance(got, (bool, np.bool_)) and bool(got) == want, "a combined criterion differs from the Boolean combination", expr=x, leaves=bits, types=[type(c).__name__ for c in L], got=repr(got), want=want)
			obs.count("evaluations")
			obs.count("true" if want else "false")
		seen.append(bool(t(e)))
		if r.random() < 0.2:  # combine once more, while the operands are in use
			j = int(r.integers(len(L)))
			extra = [(t & L[j], ("&", expr, j)), (L[j] | t, ("|", j, expr)), (~t, ("~", expr)), (~(~t), expr)]
		obs.check([bool(c(e)) for c in L] == bits, "combining or asking changed the answer of an operand")
		obs.count("operand_rechecks", len(L))
		obs.check(isinstance(t.message(e), str), "no message")
		obs.check(same(before, state(e)), "asking a criterion modified the estimator")
	obs.sig(repr(expr)[:200], p["n"], tuple(seen))


def hutch_run(p, obs, L, t, expr, r):
	"""hutch stops at the first batch at which the combination holds."""
	from primate.estimators import ConvergenceCriterion, CountCriterion
	from primate.trace import hutch

	n = 4 + p["n"] % 12
	A = sym("psd", n, p["seed"])
	draw = design("random", p["seed"])
	trace = []
	cap = 60

	def note(est):
		trace.append((len(est), [bool(c(est)) for c in L]))
		return len(est) >= cap

	cc = (t | ConvergenceCriterion(note)) if r.random() < 0.5 else (ConvergenceCriterion(note) | t)
	pdf = SpyPdf(draw, 400)
	est, res = hutch(A, batch=p["batch"], pdf=pdf, converge=cc, full=True, record=True)
	obs.check(len(trace) > 0 or value(expr, [True] * len(L)) is not None, "never asked")
	stops = [bool(value(expr, b)) or k >= cap for k, b in trace]
	if trace:
		# the recorder may be short-circuited on the stopping query, but every query before it must have failed
		obs.check(not any(stops[:-1]), "hutch continued although the combined criterion held", trace=trace[-4:], expr=expr)
	final = [bool(c(res.estimator)) for c in L]
	obs.check(bool(value(expr, final)) or len(res.estimator) >= cap, "hutch stopped although the combined criterion did not hold", leaves=final, expr=expr, n=len(res.estimator))
	obs.check(len(pdf.cols) == len(res.estimator), "samples after the stop", drawn=len(pdf.cols), n=len(res.estimator))
	obs.count("full_runs")
	obs.sig("hutch", repr(expr)[:200], len(res.estimator))


def other_run(p, obs, L, t, expr, r):
	"""diag and xtrace, too, stop at the first batch at which the combination holds (xtrace with n samples at the latest)."""
	from primate.diagonal import diag
	from primate.estimators import ConvergenceCriterion
	from primate.trace import xtrace

	n, which = 5 + p["n"] % 14, ["diag", "xtrace"][p["seed"] // 3 % 2]
	A = sym("psd", n, p["seed"]) + np.eye(n)
	cap = 40 if which == "diag" else n
	if which == "diag":  # no covariance there
		L = [c for c in L if type(c).__name__ not in ("ConfidenceCriterion", "KneeCriterion")]
		if not L:
			return
		t, expr = tree(L, p["depth"], r, [], obs)
	asked = []

	def note(est):
		asked.append((len(est), [bool(c(est)) for c in L]))
		return len(est) >= cap

	pdf = SpyPdf(design("random", p["seed"]), 400)
	kw = {"batch": p["batch"]} if which == "xtrace" else {}
	_, res = (diag if which == "diag" else xtrace)(A, pdf=pdf, converge=ConvergenceCriterion(note) | t, full=True, record=True, **kw)
	holds = [bool(value(expr, b)) or k >= cap for k, b in asked]
	obs.check(not any(holds[:-1]), "the estimator continued although the combined criterion held", estimator=which, asked=asked[-4:], expr=expr)
	k = len(res.estimator)
	final = [bool(c(res.estimator)) for c in L]
	obs.check(k >= cap or bool(value(expr, final)), "the estimator stopped although the combined criterion did not hold", estimator=which, n=k, leaves=final, expr=expr)
	obs.check(len(pdf.cols) == k, "samples after the stop", estimator=which, drawn=len(pdf.cols), n=k)
	obs.count(which + "_runs")
	obs.sig(which, repr(expr)[:200], k)
