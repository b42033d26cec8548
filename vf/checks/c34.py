"""Repeated estimates are centred on the exact trace or diagonal, with the spread the theory gives."""

import numpy as np
from scipy import stats

from ..gens import pick, size, wrap

PROPERTY = "C34"
COUNTS = {"quick": 1400, "thorough": 9000}
REQUIRED = ["estimates", "hutch", "hutchpp", "xtrace", "diag", "xdiag", "mean_tests", "variance_tests", "sign_tests", "low_rank_exact", "matrix_functions", "coverage_tests"]
RULE = (
	"each case runs one estimator 60 to 400 times with different seeds on one random operator (a matrix in six "
	"representations, or a matrix function giving a log-determinant, rank, Schatten norm, eigencount, Estrada index, heat "
	"trace or triangle count) and compares mean, spread or sign balance of the results with the exact trace or diagonal; "
	"keyed by (estimator, distribution, operator, n, samples)"
)
ASSUMES = ["a deviation counts if it exceeds 5 standard errors and then 6.5 standard errors in six times as many fresh runs"]

FUNS = {
	"logdet": ("log", {}, np.log),
	"rank": ("numrank", {"threshold": 0.75}, lambda x: (np.abs(x) >= 0.75) * 1.0),
	"schatten": (lambda x: np.abs(x) ** 1.5, {}, lambda x: np.abs(x) ** 1.5),
	"eigencount": ("smoothstep", {"a": 0.4, "b": 0.6}, lambda x: (lambda y: 3 * y**2 - 2 * y**3)(np.clip((x - 0.4) / 0.2, 0, 1))),
	"estrada": ("exp", {}, np.exp),
	"heat": ("exp", {"t": -0.7}, lambda x: np.exp(-0.7 * x)),
	"cube": (lambda x: x**3 / 6, {}, lambda x: x**3 / 6),
	"inverse": ("inv", {}, lambda x: 1 / x),
	"root": ("sqrt", {}, np.sqrt),
}


def gen(rng, i, tier):
	return {
		"est": pick(rng, ["hutch", "hutch", "hutchpp", "hutchpp", "xtrace", "xtrace", "diag", "diag", "xdiag", "lowrank", "coverage"]),
		"pdf": pick(rng, ["rademacher", "normal", "sphere", "default"]),
		"n": size(rng, 6, 28),
		"f": pick(rng, ["plain", "plain", "plain"] + list(FUNS)),
		"spec": pick(rng, ["spd", "spd", "decay", "indef"]),
		"fmt": pick(rng, ["C", "F", "csr", "lo", "duck", "view"]),
		"c": int(pick(rng, [1, 2, 3, 5, 8, 13, 30, 64])),
		"m": int(rng.integers(1, 15)),
		"batch": int(pick(rng, [1, 2, 3, 5, 32])),
		"runs": int(pick(rng, [60, 120, 400] if tier == "quick" else [120, 400, 1500])),
		"full": bool(rng.random() < 0.5),
		"shared": bool(rng.random() < 0.3),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
	}


def matrix(p):
	n, r = p["n"], np.random.default_rng([34, p["mseed"]])
	Q = np.linalg.qr(r.normal(size=(n, n)))[0]
	if p["spec"] == "decay":
		lam = 3 * 0.8 ** np.arange(n) + 0.05
	else:
		lam = r.uniform(0.3, 2.5, size=n)
	if p["spec"] == "indef" and p["f"] in ("plain", "rank", "schatten", "estrada", "heat", "cube"):
		lam = lam * r.choice([-1, 1], size=n)
	if p["f"] == "rank":
		lam = np.where(np.abs(np.abs(lam) - 0.75) < 0.05, 1.0, lam)
	A = (Q * lam) @ Q.T
	A = (A + A.T) / 2
	if p["f"] == "plain":
		return A, A, wrap(A, p["fmt"])
	from primate.operators import MatrixFunction

	fun, kw, g = FUNS[p["f"]]
	lam, Q = np.linalg.eigh(A)
	F = (Q * g(lam)) @ Q.T
	return A, (F + F.T) / 2, MatrixFunction(wrap(A, p["fmt"]), fun=fun, deg=n, orth=-1, **kw)


def spread(F, pdf):
	"""Variance of v' F v."""
	n, s, t = len(F), np.sum(F**2), np.trace(F)
	if pdf == "rademacher":
		return 2 * (s - np.sum(np.diag(F) ** 2))
	return 2 * s if pdf == "normal" else max(2 * n * s - 2 * t**2, 0.0) / (n + 2)


def run(p, obs):
	from primate.diagonal import diag, xdiag
	from primate.trace import hutch, hutchpp, xtrace

	est, R = p["est"], p["runs"]
	if est in ("xtrace", "xdiag") and p["pdf"] == "rademacher":  # repeated sign vectors are a matter of C05 and C07
		p = {**p, "n": max(p["n"], 13)}
	n = p["n"]
	if p["f"] != "plain":
		R = min(R, 60)
		p = {**p, "c": min(p["c"], 8), "n": min(n, 14)}  # costly products
		n = p["n"]
	elif est in ("xtrace", "diag"):
		R = min(R, 120)
	A, F, op = matrix(p)
	rank = int(np.sum(np.abs(np.linalg.eigvalsh(F)) > 1e-5 * np.abs(F).max()))
	if est in ("xtrace", "xdiag") and rank < 4:  # sketches without full column rank are a matter of C05 and C07
		est = "hutchpp"
	name = {"diag": "rademacher", "hutch": "rademacher", "hutchpp": "rademacher", "coverage": "rademacher"}.get(est, "sphere") if p["pdf"] == "default" else p["pdf"]
	kw = {} if p["pdf"] == "default" else {"pdf": name}
	w = {"est": est, "pdf": name, "f": p["f"], "n": n}
	rng = np.random.default_rng([1, p["seed"]])
	seeds = iter(range(p["seed"], p["seed"] + (1 << 30)))
	seed = (lambda: rng) if p["shared"] else (lambda: next(seeds))
	val = lambda out: out[0] if isinstance(out, tuple) else out
	c, tr = p["c"], np.trace(F)
	scale = np.abs(np.linalg.eigvalsh(F)).sum()
	obs.count("matrix_functions", p["f"] != "plain")

	if est == "lowrank":
		m = 3 * (1 + p["m"] % 4)
		k = int(1 + p["seed"] % min(m, n))
		U = np.linalg.qr(np.random.default_rng(p["mseed"]).normal(size=(n, k)))[0]
		B = (U * np.linspace(1, 2, k)) @ U.T
		B = (B + B.T) / 2
		# signs may repeat a vector up to sign, so that they do not see the whole range
		kw = {"pdf": "normal" if name == "rademacher" else name}
		for _ in range(8):
			obs.close(hutchpp(wrap(B, p["fmt"]), m=m, seed=seed(), mode="full" if p["full"] else "reduced", **kw), np.trace(B), 1e-6 * k, "hutchpp is not exact on an operator of rank at most m", rank=k, m=m, **w)
		obs.count("low_rank_exact", 8)
		obs.count("hutchpp", 8)
		obs.sig(est, n, k, m, p["fmt"])
		return

	if est == "coverage":
		v = spread(A, name)
		z = stats.norm.ppf(0.975)
		atol = z * np.sqrt(v / 60)
		if v < 1e-6 * scale**2:
			return
		A_ = wrap(A, p["fmt"])
		conf = [0.8, 0.95][p["seed"] % 2]
		once = lambda: abs(val(hutch(A_, converge="confidence", confidence=conf, atol=atol, rtol=0.0, batch=p["batch"], full=p["full"], seed=seed(), **kw)) - np.trace(A)) <= atol
		hits = sum(once() for _ in range(120))
		obs.count("estimates", 120)
		obs.count("coverage_tests")
		if hits < 120 * (conf - 0.1) - 5 * np.sqrt(120 * 0.16):  # stopping at will costs a little coverage
			hits = sum(once() for _ in range(480)) / 480
			obs.check(hits >= conf - 0.1 - 4 * np.sqrt(0.16 / 480), "stops within the requested confidence too rarely", share=hits, confidence=conf, **w)
		obs.sig(est, name, n, conf)
		return

	if est == "hutch":
		once = lambda: val(hutch(op, converge="count", count=c, batch=p["batch"], full=p["full"], seed=seed(), **kw))
		used = -(-c // p["batch"]) * p["batch"] if p["full"] else c
		theory = spread(F, name) / used
	elif est == "hutchpp":
		once = lambda: val(hutchpp(op, m=min(p["m"], n), mode=["reduced", "full"][p["seed"] % 2] if p["f"] == "plain" else "reduced", full=p["full"], seed=seed(), **kw))
		theory = None
	elif est == "xtrace":
		m = int(np.clip(p["m"], 2, min(n, rank) // 2))
		once = lambda: val(xtrace(op, batch=min(p["batch"], m), converge="count", count=m, full=p["full"], seed=seed(), **kw))
		theory = None
	elif est == "diag":
		once = lambda: val(diag(op, converge="count", count=c, full=p["full"], seed=seed(), **kw))
	elif est == "xdiag":
		m = int(np.clip(p["m"], 2, min(n, rank) // 2))
		once = lambda: xdiag(op if p["fmt"] != "duck" or p["f"] != "plain" else A, m=2 * m, seed=seed(), **kw)
	what = "diagonal" if "diag" in est else "trace"
	want = np.diag(F) if what == "diagonal" else np.array([tr])
	tiny = 1e-6 * (scale if what == "trace" else np.abs(F).max() * 10)

	def draw(R):
		X = np.empty((R, len(want)))
		for i in range(R):
			try:
				X[i] = once()
			except np.linalg.LinAlgError:  # repeated sign vectors: recorded under C05 and C07
				X[i] = np.nan
		X = X[np.isfinite(X).all(axis=1)]
		obs.count("estimates", len(X))
		obs.count(est, len(X))
		return X - want

	E = draw(R)
	if name == "rademacher" and est in ("xtrace", "xdiag"):  # near-singular sketches
		E = E[np.abs(E).max(axis=1) < 100 * scale]
	if not obs.check(len(E) >= 0.9 * R, "too many runs fail", failed=R - len(E), **w):
		return

	if est == "diag" and name != "rademacher":  # symmetric about the diagonal, without moments
		off = np.abs(F - np.diag(np.diag(F))).max(axis=1) > 1e-3 * np.abs(F).max()
		z = lambda E: (np.sign(E).sum(axis=0) / np.sqrt(len(E)))[off]
		obs.count("sign_tests", int(off.sum()))
		if off.any() and np.abs(z(E)).max() > 5:
			j = np.argmax(np.abs(z(E)))
			zz = z(draw(6 * R))[j]
			obs.check(abs(zz) <= 6.5, "estimates of the diagonal are not balanced around it", z=zz, coordinate=int(np.flatnonzero(off)[j]), **w)
		obs.sig(est, name, p["f"], n, c, p["fmt"])
		return
	if est == "diag":
		wts = np.array([np.sum(1.0 / np.arange(j, c + 1)) for j in range(1, c + 1)]) / c  # mean of the running means
		theory = (np.sum(F**2, axis=1) - np.diag(F) ** 2) * np.sum(wts**2)
	elif est == "xdiag":
		theory = None
	sd = lambda E: np.sqrt(theory * np.ones(len(want))) if theory is not None else E.std(axis=0, ddof=1)

	def ztest(E):
		s = np.maximum(sd(E), tiny)
		return E.mean(axis=0) / (s / np.sqrt(len(E)))

	obs.count("mean_tests", len(want))
	if np.abs(ztest(E)).max() > 5:
		j = np.argmax(np.abs(ztest(E)))
		E2 = draw(6 * R)
		obs.check(abs(ztest(E2)[j]) <= 6.5, f"the estimates are not centred on the {what}", z=ztest(E2)[j], bias=E2.mean(axis=0)[j], exact=want[j], **w)
	if theory is not None:
		th = np.atleast_1d(theory * np.ones(len(want)))
		k = th > tiny**2 * 1e2
		q = lambda E: (np.sum(E[:, k] ** 2, axis=0) / th[k] - len(E)) / np.sqrt(len(E) * (2 + 20 / c))
		obs.count("variance_tests", int(k.sum()))
		if k.any() and np.abs(q(E)).max() > 5.5:
			j = np.argmax(np.abs(q(E)))
			zz = q(draw(6 * R))[j]
			obs.check(abs(zz) <= 6.5, f"the spread of the estimates of the {what} is not that of the theory", z=zz, samples=c, **w)
		if not k.all():
			obs.close(E[:, ~k], np.zeros_like(E[:, ~k]), tiny * 30, "an estimate that has no variance is not exact", **w)
	obs.sig(est, name, p["f"], n, c, p["fmt"])
