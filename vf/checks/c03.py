"""What the estimators report about a run agrees with the run itself."""

import numpy as np

from ..core import Budget
from .c05 import leave_one_out
from ..gens import FORMATS, KINDS, Spy, SpyPdf, design, pick, size, sketched, sym, wrap

PROPERTY = "C03"
COUNTS = {"quick": 4000, "thorough": 120000}
REQUIRED = ["callbacks", "results", "values_recorded", "mode_pairs", "batch_pairs", "hutchpp_results", "empty_operators", "long_runs", "running_estimates"]
RULE = (
	"hutch / xtrace / diag / hutchpp in every reporting mode (plain, full, callback, record) on random operators; every "
	"callback event and the final result are compared with the probes that were logged up to that event, and runs that "
	"differ only in the reporting mode or in the batch size are compared; keyed by (estimator, mode, batch, samples)"
)
ASSUMES = ["batch sizes are compared on sample counts that both divide"]


def gen(rng, i, tier):
	return {
		"est": pick(rng, ["hutch", "hutch", "xtrace", "diag", "hutchpp", "empty"]),
		"kind": pick(rng, [k for k in KINDS if k not in ("lowrank", "rank1", "sparse", "blocks", "integer")]),
		"n": size(rng, 2, 48),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"batch": int(pick(rng, [1, 2, 3, 4, 5, 8, 16, 32, 48, 70])),
		"rounds": int(rng.integers(1, 9)) if rng.random() < 0.99 else int(rng.integers(20, 200)),
		"fmt": pick(rng, FORMATS),
		"spdf": bool(rng.random() < 0.5),
		"name": pick(rng, ["rademacher", "normal", "sphere"]),
		"record": bool(rng.random() < 0.5),
	}


def run(p, obs):
	from primate.diagonal import diag
	from primate.estimators import CountCriterion, Estimator
	from primate.trace import hutch, hutchpp, xtrace

	n, e, b = p["n"], p["est"], p["batch"]
	if e == "empty":
		Z = np.zeros((0, 0))
		for f in (hutch, hutchpp, diag):
			obs.check(f(Z) == 0.0, "empty operator", fun=f.__name__)
			r = f(Z, full=True)
			obs.check(isinstance(r, tuple) and len(r) == 2 and r[0] == 0.0 and r[1].estimate == 0.0, "empty operator, full result", fun=f.__name__)
		obs.count("empty_operators")
		return
	A = sym(p["kind"], n, p["mseed"])
	if e in ("xtrace", "hutchpp"):
		A = A @ A.T + 0.1 * np.eye(n)
	sc = 1e-12 * n * n * (1 + np.max(np.abs(A)))
	new_pdf = lambda: SpyPdf(design("random", p["seed"]), 8000) if p["spdf"] else p["name"]
	if e == "hutchpp":
		m = min(int(p["rounds"]), 12)
		for mode in ("reduced", "full"):
			kw = {"m": m, "mode": mode, "seed": p["seed"]}
			pdf = new_pdf()
			est, res = hutchpp(wrap(A, p["fmt"]), full=True, pdf=pdf, **kw)
			plain = hutchpp(wrap(A, p["fmt"]), pdf=new_pdf(), **kw)
			obs.close(est, plain, sc, "full=True changes the estimate")
			obs.close(res.estimate, est, 0.0, "result.estimate differs from the returned estimate")
			obs.check(res.nit >= 2 * m and res.nit <= 2 * (m + 2), "result.nit is not the number of sampled vectors", nit=res.nit, m=m)
			if p["spdf"]:
				obs.check(res.nit == len(pdf.cols), "result.nit is not the number of sampled vectors", nit=res.nit, sampled=len(pdf.cols))
			obs.count("hutchpp_results")
		obs.sig(e, p["kind"], m, n, p["fmt"])
		return

	if p["rounds"] > 10 and e != "diag":
		b = min(b, 8)
		obs.count("long_runs")
	count = b * p["rounds"]
	if e == "xtrace":
		count = min(count, n)
	if e == "diag":
		b, count = 1, p["rounds"]
	spies = []

	def opA():
		if e != "xtrace":
			return wrap(A, p["fmt"])
		spies.append(Spy(A))
		return spies[-1]

	fn = {"hutch": hutch, "xtrace": xtrace, "diag": diag}[e]

	def call(batch=b, **kw):
		if e != "diag":
			kw["batch"] = batch
		pdf = new_pdf()
		return fn(opA(), converge="count", count=count, seed=p["seed"], pdf=pdf, **kw), pdf

	snaps = []

	def cb(r):
		snaps.append((np.array(r.estimate, dtype=float), r.nit, len(r.estimator), np.array(r.estimator.estimate, dtype=float), r.criterion is not None, type(r).__name__))
		if len(snaps) > 3000:
			raise Budget("callback called without end")

	kw = {"record": True} if p["record"] else {}
	try:
		(est, res), pdf = call(full=True, callback=cb, **kw)
		(est2, res2), _ = call(full=True)
		plain, _ = call()
		out_cb, _ = call(callback=lambda r: None)
	except np.linalg.LinAlgError:
		obs.count("singular_sketches")
		return
	est_cb = out_cb[0] if isinstance(out_cb, tuple) else out_cb

	# the final result
	obs.count("results")
	obs.close(res.estimate, est, 0.0, "result.estimate differs from the returned estimate")
	obs.close(res.estimator.estimate, est, 0.0, "result.estimator.estimate differs from the returned estimate")
	obs.check(isinstance(res.estimator, Estimator), "result.estimator is not an estimator")
	obs.check(res.nit == len(res.estimator) == count, "result.nit is not the number of samples", nit=res.nit, length=len(res.estimator), count=count)
	obs.check(bool(res.criterion(res.estimator)), "the reported criterion does not hold of the reported estimator")
	obs.check(isinstance(res.message, str) and len(res.message) > 0, "empty message", message=res.message)
	obs.check(res.message == res.criterion.message(res.estimator), "message does not describe the final estimator", message=res.message)
	if e != "xtrace":
		obs.check(f"#S:{count}" in res.message, "message reports another number of samples", message=res.message)
	fields = list(res)
	obs.check(len(fields) >= 5 and any(f is res.estimator for f in fields), "result does not unpack to its fields")
	# the callbacks
	want = -(-count // b)
	obs.count("callbacks", len(snaps))
	obs.check(len(snaps) == want, "callback not called once per batch", calls=len(snaps), batches=want)
	V = np.array(pdf.cols).reshape(-1, n) if p["spdf"] else None
	for j, (x, nit, ln, ex, crit, _) in enumerate(snaps):
		k = min((j + 1) * b, count)
		obs.check(nit == ln == k, "callback saw the wrong number of samples", nit=nit, length=ln, want=k)
		obs.close(x, ex, 0.0, "callback saw a stale estimate")
		obs.check(crit, "callback saw no criterion")
		if V is not None and e == "hutch":
			obs.close(x, np.mean(np.einsum("ij,jk,ik->i", V[:k], A, V[:k])), sc, "running estimate is not that of the samples so far", batch=j)
		if V is not None and e == "diag" and np.abs(np.cumsum(V * V, axis=0)[0]).min() > 1e-6:
			obs.close(x, np.mean((np.cumsum(V * (V @ A), axis=0) / np.cumsum(V * V, axis=0))[:k], axis=0), 1e6 * sc, "running estimate is not that of the samples so far", batch=j)
			obs.count("running_estimates")
		if V is not None and e == "xtrace" and _cond(A, V[:k].T) < 1e6:
			want_k, least = leave_one_out(A, V[:k].T, False)
			obs.close(x, np.mean(want_k), 1e-11 * n * _cond(A, V[:k].T) * (np.linalg.norm(A, 2) + np.abs(want_k).max()), "running estimate is not that of the samples so far", batch=j)
			obs.count("running_estimates")
	if snaps:
		obs.close(snaps[-1][0], est, 0.0, "last callback does not show the final estimate")
	# reporting mode and batch size do not change what is estimated
	obs.count("mode_pairs", 3)
	if e == "xtrace" and not _cond(A, sketched(spies[0].probes, b, n)) < 1e9:
		obs.count("singular_sketches")
		return
	tol = sc if e != "xtrace" else 1e-6 * n * np.max(np.abs(A)) * max(1.0, 1e-8 * _cond(A, sketched(spies[0].probes, b, n)))
	for other, what in ((est2, "full without callback"), (plain, "plain"), (est_cb, "callback only")):
		obs.close(other, est, tol, f"reporting mode changes the estimate: {what}")
	if e != "diag":
		for b2 in (1, 2, 4, b * 3):
			if b2 != b and (count % b2 == 0 or e == "xtrace"):
				try:
					(e3, r3), _ = call(batch=b2, full=True)
				except np.linalg.LinAlgError:
					continue
				obs.count("batch_pairs")
				if r3.nit == count:
					obs.close(e3, est, tol * 10, "the batch size changes the estimate", batches=(b, b2))
				elif e == "hutch":
					obs.fail("wrong number of samples", nit=r3.nit, count=count)
	# recording
	if p["record"]:
		vals = res.estimator.values
		obs.check(vals is not None and len(vals) == count, "recorded values do not match the samples", n=None if vals is None else len(vals))
		if vals is not None and len(vals) == count:
			obs.count("values_recorded", len(vals))
			m = np.mean(np.array([np.ravel(v) for v in vals]), axis=0)
			obs.close(np.ravel(m), np.ravel(est), sc if e != "xtrace" else tol, "the estimate is not the mean of the recorded values")
	else:
		obs.check(res.estimator.values is None, "values recorded although not asked for")
	obs.sig(e, b, count, p["record"], p["fmt"], p["spdf"])


def _cond(A, W):
	return np.linalg.cond(A @ W) if W.size and np.all(np.isfinite(W)) else np.inf
