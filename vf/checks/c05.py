"""xtrace computes the exchangeable leave-one-out estimate of the vectors it sampled."""

import numpy as np

from ..gens import FORMATS, KINDS, Spy, SpyPdf, design, general, magnitude, pick, scaled, size, sketched, sym, wrap

PROPERTY = "C05"
COUNTS = {"quick": 6000, "thorough": 120000}
REQUIRED = ["reference_comparisons", "exact_at_full_size", "values_compared", "applications", "batches_inserted"]
RULE = (
	"random operators (spectra x formats x float32/64, n = 2..40), sampler (sphere / rademacher / normal by name, or a "
	"callable), sample count 1..n, batch 1..32; the logged vectors give every leave-one-out estimate by a fresh QR of the "
	"other m - 1 sketch columns; keyed by (route, kind, n, m, batch, sampler)"
)
ASSUMES = ["sketches with condition number above 1e6 (float64) are not compared; numerically singular ones may raise LinAlgError"]


def gen(rng, i, tier):
	n = size(rng, 2, 40)
	return {
		"route": pick(rng, ["named", "named", "callable", "full", "batches", "general"]),
		"kind": pick(rng, KINDS),
		"n": n,
		"m": int(rng.integers(1, n + 1)),
		"mag": magnitude(rng),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"fmt": pick(rng, FORMATS),
		"dtype": pick(rng, ["f8", "f8", "f8", "f4"]),
		"batch": int(pick(rng, [1, 2, 3, 4, 5, 7, 8, 16, 32, 40, 64])),
		"batch2": int(pick(rng, [1, 2, 3, 4, 5, 7, 8, 16, 32, 40, 64])),
		"pdf": pick(rng, ["sphere", "sphere", "rademacher", "normal"]),
	}


def leave_one_out(A, W, sphere):
	n, m = W.shape
	Y = A @ W
	out, least = np.zeros(m), n
	for i in range(m):
		Q = np.linalg.qr(np.delete(Y, i, axis=1))[0] if m > 1 else np.zeros((n, 0))
		w = W[:, i] - Q @ (Q.T @ W[:, i])
		scale = (n - m + 1) / (w @ w) if sphere else 1.0
		# the residual form applies the operator between the two projections
		out[i] = np.trace(Q.T @ A @ Q) + scale * (w @ (A @ w))
		least = min(least, w @ w)
	return out, least


def run(p, obs):
	from primate.trace import xtrace

	n, f4, r = p["n"], p["dtype"] == "f4", p["route"]
	A = general(n, p["mseed"]) if r == "general" else sym(p["kind"], n, p["mseed"])
	A = scaled(A, p["mag"], f4).astype(p["dtype"])
	Ad = A.astype(float)
	norm = np.linalg.norm(Ad, 2)
	m = n if r == "full" else p["m"]
	kw = {"batch": p["batch"], "seed": p["seed"], "full": True, "record": True}
	if r != "full":
		kw |= {"converge": "count", "count": m}
	spy, pdf, sphere = None, None, p["pdf"] == "sphere"
	if r in ("callable", "batches"):
		pdf, sphere = SpyPdf(design("random", p["seed"]), 10 * n + 200), False
		op = wrap(A, p["fmt"])
		if p["seed"] % 2:
			op = spy = Spy(A, zeros=True)
	else:
		op = spy = Spy(A, zeros=True)
	singular = None
	try:
		est, res = xtrace(op, pdf=pdf or p["pdf"], **kw)
	except (np.linalg.LinAlgError, ZeroDivisionError, ValueError) as ex:
		singular = ex
	# which vectors were sampled: handed out by the sampler, or the first half of every batch the operator saw
	if pdf is not None:
		W = np.array(pdf.cols).T
		seq = []
	else:
		W = sketched(spy.probes, p["batch"], n)
	if W.size and np.all(np.isfinite(W)):
		sv = np.linalg.svd(Ad @ W, compute_uv=False)
		cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
	else:
		cond = np.inf
	if singular is not None:
		obs.check(cond > 1e9, "raised although the sketch has full rank", error=repr(singular), cond=cond, n=n, m=m)
		obs.count("singular_sketches")
		return
	if not np.isfinite(est):
		obs.check(cond > 1e9, "no estimate although the sketch has full rank", est=est, cond=cond)
		obs.count("singular_sketches")
		return
	if pdf is None and np.linalg.cond(Ad) > 1e9:
		obs.count("ill_conditioned")
		return
	m_eff = min(-(-m // p["batch"]) * p["batch"], n)
	if not obs.check(W.shape[1] == m_eff, "wrong number of sampled vectors", got=W.shape[1], want=m_eff):
		return
	if spy is not None:
		obs.count("applications", spy.n_applied)
		obs.check(spy.n_applied <= 2 * m_eff, "more than two products per sampled vector", used=spy.n_applied, m=m_eff)
	if pdf is None:
		if p["pdf"] == "sphere":
			obs.close(np.sum(W**2, axis=0) / n, np.ones(m_eff), 1e-9, "sampled vectors are not on the sphere")
		elif p["pdf"] == "rademacher":
			obs.check(np.all(np.abs(W) == 1), "sampled vectors are not signs")
		else:
			obs.check(not np.all(np.abs(W) == 1), "sampled vectors are not normal")
	obs.count("batches_inserted", -(-m_eff // p["batch"]))
	if cond > (1e3 if f4 else 1e6):
		obs.count("ill_conditioned")
		return
	want, least = leave_one_out(Ad, W, sphere)
	tol = (1e-5 if f4 else 4e-12) * cond * n * norm * (1 + np.max(np.abs(want)) / norm) * (n / least if sphere else 1.0)
	obs.count("reference_comparisons")
	obs.close(est, np.mean(want), tol, "estimate is not the mean of the leave-one-out estimates", n=n, m=m_eff, sphere=sphere)
	vals = res.estimator.values
	if obs.check(vals is not None and len(vals) == m_eff, "leave-one-out estimates not recorded"):
		obs.count("values_compared", m_eff)
		obs.close(np.ravel(np.array(vals)), want, tol, "a recorded value is not its leave-one-out estimate", n=n, m=m_eff, sphere=sphere)
	if m_eff == n and sphere:
		obs.count("exact_at_full_size")
		obs.close(est, np.trace(Ad), tol, "not exact when the sketch spans the whole space", n=n)
	if r == "batches":
		pdf2 = SpyPdf(design("random", p["seed"]), 10 * n + 200)
		try:
			est2, res2 = xtrace(wrap(A, p["fmt"]), pdf=pdf2, **{**kw, "batch": p["batch2"]})
		except np.linalg.LinAlgError:  # a longer last batch may leave the range of the operator
			return
		if res2.nit == res.nit:
			obs.close(est2, est, tol, "the batch size changes the estimate", batches=(p["batch"], p["batch2"]))
	obs.sig(r, p["kind"], n, m_eff, p["batch"], p["pdf"] if pdf is None else "callable", p["fmt"] if spy is None else "spy")


def _low_rank_raises():
	from primate.trace import xtrace

	A = np.diag([1.0, 2.0, 0, 0, 0, 0, 0, 0])
	try:
		return not np.isclose(xtrace(A, batch=4, seed=1), 3.0)
	except np.linalg.LinAlgError:
		return True


def _size_one_raises():
	from primate.trace import xtrace

	try:
		return not np.isclose(xtrace(np.array([[2.0]]), seed=1), 2.0)
	except (IndexError, ValueError, np.linalg.LinAlgError):
		return True


PROBES = {"rank-deficient-sketch": _low_rank_raises, "size-one": _size_one_raises}
