"""diag returns the running ratio estimate of the diagonal from the vectors it sampled."""

import numpy as np

from ..gens import FORMATS, KINDS, Spy, SpyPdf, design, magnitude, pick, scaled, size, sym, wrap

PROPERTY = "C06"
COUNTS = {"quick": 10000, "thorough": 120000}
REQUIRED = ["reference_comparisons", "ratios_compared", "exact_full_designs", "exact_diagonals", "mode_pairs", "applications", "long_runs"]
RULE = (
	"random symmetric operators (13 spectra x 13 formats x float32/64, n = 1..64), sampler by name or callable, 1..4500 "
	"samples, plain/full/callback/record; the logged vectors give every running ratio sum(v*Av)/sum(v*v); keyed by "
	"(route, kind, n, samples, format, mode)"
)
ASSUMES = ["entries of probes are not so small that the first ratios overflow"]


def gen(rng, i, tier):
	n = size(rng, 1, 64)
	route = pick(rng, ["callable", "callable", "spy", "hadamard", "diagonal", "tolerance"])
	if route == "hadamard":
		n = int(2 ** rng.integers(0, 6))
	count = size(rng, 1, 400) if rng.random() < 0.15 else int(rng.integers(1, 40))
	if rng.random() < 0.006:  # a long run
		n, count, route = (4 if route == "hadamard" else size(rng, 1, 8)), int(rng.integers(400, 4500)), pick(rng, ["callable", "spy", "diagonal"])
	return {
		"route": route,
		"kind": "diag" if route == "diagonal" else pick(rng, KINDS),
		"n": n,
		"count": count,
		"mag": magnitude(rng),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"fmt": pick(rng, FORMATS),
		"dtype": pick(rng, ["f8", "f8", "f8", "f4"]),
		"pdf": pick(rng, ["rademacher", "normal", "sphere"]),
	}


def run(p, obs):
	from primate.diagonal import diag

	n, f4, r = p["n"], p["dtype"] == "f4", p["route"]
	A = scaled(sym(p["kind"], n, p["mseed"]), p["mag"], f4).astype(p["dtype"])
	Ad = A.astype(float)
	count = n if r == "hadamard" else p["count"]
	spy, mk = None, lambda: p["pdf"]
	if r in ("callable", "hadamard", "tolerance"):
		mk = lambda: SpyPdf(design("hadamard" if r == "hadamard" else "random", p["seed"]), 5000)
	op = wrap(A, p["fmt"])
	if r == "spy":
		op = spy = Spy(A)
	kw = {"seed": p["seed"], "converge": "count", "count": count}
	if r == "tolerance":
		kw = {"seed": p["seed"], "converge": "tolerance", "rtol": 0.3, "atol": 1e-2}
	pdf = mk()
	est, res = diag(op, pdf=pdf, full=True, record=True, **kw)
	V = spy.probes if spy is not None else np.array(pdf.cols) if isinstance(pdf, SpyPdf) else None
	obs.check(isinstance(est, np.ndarray) and est.shape == (n,) or n == 1, "estimate is not a vector", shape=np.shape(est))
	est = np.ravel(est)
	obs.count("long_runs", count > 1000)
	vals = res.estimator.values
	vals = np.array([np.ravel(v) for v in vals]).reshape(-1, n) if vals is not None else None
	scale = n * (1e-30 + np.max(np.abs(Ad)))
	if V is not None:
		if f4:
			V = V.astype("f4").astype(float)
		if spy is not None:
			obs.count("applications", spy.n_applied)
			obs.check(spy.n_applied == res.nit == count, "one product per sample", used=spy.n_applied, nit=res.nit, count=count)
		U = V @ Ad.T
		num, den = np.cumsum(U * V, axis=0), np.cumsum(V * V, axis=0)
		ratios = num / den
		blow = 1 + np.max(np.cumsum(np.abs(U * V), axis=0) / den) / scale
		tol = (1e-4 if f4 else 1e-12) * scale * blow * 10
		cesaro = np.mean(ratios, axis=0)
		obs.count("reference_comparisons")
		obs.close(est, cesaro, tol, "estimate is not the mean of the running ratios of its samples", last=ratios[-1])
		if obs.check(vals is not None and len(vals) == len(V), "running ratios not recorded"):
			obs.count("ratios_compared", len(vals))
			obs.close(vals, ratios, tol, "a recorded value is not the running ratio")
		if r == "hadamard":
			obs.count("exact_full_designs")
			obs.close(ratios[-1], np.diag(Ad), tol, "harness: design")
			obs.close(vals[-1], np.diag(Ad), tol, "not exact after a full orthogonal design")
	if r == "diagonal":
		obs.count("exact_diagonals")
		obs.close(est, np.diag(Ad), (1e-4 if f4 else 1e-12) * scale, "not exact on a diagonal operator")
	for kw2, what in (({}, "plain"), ({"callback": lambda x: None}, "callback"), ({"full": True}, "full"), ({"record": True}, "record")):
		out = diag(wrap(A, p["fmt"]), pdf=mk(), **kw, **kw2)
		out = out[0] if isinstance(out, tuple) else out
		obs.count("mode_pairs")
		big = np.max(np.abs(vals)) if vals is not None and len(vals) else scale
		obs.close(np.ravel(out), est, (1e-3 if f4 else 1e-11) * (scale + big), f"reporting mode changes the estimate: {what}")
	obs.sig(r, p["kind"], n, count, p["fmt"], p["dtype"])
