"""hutch returns the mean of the quadratic forms of the probes it applied."""

import numpy as np
from scipy.sparse.linalg import LinearOperator

from ..gens import FORMATS, KINDS, Spy, SpyPdf, design, magnitude, pick, scaled, size, sym, wrap

PROPERTY = "C01"
COUNTS = {"quick": 20000, "thorough": 200000}
REQUIRED = ["probes_seen", "exact_designs", "quad_calls", "recorded_values", "long_runs"]
RULE = (
	"random operator (13 spectra x 13 storage formats x float32/64, n = 1..120), sampler (library names or an enumerated "
	"design), batch, count and reporting mode; non-trivial: at least two probes were observed, keyed by (route, kind, "
	"format, sampler, dtype, batch, reporting mode)"
)
ASSUMES = ["floating-point sums are compared with tolerance 1e-13 n (float64) or 5e-6 n (float32) relative to the largest form of absolute values"]


class QuadOp(LinearOperator):
	"""An operator with its own quadratic form, recording what it was asked and what it answered."""

	def __init__(self, A, B):
		super().__init__(dtype=A.dtype, shape=A.shape)
		self.A, self.B, self.asked, self.answers = A, B, [], []

	def _matvec(self, x):
		return self.A @ x

	def quad(self, V):
		V = np.asarray(V).reshape(self.shape[0], -1)
		y = np.array([float(v @ self.B @ v) for v in V.T.astype(float)])
		self.asked.extend(np.array(V.T, dtype=float))
		self.answers.extend(y)
		return y


def gen(rng, i, tier):
	route = pick(rng, ["spy", "format", "format", "quad", "design", "design"])
	p = {
		"route": route,
		"kind": pick(rng, KINDS),
		"n": size(rng, 1, 120 if tier == "quick" else 300),
		"mag": magnitude(rng),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"fmt": pick(rng, FORMATS),
		"dtype": pick(rng, ["f8", "f8", "f8", "f4"]),
		"pdf": pick(rng, ["rademacher", "normal", "sphere", "signs", "gaussian"]),
		"batch": int(pick(rng, [1, 2, 3, 4, 7, 8, 16, 31, 32, 50, 64, 100, 200])),
		"count": size(rng, 60, 600) if rng.random() < 0.06 else int(rng.integers(1, 60)),
		"report": pick(rng, ["plain", "full", "record", "callback"]),
	}
	if route in ("spy", "format") and rng.random() < 0.006:  # a long run
		p["n"], p["count"] = size(rng, 1, 12), int(rng.integers(1000, 9000))
	if route == "design":
		d = pick(rng, ["axes", "hadamard", "signs"])
		p["design"] = d
		p["n"] = int({"axes": rng.integers(1, 40), "hadamard": 2 ** rng.integers(0, 6), "signs": rng.integers(1, 8)}[d])
	return p


def run(p, obs):
	from primate.trace import hutch

	n, f4 = p["n"], p["dtype"] == "f4"
	A = scaled(sym(p["kind"], n, p["mseed"]), p["mag"], f4).astype(p["dtype"])
	Ad = A.astype(float)
	kw = {"converge": "count", "count": p["count"], "batch": p["batch"], "seed": p["seed"], "pdf": p["pdf"]}
	seen = []
	if p["report"] != "plain":
		kw["full"] = p["report"] in ("full", "record")
	if p["report"] == "record":
		kw["record"] = True
	if p["report"] == "callback":
		kw["callback"] = lambda r: seen.append(len(r.estimator))
	spy = pdf = None
	if p["route"] == "spy":
		op = spy = Spy(A, budget=10 * (p["count"] + p["batch"]))
	elif p["route"] == "quad":
		B = sym("normal", n, p["mseed"] + 1)
		op = QuadOp(A, B)
		kw["pdf"] = pdf = SpyPdf(design("random", p["seed"]), 10 * (p["count"] + p["batch"])) if p["seed"] % 2 else None
		if pdf is None:
			kw["pdf"] = p["pdf"]
	elif p["route"] == "design":
		period = 2**n if p["design"] == "signs" else n
		div = [b for b in range(1, period + 1) if period % b == 0]
		kw["batch"] = div[p["seed"] % len(div)]
		kw["count"] = period
		op = wrap(A, p["fmt"])
		kw["pdf"] = pdf = SpyPdf(design(p["design"], 0), 4 * period + 64)
	else:
		op = wrap(A, p["fmt"])
		kw["pdf"] = pdf = SpyPdf(design("random", p["seed"]), 10 * (p["count"] + p["batch"]))

	out = hutch(op, **kw)
	est, res = out if isinstance(out, tuple) else (out, None)

	if p["route"] == "quad":
		probes, forms = np.array(op.asked), np.array(op.answers)
		obs.count("quad_calls", len(forms))
	else:
		probes = spy.probes if spy is not None else np.array(pdf.cols)
		if f4:
			probes = probes.astype("f4").astype(float)
		forms = np.einsum("ij,jk,ik->i", probes, Ad, probes)
	obs.count("probes_seen", len(forms))
	obs.count("long_runs", len(forms) > 2000)
	if pdf is not None and p["route"] == "quad":
		obs.check(len(pdf.cols) == len(forms), "a sampled probe was not evaluated", sampled=len(pdf.cols), evaluated=len(forms))
	scale = 1e-300 + np.max(np.abs(probes) @ (np.abs(Ad) if p["route"] != "quad" else np.abs(Ad) + np.abs(op.B)) * np.abs(probes), initial=0) * n
	tol = (5e-6 if f4 else 1e-13) * scale
	want = kw["count"] if p["report"] == "plain" else -(-kw["count"] // kw["batch"]) * kw["batch"]
	if p["route"] == "design":
		obs.check(len(forms) == want, "wrong number of probes", got=len(forms), want=want)
	if not obs.check(np.ndim(est) == 0, "estimate is not a scalar", est=repr(est)[:200]):
		return
	obs.close(est, np.mean(forms), tol, "estimate is not the mean of the quadratic forms of the probes", forms=len(forms))
	if p["route"] in ("spy",) or (p["route"] == "quad" and pdf is None):
		name = {"signs": "rademacher", "gaussian": "normal"}.get(p["pdf"], p["pdf"])
		if name == "rademacher":
			obs.check(np.all(np.abs(probes) == 1.0), "rademacher probes are not signs", probe=probes[0])
		elif name == "sphere":
			obs.close(np.sum(probes**2, axis=1) / n, np.ones(len(probes)), 1e-4 if f4 else 1e-10, "probes are not on the sphere of radius sqrt(n)")
		elif n * len(probes) >= 40:
			spread = np.std(np.sum(probes**2, axis=1)) if len(probes) > 1 else 1.0
			obs.check(not np.all(np.abs(probes) == 1.0) and spread > 1e-6, "normal probes look like another distribution")
			obs.check(abs(np.mean(probes**2) - 1) < 8 * np.sqrt(2 / probes.size), "normal probes do not have unit variance", var=np.mean(probes**2))
		if len(probes) >= 2 and n >= 40:
			obs.check(len({x.tobytes() for x in probes}) == len(probes), "probes repeat")
	if p["route"] == "design":
		obs.count("exact_designs")
		obs.close(est, np.trace(Ad), tol, "the average over a full isotropic design is not the trace", design=p["design"], n=n)
	if res is not None and p["report"] == "record":
		vals = np.ravel(np.array(res.estimator.values, dtype=float))
		obs.count("recorded_values", len(vals))
		obs.close(vals, forms, tol, "recorded samples are not the quadratic forms in order")
	if len(forms) >= 2:
		obs.sig(p["route"], p["kind"], p["fmt"], p.get("design", p["pdf"]), p["dtype"], kw["batch"], p["report"])
