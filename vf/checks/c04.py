"""hutchpp computes the Hutch++ estimate of the vectors it sampled."""

import numpy as np

from ..gens import FORMATS, KINDS, Spy, SpyPdf, design, magnitude, pick, scaled, size, sym, wrap

PROPERTY = "C04"
COUNTS = {"quick": 20000, "thorough": 200000}
REQUIRED = ["reference_comparisons", "exact_low_rank", "exact_design_averages", "applications", "matrix_functions", "sampler_streams"]
RULE = (
	"random symmetric operators (13 spectra, 13 formats, float32/64, n = 1..60), m from 1 to past n, both modes; the logged "
	"sketch and residual vectors give the reference tr(Q'AQ) + mean g'(I-P)A(I-P)g; keyed by (route, kind, n, m, mode)"
)
ASSUMES = ["rank-deficient sketches are only judged when they capture the whole range of the operator, or over full designs"]


def gen(rng, i, tier):
	n = size(rng, 1, 60)
	return {
		"route": pick(rng, ["ref", "ref", "lowrank", "design", "apps", "mf"]),
		"kind": pick(rng, KINDS),
		"n": n,
		"m": pick(rng, [None, 1, 2, 3, int(rng.integers(1, n + 4)), int(rng.integers(1, n + 1))]),
		"mag": magnitude(rng),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"fmt": pick(rng, FORMATS),
		"dtype": pick(rng, ["f8", "f8", "f4"]),
		"mode": pick(rng, ["reduced", "full"]),
		"pdf": pick(rng, ["rademacher", "normal", "sphere"]),
	}


class TwoPdf(SpyPdf):
	"""First call: the sketch. Later calls: the residual vectors."""

	def __init__(self, first, second):
		self.fs, self.calls = (first, second), []

	def __call__(self, size=None, *a, **kw):
		n, k = (size, 1) if np.isscalar(size) else size
		f = self.fs[min(len(self.calls), 1)]
		out = np.array([f(int(n), j) for j in range(int(k))]).T.reshape(int(n), int(k))
		self.calls.append(out.copy())
		return out


def reference(A, W, G):
	Q = np.linalg.qr(A @ W)[0]
	R = G - Q @ (Q.T @ G)
	return np.trace(Q.T @ A @ Q) + np.sum(R * (A @ R)) / G.shape[1]


def run(p, obs):
	from primate.operators import MatrixFunction
	from primate.trace import hutchpp

	n, f4 = p["n"], p["dtype"] == "f4"
	A = scaled(sym(p["kind"], n, p["mseed"]), p["mag"], f4).astype(p["dtype"])
	Ad = A.astype(float)
	big = n * (1e-30 + np.linalg.norm(Ad, 2))
	eps = 1e-3 if f4 else 1e-8
	r = p["route"]
	kw = {"mode": p["mode"], "seed": p["seed"]}
	if p["m"] is not None:
		kw["m"] = p["m"]
	if r == "mf":
		n = min(n, 24)
		A = sym("psd", n, p["mseed"])
		lam, U = np.linalg.eigh(A)
		F = U @ np.diag(np.exp(lam)) @ U.T
		pdf = TwoPdf(design("random", p["seed"]), design("random", p["seed"] + 1))
		M = MatrixFunction(A, fun=np.exp, deg=max(2, n), orth=n)
		if n < 2:
			return
		est, res = hutchpp(M, pdf=pdf, full=True, **kw)
		W, G = pdf.calls
		sv = np.linalg.svd(F @ W, compute_uv=False)
		obs.count("matrix_functions")
		if sv[-1] > 1e-6 * sv[0] or W.shape[1] >= n:
			obs.close(est, reference(F, W, G), 1e-5 * n * np.exp(lam[-1]), "estimate of a matrix function differs from the reference", n=n)
		obs.sig(r, n, p["m"], p["mode"])
		return
	if r == "design":
		# the average over residual blocks that together form an isotropic design is exactly the trace
		nb = None
		k = [d for d in (1, 2, 3, 4, 5, 6) if n % d == 0][-1]
		want = n // k
		kw["m"] = want if want % 3 == 0 else None
		if kw["m"] is None:
			del kw["m"]
		tot, blocks = 0.0, 0
		axes = design("axes", 0)
		first = design("random", p["seed"])
		probe = TwoPdf(first, first)
		hutchpp(wrap(A, p["fmt"]), pdf=probe, **kw)
		nb = probe.calls[0].shape[1]
		period = int(np.lcm(n, nb))
		if period // nb > 60:
			nb_runs = 0
		else:
			nb_runs = period // nb
		for j in range(nb_runs):
			pdf = TwoPdf(first, lambda nn, c, j=j: axes(nn, c + j * nb))
			tot += hutchpp(wrap(A, p["fmt"]), pdf=pdf, **kw)
			blocks += 1
		if blocks:
			obs.count("exact_design_averages")
			obs.close(tot / blocks, np.trace(Ad), eps * big, "average over a full isotropic design is not the trace", n=n, nb=nb)
			obs.sig(r, p["kind"], n, nb, p["mode"], p["fmt"])
		return
	if r == "apps":
		spy = Spy(A)
		est, res = hutchpp(spy, pdf=p["pdf"], full=True, **kw)
		nb = res.nit // 2
		obs.count("applications", spy.n_applied)
		obs.check(spy.n_applied <= 3 * nb, "more than 3 products per sampled sketch vector", used=spy.n_applied, nb=nb)
		W = spy.probes[:nb]
		if len(W) == nb:
			obs.count("sampler_streams")
			if p["pdf"] == "rademacher":
				obs.check(np.all(np.abs(W) == 1), "sketch vectors are not signs")
			elif p["pdf"] == "sphere":
				obs.close(np.sum(W**2, 1) / n, np.ones(nb), 1e-4 if f4 else 1e-10, "sketch vectors are not on the sphere")
			else:
				obs.check(not np.all(np.abs(W) == 1) , "sketch vectors are not normal")
		again = hutchpp(wrap(A, p["fmt"]), pdf=p["pdf"], **kw)
		obs.close(again, est, eps * big * 10 + (1e300 if _shaky(Ad, W) else 0), "same seed, another representation: another estimate", fmt=p["fmt"])
		other = hutchpp(wrap(A, p["fmt"]), pdf=p["pdf"], **{**kw, "mode": "full" if p["mode"] == "reduced" else "reduced"})
		obs.close(other, est, eps * big * 10 + (1e300 if _shaky(Ad, W) else 0), "the modes disagree")
		obs.sig(r, p["kind"], n, nb, p["pdf"])
		return
	if r == "lowrank":
		k = max(1, n // 3)
		U = np.linalg.qr(np.random.default_rng(p["mseed"]).normal(size=(n, k)))[0]
		Ad = U @ np.diag(np.linspace(0.5, 2, k)) @ U.T
		A = Ad.astype(p["dtype"])
		kw["m"] = max(p["m"] or k, k)
		big = 2.0 * n
	pdf = TwoPdf(design("random", p["seed"]), design("random", p["seed"] + 1))
	est = hutchpp(wrap(A, p["fmt"]), pdf=pdf, **kw)
	if not obs.check(len(pdf.calls) == 2, "expected one sketch and one residual batch", calls=len(pdf.calls)):
		return
	W, G = pdf.calls
	if f4:
		W, G = W.astype("f4").astype(float), G.astype("f4").astype(float)
	obs.check(p["m"] is None or W.shape[1] >= p["m"], "fewer sketch vectors than asked for", got=W.shape[1], m=p["m"])
	obs.check(G.shape == W.shape, "sketch and residual batches differ in size")
	if r == "lowrank":
		obs.count("exact_low_rank")
		obs.close(est, np.trace(Ad), (5e-3 if f4 else 1e-6) * big, "not exact although the sketch captures the range", n=n, k=k)
		obs.sig(r, n, W.shape[1], p["mode"], p["fmt"])
		return
	if not _shaky(Ad, W.T, 1e-2 if f4 else 1e-8):
		obs.count("reference_comparisons")
		cond = np.linalg.cond(Ad @ W)
		obs.close(est, reference(Ad, W, G), big * (5e-2 if f4 else 3e-14 * cond * np.sqrt(n)), "estimate differs from the Hutch++ reference", n=n, m=p["m"])
		obs.sig(r, p["kind"], n, W.shape[1], p["mode"], p["fmt"])


def _shaky(A, W, thr=1e-5):
	"""The sketch A W does not determine its range numerically."""
	n = A.shape[0]
	if len(W) == 0:
		return True
	sv = np.linalg.svd(A @ np.array(W).T, compute_uv=False)
	return sv[0] == 0 or (sv[-1] < thr * sv[0])
