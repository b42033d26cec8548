"""xdiag computes the exchangeable leave-one-out diagonal estimate of the vectors it sampled."""

import numpy as np

from ..gens import KINDS, Spy, general, magnitude, pick, scaled, size, sym, wrap

PROPERTY = "C07"
COUNTS = {"quick": 4000, "thorough": 120000}
REQUIRED = ["reference_comparisons", "products_counted", "representations", "general_matrices"]
RULE = (
	"random symmetric and general operators (n = 1..48), m from 1 to past 2n or default, three samplers; the operator log "
	"yields the sketch vectors, from which every leave-one-out diagonal is recomputed; keyed by (kind, n, m, sampler, format)"
)
ASSUMES = ["sketches with condition number above 1e6 are not compared; numerically singular ones may raise LinAlgError"]


def gen(rng, i, tier):
	n = size(rng, 1, 48)
	return {
		"kind": pick(rng, [*KINDS, "general", "general"]),
		"n": n,
		"m": pick(rng, [None, int(rng.integers(1, 2 * n + 5)), int(rng.integers(1, n + 2)), 2 * n]),
		"mag": magnitude(rng),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"fmt": pick(rng, ["C", "F", "view", "csr", "csc", "lo", "lo_sparse"]),
		"pdf": pick(rng, ["sphere", "rademacher", "normal"]),
	}


def reference(A, W):
	n, m = W.shape
	Y, out = A @ W, np.zeros(n)
	for i in range(m):
		Q = np.linalg.qr(np.delete(Y, i, axis=1))[0] if m > 1 else np.zeros((n, 0))
		y = Y[:, i]
		out += np.einsum("ij,ji->i", Q, Q.T @ A) + W[:, i] * (y - Q @ (Q.T @ y))
	return out / m


def run(p, obs):
	from primate.diagonal import xdiag

	n = p["n"]
	A = general(n, p["mseed"]) if p["kind"] == "general" else sym(p["kind"], n, p["mseed"])
	A = scaled(A, p["mag"])
	spy = Spy(A)
	kw = {"pdf": p["pdf"], "seed": p["seed"]}
	if p["m"] is not None:
		kw["m"] = p["m"]
	mm = 2 * n if p["m"] is None else min(p["m"] + p["m"] % 2, 2 * n)
	err = None
	try:
		d = xdiag(spy, **kw)
	except np.linalg.LinAlgError as ex:
		err = ex
	W = spy.probes[: mm // 2].T
	obs.count("products_counted", spy.n_applied)
	obs.check(spy.n_applied <= mm, "more products than asked for", used=spy.n_applied, m=mm)
	sv = np.linalg.svd(A @ W, compute_uv=False)
	cond = sv[0] / sv[-1] if sv[-1] > 0 else np.inf
	if err is not None:
		obs.check(cond > 1e9, "raised although the sketch has full rank", cond=cond, error=repr(err))
		obs.count("singular_sketches")
		return
	if not obs.check(np.shape(d) == (n,), "wrong shape", shape=np.shape(d)):
		return
	if p["pdf"] == "rademacher":
		obs.check(np.all(np.abs(W) == 1), "sampled vectors are not signs")
	elif p["pdf"] == "sphere":
		obs.close(np.sum(W**2, axis=0) / n, np.ones(W.shape[1]), 1e-9, "sampled vectors are not on the sphere")
	if cond > 1e6:
		obs.count("ill_conditioned")
		return
	want = reference(A, W)
	tol = 2e-12 * cond * n * (1 + np.max(np.abs(W))) ** 2 * np.linalg.norm(A, 2)
	obs.count("reference_comparisons")
	obs.close(d, want, tol, "not the mean of the leave-one-out diagonals", n=n, m=mm)
	d2 = xdiag(wrap(A, p["fmt"]), **kw)
	obs.count("representations")
	obs.close(np.ravel(d2), d, tol, "the storage format changes the estimate", fmt=p["fmt"])
	if p["kind"] == "general":
		obs.count("general_matrices")
	obs.sig(p["kind"], n, mm, p["pdf"], p["fmt"])


def _low_rank_raises():
	from primate.diagonal import xdiag

	A = np.diag([1.0, 2.0, 0, 0, 0, 0, 0, 0])
	try:
		return not np.allclose(xdiag(A, seed=1), np.diag(A))
	except np.linalg.LinAlgError:
		return True


PROBES = {"rank-deficient-sketch": _low_rank_raises}
