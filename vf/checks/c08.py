"""lanczos returns the Jacobi matrix and basis of the Krylov space of its starting vector."""

import numpy as np

from ..gens import KINDS, Spy, pick, size, sym

PROPERTY = "C08"
COUNTS = {"quick": 20000, "thorough": 200000}
REQUIRED = ["relations", "orthonormal_bases", "moments", "invariant_subspaces", "applications", "basis_pairs", "sparse_matrices", "exact_breakdowns", "grades", "buffers", "interlacings"]
RULE = (
	"random symmetric operators (13 spectra, float32/64, n = 1..64), starting vector (random, seeded default, spanned by k "
	"eigenvectors, axis), degree 1..n, orth 0 / partial / full, with and without basis; the returned coefficients and basis "
	"are checked against the operator; keyed by (kind, n, deg, orth, vector, dtype)"
)
ASSUMES = [
	"orthogonality is judged in proportion to the machine precision over the smallest off-diagonal coefficient",
	"the convergence threshold is the absolute value sqrt(n) * rtol the code uses, on operators of norm about 1 to 10",
]


def gen(rng, i, tier):
	n = size(rng, 1, 64)
	return {
		"kind": pick(rng, KINDS),
		"n": n,
		"deg": pick(rng, [None, n, int(rng.integers(1, n + 1)), int(rng.integers(1, n + 1)), n + 3]),
		"orth": pick(rng, ["none", "full", "full", "neg", "part"]),
		"v": pick(rng, ["random", "random", "seed", "eig", "axis", "ones"]),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"dtype": pick(rng, ["f8", "f8", "f8", "f4"]),
		"k": int(rng.integers(1, 9)),
		"part": int(rng.integers(1, n + 2)),
		"rtol": float(pick(rng, [1e-8, 1e-8, 1e-8, 1e-11, 1e-5, 1e-3])),
		"scale": float(pick(rng, [0, 0, 0, -6, 6, -15, 15, -30, 30, -100, 100])),
	}


def run(p, obs):
	from primate.lanczos import lanczos

	n, f4 = p["n"], p["dtype"] == "f4"
	A = sym(p["kind"], n, p["mseed"]).astype(p["dtype"])
	Ad = A.astype(float)
	norm = max(np.linalg.norm(Ad, 2), 1e-300)
	eps = np.finfo(p["dtype"]).eps
	r = np.random.default_rng(p["seed"])
	deg = n if p["deg"] is None else min(p["deg"], n)
	orth = {"none": 0, "full": deg, "neg": -1, "part": p["part"]}[p["orth"]]
	full = orth < 0 or orth >= deg
	lam, U = np.linalg.eigh(Ad)
	v, grade = None, None
	scale = 10.0 ** (np.clip(p["scale"], -15, 15) if f4 else p["scale"])
	if p["v"] == "random":
		v = r.normal(size=n) * scale
	elif p["v"] == "eig":
		k = min(p["k"], n)
		v = U[:, r.choice(n, size=k, replace=False)] @ r.uniform(1, 2, size=k)
		grade = k
	elif p["v"] == "axis":
		v = np.eye(n)[int(r.integers(n))] * scale
	elif p["v"] == "ones":
		v = np.ones(n)
	if v is not None:
		v = v.astype(p["dtype"])
	keep = None if v is None else v.copy()
	spy = Spy(A)
	rtol = p["rtol"] if not f4 else max(p["rtol"], 1e-5)
	kw = {"deg": p["deg"], "orth": orth, "rtol": rtol, "seed": p["seed"]}
	(a, b), Q = lanczos(spy, v0=v, return_basis=True, **kw)
	obs.count("applications", spy.n_applied)
	obs.check(spy.n_applied <= deg, "more products than the degree", used=spy.n_applied, deg=deg)
	obs.check(a.shape == (deg,) and b.shape == (deg - 1,) and Q.shape == (n, deg), "wrong shapes", a=a.shape, b=b.shape, Q=Q.shape)
	obs.check(a.dtype == b.dtype == Q.dtype == A.dtype, "wrong precision")
	obs.check(np.all(np.isfinite(a)) and np.all(np.isfinite(b)) and np.all(np.isfinite(Q)), "non-finite coefficients", a=a, b=b)
	obs.check(np.all(b >= 0), "negative off-diagonal coefficient", b=b)
	if v is not None:
		obs.check(np.array_equal(v, keep), "the starting vector was modified")
	tol_inv = np.sqrt(n) * rtol
	hits = np.flatnonzero(b < tol_inv * (1 + 1e-6))
	k = int(hits[0]) + 1 if len(hits) else deg
	if k < deg and abs(b[k - 1] - tol_inv) < 1e-5 * tol_inv:
		return
	obs.check(spy.n_applied >= k or n == 0, "fewer products than the dimension reached", used=spy.n_applied, k=k)
	q0 = Q[:, 0].astype(float)
	if v is not None and np.linalg.norm(v) > 0:
		obs.close(q0, v.astype(float) / np.linalg.norm(v.astype(float)), 20 * eps, "the first basis vector is not the normalised starting vector")
	a, b, Qk = a.astype(float), b.astype(float), Q[:, :k].astype(float)
	T = np.diag(a[:k]) + np.diag(b[: k - 1], 1) + np.diag(b[: k - 1], -1)
	obs.close(np.linalg.norm(Qk, axis=0), np.ones(k), 100 * eps * n, "basis vectors are not normalised")
	loss = lost(b[: k - 1], norm, eps, n)
	Rm = Ad @ Qk - Qk @ T
	if k > 1 and (p["orth"] == "none" or full) and loss < 1e-2:
		obs.count("relations")
		obs.close(np.abs(Rm[:, : k - 1]).max(), 0.0, norm * (loss if full else 100 * eps * n), "A Q = Q T fails before the last column", k=k)
	if k < deg:
		obs.count("invariant_subspaces")
		obs.check(np.linalg.norm(Rm[:, k - 1]) <= tol_inv * 1.01 + norm * max(loss, 100 * eps * n), "stopped early although the subspace is not invariant", residual=np.linalg.norm(Rm[:, k - 1]), tol=tol_inv)
	if full and loss < 1e-2:
		obs.count("orthonormal_bases")
		obs.close(Qk.T @ Qk, np.eye(k), loss, "basis is not orthonormal under full re-orthogonalisation", k=k)
		obs.close(T, Qk.T @ Ad @ Qk, loss * norm, "T is not the compression of A", k=k)
		th = np.linalg.eigvalsh(T)
		interlaced(obs, th, lam, loss * norm, "with basis")
	if grade is not None and full and np.prod(b[: grade - 1] / norm) * tol_inv > 1e4 * n * eps * norm:  # else rounding hides the grade
		obs.count("grades")
		obs.check(k <= grade, "Krylov dimension exceeds the grade of the starting vector", k=k, grade=grade)
	# Chebyshev moments: e1' C_j(T) e1 = q' C_j(A) q for j < 2k. These are stable whatever happens to orthogonality.
	def moments(T, k, what):
		B, x0, x1, y0, e1 = Ad / norm, q0, Ad @ q0 / norm, np.eye(k)[0], np.eye(k)[0]
		y1 = T @ y0 / norm
		early = 4 * (2 * k) ** 2 * (tol_inv / norm if k < deg else 0.0)
		for j in range(1, 2 * k):
			obs.count("moments")
			if not obs.close(e1 @ y1, q0 @ x1, 300 * eps * n * (j + 3) + early, "moment of the Jacobi matrix differs from that of the operator", degree=j, k=k, run=what):
				break
			x0, x1 = x1, 2 * (B @ x1) - x0
			y0, y1 = y1, 2 * (T @ y1) / norm - y0

	moments(T, k, "with basis")
	# without a basis, and as a sparse matrix
	a2, b2 = lanczos(A, v0=v, **kw)
	obs.check(a2.shape == a.shape and b2.shape == b.shape and a2.dtype == A.dtype, "wrong shapes without basis")
	obs.count("basis_pairs")
	h2 = np.flatnonzero(b2 < tol_inv)
	k2 = int(h2[0]) + 1 if len(h2) else deg
	T2 = np.diag(a2[:k2].astype(float)) + np.diag(b2[: k2 - 1].astype(float), 1) + np.diag(b2[: k2 - 1].astype(float), -1)
	moments(T2, k2, "without basis")
	loss2 = lost(b2[: k2 - 1].astype(float), norm, eps, n)
	if full and loss2 < 1e-2:
		interlaced(obs, np.linalg.eigvalsh(T2), lam, loss2 * norm, "without basis")
	weak = np.flatnonzero(b < 0.05 * norm)
	kk = min(k, k2, 5, int(weak[0]) + 1 if len(weak) else deg)
	obs.close(a2[:kk], a[:kk], norm * 1e7 * eps * n, "coefficients depend on whether the basis is returned", orth=orth)
	obs.close(b2[: kk - 1], b[: kk - 1], norm * 1e7 * eps * n, "off-diagonals depend on whether the basis is returned", orth=orth)
	buf = {"alpha": np.zeros(deg + 1, A.dtype), "beta": np.zeros(deg + 1, A.dtype)}
	(a3, b3), Q3 = lanczos(A, v0=v, return_basis=True, **kw, **buf)
	obs.count("buffers")
	obs.close(np.r_[a3[:kk], b3[: kk - 1]], np.r_[a[:kk], b[: kk - 1]], norm * 1e7 * eps * n, "supplied buffers change the coefficients")
	obs.check(np.array_equal(a3, buf["alpha"][:deg]) and np.array_equal(b3, buf["beta"][1:deg]), "supplied buffers did not receive the coefficients")
	S = lanczos(A, v0=v, sparse_mat=True, **kw)
	S = S.toarray()
	obs.count("sparse_matrices")
	obs.close(S, np.diag(a2) + np.diag(b2, 1) + np.diag(b2, -1), 0.0 if not f4 else 1e-7, "the sparse tridiagonal differs from its coefficients")
	S2, Q2 = lanczos(A, v0=v, sparse_mat=True, return_basis=True, **kw)
	obs.check(np.array_equal(Q2, Q) or not np.allclose(A, 0) , "basis depends on the output form")
	exact(p, obs, r, n, deg, orth, A.dtype)
	obs.sig(p["kind"], n, deg, p["orth"], p["v"], p["dtype"], k)


def lost(b, norm, eps, n):
	"""Bound on the loss of orthogonality under full re-orthogonalisation; losses at several tiny coefficients compound."""
	small = b[b < 1e-3 * norm] / norm
	return 60 * eps * n * max(norm / min(b.min() if len(b) else norm, norm), np.exp(min(-np.log(small).sum(), 600)))


def interlaced(obs, th, lam, tol, what):
	"""Eigenvalues of a compression interlace those of the operator (Cauchy); copies of converged eigenvalues do not."""
	obs.count("interlacings")
	s = len(lam) - len(th)
	obs.check(np.all(th >= lam[: len(th)] - tol) and np.all(th <= lam[s:] + tol), "Ritz values do not interlace the spectrum", ritz=th, spectrum=lam, run=what)


def exact(p, obs, r, n, deg, orth, dtype):
	"""Residuals that vanish exactly end the expansion, whatever the tolerance."""
	from primate.lanczos import lanczos

	d = r.integers(1, 9, size=n).astype(dtype)
	i = int(r.integers(n))
	for rtol in (0.0, p["rtol"]):
		kw = {"deg": deg, "orth": orth, "rtol": rtol, "return_basis": True}
		(a, b), Q = lanczos(np.diag(d), v0=np.eye(n, dtype=dtype)[i] * 4, **kw)
		obs.check(np.array_equal(a, np.where(np.arange(deg) == 0, d[i], 0)) and not b.any(), "an eigenvector of the standard basis is not recognised", a=a, b=b, d=d[i], rtol=rtol)
		obs.check(np.array_equal(np.abs(Q), np.outer(np.eye(n)[i], np.arange(deg) == 0)), "basis of an eigenvector", Q=Q, rtol=rtol)
		c = d[0]
		(a, b), Q = lanczos(Spy(np.eye(n, dtype=dtype) * c), seed=p["seed"], **kw)
		if obs.check(all(np.all(np.isfinite(x)) for x in (a, b, Q)), "non-finite coefficients of a multiple of the identity", a=a, b=b, rtol=rtol):
			k = int(np.flatnonzero(np.append(b[: deg - 1], 0.0) <= np.sqrt(n) * rtol * (1 - 1e-6))[0]) + 1
			obs.close(a[:k], np.full(k, c), 100 * np.finfo(dtype).eps * c * n, "coefficients of a multiple of the identity", rtol=rtol)
		obs.count("exact_breakdowns", 2)
