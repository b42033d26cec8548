"""rayleigh_ritz returns the Ritz pairs of the Krylov space it expanded."""

import numpy as np

from ..gens import KINDS, pick, size, sym, wrap

PROPERTY = "C10"
COUNTS = {"quick": 24000, "thorough": 600000}
REQUIRED = ["full_spectra", "partial_spectra", "ritz_vectors", "bases", "early_terminations", "tqli_runs", "interlacing"]
RULE = (
	"random symmetric operators (n = 2..40), degree 2..n, starting vector random / seeded / in an invariant subspace, both "
	"solvers, with and without vectors and basis; keyed by (case, kind, n, deg, method, outputs)"
)
ASSUMES = ["full re-orthogonalisation (the documented way to avoid ghost values) unless the degree is at most 6"]


def gen(rng, i, tier):
	n = size(rng, 2, 40)
	return {
		"case": pick(rng, ["full", "partial", "partial", "early", "maxiter"]),
		"kind": pick(rng, KINDS),
		"n": n,
		"deg": int(rng.integers(2, n + 1)),
		"k": int(rng.integers(1, 7)),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"method": pick(rng, ["RRR", "rrr", "mrrr", "auto", "tqli", "tqli"]),
		"vec": bool(rng.random() < 0.5),
		"basis": bool(rng.random() < 0.5),
		"fmt": pick(rng, ["C", "F", "csr", "lo", "duck", "view"]),
		"dtype": pick(rng, ["f8", "f8", "f8", "f4"]),
		"rtol": float(pick(rng, [1e-8, 1e-8, 1e-10, 1e-5, 1e-3, 1e-2])),
		"maxiter": int(pick(rng, [30, 50, 100])),
	}


def run(p, obs):
	from primate.lanczos import lanczos, rayleigh_ritz

	n, f4, case = p["n"], p["dtype"] == "f4", p["case"]
	r = np.random.default_rng(p["seed"])
	A = sym(p["kind"], n, p["mseed"])
	if case == "full":  # a well separated spectrum, so that the Krylov space really is everything
		U = np.linalg.qr(r.normal(size=(n, n)))[0]
		n_ = min(n, 12 if f4 else 24)
		A = U @ np.diag(np.linspace(1, 3, n) + r.uniform(-0.2, 0.2, size=n) / n) @ U.T
		A = (A + A.T) / 2
		if n > n_:
			A, n = A[:n_, :n_], n_
	A = A.astype(p["dtype"])
	Ad = A.astype(float)
	lam, U = np.linalg.eigh(Ad)
	norm = np.abs(lam).max() + 1e-300
	eps = np.finfo(p["dtype"]).eps
	deg = n if case == "full" else min(p["deg"], n)
	k = min(p["k"], n)
	rtol = p["rtol"] if not f4 else max(p["rtol"], 1e-5)
	v = r.normal(size=n).astype(p["dtype"])
	if case == "early":
		pickd = r.choice(n, size=k, replace=False)
		v = (U[:, pickd] @ r.uniform(1, 2, size=k)).astype(p["dtype"])
		deg = n
	kw = {"deg": deg, "orth": deg, "v0": v, "rtol": rtol}
	extra = {"method": p["method"]}
	if p["method"] == "tqli" and case == "maxiter":
		extra["maxiter"] = p["maxiter"]
	out = rayleigh_ritz(wrap(A, p["fmt"]), return_eigenvectors=p["vec"], return_basis=p["basis"], **extra, **kw)
	parts = list(out) if isinstance(out, tuple) else [out]
	rw = np.array(parts.pop(0), dtype=float)
	Y = np.array(parts.pop(0), dtype=float) if p["vec"] else None
	Q = np.array(parts.pop(0), dtype=float) if p["basis"] else None
	obs.check(not parts, "unexpected outputs")
	if p["method"] == "tqli":
		obs.count("tqli_runs")
	refs = [lanczos(wrap(X, f), return_basis=True, **kw)[0] for X, f in ((A, p["fmt"]), (A, "F"), (A * A.dtype.type(1 + 2 * eps), "C"))]
	a, b = (x.astype(float) for x in refs[0])
	hits = np.flatnonzero(b < np.sqrt(n) * rtol)
	if np.any(np.abs(b - np.sqrt(n) * rtol) < 1e-3 * np.sqrt(n) * rtol):
		return
	kk = int(hits[0]) + 1 if len(hits) else deg
	T = np.diag(a[:kk]) + np.diag(b[: kk - 1], 1) + np.diag(b[: kk - 1], -1)
	bmin = min(b[: kk - 1].min(), norm) if kk > 1 else norm
	small = b[: kk - 1][b[: kk - 1] < 1e-3 * norm] / norm  # losses at several tiny coefficients compound
	loss = 100 * eps * n * max(norm / bmin, np.exp(min(-np.log(small).sum(), 600)))
	ev = [np.linalg.eigvalsh(np.diag(x[:kk].astype(float)) + np.diag(y[: kk - 1].astype(float), 1) + np.diag(y[: kk - 1].astype(float), -1)) for x, y in refs]
	wobble = max(np.abs(ev[0] - ev[1]).max(), np.abs(ev[0] - ev[2]).max())  # sensitivity to rounding of this very case
	if rw.shape != (kk,) and wobble > 1e3 * eps * n * norm:
		return
	if not obs.check(rw.shape == (kk,), "wrong number of Ritz values", got=rw.shape, want=kk, deg=deg):
		return
	s = np.argsort(rw)
	tv = norm * 300 * eps * n
	obs.close(rw[s], np.linalg.eigvalsh(T), tv + 50 * wobble, "Ritz values are not the eigenvalues of T", method=p["method"])
	obs.count("partial_spectra" if case != "full" else "full_spectra")
	ok = loss < 1e-2
	if ok:
		t = norm * max(loss, 300 * eps * n) * 10
		obs.check(rw.min() >= lam[0] - t and rw.max() <= lam[-1] + t, "Ritz values outside the spectrum", rw=rw, lo=lam[0], hi=lam[-1])
		x = rw[s]
		obs.count("interlacing", kk)
		obs.check(np.all(x >= lam[:kk] - t) and np.all(x <= lam[n - kk :] + t), "Ritz values violate the Cauchy bounds", rw=x)
		if case == "full" and kk == n:
			obs.close(x, lam, t, "a full expansion does not give the spectrum")
		if kk < deg:
			obs.count("early_terminations")
			obs.close([np.abs(lam - y).min() for y in x], np.zeros(kk), t + 10 * np.sqrt(n) * rtol, "Ritz values of an invariant subspace are not eigenvalues", rw=x)
	if Y is not None:
		obs.count("ritz_vectors", kk)
		if obs.check(Y.shape == (kk, kk), "wrong shape of the eigenvectors", shape=Y.shape):
			obs.close(Y.T @ Y, np.eye(kk), 1e3 * eps * n, "eigenvectors of T are not orthonormal")
			Tr = Y @ np.diag(rw) @ Y.T  # the matrix these pairs belong to: tridiagonal, and T itself where T is well determined
			obs.close(np.abs(np.triu(Tr, 2)).max(), 0.0, tv * 10, "the Ritz pairs do not belong to a tridiagonal matrix", method=p["method"])
			obs.close(Tr[0, 0], a[0], tv * 10, "the Ritz pairs do not start at the Rayleigh quotient of the starting vector")
			if np.abs(np.array(refs[0][0] - refs[2][0])[:kk]).max() < 1e-4 * norm and np.abs(np.array(refs[0][0] - refs[1][0])[:kk]).max() < 1e-4 * norm:
				obs.close(np.abs(np.abs(Tr) - np.abs(T)).max(), 0.0, 1e-2 * norm, "eigenvectors do not belong to the Ritz values", method=p["method"])
	if Q is not None:
		obs.count("bases")
		if obs.check(Q.shape == (n, kk), "wrong shape of the basis", shape=Q.shape, want=(n, kk)) and ok:
			obs.close(Q.T @ Q, np.eye(kk), loss * 3, "basis is not orthonormal")
			if Y is not None:
				X = Q @ Y
				obs.close(np.einsum("ij,ij->j", X, Ad @ X), rw, norm * loss * 10, "a Ritz value is not the Rayleigh quotient of its vector")
	obs.sig(case, p["kind"], n, deg, p["method"].lower(), p["vec"], p["basis"], kk)
