"""Results depend on the operator, not on how it is represented."""

import numpy as np

from ..gens import FORMATS, KINDS, Duck, SpyPdf, design, pick, size, sym, wrap

PROPERTY = "C09"
COUNTS = {"quick": 15000, "thorough": 150000}
REQUIRED = ["lanczos_pairs", "dtype_pairs", "vector_forms", "matrix_function_pairs", "trace_pairs", "ritz_pairs", "swapped_bytes", "pairs_hutch", "pairs_hutch_batch", "pairs_hutchpp", "pairs_diag", "pairs_xtrace", "pairs_xdiag", "pairs_mf"]
RULE = (
	"the same symmetric matrix as dense (C / Fortran / strided / reversed / other byte order), sparse (csr csc coo dia, arrays and matrices), "
	"LinearOperator and minimal objects whose matvec answers with contiguous, strided, reversed, column or reused arrays, "
	"float32/64, against the dense float64 run; keyed by (consumer, format, kind, n, dtype)"
)
ASSUMES = ["low degrees or full re-orthogonalisation, so that rounding is not amplified"]
DUCKS = ["duck_plain", "duck_strided", "duck_reversed", "duck_column", "duck_fcol", "duck_buffer", "duck_scribble", "duck_keep", "duck_list", "duck_bigendian", "duck_row", "duck_readonly"]


def gen(rng, i, tier):
	n = size(rng, 2, 60)
	return {
		"use": pick(rng, ["lanczos", "lanczos", "lanczos", "dtype", "vector", "mf", "trace", "ritz"]),
		"kind": pick(rng, KINDS),
		"n": n,
		"deg": int(rng.integers(1, n + 1)),
		"fmt": pick(rng, FORMATS + ["swapped"] + DUCKS),
		"dtype": pick(rng, ["f8", "f8", "f4"]),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"basis": bool(rng.random() < 0.5),
		"form": pick(rng, ["list", "int", "strided", "reversed", "f4", "readonly", "column_of_F"]),
	}


def wrap2(A, fmt):
	return Duck(A, fmt[5:]) if fmt.startswith("duck_") else wrap(A, fmt)


def run(p, obs):
	from primate.lanczos import lanczos, rayleigh_ritz
	from primate.operators import MatrixFunction
	from primate.trace import hutch

	n, u = p["n"], p["use"]
	obs.count("swapped_bytes", p["fmt"] == "swapped")
	dt = np.dtype(p["dtype"])
	A = sym(p["kind"], n, p["mseed"])
	A = A.astype(dt).astype("f8")
	norm = np.linalg.norm(A, 2) + 1e-300
	eps = np.finfo(dt).eps
	v = np.random.default_rng(p["seed"]).normal(size=n).astype(dt)
	rtol = 1e-8 if dt == "f8" else 1e-5
	kw = {"deg": p["deg"], "orth": -1, "rtol": rtol}
	(a0, b0), Q0 = lanczos(A, v0=v, return_basis=True, deg=p["deg"], orth=-1, rtol=rtol)
	small = np.flatnonzero(b0 < 1e-2 * norm)
	k = int(small[0]) + 1 if len(small) else p["deg"]  # coefficients up to here are well determined
	gap = min(b0[: k - 1].min() / norm, 1.0) if k > 1 else 1.0
	tol = 1e3 * eps * n / gap * norm * (1 + k)
	if dt == "f4":
		k = min(k, 8)

	def settled(v, k, tol, eps):
		"""Recurrences amplify rounding errors: as many coefficients as a perturbation of size eps leaves alone."""
		r2 = np.random.default_rng(p["seed"] + 1)
		for _ in range(2 if k > 3 else 0):
			(a1, b1), Q1 = lanczos(A, v0=v * (1 + 4 * eps * r2.choice([-1, 1], size=n)), return_basis=True, deg=p["deg"], orth=-1, rtol=rtol)
			moved = np.flatnonzero(np.maximum(np.abs(a1 - a0), norm * np.max(np.abs(Q1 - Q0), axis=0))[:k] > tol / 100)
			k = min(k, int(moved[0]) if len(moved) else k)
		return max(k, 1)

	if u not in ("vector", "dtype"):
		k = settled(v.astype(float), k, tol, eps)
	if u in ("lanczos", "vector", "dtype"):
		op, w, want_dt = wrap2(A.astype(dt), p["fmt"]), v, dt
		if u == "vector":
			f = p["form"]
			if f == "list":
				w = [float(x) for x in v]
			elif f == "int":
				v = np.random.default_rng(p["seed"]).integers(1, 9, size=n)
				w = v
			elif f == "strided":
				w = np.full((n, 3), 1e30, dtype=dt)
				w[:, 1] = v
				w = w[:, 1]
			elif f == "reversed":
				w = v[::-1].copy()[::-1]
			elif f == "f4":
				v = v.astype("f4")
				w = v
			elif f == "readonly":
				w = v.copy()
				w.flags.writeable = False
			else:
				w = np.asfortranarray(np.c_[v, v * 0 + 1e30])[:, 0]
			if f in ("int", "f4"):
				(a0, b0), Q0 = lanczos(A, v0=np.array(v, dtype=float), return_basis=True, deg=p["deg"], orth=-1, rtol=rtol)
				small = np.flatnonzero(b0 < 1e-2 * norm)
				k = min(k, int(small[0]) + 1 if len(small) else p["deg"])
			k = settled(np.array(v, dtype=float), k, tol, eps)
		if u == "dtype":
			want_dt = np.dtype("f4") if dt == "f8" else np.dtype("f8")
			kw["dtype"] = want_dt
			kk = np.finfo("f4").eps
			tol = 1e3 * kk * n / gap * norm * (1 + k)
			k = settled(v.astype(float), min(k, 8), tol, kk)
		out = lanczos(op, v0=w, return_basis=p["basis"], **kw)
		(a, b), Q = out if p["basis"] else (out, None)
		obs.check(not getattr(op, "disturbed", False), "an array the operator was handed changed afterwards")
		obs.count({"lanczos": "lanczos_pairs", "vector": "vector_forms", "dtype": "dtype_pairs"}[u])
		obs.check(a.dtype == want_dt and b.dtype == want_dt, "wrong precision of the coefficients", got=str(a.dtype), want=str(want_dt))
		if tol < 0.05 * norm:
			obs.close(a[:k], a0[:k], tol, "coefficients depend on the representation", fmt=p["fmt"], n=n, k=k)
			obs.close(b[: k - 1], b0[: k - 1], tol, "off-diagonals depend on the representation", fmt=p["fmt"], n=n, k=k)
			if Q is not None:
				obs.close(Q[:, :k], Q0[:, :k], tol / norm * 10, "basis depends on the representation", fmt=p["fmt"])
		elif k >= 1:
			obs.close(a[0], a0[0], 1e3 * max(eps, 1.2e-7 if u == "dtype" else eps) * n * norm, "first coefficient depends on the representation", fmt=p["fmt"])
		obs.check(np.any(a != 0) or np.allclose(a0, 0, atol=tol), "coefficients are all zero")
		obs.sig(u, p["fmt"], p["kind"], n, p["dtype"], p.get("form") if u == "vector" else None)
	elif u == "mf":
		d = max(2, min(n, 30))
		S = A / norm
		f = lambda x: np.exp(x)
		dd = min(d, 14) if dt == "f4" else d
		want = MatrixFunction(S, fun=f, deg=dd, orth=dd)
		if n < 2:
			return
		want = np.ravel(want @ v.astype(float))
		M = MatrixFunction(wrap2(S.astype(dt), p["fmt"]), fun=f, deg=dd, orth=dd, dtype=dt)
		got = M @ v
		obs.count("matrix_function_pairs")
		obs.close(np.ravel(got), want, 2e3 * eps * n * (np.linalg.norm(v) + 1e-30), "f(A)v depends on the representation", fmt=p["fmt"], n=n)
		q = np.ravel(M.quad(v))
		obs.close(q, [v.astype(float) @ want], 4e3 * eps * n * (v @ v + 1e-30), "v'f(A)v depends on the representation", fmt=p["fmt"], n=n)
		obs.sig(u, p["fmt"], p["kind"], n, p["dtype"])
	elif u == "trace":
		from primate.diagonal import diag, xdiag
		from primate.trace import hutchpp, xtrace

		fmt = p["fmt"] if not p["fmt"].startswith("duck") else "duck"
		pdf = lambda: SpyPdf(design("signs", 0) if n < 12 else design("random", p["seed"]))
		rnd = lambda: SpyPdf(design("random", p["seed"]))
		est, m = ["hutch", "hutch_batch", "hutchpp", "diag", "xtrace", "xdiag", "mf"][p["seed"] % 7], 1 + p["seed"] % min(n, 6)
		if est == "xdiag" and fmt in ("duck",):
			fmt = "lo"  # needs the transpose as well
		if est in ("hutchpp", "xtrace", "xdiag"):  # a sketch of full column rank
			A = (A + (1.5 * norm) * np.eye(n)).astype(dt).astype("f8")
		go = {
			"hutch": lambda op: hutch(op, converge="count", count=7, pdf=pdf()),
			"hutch_batch": lambda op: hutch(op, converge="count", count=7, batch=3, full=True, pdf=pdf())[0],
			"hutchpp": lambda op: hutchpp(op, m=m, pdf=rnd(), mode=["reduced", "full"][p["seed"] % 2]),
			"diag": lambda op: diag(op, converge="count", count=5, pdf=rnd()),
			"xtrace": lambda op: xtrace(op, converge="count", count=m, batch=m, pdf=rnd()),
			"xdiag": lambda op: xdiag(op, m=2 * m, pdf="normal", seed=p["seed"]),
			"mf": lambda op: hutch(MatrixFunction(op, fun=np.cos, deg=max(2, min(n, 8)), orth=-1), converge="count", count=3, pdf=rnd()),
		}[est]
		if est in ("xtrace", "xdiag", "hutchpp") and n < 2:
			return
		got, want = go(wrap(A.astype(dt), fmt)), go(A)
		obs.count("trace_pairs")
		obs.count("pairs_" + est)
		scale = 1e4 * eps * n * n * norm * {"mf": 1e2 / norm * (1 + norm), "xtrace": 1e2 * n, "xdiag": 1e2 * n}.get(est, 1)
		obs.close(got, want, np.broadcast_to(scale, np.shape(want)), "the estimate depends on the representation", estimator=est, fmt=fmt, n=n)
		obs.sig(u, est, fmt, p["kind"], n, p["dtype"])
	else:
		deg = max(2, min(p["deg"], 8))
		go = lambda op: np.sort(rayleigh_ritz(op, deg=deg, v0=v, orth=deg, rtol=rtol))
		w, g = go(A), go(wrap2(A.astype(dt), p["fmt"]))
		obs.count("ritz_pairs")
		if gap > 1e-2 and k >= deg and len(g) == len(w):
			obs.close(g, w, max(tol, 1e3 * eps * n * norm) * 10, "Ritz values depend on the representation", fmt=p["fmt"])
		obs.sig(u, p["fmt"], p["kind"], n, p["dtype"])
