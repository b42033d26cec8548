"""Every tridiagonal eigensolver returns the eigenpairs of the matrix it was given."""

import numpy as np
import scipy.linalg

from ..gens import pick, size

PROPERTY = "C14"
COUNTS = {"quick": 20000, "thorough": 200000}
REQUIRED = ["tqli_runs", "mrrr_runs", "auto_runs", "eigenvector_runs", "eigenvalue_runs", "split_matrices", "zero_matrices", "single_precision", "integer_input", "full_length_e", "short_e", "extreme_scales", "maxiter_runs", "strided_input", "mixed_precisions", "underflowing_matrices"]
RULE = (
	"random symmetric tridiagonal matrices (n = 1..400: random, Toeplitz, Wilkinson, glued, graded, split, zero, equal diagonals, "
	"integers, magnitudes down to 1e-300 next to zeros), both lengths of the subdiagonal, three solvers (the LAPACK one failing half of the time under 'auto'), three types for each of the arrays, scales 1e-100 to 1e100, strided and read-only "
	"inputs; keyed by (kind, n, solver, outputs, dtype)"
)
ASSUMES = ["values are judged normwise: to 100 eps n |T|"]
TKINDS = ["normal", "toeplitz", "wilkinson", "glued", "graded", "gradedrev", "split", "zero", "constdiag", "zerodiag", "int", "negoff", "tinyoff", "lanczos"]
WILD = [1.0, -1.0, 2.0, 0.5, 1e-80, 1e-150, 1e-160, 1e-200, 1e-300]

FAULT = {"armed": False, "fired": 0}


def _wrap(f):
	def g(*a, **kw):
		if FAULT["armed"]:
			FAULT["fired"] += 1
			raise np.linalg.LinAlgError("injected: the LAPACK solver did not converge")
		return f(*a, **kw)

	return g


# installed before the package is imported: whatever it takes from scipy.linalg can be made to fail
for _name in ("eigh_tridiagonal", "eigvalsh_tridiagonal"):
	setattr(scipy.linalg, _name, _wrap(getattr(scipy.linalg, _name)))


def tri(kind, n, r):
	d, e = r.normal(size=n), r.normal(size=max(n - 1, 0))
	k = np.arange(n)
	if kind == "toeplitz":
		d, e = np.full(n, 2.0), np.full(n - 1, -1.0)
	elif kind == "wilkinson":
		d, e = np.abs(k - (n - 1) / 2), np.ones(n - 1)
	elif kind == "glued":
		d = np.abs(k % 7 - 3.0)
		e = np.where((k[:-1] % 7) == 6, 1e-6, 1.0)
	elif kind in ("graded", "gradedrev"):
		g = np.geomspace(1, 1e-9, n)
		d, e = d * g, e * np.sqrt(g[:-1] * g[1:])
		if kind == "gradedrev":
			d, e = d[::-1].copy(), e[::-1].copy()
	elif kind == "split":
		e[r.random(n - 1) < 0.4] = 0.0
	elif kind == "zero":
		d, e = d * 0, e * 0
		if r.random() < 0.4:
			d[:] = r.choice([0.0, 1.0, -2.0], size=n)
	elif kind == "constdiag":
		d = np.full(n, float(r.integers(-2, 3)))
	elif kind == "zerodiag":
		d, e = d * 0, np.ones(n - 1)
	elif kind == "int":
		d, e = r.integers(-4, 5, size=n).astype(float), r.integers(-2, 3, size=n - 1).astype(float)
	elif kind == "negoff":
		e = -np.abs(e)
	elif kind == "tinyoff":
		e = e * 1e-14
	elif kind == "wild":  # magnitudes whose products underflow, next to zeros
		w = lambda k: np.where(r.random(k) < 0.6, r.choice(WILD, size=k), 10.0 ** r.uniform(-300, 0, size=k))
		d, e = np.where(r.random(n) < 0.6, 0.0, w(n)), np.where(r.random(n - 1) < 0.2, 0.0, w(n - 1))
	elif kind == "lanczos":
		e = np.abs(e) + 0.1
	return d, e


def gen(rng, i, tier):
	wild = rng.random() < 0.1
	return {
		"kind": "wild" if wild else pick(rng, TKINDS),
		"n": size(rng, 1, 64 if rng.random() < 0.3 else 16, 64) if rng.random() > 0.01 else int(rng.integers(65, 400)),
		"seed": int(rng.integers(1 << 30)),
		"method": "tqli" if wild else pick(rng, ["tqli", "tqli", "mrrr", "auto", "default"]),
		"vec": bool(rng.random() < 0.5),
		"elen": int(rng.integers(2)),
		"dtype": pick(rng, ["f8", "f8", "f8", "f4", "i8"]),
		"edtype": pick(rng, ["same", "same", "same", "f8", "f4", "i8"]),
		"scale": float(pick(rng, [1, 1, 1, 1, 1e-3, 1e6, 1e-100, 1e100])),
		"form": pick(rng, ["plain", "plain", "strided", "readonly", "reversed"]),
		"fault": bool(rng.random() < 0.5),
		"maxiter": int(pick(rng, [0, 0, 0, 30, 60, 1000])),
	}


def run(p, obs):
	from primate.tridiag import eigh_tridiag, eigvalsh_tridiag

	n, r = p["n"], np.random.default_rng(p["seed"])
	d, e = tri(p["kind"], n, r)
	wild = p["kind"] == "wild"
	if wild:  # double precision only
		p = {**p, "dtype": "f8", "edtype": "same", "scale": min(p["scale"], 1e6)}
		p["scale"] = max(p["scale"], 1e-3)
		obs.count("underflowing_matrices")
	scale = p["scale"] if p["dtype"] == "f8" else 1.0
	d, e = d * scale, e * scale
	if p["dtype"] == "i8":
		d = np.rint(d * 3)
	if p["elen"]:
		e = np.append(0.0, e)
		obs.count("full_length_e")
	else:
		obs.count("short_e")
	et = p["dtype"] if p.get("edtype", "same") == "same" or scale != 1.0 else p["edtype"]
	if et == "i8":
		e = np.rint(e * 3)
	d, e = d.astype(p["dtype"]), e.astype(et)
	obs.count("mixed_precisions", d.dtype != e.dtype)

	def shape(x):
		if p["form"] == "strided":
			z = np.full((len(x), 3), 77, dtype=x.dtype)
			z[:, 1] = x
			return z[:, 1]
		if p["form"] == "reversed":
			return x[::-1].copy()[::-1]
		x = x.copy()
		x.flags.writeable = p["form"] != "readonly"
		return x

	din, ein = shape(d), shape(e)
	if p["form"] in ("strided", "reversed"):
		obs.count("strided_input")
	kw = {}
	if p["method"] != "default":
		kw["method"] = p["method"]
	if p["maxiter"]:
		kw["maxiter"] = p["maxiter"]
		obs.count("maxiter_runs")
	obs.count({"default": "auto"}.get(p["method"], p["method"]) + "_runs")
	FAULT["armed"], FAULT["fired"] = p["fault"] and p["method"] in ("auto", "default"), 0
	try:
		out = (eigh_tridiag if p["vec"] else eigvalsh_tridiag)(din, ein, **kw)
	finally:
		FAULT["armed"] = False
	obs.count("lapack_faults_injected", FAULT["fired"])
	if p["vec"]:
		if not obs.check(isinstance(out, tuple) and len(out) == 2, "eigh_tridiag does not return a pair", out=repr(out)[:100]):
			return
		w, Y = np.array(out[0]), np.array(out[1])
		obs.count("eigenvector_runs")
	else:
		w, Y = np.array(out), None
		obs.count("eigenvalue_runs")
	obs.check(np.array_equal(din, d) and np.array_equal(ein, e), "the solver overwrote its input")
	D, E = d.astype(float), e.astype(float)[len(e) - n + 1 :]
	T = np.diag(D) + np.diag(E, 1) + np.diag(E, -1) if n > 1 else np.array([[D[0]]])
	# LAPACK itself loses digits where products underflow; what is dropped for it is far below rounding
	ref = np.linalg.eigvalsh(np.where(np.abs(T) < 1e-40 * np.abs(T).max(), 0.0, T) if wild else T)
	norm = np.abs(ref).max()
	eps = np.finfo("f4" if "f4" in (p["dtype"], et) and p["method"] != "tqli" and not FAULT["fired"] else "f8").eps
	tol = 100 * eps * n * norm
	obs.check(w.dtype.kind == "f" or n == 1, "eigenvalues are not floating point", dtype=str(w.dtype))
	if not obs.check(w.shape == (n,), "wrong number of eigenvalues", shape=w.shape):
		return
	obs.close(np.sort(w.astype(float)), ref, tol, "wrong eigenvalues", d=d, e=e, method=p["method"])
	if p["method"] != "tqli" and not FAULT["fired"]:
		obs.check(np.all(np.diff(w) >= 0), "LAPACK eigenvalues are not ascending", w=w)
	if Y is not None:
		Y = Y.astype(float)
		if obs.check(Y.shape == (n, n), "wrong shape of the eigenvectors", shape=Y.shape):
			obs.close(Y.T @ Y, np.eye(n), 100 * eps * n, "eigenvectors are not orthonormal", d=d, e=e, method=p["method"])
			obs.close(T @ Y, Y * w.astype(float), tol * 3, "columns are not the eigenvectors of their eigenvalues", d=d, e=e, method=p["method"])
	if n > 1 and np.any(E == 0):
		obs.count("split_matrices")
	if not np.any(T):
		obs.count("zero_matrices")
	if p["dtype"] == "f4":
		obs.count("single_precision")
	if p["dtype"] == "i8":
		obs.count("integer_input")
	if scale in (1e-100, 1e100):
		obs.count("extreme_scales")
	obs.sig(p["kind"], n, p["method"], p["vec"], p["dtype"], scale)
