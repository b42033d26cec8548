"""One call of every public entry point, for the checks that look at side effects and at reproducibility.

`make(name, r)` returns a Call: `go(seed)` runs it on its own (fixed) arguments, `inputs` are the caller's objects.
"""

import threading

import numpy as np
import scipy.sparse as ss

from .gens import pick, sym, wrap

SEEDED = ["hutch", "hutch_quad", "hutch_full", "hutchpp", "xtrace", "diag", "diag_full", "xdiag", "lanczos", "rayleigh_ritz", "isotropic", "isotropic_sampler", "isotropic_out", "Isotropic", "symmetric", "haar"]
PURE = ["lanczos_v0", "matfun", "matfun_block", "matfun_quad", "quadrature", "quadrature_fttr", "eigh_tridiag", "eigvalsh_tridiag", "toeplitz", "update_trinv", "confidence_interval", "special", "estimator", "control_variates", "covariance", "criteria", "normalize_unit"]
NAMES = SEEDED + PURE


class Call:
	def __init__(self, name, go, inputs, same=True):
		self.name, self.go, self.inputs, self.same = name, go, inputs, same  # same: two runs must agree
		self.tol = 1e-3 if any(getattr(x, "dtype", None) == np.float32 for x in inputs) else 1e-9


def snap(x):
	"""A deep picture of a caller's object."""
	if isinstance(x, np.ndarray):
		return ("nd", x.dtype.str, x.shape, x.strides, x.flags.writeable, x.tobytes())
	if ss.issparse(x):
		parts = [x.data, *(getattr(x, k) for k in ("indices", "indptr", "row", "col", "offsets") if hasattr(x, k))]
		return ("sp", type(x).__name__, x.shape, [snap(np.asarray(p)) for p in parts])
	if isinstance(x, (list, tuple)):
		return (type(x).__name__, [snap(t) for t in x])
	if isinstance(x, dict):
		return ("dict", sorted((k, snap(v)) for k, v in x.items()))
	if hasattr(x, "A") and hasattr(x, "matvec"):
		return ("lo", snap(x.A))
	return ("obj", repr(x))


SINK = threading.local()  # SINK.arrays: the arrays that results consist of, for the checks that write to them


def flat(x):
	"""The numbers of a result."""
	if x is None:
		return []
	if isinstance(x, np.ndarray) and getattr(SINK, "arrays", None) is not None:
		SINK.arrays.append(x)
	if isinstance(x, (list, tuple)):
		return [v for t in x for v in flat(t)]
	return [np.array(x, dtype=float, copy=True).ravel()]


def frozen(x, r):
	if isinstance(x, np.ndarray) and r.random() < 0.4:
		x.flags.writeable = False
	return x


def make(name, r):
	n = int(r.integers(3, 20)) if r.random() < 0.9 else int(r.integers(20, 150))
	fmt = pick(r, ["C", "F", "view", "csr", "csc", "coo", "dia", "lo", "lo_sparse", "duck"])
	D = sym(pick(r, ["normal", "psd", "indef", "path"]), n, int(r.integers(1 << 30)))
	dt = pick(r, [np.float64, np.float64, np.float32])
	A = frozen(wrap(D.astype(dt), fmt), r)
	P = D @ D + 0.5 * np.eye(n)
	PA = frozen(wrap(P, pick(r, ["C", "F", "csr", "lo"])), r)
	pdf = pick(r, ["rademacher", "normal", "sphere", "signs", "gaussian"])
	k = int(r.integers(1, 12))
	kw = {"converge": "count", "count": k}
	opts = {"pdf": pdf, "batch": int(r.integers(1, 5))}
	if name.startswith("hutch") and name != "hutchpp":
		from primate.operators import MatrixFunction
		from primate.trace import hutch

		cb = (lambda res: None) if r.random() < 0.3 else None
		full, rec = name == "hutch_full", bool(r.random() < 0.5)
		deg = int(r.integers(2, min(n, 20) + 1))

		def go(seed):
			M = MatrixFunction(PA, fun=np.exp, deg=deg, orth=deg) if name == "hutch_quad" else A
			t = hutch(M, seed=seed, full=full, callback=cb, record=rec, **opts, **kw)
			return flat([t[0], t[1].nit, t[1].estimate, t[1].estimator.values]) if isinstance(t, tuple) else flat(t)

		return Call(name, go, [A, PA, opts, kw])
	if name == "hutchpp":
		from primate.trace import hutchpp

		m, mode = int(r.integers(1, 6 if n < 20 else 3 * n)), pick(r, ["reduced", "full"])
		return Call(name, lambda seed: flat(hutchpp(PA, m=m, mode=mode, pdf=pdf, seed=seed)), [PA])
	if name == "xtrace":
		from primate.trace import xtrace

		B = frozen(wrap(P, pick(r, ["C", "F", "csr", "lo"])), r)
		c = pick(r, ["sphere", "normal"])
		return Call(name, lambda seed: flat(xtrace(B, batch=opts["batch"], pdf=c, seed=seed, converge="count", count=min(k, n))), [B])
	if name in ("diag", "diag_full"):
		from primate.diagonal import diag

		def go(seed):
			t = diag(A, pdf=pdf, seed=seed, full=name == "diag_full", **kw)
			return flat(t[0] if isinstance(t, tuple) else t)

		return Call(name, go, [A, kw])
	if name == "xdiag":
		from primate.diagonal import xdiag

		m = int(r.integers(2, n))
		return Call(name, lambda seed: flat(xdiag(PA, m=m, pdf=pick(np.random.default_rng(k), ["sphere", "normal"]), seed=seed)), [PA])
	deg = int(r.integers(1, min(n, 20) + 1))
	if name == "lanczos":
		from primate.lanczos import lanczos

		basis = bool(r.random() < 0.5)
		return Call(name, lambda seed: flat(lanczos(A, deg=deg, orth=deg, seed=seed, return_basis=basis)), [A])
	if name == "lanczos_v0":
		from primate.lanczos import lanczos

		v0 = frozen(r.normal(size=n).astype(pick(r, [np.float64, np.float32])), r)
		if r.random() < 0.3:
			v0 = np.repeat(v0, 2)[::2]
		orth = int(r.integers(0, deg + 1))
		return Call(name, lambda seed: flat(lanczos(A, v0=v0, deg=deg, orth=orth, return_basis=bool(k % 2))), [A, v0])
	if name == "rayleigh_ritz":
		from primate.lanczos import rayleigh_ritz

		meth = pick(r, ["RRR", "tqli"])
		return Call(name, lambda seed: flat(rayleigh_ritz(A, deg=deg, orth=deg, method=meth, seed=seed)), [A])
	if name.startswith("matfun"):
		from primate.operators import MatrixFunction

		f = pick(r, ["exp", "abs", "identity", "softsign", "numrank"])
		dg = int(r.integers(2, min(n, 20) + 1))
		x = r.normal(size=n) if name != "matfun_block" else r.normal(size=(n, 3))
		x = frozen(np.asfortranarray(x) if r.random() < 0.5 else x, r)
		M = MatrixFunction(PA, fun=f, deg=dg, orth=dg)
		if name == "matfun_quad":
			return Call(name, lambda seed: flat(M.quad(x)), [PA, x])
		return Call(name, lambda seed: flat(M @ x), [PA, x])
	d, e = r.normal(size=deg), np.append([0.0], r.uniform(0.1, 1, size=deg - 1))
	if r.random() < 0.3:
		d, e = np.repeat(d, 2)[::2], np.repeat(e, 2)[::2]
	d, e = frozen(d, r), frozen(e, r)
	if name.startswith("quadrature"):
		from primate.integrate import quadrature

		q = "fttr" if name.endswith("fttr") else "gw"
		return Call(name, lambda seed: flat(quadrature(d, e, quad=q)), [d, e])
	if name in ("eigh_tridiag", "eigvalsh_tridiag"):
		from primate import tridiag

		meth = pick(r, ["mrrr", "tqli", "auto"])
		f = getattr(tridiag, name)
		e2 = e if r.random() < 0.5 else frozen(np.array(e[1:]), r)
		return Call(name, lambda seed: flat(f(d, e2, method=meth)), [d, e2])
	if name in ("isotropic", "isotropic_sampler", "isotropic_out"):
		from primate.random import isotropic

		def go(seed):
			if name == "isotropic_out":
				out = np.full((n, k), np.nan, order="F")
				isotropic(pdf=pdf, seed=seed, out=out)
				return flat(out)
			if name == "isotropic_sampler":
				s = isotropic(pdf=pdf, seed=seed)
				return flat([s((n, k)), s((n, 2))])
			return flat(isotropic((n, k), pdf=pdf, seed=seed))

		return Call(name, go, [])
	if name == "Isotropic":
		from primate.random import Isotropic

		th = int(r.integers(1, 5)) if r.random() < 0.8 else int(r.integers(5, 70))

		def go(seed):
			s = Isotropic((n, k), pdf=pdf, seed=seed, threads=th)
			s.fill()
			a = s.values.copy()
			s.fill()
			return flat([a, s.values])

		return Call(name, go, [])
	if name == "symmetric":
		from primate.random import symmetric

		ew = frozen(r.normal(size=n), r) if r.random() < 0.6 else None
		dist, pd = pick(r, ["normal", "uniform"]), bool(r.random() < 0.5)
		return Call(name, lambda seed: flat(symmetric(n, dist=dist, pd=pd, ew=ew, seed=seed)), [ew])
	if name == "haar":
		from primate.random import haar

		ew = frozen(r.normal(size=n), r) if r.random() < 0.6 else None
		return Call(name, lambda seed: flat(haar(n, ew=ew, seed=seed)), [ew])
	if name == "toeplitz":
		from primate.operators import Toeplitz

		c, row, x = frozen(r.normal(size=n), r), frozen(r.normal(size=n), r), frozen(r.normal(size=n), r)
		row = None if r.random() < 0.4 else row
		return Call(name, lambda seed: flat(Toeplitz(c, row) @ x), [c, row, x])
	if name == "update_trinv":
		from primate.linalg import update_trinv

		X, b = frozen(np.triu(r.normal(size=(n, n))), r), frozen(r.uniform(1, 2, size=n + 1), r)
		return Call(name, lambda seed: flat(update_trinv(X, b)), [X, b])
	if name == "confidence_interval":
		from primate.stats import confidence_interval

		x = frozen(r.normal(size=n), r)
		return Call(name, lambda seed: flat(confidence_interval(x, confidence=0.9, sdist=["t", "normal"][k % 2])), [x])
	if name == "special":
		from primate.special import param_callable

		x = frozen(r.uniform(0.1, 2, size=n), r)
		f = pick(r, ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank"])
		par = {} if r.random() < 0.5 else {"t": float(r.normal()), "a": float(r.normal()), "b": float(r.normal()), "q": int(r.integers(0, 30)), "threshold": float(r.uniform())}
		return Call(name, lambda seed: flat(param_callable(f, **par)(x)), [x, par])
	if name in ("estimator", "control_variates", "covariance", "criteria"):
		from primate.estimators import ConfidenceCriterion, ControlVariableEstimator, CountCriterion, KneeCriterion, MeanEstimator, ToleranceCriterion
		from primate.stats import Covariance

		x = frozen(r.normal(size=(n, 2)), r)
		mu = frozen(np.array([0.1]), r)

		def go(seed):
			if name == "covariance":
				c = Covariance(dim=2)
				c.update(x)
				return flat([c.mean(), c.covariance()])
			if name == "control_variates":
				est = ControlVariableEstimator(mu, record=True)
				est.update(x)
				return flat([est.estimate, est.values])
			if name == "estimator":
				est = MeanEstimator(dim=2, covariance=True, record=True)
				est.update(x)
				return flat([est.estimate, est.delta, est.values])
			est = MeanEstimator(dim=1, covariance=True, record=True)
			est.update(x[:, :1])
			cs = [CountCriterion(5), ToleranceCriterion(), ConfidenceCriterion(), KneeCriterion()]
			[c.message(est) for c in cs]
			return flat([float(c(est)) for c in cs] + [float((cs[0] & ~cs[2] | cs[3])(est))])

		return Call(name, go, [x, mu])
	if name == "normalize_unit":
		from primate.operators import normalize_unit

		B = frozen(wrap(P, pick(r, ["C", "F", "csr", "lo"])), r)
		x = frozen(r.normal(size=n), r)
		return Call(name, lambda seed: flat(normalize_unit(B) @ x), [B, x], same=False)
	raise ValueError(name)
