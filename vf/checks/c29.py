"""No call modifies its arguments, the global random state, or any other process-wide setting."""

import decimal
import gc
import locale
import logging
import os
import random
import signal
import sys
import threading
import warnings

import numpy as np
import scipy.linalg
import scipy.sparse.linalg
import scipy.spatial.distance
import scipy.special
import scipy.stats  # noqa: F401  (their import changes warning filters)

from .. import apis
from ..apis import NAMES, make, snap
from ..gens import pick

PROPERTY = "C29"
COUNTS = {"quick": 8000, "thorough": 150000}
REQUIRED = ["calls", "argument_snapshots", "read_only_arguments", "global_state_checks", "unseeded_calls", "results_owned", "results_overwritten", "repeats_after_overwriting", "stateful_objects", "failing_calls", "degenerate_calls"]
RULE = (
	"histories of 1..6 random calls over every public entry point with random containers, precisions, strided and read-only "
	"arguments; byte-for-byte snapshots of all arguments, of NumPy's and Python's global random state, of the error state, "
	"print options, warning filters and environment around every call; keyed by (entry point, container)"
)
ASSUMES = ["outputs passed as out=, nodes=, weights=, alpha=, beta=, Q= are meant to be written and are checked elsewhere"]


def gen(rng, i, tier):
	return {"names": [pick(rng, NAMES) for _ in range(int(rng.integers(1, 7)))] if i >= len(NAMES) else [NAMES[i]], "seed": int(rng.integers(1 << 30)), "unseeded": bool(rng.random() < 0.4)}


def world():
	s = np.random.get_state(legacy=False)["state"]
	po = {k: repr(v) for k, v in np.get_printoptions().items()}
	return {
		"numpy.random": (s["pos"], s["key"].tobytes()),
		"random": random.getstate(),
		"numpy error state": np.geterr(),
		"numpy print options": po,
		"warning filters": [(f[0], str(f[1]), f[2], str(f[3]), f[4]) for f in warnings.filters],
		"numpy error callback": repr(np.geterrcall()),
		"interpreter hooks": (id(sys.excepthook), id(threading.excepthook), id(sys.displayhook), id(warnings.showwarning), id(sys.stdout), id(sys.stderr), id(sys.gettrace()), id(sys.getprofile())),
		"interpreter limits": (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(), sys.get_int_max_str_digits()),
		"signal handlers": [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGFPE, signal.SIGALRM)],
		"logging": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
		"module path": list(sys.path),
		"locale and decimals": (locale.setlocale(locale.LC_ALL), repr(decimal.getcontext())),
		"processor affinity": os.sched_getaffinity(0),
		"environment": dict(os.environ),
		"working directory": os.getcwd(),
	}


def run(p, obs):
	r = np.random.default_rng(p["seed"])
	for name in p["names"]:
		c = make(name, r)
		before = [snap(x) for x in c.inputs]
		w0 = world()
		seed = None if p["unseeded"] else int(r.integers(1 << 30))
		apis.SINK.arrays = raw = []
		out = c.go(seed)
		apis.SINK.arrays = None
		w1 = world()
		after = [snap(x) for x in c.inputs]
		obs.check(before == after, "a call modified its arguments", call=name, which=[i for i, (a, b) in enumerate(zip(before, after)) if a != b])
		for key in w0:
			obs.check(w0[key] == w1[key], "a call changed a global setting", call=name, setting=key)
		for x in raw:  # results belong to the caller, who may overwrite them
			if x.flags.writeable and name != "special":
				x[...] = 7.25
				obs.count("results_overwritten")
		if raw and name != "special":
			obs.check([snap(x) for x in c.inputs] == before, "a result shares memory with an argument", call=name)
			if not p["unseeded"] and c.same:
				again = c.go(seed)
				same = len(again) == len(out) and all(x.shape == y.shape and np.allclose(x, y, rtol=c.tol, atol=c.tol * (1e-300 + np.nanmax(np.abs(x[np.isfinite(x)]), initial=0.0)), equal_nan=True) for x, y in zip(again, out))
				obs.check(same, "overwriting a result changes the next one", call=name)
				obs.count("repeats_after_overwriting")
		obs.count("global_state_checks", len(w0))
		obs.count("argument_snapshots", len(before))
		obs.count("read_only_arguments", sum(isinstance(x, np.ndarray) and not x.flags.writeable for x in c.inputs))
		obs.count("unseeded_calls", p["unseeded"])
		obs.count("results_owned", len(out) > 0)
		obs.count("calls")
		obs.count("call_" + name)
		stateful(obs, r)
		failing(obs, r)
		degenerate(obs, r)
		obs.sig(name, p["unseeded"], [b[:3] if b[0] in ("nd", "sp") else b[0] for b in before])


def stateful(obs, r):
	"""Objects with a state answer the same after an answer of theirs was overwritten."""
	from primate.estimators import MeanEstimator
	from primate.operators import MatrixFunction, Toeplitz
	from primate.random import isotropic
	from primate.stats import Covariance, Mean

	kind = int(r.integers(6))
	n = int(r.integers(2, 8))
	X = r.normal(size=(5, n))
	if kind == 0:
		D = X.T @ X + np.eye(n)
		M = MatrixFunction(D, fun=pick(r, [np.exp, None, "identity"]), deg=n, orth=n)
		asks = [lambda: M @ X[0], lambda: M.quad(X[1]), lambda: M @ X[:3].T, lambda: M.quad(X[:2].T), lambda: M.matvec(X[2])]
	elif kind == 1:
		T = Toeplitz(X[0], X[1])
		asks = [lambda: T @ X[2], lambda: T @ X[:2].T, lambda: T.matvec(X[3][:, None])]
	elif kind == 2:
		e = MeanEstimator(dim=n, covariance=bool(r.random() < 0.5), record=True)
		e.update(X)
		asks = [lambda: e.estimate, lambda: e.mean() if callable(e.mean) else e.mean]
	elif kind == 3:
		c = Covariance(dim=n)
		c.update(X)
		asks = [lambda: c.mean(), lambda: c.covariance(), lambda: c(ddof=0)]
	elif kind == 4:
		m = Mean(dim=n)
		m.update(X)
		asks = [lambda: m.mean(), lambda: m()]
	else:
		seed = int(r.integers(1 << 30))
		a, b = isotropic(pdf="normal", seed=seed), isotropic(pdf="normal", seed=seed)
		x = a((n, 3))
		x[...] = 7.25
		b((n, 3))
		obs.check(np.array_equal(a((n, 3)), b((n, 3))), "overwriting a sample changes the next one")
		obs.count("stateful_objects")
		return
	first = [np.array(f(), copy=True) for f in asks]
	for f in asks:
		y = f()
		if isinstance(y, np.ndarray) and y.flags.writeable:
			y[...] = 7.25
	for i, (f, x) in enumerate(zip(asks, first)):
		obs.check(np.allclose(f(), x, rtol=1e-9, atol=1e-12), "overwriting an answer changes the object that gave it", object=kind, which=i)
	obs.count("stateful_objects")


class Break(Exception):
	pass


class Breaking:
	"""An operator that fails at one of its calls; also a callback, a criterion and a spectral function."""

	def __init__(self, A, at):
		self.A, self.at, self.shape, self.dtype = A, at, A.shape, A.dtype

	def tick(self):
		self.at -= 1
		if self.at == 0:
			raise Break("injected")

	def matvec(self, x):
		self.tick()
		return self.A @ np.asarray(x).reshape(-1)

	def __matmul__(self, X):
		self.tick()
		return self.A @ X

	@property
	def T(self):
		return self


def failing(obs, r):
	"""Calls that fail in user code or reject their arguments leave the settings alone as well, and their arguments."""
	from primate import diagonal, integrate, lanczos, operators, random as prandom, special, stats, trace, tridiag

	n = int(r.integers(3, 12))
	X = r.normal(size=(n, n))
	A = X @ X.T + np.eye(n)
	v = r.normal(size=n)
	keep, vkeep = A.copy(), v.copy()
	op = Breaking(A, int(r.integers(1, 6)))
	ok = Breaking(A, 0)
	boom = lambda *a: op.tick()
	fun = lambda x: (op.tick(), np.exp(x))[1]
	calls = [
		lambda: trace.hutch(op, converge="count", count=9, seed=1),
		lambda: trace.hutch(ok, converge="count", count=9, seed=1, callback=boom, full=True),
		lambda: trace.hutch(operators.MatrixFunction(ok, fun=fun, deg=3), converge="count", count=9, batch=2, seed=1),
		lambda: trace.hutchpp(op, m=6, seed=1),
		lambda: trace.xtrace(op, batch=1, seed=1),
		lambda: trace.xtrace(ok, batch=1, seed=1, callback=boom),
		lambda: diagonal.diag(op, converge="count", count=9, seed=1),
		lambda: diagonal.diag(ok, converge="count", count=9, seed=1, callback=boom),
		lambda: diagonal.xdiag(op, m=4, seed=1),
		lambda: lanczos.lanczos(op, v0=v, deg=n),
		lambda: lanczos.rayleigh_ritz(op, v0=v, deg=n),
		lambda: operators.MatrixFunction(op, fun=np.exp, deg=n) @ v,
		lambda: operators.MatrixFunction(op, fun=np.exp, deg=n).quad(v),
		lambda: trace.xtrace(np.outer(v, v), seed=1),
		lambda: lanczos.lanczos(A[:-1], v0=v),
		lambda: trace.hutch(A, pdf="unknown"),
		lambda: trace.hutch(A, converge="unknown"),
		lambda: tridiag.eigh_tridiag(v, v),
		lambda: tridiag.eigvalsh_tridiag(np.full(n, np.nan), np.zeros(n), method="tqli"),
		lambda: integrate.quadrature(v, v, quad="unknown"),
		lambda: prandom.isotropic(n, pdf="unknown"),
		lambda: prandom.isotropic(pdf="normal", out=np.zeros(n, dtype=int)),
		lambda: prandom.symmetric(n, dist="unknown"),
		lambda: prandom.Isotropic((n, 3), pdf="unknown", threads=2),
		lambda: special.param_callable("unknown"),
		lambda: stats.confidence_interval(v, 1.5),
		lambda: operators.Toeplitz(v) @ np.ones(n + 1),
		lambda: operators.MatrixFunction(A, fun="unknown"),
	]
	i = int(r.integers(len(calls)))
	w0 = world()
	try:
		calls[i]()
	except Exception:  # which of these fail, and how, is judged elsewhere
		obs.count("failing_calls")
	w1 = world()
	for key in w0:
		obs.check(w0[key] == w1[key], "a call that failed changed a global setting", call=i, setting=key)
	obs.check(np.array_equal(A, keep) and np.array_equal(v, vkeep), "a call that failed changed its arguments", call=i)


def degenerate(obs, r):
	"""Inputs at the edge (zeros, single or equal samples, singular functions, rank one) leave the settings alone as well."""
	from primate import diagonal, integrate, lanczos, linalg, operators, random as prandom, special, stats, trace, tridiag
	from primate.estimators import ConfidenceCriterion, ControlVariableEstimator, CountCriterion, KneeCriterion, MeanEstimator, ToleranceCriterion

	n = int(r.integers(1, 8))
	Z, z, one = np.zeros((n, n)), np.zeros(n), np.ones(n)
	x = r.normal(size=n)
	samples = pick(r, [[], [1.0], [0.0], [0.0] * 4, [2.0] * 4, [1.0, -1.0, 0.0], [1.0, -1.0, 2.0, -2.0], [3.0] * 40, [1.0, -1.0] * 20, [1e300, -1e300, 1e300], [1e-320, -1e-320, 0.0], [np.inf, 1.0, 2.0], [np.nan, 1.0, 2.0]])
	e = MeanEstimator(covariance=True, record=True)
	if samples:
		e.update(samples)
	crit = pick(r, [ConfidenceCriterion(0.95, atol=0.0, rtol=0.01), ConfidenceCriterion(0.9, atol=1.0, rtol=0.0), ToleranceCriterion(rtol=0.1, atol=0.0), KneeCriterion(), CountCriterion(2)])
	cv = ControlVariableEstimator(ecv=0.0)
	fun = pick(r, ["log", "inv", "sqrt", "exp", "abs", "numrank", "softsign", "smoothstep"])
	calls = [
		*([lambda: crit(e), lambda: crit.message(e)] * 5),
		lambda: (cv.update(np.zeros((1, 2))), cv.estimate, cv.update(np.zeros((3, 2))), cv.estimate),
		lambda: trace.hutch(Z, converge=ConfidenceCriterion(0.9, atol=0.0, rtol=0.1) | CountCriterion(9), seed=1),
		lambda: trace.hutch(np.diag(x), converge="tolerance", seed=1, full=True),
		lambda: trace.hutch(np.diag(np.where(np.arange(n) % 2, 1.0, -1.0)), converge=ConfidenceCriterion(0.9, atol=0.0, rtol=0.1) | CountCriterion(9), seed=1, full=True),
		lambda: trace.hutch(operators.MatrixFunction(Z, fun=fun, deg=2), converge="count", count=3, seed=1),
		lambda: trace.hutchpp(Z, m=3, seed=1),
		lambda: trace.xtrace(Z, seed=1),
		lambda: diagonal.diag(Z, seed=1, converge="count", count=5),
		lambda: diagonal.diag(Z, seed=1, pdf=lambda size: np.zeros(size if isinstance(size, tuple) else (size, 1)), converge="count", count=3, full=True),
		lambda: diagonal.xdiag(Z, seed=1),
		lambda: lanczos.lanczos(Z, v0=one),
		lambda: lanczos.lanczos(Z, v0=z),
		lambda: lanczos.rayleigh_ritz(np.eye(n), v0=z),
		lambda: operators.MatrixFunction(Z, fun=fun, deg=2) @ one,
		lambda: operators.MatrixFunction(Z, fun=fun, deg=2).quad(np.c_[one, z]),
		lambda: operators.normalize_unit(np.zeros((n + 2, n + 2))) @ np.ones(n + 2),
		lambda: operators.Toeplitz(z) @ one,
		lambda: tridiag.eigh_tridiag(z, z[1:], method="tqli"),
		lambda: integrate.quadrature(z, z, quad=pick(r, ["gw", "fttr"])),
		lambda: linalg.update_trinv(Z, np.zeros(n + 1)),
		lambda: special.param_callable(fun)(np.array([0.0, -1.0, 1e308, -np.inf, np.nan])),
		lambda: stats.confidence_interval(np.array(samples), 0.95, sdist=pick(r, ["t", "normal"])),
		lambda: prandom.symmetric(n, ew=np.zeros(n), seed=1),
		lambda: prandom.isotropic((0, 3), pdf="sphere", seed=1),
	]
	i = int(r.integers(len(calls)))
	w0 = world()
	try:
		calls[i]()
	except Exception:  # judged elsewhere
		obs.count("degenerate_calls_that_raised")
	w1 = world()
	for key in w0:
		obs.check(w0[key] == w1[key], "a call with degenerate input changed a global setting", call=i, setting=key)
	obs.count("degenerate_calls")
