"""Calls keep nothing: no growth of either heap, no threads, no files, no references; memory does not follow the samples."""

import ctypes
import gc
import os
import sys
import time
import tracemalloc
import weakref

import numpy as np
import scipy.sparse as ss

from .. import apis
from ..gens import pick, size, sym

PROPERTY = "C33"
COUNTS = {"quick": 3000, "thorough": 40000}
REQUIRED = ["repeated_calls", "windows", "native_measurements", "released_objects", "objects_behind_results", "peaks_compared", "growth_checks", "heap_samples", "samples_streamed", "widths_seen", "threads_ended", "file_checks", "failed_calls", "own_early_stop", "own_failing"]
RULE = (
	"every public entry point is repeated with fresh arguments of one shape in windows of 5 to 25 calls until one shows no growth (up to 360 calls), and both heaps "
	"(sys.getallocatedblocks and mallinfo2), the threads and the open files are measured around each; weak references to operators, arrays, "
	"samplers, callbacks, criteria and functions must die with their last use outside; the heaps are sampled every 32 operator "
	"calls of runs of 500 samples; peaks of low- and high-degree expansions are compared; keyed by (entry point or object, size, options)"
)
ASSUMES = [
	"a leak keeps at least one Python block or 32 bytes on every call; a growth that pauses is a cache being filled",
	"memory that LAPACK or Eigen allocates and frees within a call is not part of a peak",
]


class Info(ctypes.Structure):
	_fields_ = [(k, ctypes.c_size_t) for k in ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]


LIBC = ctypes.CDLL(None)
LIBC.mallinfo2.restype = Info


def native():
	m = LIBC.mallinfo2()
	return m.uordblks + m.hblkhd


def threads():
	return len(os.listdir("/proc/self/task"))


def files():
	return len(os.listdir("/proc/self/fd"))


UNSETTLED: list = []


def settled(f, want, seconds=40.0):
	"""The value once it is at most the wanted one; a reading while threads end may miss some, hence no second look."""
	end = time.time() + (1.0 if UNSETTLED else seconds)
	while (now := f()) > want and time.time() < end:
		time.sleep(0.005)
	if now > want:
		UNSETTLED.append(now)  # a violation: what follows need not be waited for as patiently
	return now


def steady(f):
	return max(f(), time.sleep(0.001) or f(), time.sleep(0.001) or f())


def gen(rng, i, tier):
	return {
		"case": pick(rng, ["repeat", "repeat", "repeat", "refs", "refs", "peak", "peak", "threads"]) if i >= len(NAMES) else "repeat",
		"name": NAMES[i] if i < len(NAMES) else pick(rng, NAMES + list(OWN) * 3),
		"api": pick(rng, ["hutch", "hutch", "hutch_quad", "diag", "hutchpp", "xtrace", "xdiag", "lanczos", "rayleigh_ritz", "matfun", "criteria"]),
		"peak": pick(rng, ["hutch", "hutch", "hutch_quad", "diag", "estimator", "lanczos", "rayleigh_ritz", "toeplitz", "fttr"]),
		"n": size(rng, 2, 40, 300),
		"full": bool(rng.random() < 0.5),
		"callback": bool(rng.random() < 0.5),
		"own": bool(rng.random() < 0.4),
		"fails": bool(rng.random() < 0.3),
		"batch": int(rng.integers(1, 9)),
		"conv": pick(rng, ["count", "tolerance", "confidence", "both"]),
		"seed": int(rng.integers(1 << 30)),
	}


def run(p, obs):
	gc.disable()
	try:
		{"repeat": repeat, "refs": refs, "peak": peak, "threads": pool}[p["case"]](p, obs, np.random.default_rng(p["seed"]))
	finally:
		if tracemalloc.is_tracing():
			tracemalloc.stop()
		gc.enable()


def early_stop(p, r):
	"""Expansions that reach an invariant subspace, with and without basis, in both precisions."""
	from primate.lanczos import lanczos, rayleigh_ritz
	from primate.operators import MatrixFunction

	n = p["n"]
	A = (np.eye(n) if p["full"] else sym("lowrank", n, p["seed"])).astype("f4" if p["callback"] else "f8")
	A = A if p["batch"] % 3 == 0 else Op(A) if p["batch"] % 3 == 1 else ss.csr_array(A)
	lanczos(A, seed=1, orth=-1, return_basis=bool(p["batch"] % 2))
	rayleigh_ritz(A, seed=1, deg=min(n, 5))
	M = MatrixFunction(A, fun="exp", deg=min(max(n, 2), 5), dtype=A.dtype)
	M.quad(np.ones(n)), M @ np.zeros(n), M.quad(np.zeros((n, 2)))


def failing(p, r):
	"""Operators that raise half way, and arguments that are refused."""
	from primate.integrate import quadrature
	from primate.lanczos import lanczos
	from primate.operators import MatrixFunction
	from primate.random import Isotropic, isotropic
	from primate.trace import hutch, xtrace
	from primate.tridiag import eigh_tridiag

	n = max(p["n"], 3)
	A = sym("psd", n, p["seed"])
	bad = lambda k=2: Op(A, fails_at=k)
	M = MatrixFunction(A, deg=2)
	for f in (
		lambda: lanczos(bad(3), deg=n, orth=-1, return_basis=p["full"]),
		lambda: MatrixFunction(bad(), deg=2) @ np.ones(n),
		lambda: MatrixFunction(bad(), deg=2).quad(np.ones((n, 2))),
		lambda: hutch(bad(3), batch=2, full=p["full"]),
		lambda: xtrace(bad(2), batch=2),
		lambda: lanczos(A, v0=np.ones(n + 1)),
		lambda: lanczos(A, deg=0),
		lambda: lanczos(A[:, :-1]),
		lambda: lanczos(A, alpha=np.zeros(1)),
		lambda: M @ np.ones(n + 1),
		lambda: M.quad(np.ones((n - 1, 2))),
		lambda: quadrature(np.ones(n), np.ones(n + 3)),
		lambda: quadrature(np.ones(n), np.zeros(n), quad="?"),
		lambda: eigh_tridiag(np.ones(n), np.ones(n + 2), method="tqli"),
		lambda: isotropic((n, 2), pdf="?"),
		lambda: Isotropic((n, 2), pdf="?"),
		lambda: hutch(A, converge="?"),
	):
		try:
			f()
		except Exception:
			continue


OWN = {"early_stop": early_stop, "failing": failing}
NAMES = [*OWN, *apis.NAMES]


def traced(go, window, k=40):
	"""The source lines whose blocks survive at least once per call, in each of four windows.

	Growth spread over lines is NumPy's and CPython's caches being filled; what a call keeps was made somewhere.
	"""
	tracemalloc.start(1)
	go(), go()
	kept, last = None, None
	for _ in range(5):
		gc.collect()
		snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(False, tracemalloc.__file__)])
		now = {(s.traceback[0].filename, s.traceback[0].lineno): s.count for s in snap.statistics("lineno")}
		if last is not None:
			grown = {x for x in now if now[x] - last.get(x, 0) >= k}
			kept = grown if kept is None else kept & grown
		last = now
		del snap
		for _ in range(k):
			go()
	tracemalloc.stop()
	return sorted(f"{f}:{i}" for f, i in kept)


def repeat(p, obs, r):
	"""A leak costs at least one block on every call for ever; caches that fill up do not."""

	def go():
		go.j += 1
		if p["name"] in OWN:
			OWN[p["name"]](p, np.random.default_rng(p["seed"]))
			obs.count("own_" + p["name"])
		else:
			apis.make(p["name"], np.random.default_rng(p["seed"])).go(None if p["full"] else go.j)
		obs.count("repeated_calls")

	def window(k):
		for _ in range(k):
			go()
		if p["name"] == "Isotropic":  # the pools of dropped samplers end in their own time
			gc.collect()
			settled(threads, n_threads)
		gc.collect()
		obs.count("windows")
		obs.count("native_measurements")
		now = sys.getallocatedblocks(), native()
		grown = (now[0] - window.last[0]) / k, (now[1] - window.last[1]) / k
		window.last = now
		return grown

	go.j = 0
	apis.SINK.arrays = None
	gc.collect()
	gc.freeze()
	n_threads = steady(threads)
	go()
	n_files, window.last = files(), (0, 0)
	window(3)
	py, nat = [], []
	for k in [5] * 4 + [10] * 4 + [25] * 12:  # until one window shows no leak
		g = window(k)
		py.append(g[0])
		nat.append(g[1])
		if min(py) < 1 and min(nat) < 32:
			break
	lines = traced(go, window) if min(py) >= 1 else []
	gc.unfreeze()
	obs.count("heaps_traced", min(py) >= 1)
	obs.check(not lines, "the Python heap grows with every call", call=p["name"], blocks_per_call=py, kept_at=lines)
	obs.check(min(nat) < 32, "the native heap grows with every call", call=p["name"], bytes_per_call=nat)
	obs.check(files() <= n_files, "calls leave files open", call=p["name"])
	obs.count("file_checks")
	left = settled(threads, n_threads) - n_threads
	obs.check(left <= 0, "calls leave threads behind", call=p["name"], left=left)
	obs.sig("repeat", p["name"], p["seed"] % 97)


class Op:
	"""An operator written by a user, with what it was asked."""

	def __init__(self, A, fails_at=None):
		self.A, self.shape, self.dtype, self.calls, self.fails_at, self.width, self.held = A, A.shape, A.dtype, 0, fails_at, 0, None

	def _tick(self):
		self.calls += 1
		if self.held is not None:
			self.watch()
		if self.fails_at is not None and self.calls >= self.fails_at:
			raise RuntimeError("injected")

	def watch(self):
		"""Samples both heaps at fixed points of a run."""
		if self.calls % 32 == 0:
			gc.collect()
			self.held.append((self.calls, sys.getallocatedblocks(), native()))

	def matvec(self, x):
		self._tick()
		return self.A @ np.asarray(x).reshape(-1)

	def __matmul__(self, X):
		self._tick()
		X = np.asarray(X)
		self.width = max(self.width, 1 if X.ndim == 1 else X.shape[1])
		return self.A @ X

	@property
	def T(self):
		return self


def refs(p, obs, r):
	"""What was handed over is dropped, first while the result is alive, then with it."""
	from primate import estimators as es
	from primate.diagonal import diag, xdiag
	from primate.lanczos import lanczos, rayleigh_ritz
	from primate.operators import MatrixFunction
	from primate.trace import hutch, hutchpp, xtrace

	n, api = p["n"], p["api"]
	A = sym("psd", n, p["seed"]) + np.eye(n)
	X = r.choice([-1.0, 1.0], size=(n, 64))
	inner, made = {}, {}  # of the operator and its like; of what a result may keep
	fails_at = int(r.integers(1, 5)) if p["fails"] else None
	inner["operator"] = op = Op(A, fails_at)
	inner["array"] = op.A
	state = {"i": 0}

	def sampler(size):
		k = size[1] if isinstance(size, tuple) else 1
		V = X[:, [(state["i"] + j) % X.shape[1] for j in range(k)]]
		state["i"] += k
		inner.setdefault("vectors", V)
		return V

	def callback(res):
		inner.setdefault("callback_result_values", np.array(res.estimate))

	def fun(x):
		return np.exp(x)

	class Criterion(es.ConvergenceCriterion):
		def __init__(self):
			self.seen = 0

		def __call__(self, est):
			self.seen += 1
			return len(est) >= 6

		def message(self, est):
			return "done"

	inner["sampler"], inner["function"] = sampler, fun
	made["criterion"] = crit = Criterion()
	if p["conv"] != "count":
		crit = {"tolerance": crit | es.ToleranceCriterion(0, 0), "confidence": ~~crit, "both": crit | (es.CountCriterion(3) & ~es.CountCriterion(3))}[p["conv"]]
		made["composite"] = crit
	kw = {"full": p["full"]} | ({"callback": callback} if p["callback"] else {})
	if p["callback"]:
		inner["callback"] = callback

	def call():
		v = np.array(X[:, 0]) + 0.5
		inner["vector"] = v
		deg = min(n, 6)
		if api in ("hutch", "hutch_quad"):
			B = op if api == "hutch" else MatrixFunction(op, fun=fun, deg=max(deg, 2))
			return hutch(B, batch=p["batch"], pdf=sampler, converge=crit, **kw)
		if api == "diag":
			return diag(op, pdf=sampler, converge=crit, **kw)
		if api == "hutchpp":
			return hutchpp(op, m=min(n, 3), pdf=sampler, full=p["full"])
		if api == "xtrace":
			return xtrace(op, batch=p["batch"], pdf=sampler, converge=crit, **kw)
		if api == "xdiag":
			return xdiag(op, m=2 * min(n, 3), pdf="normal", seed=1)
		if api == "lanczos":
			return lanczos(op, v0=v, deg=deg, orth=deg, return_basis=p["full"])
		if api == "rayleigh_ritz":
			return rayleigh_ritz(op, v0=v, deg=deg, orth=deg)
		if api == "matfun":
			M = MatrixFunction(op, fun=fun, deg=max(deg, 2))
			return M @ v, M.quad(v), M @ X[:, :2]
		est = es.MeanEstimator(covariance=True, record=True)
		est.update(v)
		crit(est), crit.message(est), es.ConfidenceCriterion()(est)
		return est.estimate

	failed = None
	out = None
	try:
		out = call()
	except RuntimeError as ex:
		failed = str(ex)
		obs.count("failed_calls")
	except np.linalg.LinAlgError:  # hutchpp, xtrace and xdiag with dependent vectors
		pass
	obs.check(failed is None or (failed == "injected" and p["fails"]), "unexpected failure", error=failed)
	dead = {k: weakref.ref(v) for k, v in inner.items()}
	late = {k: weakref.ref(v) for k, v in made.items()}
	inner.clear()
	made.clear()
	del op, A, sampler, callback, fun, crit, kw, call, X
	gc.collect()
	alive = [k for k, w in dead.items() if w() is not None]
	obs.check(not alive, "a call keeps what it was given alive", api=api, kept=alive, result_alive=out is not None, failed=failed)
	obs.count("objects_behind_results", len(dead) * (out is not None))
	out = None
	gc.collect()
	alive = [k for k, w in (dead | late).items() if w() is not None]
	obs.check(not alive, "dropping the result does not release what it was made of", api=api, kept=alive, failed=failed)
	obs.count("released_objects", len(dead) + len(late))
	obs.sig("refs", api, p["full"], p["callback"], fails_at, p["conv"], n)


def top(f):
	"""The highest number of bytes held during f, above those held before."""
	gc.collect()
	tracemalloc.start()
	f()
	tracemalloc.stop()  # the first run pays for caches
	gc.collect()
	tracemalloc.start()
	before = tracemalloc.get_traced_memory()[0]
	tracemalloc.reset_peak()
	f()
	t = tracemalloc.get_traced_memory()[1] - before
	tracemalloc.stop()
	return t


def peak(p, obs, r):
	from primate import estimators as es
	from primate.diagonal import diag
	from primate.integrate import quadrature
	from primate.lanczos import lanczos, rayleigh_ritz
	from primate.operators import MatrixFunction, Toeplitz
	from primate.trace import hutch

	what, n, b = p["peak"], p["n"], p["batch"]
	if what == "diag" and p["conv"] == "confidence":
		p = p | {"conv": "tolerance"}  # diag has no interval
	obs.sig("peak", what, n, b, p["full"], p["callback"], p["conv"])
	if what in ("hutch", "hutch_quad", "diag", "estimator"):
		A = sym("psd", n, p["seed"]) + np.eye(n)
		op = Op(A)
		k = 1600 if what == "estimator" else 500

		def go(k):
			never = es.ToleranceCriterion(atol=0.0, rtol=0.0)
			base = {"count": es.CountCriterion, "tolerance": es.ToleranceCriterion, "confidence": es.ConfidenceCriterion, "both": es.ConvergenceCriterion}[p["conv"]]

			class Mine(base):  # a user's own criterion
				def __init__(self):
					pass

				def __call__(self, est):
					return len(est) >= k

				def message(self, est):
					return ""

			crit = Mine() if p["own"] else {"count": es.CountCriterion(k), "tolerance": never | es.CountCriterion(k), "confidence": es.ConfidenceCriterion(atol=0.0, rtol=0.0) | es.CountCriterion(k), "both": ~~es.CountCriterion(k)}[p["conv"]]
			kw = {"converge": crit, "seed": 3, "full": p["full"], "pdf": "normal"} | ({"callback": lambda res: None} if p["callback"] else {})
			if what == "estimator":
				dim = 1 if p["conv"] == "confidence" else min(n, 20)
				est = es.MeanEstimator(dim=dim, covariance=p["full"] or dim == 1) if n % 2 or dim == 1 else es.ControlVariableEstimator(np.zeros(dim - 1))
				x = r.normal(size=(b, dim))
				for j in range(k // b):
					op.calls += 1
					est.update(x + j)
					crit(est)
					if op.held is not None:
						op.watch()
			elif what == "diag":
				diag(op, **kw)
			else:
				hutch(op if what == "hutch" else MatrixFunction(op, fun="exp", deg=min(max(n, 2), 4)), batch=b, **kw)

		go(40)
		gc.collect()
		gc.freeze()
		op.calls, op.held = 0, []
		go(k)
		gc.unfreeze()
		obs.count("samples_streamed", k)
		obs.count("heap_samples", len(op.held))
		if len(op.held) > 4:
			step = np.diff(np.array(op.held, dtype=float)[1:], axis=0)
			blocks, raw = step[:, 1] / step[:, 0], step[:, 2] / step[:, 0]
			obs.check(min(blocks) < 1, "the memory held grows with the number of samples", of=what, blocks_per_product=blocks, n=n, batch=b)
			obs.check(min(raw) < 32, "the memory held grows with the number of samples", of=what, bytes_per_product=raw, n=n, batch=b)
			obs.count("growth_checks")
		if what in ("hutch", "diag"):
			limit = b if what == "hutch" and (p["full"] or p["callback"]) else max(b, 1)
			obs.check(op.width <= limit, "the operator was given more vectors at once than the batch", width=op.width, batch=b)
			obs.count("widths_seen")
	elif what in ("lanczos", "rayleigh_ritz"):
		n = 1500 + 5 * n
		d = r.uniform(1, 2, size=n)

		class Diag:
			shape, dtype = (n, n), np.dtype(float)

			def matvec(self, x):
				return d * np.asarray(x).reshape(-1)

			__matmul__ = matvec

		f = lanczos if what == "lanczos" else rayleigh_ritz
		lo, hi = (top(lambda: f(Diag(), deg=k, orth=0, seed=1)) for k in (8, 64))
		obs.check(hi <= lo + 64 * 64 * 8 + 8 * n, "an expansion without basis holds its vectors", of=what, small=lo, large=hi, n=n)
	elif what == "toeplitz":
		n = 800 + 4 * n
		c, x = r.normal(size=n), r.normal(size=n)
		t = top(lambda: Toeplitz(c) @ x)
		obs.check(t <= 60 * 8 * n, "a Toeplitz product uses more than linear memory", bytes=t, n=n)
	else:
		n = 300 + n
		a, e = r.normal(size=n), np.append([0.0], r.uniform(0.5, 1, size=n - 1))
		t = top(lambda: quadrature(a, e, deg=n, quad="fttr"))
		obs.check(t <= 60 * 8 * n, "the forward recurrence uses more than linear memory", bytes=t, n=n)
	obs.count("peaks_compared")


def pool(p, obs, r):
	from primate.random import Isotropic

	gc.collect()
	before, k = steady(threads), int(r.integers(1, 13))
	s = Isotropic((p["n"], int(r.integers(1, 30))), pdf="normal", seed=p["seed"], threads=k)
	for _ in range(int(r.integers(1, 4))):
		s.fill()
	obs.check(threads() <= before + k, "more threads than were asked for", got=threads() - before, asked=k)
	w = weakref.ref(s.values)
	del s
	gc.collect()
	left = settled(threads, before) - before
	obs.check(left <= 0, "the threads of a dropped sampler go on", left=left)
	obs.check(w() is None, "the samples of a dropped sampler stay in memory")
	obs.count("threads_ended", k)
	obs.sig("threads", k, p["n"])
