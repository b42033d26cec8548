"""A failure of user code reaches the caller unchanged, at once, and leaves everything usable."""

import gc
import weakref

import numpy as np

from ..gens import design, pick, size, sym

PROPERTY = "C32"
COUNTS = {"quick": 4000, "thorough": 60000}
REQUIRED = ["clean_runs", "fault_points", "operator_faults", "block_faults", "sampler_faults", "callback_faults", "criterion_faults", "function_faults", "native_faults", "base_exceptions", "reruns", "released_operators", "released_arrays", "first_call_faults", "last_call_faults"]
LEVEL = "fault_enumeration"
RULE = (
	"a clean run of an entry point with counting user code (operator, sampler, callback, criterion, spectral function) fixes the "
	"number of calls; then a fault is injected at every one of them (up to 14 points, first and last included) with one of 24 exception types, "
	"ordinary and BaseException; afterwards the run is repeated with the same objects and compared; objects are dropped and "
	"must be released; keyed by (entry point, faulting part, call number, exception)"
)
ASSUMES = ["probing calls that query the operator's dtype count as calls of the operator"]


class Boom(Exception):
	pass


class Halt(BaseException):
	pass


KINDS = {"boom": Boom, "halt": Halt, "stop": StopIteration, "memory": MemoryError, "interrupt": KeyboardInterrupt, "value": ValueError}
KINDS |= {k.__name__: k for k in (AssertionError, AttributeError, ZeroDivisionError, FloatingPointError, OverflowError, ArithmeticError, TypeError, KeyError, IndexError, RuntimeError, NotImplementedError, RecursionError, OSError, TimeoutError, GeneratorExit, SystemExit, UserWarning, np.linalg.LinAlgError)}


def gen(rng, i, tier):
	return {
		"api": pick(rng, ["hutch", "hutch", "hutch_quad", "hutchpp", "xtrace", "diag", "xdiag", "lanczos", "lanczos", "rayleigh_ritz", "matfun", "quad"]),
		"part": pick(rng, ["operator", "operator", "sampler", "callback", "criterion", "function"]),
		"n": size(rng, 3, 16, 40),
		"exc": pick(rng, list(KINDS)),
		"batch": int(rng.integers(1, 5)),
		"rounds": int(rng.integers(1, 5)),
		"seed": int(rng.integers(1 << 30)),
	}


class Plan:
	"""Counts the calls of the user code of a run, and fails the chosen one."""

	def __init__(self, exc):
		self.n, self.at, self.exc, self.thrown, self.after = 0, None, exc, None, 0

	def tick(self):
		if self.thrown is not None:
			self.after += 1
		self.n += 1
		if self.at is not None and self.n == self.at:
			self.thrown = self.exc("injected")
			raise self.thrown

	def arm(self, at):
		self.n, self.at, self.thrown, self.after = 0, at, None, 0


class Op:
	"""An operator written by a user."""

	def __init__(self, A, plan):
		self.A, self.plan, self.shape, self.dtype, self.given = A, plan, A.shape, A.dtype, []

	def _give(self, y):
		self.given.append(weakref.ref(y))
		return y

	def _tick(self):
		if self.plan is not None:
			self.plan.tick()

	def matvec(self, x):
		self._tick()
		return self._give(self.A @ np.asarray(x).reshape(-1))

	def __matmul__(self, X):
		self._tick()
		return self._give(self.A @ X)

	@property
	def T(self):
		return self


def run(p, obs):
	from primate.diagonal import diag, xdiag
	from primate.estimators import ConvergenceCriterion, CountCriterion
	from primate.lanczos import lanczos, rayleigh_ritz
	from primate.operators import MatrixFunction
	from primate.trace import hutch, hutchpp, xtrace

	n, api, part = p["n"], p["api"], p["part"]
	r = np.random.default_rng(p["seed"])
	S = sym("indef", n, p["seed"])
	A = S @ S + 0.5 * np.eye(n)
	plan = Plan(KINDS[p["exc"]])
	estimators = ("hutch", "hutch_quad", "xtrace", "diag")
	if part in ("callback", "criterion") and api not in estimators:
		part = "operator"
	if part == "sampler" and api not in (*estimators, "hutchpp"):
		part = "operator"
	if part == "function" and api not in ("hutch_quad", "matfun", "quad"):
		part = "operator"
	op = Op(A, plan if part == "operator" else None)
	draw = design("random", p["seed"])
	v = r.normal(size=n)
	deg = int(r.integers(2, n + 1))
	stop = p["batch"] * p["rounds"] if api in ("hutch", "hutch_quad") else p["rounds"]
	stop = min(stop, n) if api == "xtrace" else stop

	def fun(x):
		if part == "function":
			plan.tick()
		return np.exp(x)

	M = MatrixFunction(op, fun=fun, deg=deg, orth=deg) if api in ("hutch_quad", "matfun", "quad") else None

	def pdf(size=None):
		if part == "sampler":
			plan.tick()
		m, k = (size, 1) if np.isscalar(size) else size
		cols = [draw(m, pdf.k + j) for j in range(k)]
		pdf.k += k
		return np.array(cols).T.reshape(m, k)

	def callback(res):
		if part == "callback":
			plan.tick()

	def query(est):
		if part == "criterion":
			plan.tick()
		return len(est) >= stop

	def go():
		pdf.k = 0
		kw = {"pdf": pdf, "converge": ConvergenceCriterion(query), "full": True, "callback": callback}
		if api == "hutch":
			return hutch(op, batch=p["batch"], **kw)[0]
		if api == "hutch_quad":
			return hutch(M, batch=p["batch"], **kw)[0]
		if api == "xtrace":
			return xtrace(op, batch=p["batch"], **kw)[0]
		if api == "diag":
			return diag(op, **kw)[0]
		if api == "hutchpp":
			return hutchpp(op, m=3, pdf=pdf if part == "sampler" else "rademacher", seed=5)
		if api == "xdiag":
			return xdiag(op, m=4, pdf="sphere", seed=3)
		if api == "lanczos":
			return np.concatenate(lanczos(op, v0=v, deg=deg, orth=deg))
		if api == "rayleigh_ritz":
			return rayleigh_ritz(op, deg=deg, orth=deg, seed=7)
		if api == "matfun":
			return np.ravel(M @ v)
		return M.quad(v)

	plan.arm(None)
	want = np.array(go(), copy=True)
	total = plan.n
	obs.count("clean_runs")
	if not obs.check(total >= 1, "the user code was never called", api=api, part=part):
		return
	points = sorted({1, total, *(int(k) for k in r.integers(1, total + 1, size=12))})
	for at in points:
		plan.arm(at)
		caught = None
		try:
			go()
		except BaseException as ex:  # noqa: BLE001
			caught = ex
		w = {"api": api, "part": part, "call": at, "of": total, "exception": p["exc"]}
		if plan.thrown is None:
			obs.check(False, "the number of calls of the user code varies between equal runs", **w)
			continue
		obs.check(caught is not None, "the failure of user code was swallowed", **w)
		if caught is not None:
			chain, seen = caught, []
			while chain is not None and chain is not plan.thrown and chain not in seen:
				seen.append(chain)
				chain = chain.__cause__ or chain.__context__
			obs.check(caught is plan.thrown, "the failure of user code was replaced by another exception", got=repr(caught), linked=chain is plan.thrown, **w)
		obs.check(plan.after == 0, "user code was called again after it had failed", calls=plan.after, **w)
		obs.count("fault_points")
		obs.count(part + "_faults")
		obs.count("block_faults", part == "operator" and api in ("hutch", "hutchpp", "xtrace", "xdiag"))
		obs.count("native_faults", part == "operator" and api in ("lanczos", "rayleigh_ritz", "matfun", "quad", "hutch_quad"))
		obs.count("base_exceptions", p["exc"] in ("halt", "interrupt", "GeneratorExit", "SystemExit"))
		obs.count("first_call_faults", at == 1)
		obs.count("last_call_faults", at == total)
		obs.sig(api, part, at, total, p["exc"])
		plan.thrown = None
		caught = chain = None
		seen = []
		plan.arm(None)
		again = go()
		obs.close(again, want, 1e-9 * (1 + np.abs(want)), "the result after a failure differs from the one before", **w)
		obs.count("reruns")
	ref, given = weakref.ref(op), op.given
	again = None
	plan.thrown = None
	del go, M, op
	fun = pdf = callback = query = None
	gc.collect()
	obs.check(ref() is None, "an operator is kept alive after use", api=api, part=part)
	obs.check(all(g() is None for g in given), "arrays answered by the operator are kept alive", api=api, part=part, kept=sum(g() is not None for g in given), of=len(given))
	obs.count("released_operators")
	obs.count("released_arrays", len(given))
