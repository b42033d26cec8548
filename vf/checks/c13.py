"""A matrix function answers independently of what it was asked before, and survives failing operators."""

import numpy as np
from scipy.sparse.linalg import LinearOperator

from ..gens import KINDS, pick, size, sym

PROPERTY = "C13"
COUNTS = {"quick": 10000, "thorough": 100000}
REQUIRED = ["operations", "matvecs", "quads", "faults_injected", "rejected_inputs", "early_terminations_before_full", "after_fault", "function_changes", "rough_functions", "long_histories"]
RULE = (
	"random histories (3 to 12 operations, sometimes 150) on one MatrixFunction: products and forms of random, zero, axis, eigen- and huge "
	"vectors and blocks, wrong-length inputs, changes of function, and operators that raise in the middle of an expansion; "
	"every answer is compared with that of a fresh object; keyed by the sequence of operation kinds"
)
ASSUMES = ["a fresh object performs the same floating-point operations; answers are compared to 1e-9 relative"]


class Faulty(LinearOperator):
	def __init__(self, A):
		super().__init__(dtype=A.dtype, shape=A.shape)
		self.A, self.left, self.raised = A, -1, 0

	def _matvec(self, x):
		if self.left == 0:
			self.left = -1
			self.raised += 1
			raise RuntimeError("injected fault")
		self.left -= self.left > 0
		return self.A @ x


def gen(rng, i, tier):
	n = size(rng, 2, 40, 120)
	orth = pick(rng, ["zero", "three", "deg", "neg"])
	steps = int(rng.integers(3, 12)) if rng.random() < 0.98 else int(rng.integers(30, 150))
	full = orth in ("deg", "neg") and rng.random() < 0.3  # expansions up to the full dimension need re-orthogonalization
	return {
		"kind": pick(rng, KINDS),
		"n": n,
		"deg": int(rng.integers(2, n + 2 if full else min(n, 14) + 2)),
		"orth": orth,
		"wave": bool(orth in ("deg", "neg") and rng.random() < 0.5),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"ops": [pick(rng, ["mv", "mv", "mv", "quad", "quad", "block", "mat", "bad", "fault_mv", "fault_quad", "fun"]) for _ in range(steps)],
		"vecs": [pick(rng, ["random", "random", "eig", "eig2", "zero", "axis", "huge", "tiny", "same"]) for _ in range(steps)],
		"dtype": pick(rng, ["f8", "f8", "f4"]),
	}


def run(p, obs):
	from primate.operators import MatrixFunction

	n = p["n"]
	A = sym(p["kind"], n, p["mseed"])
	A = (A / max(1.0, np.linalg.norm(A, 2))).astype(p["dtype"])
	lam, U = np.linalg.eigh(A.astype(float))
	r = np.random.default_rng(p["seed"])
	d = min(p["deg"], n)
	orth = {"zero": 0, "three": min(3, d), "deg": d, "neg": -1}[p["orth"]]
	wave = n if p["wave"] else 1.0  # a function that only a nearly full expansion resolves
	funs = [np.exp, lambda x: 1.0 / (3.0 + x), lambda x: x**2 - x, lambda x: np.cos(wave * x), lambda x: np.exp(x, out=x)]
	obs.count("rough_functions", wave > 1)
	obs.count("long_histories", len(p["ops"]) >= 30)
	op = Faulty(A)
	kw = {"deg": p["deg"], "orth": orth, "dtype": np.dtype(p["dtype"])}
	cur, last, faulted, early = 3 if p["wave"] else 0, None, False, False
	M = MatrixFunction(op, fun=funs[cur], **kw)

	def vec(kind):
		if kind == "same" and last is not None:
			return last
		if kind == "eig":
			return U[:, int(r.integers(n))].copy()
		if kind == "eig2":
			return U[:, int(r.integers(n))] + 2 * U[:, int(r.integers(n))]
		if kind == "zero":
			return np.zeros(n)
		if kind == "axis":
			return np.eye(n)[int(r.integers(n))]
		return r.normal(size=n) * {"huge": 1e12, "tiny": 1e-12}.get(kind, 1.0)

	def fresh():
		return MatrixFunction(Faulty(A), fun=funs[cur], **kw)

	for step, o in enumerate(p["ops"]):
		vk = p["vecs"][step]
		v = np.asarray(vec(vk)).astype(p["dtype"])
		obs.count("operations")
		sc = 1e-9 if p["dtype"] == "f8" else 1e-4
		if o in ("mv", "quad"):
			got = np.ravel(M @ v if o == "mv" else M.quad(v))
			g = fresh()
			want = np.ravel(g @ v if o == "mv" else g.quad(v))
			obs.count("matvecs" if o == "mv" else "quads")
			nv = float(np.linalg.norm(v.astype(float)))
			obs.close(got, want, sc * (nv if o == "mv" else nv**2) * 3, "the answer depends on earlier calls", step=step, op=o, vector=vk, history=p["ops"][:step])
			if faulted:
				obs.count("after_fault")
			if early and vk in ("random", "huge", "tiny"):
				obs.count("early_terminations_before_full")
			early = vk in ("eig", "eig2", "zero")
			last = v
		elif o in ("block", "mat"):
			X = np.c_[v, np.asarray(vec("random")), np.asarray(vec("eig"))].astype(p["dtype"])
			got = np.asarray(M.quad(X) if o == "block" else M @ X)
			want = np.array([np.ravel(fresh().quad(x) if o == "block" else fresh() @ x) for x in X.T])
			want = want.ravel() if o == "block" else want.T
			nv = float(np.linalg.norm(X.astype(float)))
			obs.count("quads" if o == "block" else "matvecs", 3)
			obs.close(got, want, sc * (nv**2 if o == "block" else nv) * 3, "a block answer depends on its columns' neighbours or on earlier calls", step=step, op=o, history=p["ops"][:step])
		elif o == "bad":
			for w in (np.ones(n + 1), np.ones(n - 1), np.ones((n + 2, 2))):
				for call in (lambda: M @ w, lambda: M.quad(w)):
					obs.count("rejected_inputs")
					obs.raises(call, (ValueError, AssertionError, IndexError), "a vector of the wrong length was accepted", shape=w.shape)
		elif o.startswith("fault"):
			if not np.any(v):
				v = np.ones(n, dtype=p["dtype"])
			op.left = int(r.integers(0, d))
			before = op.raised
			try:
				M @ v if o == "fault_mv" else M.quad(v)
			except RuntimeError as ex:
				obs.check("injected fault" in str(ex), "another error came out", error=repr(ex))
				faulted = True
			else:
				obs.check(op.raised == before, "the operator's exception was swallowed", step=step)
			obs.count("faults_injected", op.raised - before)
			op.left = -1
		else:
			cur = int(r.integers(len(funs)))
			M.fun = funs[cur]
			obs.count("function_changes")
			obs.check(M.fun is funs[cur], "the function was not replaced")
	obs.sig(tuple(p["ops"]), p["orth"], p["dtype"], n)
