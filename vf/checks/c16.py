"""Native code stays inside its arrays, whatever the sizes, parameters and operators (AddressSanitizer, UBSan, canaries)."""

import numpy as np
import scipy.sparse as ss
from scipy.sparse.linalg import aslinearoperator

from ..gens import FORMATS, KINDS, pick, size, sym, wrap

PROPERTY = "C16"
FLAVOUR = "asan"
COUNTS = {"quick": 10000, "thorough": 120000}
REQUIRED = ["expansions", "hostile_answers", "hostile_rejected", "nonsquare_rejected", "buffers_checked", "canaries_intact", "form_calls", "product_calls", "retained_arrays_read", "nested_expansions", "nonfinite_inputs", "extreme_inputs", "split_matrices", "tridiagonal_calls", "quadrature_calls", "faults_raised", "bad_lengths_rejected", "bad_degrees_rejected", "bad_precisions_rejected", "numpy_parameters", "good_after_hostile"]
RULE = (
	"the compiled extensions rebuilt with AddressSanitizer and UBSan, driven with every combination of size (1..40), degree, "
	"re-orthogonalisation (0, negative, above the degree), precision, storage format and tolerance; operators that answer with "
	"too short, too long, empty, strided, retyped, aliased or no arrays, raise, re-enter the library or keep their arguments; "
	"non-square operators, wrong lengths, non-finite data, caller-owned buffers between canaries; keyed by the combination"
)
ASSUMES = ["the system libraries (NumPy, SciPy, LAPACK) are not instrumented", "numpy's allocator is malloc, so redzones follow each array"]
HOSTILE = ["short", "long", "empty", "scalar", "none", "str", "twod", "nested_list", "raise", "object"]
ODD = ["list", "int", "f4", "f8", "strided", "reversed", "column", "row", "alias", "mutate", "retain", "reenter", "readonly", "bigendian", "matrix", "sub", "own_buffer", "freed"]


class Op:
	def __init__(self, A, mode, at=0):
		self.A, self.shape, self.dtype, self.mode, self.at, self.calls, self.kept, self.obs = A, A.shape, A.dtype, mode, at, 0, [], None

	def __matmul__(self, x):
		return self.matvec(x)

	def matvec(self, x):
		m, self.calls = self.mode, self.calls + 1
		x0 = np.array(x).reshape(-1)
		y = self.A @ x0
		if m in HOSTILE and self.calls <= self.at:
			return y
		if m == "short":
			return y[:-1] if len(y) > 1 else y[:0]
		if m == "long":
			return np.append(y, y)
		if m == "empty":
			return np.empty(0, dtype=y.dtype)
		if m == "scalar":
			return np.float64(1.0) if len(y) > 1 else np.empty((0, 1))
		if m == "none":
			return None if len(y) > 1 else y[:0]  # NumPy reads None as one NaN
		if m == "str":
			return "not a vector"
		if m == "twod":
			return np.ones((len(y), 2), dtype=y.dtype)
		if m == "nested_list":
			return [list(y), [1.0]]
		if m == "object":
			return np.array([object()] * len(y))
		if m == "raise":
			raise KeyError("injected")
		if m == "list":
			return [float(z) for z in y]
		if m == "int":
			return np.rint(y * 8).astype(np.int32)
		if m in ("f4", "f8"):
			return y.astype(m)
		if m == "strided":
			z = np.zeros((len(y), 3), dtype=y.dtype)
			z[:, 1] = y
			return z[:, 1]
		if m == "reversed":
			return y[::-1].copy()[::-1]
		if m == "column":
			return y[:, None]
		if m == "row":
			return y[None, :]
		if m == "alias":  # answers with its own argument
			return x
		if m == "mutate":
			z = y.copy()
			if getattr(x, "flags", None) is not None and x.flags.writeable:
				x[...] = -7e77 if x.dtype == np.float64 else -7e7
			return z
		if m == "retain":
			self.kept.append(x)
			self.kept.append(y)
			return y
		if m == "reenter":
			if self.calls < 4:
				from primate.lanczos import lanczos

				lanczos(self.A, v0=np.ones(len(y)), deg=max(1, len(y) // 2), orth=-1, return_basis=True)
			return y
		if m == "readonly":
			y.flags.writeable = False
			return y
		if m == "bigendian":
			return y.astype(y.dtype.newbyteorder(">"))
		if m == "matrix":
			return np.asmatrix(y).T
		if m == "sub":
			return np.ma.MaskedArray(y)
		if m == "own_buffer":
			if not hasattr(self, "buf"):
				self.buf = np.zeros(len(y) * 2, dtype=y.dtype)
			self.buf[: len(y)] = y
			return self.buf[: len(y)]
		if m == "freed":
			z = np.frombuffer(bytearray(y.tobytes()), dtype=y.dtype)
			return z
		return y


def gen(rng, i, tier):
	n = 1 if rng.random() < 0.06 else size(rng, 2, 40, 150)
	return {
		"case": pick(rng, ["lanczos", "lanczos", "hostile", "hostile", "odd", "odd", "nonsquare", "buffers", "mf", "mf", "mf_hostile", "tri", "quad", "lengths"]),
		"n": n,
		"kind": pick(rng, KINDS),
		"deg": int(pick(rng, [1, 2, n, n + 3, int(rng.integers(1, n + 1)), int(rng.integers(1, n + 1))])),
		"orth": int(pick(rng, [0, 0, 1, 2, 3, -1, n, 2 * n + 1, -5, int(rng.integers(0, n + 1))])),
		"rtol": float(pick(rng, [1e-8, 1e-8, 0.0, -1.0, 1e30, 1e-3])),
		"dtype": pick(rng, ["f8", "f8", "f4"]),
		"dtype_arg": pick(rng, ["", "", "f8", "f4"]),
		"fmt": pick(rng, FORMATS),
		"mode": pick(rng, HOSTILE if rng.random() < 0.5 else ODD),
		"at": int(rng.integers(0, 4)),
		"vec": pick(rng, ["random", "random", "none", "zero", "axis", "huge", "tiny", "nan", "inf", "int", "list", "strided", "column"]),
		"basis": bool(rng.random() < 0.5),
		"sparse_mat": bool(rng.random() < 0.2),
		"mseed": int(rng.integers(1 << 30)),
		"seed": int(rng.integers(1 << 30)),
		"odd": int(rng.integers(1 << 30)),
	}


def vector(kind, n, r):
	if kind == "none":
		return None
	v = r.normal(size=n)
	if kind == "zero":
		v = v * 0
	elif kind == "axis":
		v = np.eye(n)[int(r.integers(n))]
	elif kind == "huge":
		v = v * 1e30
	elif kind == "tiny":
		v = v * 1e-30
	elif kind == "nan":
		v[int(r.integers(n))] = np.nan
	elif kind == "inf":
		v[int(r.integers(n))] = np.inf
	elif kind == "int":
		v = r.integers(-3, 4, size=n)
	elif kind == "list":
		v = [float(x) for x in v]
	elif kind == "strided":
		v = np.repeat(v, 3)[::3]
	elif kind == "column":
		v = v[:, None]
	return v


def run(p, obs):
	from primate.integrate import quadrature
	from primate.lanczos import lanczos, rayleigh_ritz
	from primate.operators import MatrixFunction
	from primate.tridiag import eigh_tridiag, eigvalsh_tridiag

	n, case = p["n"], p["case"]
	r = np.random.default_rng(p["seed"])
	A = sym(p["kind"], n, p["mseed"]).astype(p["dtype"])
	deg, orth = p["deg"], p["orth"]
	d = min(deg, n)
	finite = p["vec"] not in ("nan", "inf")
	v = vector(p["vec"], n, r)
	v_copy = None if v is None else np.array(v)
	kw = {"deg": deg, "orth": orth, "rtol": p["rtol"], "return_basis": p["basis"]}
	if p["dtype_arg"]:
		kw["dtype"] = np.dtype(p["dtype_arg"])

	def expand(op, **more):
		out = lanczos(op, v0=v, **{**kw, **more})
		obs.count("expansions")
		if not finite:
			obs.count("nonfinite_inputs")
		return out

	def shapes(out, basis, sparse):
		T, Q = out if basis else (out, None)
		if sparse:
			obs.check(T.shape == (d, d), "wrong shape of T", shape=T.shape)
			T.toarray()
		else:
			obs.check(len(T[0]) == d and len(T[1]) == d - 1, "wrong lengths of the coefficients", a=len(T[0]), b=len(T[1]))
		if Q is not None:
			obs.check(Q.shape == (n, d), "wrong shape of the basis", shape=Q.shape)
			Q.tobytes()

	if case == "lanczos":
		out = expand(wrap(A, p["fmt"]), sparse_mat=p["sparse_mat"])
		shapes(out, p["basis"], p["sparse_mat"])
		if v is not None:
			obs.check(np.array_equal(np.array(v), v_copy, equal_nan=True), "the starting vector was modified")
		if finite and r.random() < 0.3:
			out = rayleigh_ritz(wrap(A, p["fmt"]), deg=deg, orth=orth, v0=v, return_eigenvectors=True, return_basis=True)
			[np.asarray(x).tobytes() for x in out]
	elif case in ("hostile", "odd"):
		mode = p["mode"]
		if (case == "hostile") != (mode in HOSTILE):
			mode = pick(r, HOSTILE if case == "hostile" else ODD)
		op = Op(A, mode, p["at"])
		if mode in HOSTILE:
			obs.count("hostile_answers")
			try:
				out = expand(op)
			except (Exception,) as ex:
				obs.count("hostile_rejected")
				if mode == "raise":
					obs.count("faults_raised")
					obs.check(isinstance(ex, KeyError), "the operator's own exception was replaced", error=repr(ex))
			else:
				obs.check(op.calls <= p["at"], "an operator that answers with garbage was accepted", mode=mode, n=n, deg=deg)
		else:
			out = expand(op)
			shapes(out, p["basis"], False)
			for x in op.kept:
				x.tobytes()
				obs.count("retained_arrays_read")
			if mode == "reenter":
				obs.count("nested_expansions")
		shapes(lanczos(A, v0=v, **kw), p["basis"], False)
		obs.count("good_after_hostile")
	elif case == "nonsquare":
		m = n + int(r.integers(1, 12))
		B = r.normal(size=(n, m) if r.random() < 0.5 else (m, n)).astype(p["dtype"])
		for X in (wrap(B, p["fmt"]), Op(B, "plain"), aslinearoperator(B), ss.csr_array(B)):
			for f in (lambda: lanczos(X, **kw), lambda: lanczos(X, v0=np.ones(B.shape[1]), **kw), lambda: rayleigh_ritz(X, deg=d), lambda: MatrixFunction(X, deg=2)):
				obs.raises(f, Exception, "a non-square operator was accepted", shape=B.shape)
				obs.count("nonsquare_rejected")
		for bad in (B[0], B[None], B[:, :0]):
			obs.raises(lambda: lanczos(bad, **kw), Exception, "an operator that is not a square matrix was accepted", shape=bad.shape)
	elif case == "buffers":
		dt = np.dtype(p["dtype_arg"] or p["dtype"])
		big = [np.full(d + 1 + 16, 777.25, dtype=dt) for _ in range(2)]
		al, be = (b[8 : 8 + d + 1] for b in big)
		al[:], be[:] = 0, 0
		o = d if orth < 0 or orth > d else orth
		ncv = d if p["basis"] else int(np.clip(o, 2, d))
		Q = np.zeros((n, ncv), dtype=dt, order="F")
		k2 = {**kw, "dtype": dt}
		try:
			lanczos(wrap(A, p["fmt"]), v0=v, alpha=al, beta=be, Q=Q, **k2)
		except AssertionError:
			obs.count("buffers_rejected")
		else:
			obs.count("buffers_checked")
			Q.tobytes()
			if v is not None and finite:
				(a1, b1) = lanczos(wrap(A, p["fmt"]), v0=v, **{**k2, "return_basis": p["basis"]})[0] if p["basis"] else lanczos(wrap(A, p["fmt"]), v0=v, **k2)
				obs.check(np.array_equal(al[:d], a1, equal_nan=True) and np.array_equal(be[1:d], b1, equal_nan=True), "the caller's buffers do not hold the result", al=al, a=a1)
		obs.check(all(np.all(b[:8] == 777.25) and np.all(b[8 + d + 1 :] == 777.25) for b in big), "native code wrote outside the buffer it was given", alpha=big[0], beta=big[1])
		obs.count("canaries_intact", 4)
		for bad in ({"alpha": np.zeros(d, dt)}, {"beta": np.zeros(d, dt)}, {"beta": np.zeros(d - 1, dt)}, {"beta": np.zeros(d + 2, dt)}, {"alpha": np.zeros(d + 2, dt)}, {"alpha": np.zeros(1, dt)}, {"beta": np.zeros((d + 1, 1), dt)}, {"beta": np.zeros(d + 1, "f4" if dt == "f8" else "f8")}, {"alpha": np.zeros(2 * d + 2, dt)[::2]}, {"Q": np.zeros((n, ncv + 1), dt, order="F")}, {"Q": np.zeros((n, ncv), "f4" if dt == "f8" else "f8", order="F")}, {"Q": np.zeros((n, max(ncv - 1, 0)), dt, order="F")}, {"Q": np.zeros((max(n - 1, 0), ncv), dt, order="F")}, {"alpha": np.zeros(d + 1, "f4" if dt == "f8" else "f8")}, {"Q": np.zeros(n * ncv, dt)}):
			obs.raises(lambda: lanczos(A, v0=v, **k2, **bad), Exception, "a buffer of the wrong shape was accepted", which=next(iter(bad)))
	elif case == "mf":
		M = MatrixFunction(wrap(A, p["fmt"]), fun=np.cos, deg=max(2, deg), orth=orth, dtype=np.dtype(p["dtype"]))
		for _ in range(3):
			x = vector(pick(r, ["random", "zero", "axis", "tiny", "strided", "column"]), n, r)
			if r.random() < 0.4:
				k = int(r.integers(1, 5))
				x = np.array(r.normal(size=(n, k)), order=pick(r, "CF"))
				if r.random() < 0.3:
					x = np.repeat(x, 2, axis=0)[::2]
			x0 = np.array(x)
			k = 1 if x.ndim == 1 else x.shape[1]
			if r.random() < 0.5:
				y = M.quad(x)
				obs.count("form_calls")
				obs.check(np.size(y) == k, "wrong number of quadratic forms", size=np.size(y), k=k)
			else:
				y = M @ x
				obs.count("product_calls")
				obs.check(np.size(y) == n * k, "wrong size of a product", size=np.size(y), n=n, k=k)
			obs.check(np.array_equal(x, x0), "the input of a matrix function was modified")
			np.asarray(y).tobytes()
		if not finite:
			obs.count("nonfinite_inputs")
			for f in (lambda: M.quad(np.asarray(v)), lambda: M @ np.asarray(v)):
				try:
					f()
				except Exception:
					obs.count("nonfinite_rejected")
	elif case == "mf_hostile":
		mode = pick(r, HOSTILE)
		op = Op(A, mode, p["at"])
		M = MatrixFunction(op, fun=np.exp, deg=max(2, d), orth=orth, dtype=np.dtype(p["dtype"]))
		x = r.normal(size=n)
		for f in (M.quad, lambda x: M @ x):
			before, op.calls = 0, 0
			obs.count("hostile_answers")
			try:
				f(x)
			except Exception:
				obs.count("hostile_rejected")
				obs.count("faults_raised", mode == "raise")
			else:
				obs.check(op.calls <= p["at"], "an operator that answers with garbage was accepted", mode=mode, n=n)
		op.mode = "plain"
		np.asarray(M @ x).tobytes()
		obs.count("good_after_hostile")
	elif case in ("tri", "quad"):
		a = r.normal(size=n).astype(p["dtype"])
		b = r.normal(size=max(n - 1 + int(r.integers(2)), 0)).astype(p["dtype"])
		if len(b) == n:
			b[0] = 0
		if p["kind"] in ("diag", "rank1"):
			a[:], b[:] = 0, 0
		if not finite:
			a[int(r.integers(n))] = np.nan
			obs.count("nonfinite_inputs")
		if r.random() < 0.25:  # a few numbers at the limits of the precision, many times: anything may come out, or an exception
			t = np.finfo(p["dtype"])
			few = r.choice([0.0, 0.0, 1.0, -1.0, t.max, -t.max, t.tiny, t.smallest_subnormal, np.sqrt(t.max), np.sqrt(t.tiny), np.inf, -np.inf, np.nan], size=int(r.integers(1, 4)))
			a[:], b[:] = r.choice(few, size=n), r.choice(few, size=len(b))
			if len(b) == n:
				b[0] = 0
			finite = False
			obs.count("extreme_inputs")
		try:
			if case == "tri":
				obs.count("tridiagonal_calls")
				f = eigh_tridiag if p["basis"] else eigvalsh_tridiag
				out = f(a, b, method=pick(r, ["tqli", "tqli", "auto", "mrrr"]), maxiter=int(pick(r, [0, 1, 30, 100 if n < 60 else 3])))
				[np.asarray(x).tobytes() for x in (out if isinstance(out, tuple) else (out,))]
			else:
				obs.count("quadrature_calls")
				q = pick(r, ["fttr", "fttr", "gw"])
				if n > 1 and np.any(b[len(b) - n + 1 :] == 0):
					obs.count("split_matrices")
				x, w = quadrature(a, b, deg=int(pick(r, [1, d, n, n + 5])), quad=q, **({"method": "tqli"} if r.random() < 0.3 else {}))
				obs.check(len(x) == len(w), "nodes and weights differ in length")
				x.tobytes(), w.tobytes()
		except Exception as ex:
			obs.check(not finite, "a finite tridiagonal matrix was refused", error=repr(ex))
		for bad in (b[:-2] if len(b) >= n else b[:-1], np.append(b, [0.0, 0.0])):
			if len(bad) in (n, n - 1):
				continue
			for f in (lambda: eigh_tridiag(a, bad, method="tqli"), lambda: eigvalsh_tridiag(a, bad), lambda: quadrature(a, bad, quad="fttr")):
				obs.count("bad_lengths_rejected")
				obs.raises(f, Exception, "diagonals of incompatible lengths were accepted", n=n, m=len(bad))
	else:
		M = MatrixFunction(wrap(A, p["fmt"]), fun=np.exp, deg=max(2, deg), orth=orth, dtype=np.dtype(p["dtype"]))
		for m in {0, n - 1, n + 1, 2 * n} - {n, -1}:
			w = np.ones(m, dtype=p["dtype"])
			for f in (lambda: lanczos(wrap(A, p["fmt"]), v0=w, **kw), lambda: M @ w, lambda: M.quad(w), lambda: M.quad(np.ones((m, 2))), lambda: M @ np.ones((m, 2))):
				obs.count("bad_lengths_rejected")
				obs.raises(f, Exception, "a vector of the wrong length was accepted", m=m, n=n)
		for w in (np.ones((n, 2)), np.ones((n, 2), order="F"), np.ones((n, 0)), np.ones((n, 0), order="F"), np.ones((n, 2, 2)), np.float64(1.0)):
			for f in (lambda: lanczos(wrap(A, p["fmt"]), v0=w, **kw), lambda: rayleigh_ritz(wrap(A, p["fmt"]), v0=w, deg=d)):
				obs.count("bad_lengths_rejected")
				obs.raises(f, Exception, "a starting vector that is a block was accepted", shape=np.shape(w), n=n)
		for w in (np.ones((n, 2, 2)), np.ones((n, 1, 1)), np.ones((n, 0, 2))):
			obs.count("bad_lengths_rejected")
			obs.raises(lambda: M.quad(w), Exception, "a block with three axes was accepted", shape=w.shape, n=n)
		for bad in ("f2", "i4", "i8", "c16", "?"):
			obs.count("bad_precisions_rejected")
			obs.raises(lambda: MatrixFunction(wrap(A, p["fmt"]), fun=np.cos, deg=max(2, d), dtype=np.dtype(bad)) @ np.ones(n), Exception, "a matrix function of another type than floats was accepted", dtype=bad)
			obs.raises(lambda: lanczos(A, deg=d, dtype=np.dtype(bad)), Exception, "an expansion of another type than floats was accepted", dtype=bad)
		v1 = r.normal(size=n)
		kn = {"deg": d, "orth": max(min(orth, d), -1), "rtol": 1e-3}
		a1, b1 = lanczos(A, v0=v1, **kn)
		for kk in ({"rtol": np.float32(1e-3)}, {"rtol": np.float64(1e-3)}, {"rtol": np.array(1e-3)}, {"deg": np.int64(d)}, {"deg": np.int16(d)}, {"orth": np.int32(kn["orth"])}):
			a2, b2 = lanczos(A, v0=v1, **{**kn, **kk})
			obs.count("numpy_parameters")
			obs.check(np.array_equal(a1, a2) and np.array_equal(b1, b2), "a parameter given as NumPy number changes the result", which=repr(kk), got=a2, want=a1)
		for bad in (0, -1, -n, -n - 1):
			for f in (lambda: lanczos(wrap(A, p["fmt"]), **{**kw, "deg": bad}), lambda: rayleigh_ritz(wrap(A, p["fmt"]), deg=bad, orth=orth), lambda: MatrixFunction(wrap(A, p["fmt"]), fun=np.exp, deg=bad, orth=orth)):
				obs.count("bad_degrees_rejected")
				obs.raises(f, Exception, "an expansion without steps was accepted", deg=bad, n=n)
	obs.sig(case, p["mode"] if case in ("hostile", "odd") else p["vec"], min(n, 3), d == n, min(max(orth, -1), 4), p["dtype"], p["fmt"], p["basis"])
