"""The built-in spectral functions compute what their names and parameters say, on scalars and arrays."""

import numpy as np
from fractions import Fraction

from ..gens import pick, size, sym

PROPERTY = "C26"
COUNTS = {"quick": 20000, "thorough": 200000}
REQUIRED = ["evaluations", "identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank", "step", "by_name", "direct", "curried", "scalars", "rejected", "matrix_runs", "edge_points", "monotone_checks", "zero_parameters", "steep", "grids", "integers", "single_precision"]
RULE = (
	"every built-in function through param_callable, the curried and the direct form, with random parameters, on random points "
	"plus the edges of its domain pieces (and their floating-point neighbours); soft-sign values are compared with exact "
	"rational arithmetic; one case in six pushes the function through MatrixFunction and compares with U f(L) U^T; keyed by "
	"(function, form, parameters, n)"
)
ASSUMES = ["the clamp of log is judged on positive arguments and on its limit at eps"]
NAMES = ["identity", "abs", "sqrt", "log", "inv", "exp", "smoothstep", "softsign", "numrank", "step"]


def gen(rng, i, tier):
	return {
		"fun": pick(rng, NAMES),
		"form": pick(rng, ["name", "name", "direct", "curried"]),
		"default": bool(rng.random() < 0.25),
		"matrix": bool(i % 6 == 0),
		"n": size(rng, 1, 60),
		"par": [pick(rng, [0.0, 1.0, -1.0, 0, 2, -2]) if rng.random() < 0.2 else float(np.round(x, 6)) for x in rng.uniform(-2, 3, size=2)],
		"q": int(pick(rng, [0, 1, 1, 2, 3, 5, 10, 10, 20, 40, 75, 300])),
		"thr": pick(rng, [0.0, 0, 1]) if rng.random() < 0.1 else float(10.0 ** rng.uniform(-8, 0.3)),
		"seed": int(rng.integers(1 << 30)),
	}


def softsign_exact(x, q):
	T = Fraction if q <= 20 else np.longdouble
	x = T(float(min(1.0, max(-1.0, x))))
	c, s = T(1), T(0)
	for j in range(q + 1):
		if j:
			c = c * (2 * j - 1) / (2 * j)
		s += c * x * (1 - x * x) ** j
	return float(s)


def build(p):
	"""(callables, reference, interesting points)."""
	from primate import special as sp

	name, form, d = p["fun"], p["form"], p["default"]
	a, b = p["par"]
	if name == "smoothstep":
		if p["seed"] % 10 == 0:
			b = a
		elif p["seed"] % 10 == 1:
			b = a + 10.0 ** -(1 + p["seed"] % 9)  # steep
		a, b = (0.0, 1.0) if d else (a, b)
		w = (b - a) if a != b else 1.0
		ref = lambda x: (lambda y: 3 * y**2 - 2 * y**3)(np.clip((x - a) / w, 0, 1))
		kw = {} if d else {"a": a, "b": b}
		return (lambda: sp.param_callable("smoothstep", **kw), lambda: sp.smoothstep(**kw), lambda x: sp.smoothstep(x, **kw)), ref, [a, b, (a + b) / 2, a - 1, b + 1, *(a + (b - a) * np.array([0.1, 0.3, 0.9]))]
	if name == "softsign":
		q = 10 if d else p["q"]
		kw = {} if d else {"q": q}
		ref = lambda x, q=q: np.array([softsign_exact(t, q) for t in np.ravel(x)])
		dkw = {"q": q}
		return (lambda: sp.param_callable("softsign", **kw), lambda: sp.softsign(**dkw), lambda x: sp.softsign(x, **dkw)), ref, [-1.0, 0.0, 1.0, -5.0, 5.0]
	if name == "exp":
		t = 1.0 if d else a
		kw = {} if d else {"t": t}
		return (lambda: sp.param_callable("exp", **kw), lambda: sp.exp(**kw), lambda x: sp.exp(x, **kw)), lambda x: np.exp(t * x), [0.0, 1.0, -1.0] + ([690.0 / t, 705.0 / t, -640.0 / t, -705.0 / t] if abs(t) > 1e-3 else [])
	if name == "numrank":
		c = 1e-6 if d else p["thr"]
		kw = {} if d else {"threshold": c}
		f = lambda: sp.param_callable("numrank", **kw)
		return (f, f, None), lambda x: (np.abs(x) >= c).astype(float), [c, -c, 0.0, np.nextafter(c, 0), np.nextafter(c, 9), -np.nextafter(c, 0), 1.0]
	if name == "step":
		c, nn = (0.0, False) if d else (a, bool(p["seed"] % 2))
		kw = {} if d else {"c": c, "nonnegative": nn}
		return (lambda: sp.step(**kw), lambda: sp.step(**kw), lambda x: sp.step(x, **kw)), lambda x: ((np.abs(x) if nn else x) >= c).astype(float), [c, -c, np.nextafter(c, -9), np.nextafter(c, 9), 0.0]
	if name == "identity":
		return (lambda: sp.param_callable(["identity", None][p["seed"] % 2]), lambda: sp.param_callable(None), sp.identity), lambda x: x, [0.0, -1.0]
	eps = np.finfo(float).eps
	ref, pts = {
		"abs": (np.abs, [0.0, -0.0, -1.0]),
		"sqrt": (np.sqrt, [0.0, 1.0, 1e-300]),
		"log": (lambda x: np.log(np.maximum(x, eps)), [eps, 1.0, 2 * eps, eps / 2, 0.0]),
		"inv": (lambda x: 1.0 / x, [1.0, -1.0, 1e-300]),
	}[name]
	f = lambda: sp.param_callable(name)
	return (f, f, None), ref, pts


def run(p, obs):
	from primate import special as sp

	r = np.random.default_rng(p["seed"])
	name, form = p["fun"], p["form"]
	(by_name, curried, direct), ref, pts = build(p)
	if form == "direct" and direct is None:
		form = "name"
	f = {"name": by_name, "curried": curried, "direct": lambda: direct}[form]()
	x = np.concatenate([r.uniform(-2.5, 3.5, size=p["n"]), pts])
	if name in ("sqrt",):
		x = np.abs(x)
	if name == "inv":
		x = np.where(np.abs(x) < 1e-2, 0.5, x)
		x = np.append(x, [1e-300, 1e300])
	r.shuffle(x)
	x0 = x.copy()
	w = {"fun": name, "form": form, "par": p["par"], "q": p["q"], "thr": p["thr"], "default": p["default"]}
	with np.errstate(all="ignore"):
		y = f(x)
		want = ref(x)
		obs.check(np.array_equal(x, x0), "the argument was modified", **w)
		if name in ("smoothstep", "step", "numrank") and p["par"][0] != p["par"][1]:
			tol = 1e-13
			if name == "smoothstep":
				tol = 1e-11
				if p["seed"] % 10 == 1 and not p["default"]:
					tol += 1e-14 * 10.0 ** (1 + p["seed"] % 9)
					obs.count("steep")
		else:
			tol = 1e-13 * np.maximum(1.0, np.abs(want))
		if name == "softsign":
			tol = 1e-9 if p["q"] > 10 else 1e-11
		if name == "exp":
			tol = 1e-12 * np.maximum(1.0, np.abs(want))
		obs.check(isinstance(y, np.ndarray) and y.shape == x.shape, "an array of another shape was returned", got=np.shape(y), want=x.shape, **w)
		obs.close(y, want, tol, f"wrong values of {name}", **w)
		obs.close(f(x), y, 0.0, "a second call gives different values", **w)
		for t in [float(x[0]), np.float64(x[-1]), x[:1]]:
			s = f(t)
			obs.check(np.size(s) == 1, "a scalar gives more than one value", got=np.shape(s), **w)
			obs.close(np.ravel(s), np.ravel(ref(np.atleast_1d(np.asarray(t, float)))), tol if np.ndim(tol) == 0 else 1e-13 * max(1.0, abs(float(np.ravel(s)[0]))), f"wrong scalar value of {name}", at=t, **w)
			obs.count("scalars")
		kinds(p, obs, f, ref, x, y, tol, w)
		z = x[::-1]
		obs.close(f(z), np.asarray(want)[::-1], tol if np.ndim(tol) == 0 else tol[::-1], "a reversed view gives other values", **w)
	lo, hi = {"smoothstep": (0, 1), "step": (0, 1), "numrank": (0, 1), "softsign": (-1, 1)}.get(name, (None, None))
	if lo is not None:
		obs.check(np.all(y >= lo - 1e-9) and np.all(y <= hi + 1e-9), "values out of range", lo=np.min(y), hi=np.max(y), **w)
	g = np.sort(x)
	increasing = name in ("identity", "sqrt", "log", "softsign") or (name == "step" and (p["default"] or p["seed"] % 2 == 0)) or (name == "smoothstep" and (p["default"] or p["par"][0] < p["par"][1]))
	if increasing:
		obs.check(np.all(np.diff(f(g)) >= -1e-9), "the function is not monotone", **w)
		obs.count("monotone_checks")
	if name == "softsign":
		obs.close(f(-x), -np.asarray(y), 1e-11, "the function is not odd", **w)
	obs.count(name)
	obs.count({"name": "by_name", "direct": "direct", "curried": "curried"}[form])
	obs.count("evaluations", len(x))
	obs.count("edge_points", len(pts))
	obs.count("zero_parameters", not p["default"] and {"exp": p["par"][0] == 0, "smoothstep": 0 in p["par"], "step": p["par"][0] == 0, "numrank": p["thr"] == 0, "softsign": p["q"] == 0}.get(name, False))
	own = lambda t: t
	obs.check(sp.param_callable(own, t=3) is own, "a callable was not passed through")
	for bad in ("", "sine", "Exp", "step"):
		obs.raises(lambda: sp.param_callable(bad), (AssertionError, ValueError), "an unknown name was accepted", name=bad)
	obs.raises(lambda: sp.param_callable(3.5), (AssertionError, ValueError, TypeError), "a number was accepted as function")
	obs.raises(lambda: sp.smoothstep(deg=2), (AssertionError, ValueError), "an even degree was accepted")
	obs.count("rejected", 6)
	if p["matrix"]:
		matrix(p, obs, name, ref, r)
	obs.sig(name, form, p["default"], p["q"] if name == "softsign" else None, round(p["par"][0], 1) if name in ("exp", "smoothstep", "step") else None, p["n"])


def kinds(p, obs, f, ref, x, y, tol, w):
	"""Grids of any layout, integers, single precision, no entries at all: the function acts entry by entry."""
	k = len(x) // 3 * 3
	for g in (x[:k].reshape(3, -1), x[:k].reshape(-1, 3).T, np.repeat(x[:k], 2)[::2].reshape(1, 3, -1)):
		g = np.require(g, requirements=[]) if p["seed"] % 2 else g
		o = f(g)
		if obs.check(isinstance(o, np.ndarray) and o.shape == g.shape, "a grid gives another shape", got=np.shape(o), want=g.shape, **w):
			obs.close(o, f(np.ravel(g)).reshape(g.shape), tol.max() if np.ndim(tol) else tol, "a grid gives other values than its entries", **w)
		obs.count("grids")
	e = f(x[:0])
	obs.check(np.shape(e) == (0,), "no entries give some", got=np.shape(e), **w)
	q = np.array([1, 2, 3, 7] + ([] if w["fun"] in ("sqrt", "log", "inv") else [-1, -2, 0]))
	big = float(np.nanmax(np.abs(ref(q.astype(float))), initial=1.0))
	if big < 1e300:
		for i in (q, q.astype(np.int32), int(q[1]), q[3]):
			obs.close(np.ravel(f(i)).astype(float), np.ravel(ref(np.ravel(i).astype(float))), 1e-9 * (1 + (big if w["fun"] == "exp" else 0)), "integers give other values than the same numbers as floats", at=i, **w)
		obs.count("integers")
	s = np.array([0.25, 0.5, 1.5, 2.0], dtype=np.float32)
	if w["fun"] not in ("smoothstep", "step", "numrank"):
		want = np.ravel(ref(s.astype(float)))
		if np.all(np.abs(want) < 1e30):
			obs.close(np.ravel(f(s)).astype(float), want, 1e-5 * np.maximum(1, np.abs(want)) * (1 + np.abs(p["par"][0])), "single precision gives other values", **w)
			obs.count("single_precision")


def matrix(p, obs, name, ref, r):
	"""The named function with its parameters reaches the spectrum of a matrix."""
	from primate.operators import MatrixFunction

	if name == "step":
		return
	n = 2 + p["n"] % 14
	Q = np.linalg.qr(r.normal(size=(n, n)))[0]
	lam = np.linspace(0.3, 2.2, n) + r.uniform(0, 1e-3)
	a, b = p["par"]
	kw = {}
	if not p["default"]:
		kw = {"exp": {"t": a}, "smoothstep": {"a": a, "b": b}, "softsign": {"q": p["q"]}, "numrank": {"threshold": p["thr"]}}.get(name, {})
	if name == "smoothstep" and p["seed"] % 10 == 0 and not p["default"]:
		kw = {"a": a, "b": a}
	if name == "numrank":
		if np.min(np.abs(lam - (1e-6 if p["default"] else p["thr"]))) < 1e-3:
			return
	if name == "smoothstep" and kw and (p["seed"] % 10 == 1 or abs(kw["b"] - kw["a"]) < 0.2):
		return
	A = Q @ np.diag(lam) @ Q.T
	A = (A + A.T) / 2
	M = MatrixFunction(A, fun=name, deg=n, orth=n, **kw)
	v = r.normal(size=n)
	F = Q @ np.diag(ref(lam)) @ Q.T
	scale = np.abs(ref(lam)).max() + 1e-300
	obs.close(np.ravel(M @ v), F @ v, 1e-6 * scale * np.linalg.norm(v) + 1e-9, "the matrix function differs from U f(L) U^T", fun=name, kw=kw, n=n)
	obs.close(np.ravel(M.quad(v)), [v @ F @ v], 1e-6 * scale * (v @ v) + 1e-9, "the quadratic form differs from that of U f(L) U^T", fun=name, kw=kw, n=n)
	obs.count("matrix_runs")
