"""Figures show the data they were given: samples, running means, true errors, confidence bounds, spectra."""

import sys
import types

import numpy as np
from scipy import special, stats

from ..gens import pick, size

PROPERTY = "C31"
EXTS = ()
COUNTS = {"quick": 10000, "thorough": 100000}
REQUIRED = ["sequences", "errors", "spectra", "polynomials", "estimators_plotted", "missing_samples", "true_means", "confidence_bounds", "relative", "thresholds", "purity_checks", "figure_options", "trace_runs"]
RULE = (
	"every figure function on random samples (lists, arrays, columns, estimators, missing values) with a recording stand-in for "
	"the plotting library, which is not installed here; the plotted coordinates are compared with directly computed ones; "
	"keyed by (figure, options, n)"
)
ASSUMES = ["the stand-in accepts the calls bokeh documents; what bokeh renders from them is not looked at"]


class Thing:
	"""Attribute container that accepts anything, and records glyph calls."""

	def __init__(self, **kw):
		self.__dict__["kw"] = kw
		self.__dict__["calls"] = []

	def __getattr__(self, k):
		if k.startswith("__"):
			raise AttributeError(k)
		t = Thing()
		self.__dict__[k] = t
		return t


class Figure(Thing):
	def _glyph(self, kind, a, kw):
		names = {"varea_step": ["x", "y1", "y2"]}.get(kind, ["x", "y"])
		d = dict(zip(names, a)) | kw
		self.calls.append((kind, {k: np.array(v, copy=True) if k in ("x", "y", "y1", "y2") else v for k, v in d.items()}))

	def scatter(self, *a, **k):
		self._glyph("scatter", a, k)

	def line(self, *a, **k):
		self._glyph("line", a, k)

	def varea_step(self, *a, **k):
		self._glyph("varea_step", a, k)

	def add_layout(self, x, *a):
		self.calls.append(("layout", {"obj": x}))

	def of(self, kind):
		return [d for k, d in self.calls if k == kind]


class Span(Thing):
	pass


class Range1d(Thing):
	def __init__(self, start=None, end=None, **kw):
		super().__init__(start=start, end=end, **kw)


def install():
	b, pl, mo, pa = (types.ModuleType(n) for n in ("bokeh", "bokeh.plotting", "bokeh.models", "bokeh.palettes"))
	pl.figure = lambda **kw: Figure(**kw)
	mo.Span, mo.Range1d, mo.Band, mo.ColumnDataSource, mo.Legend = Span, Range1d, Thing, Thing, Thing
	pa.Category10 = {k: [f"#{i:06x}" for i in range(k)] for k in range(3, 11)}
	b.plotting, b.models, b.palettes = pl, mo, pa
	sys.modules.update({"bokeh": b, "bokeh.plotting": pl, "bokeh.models": mo, "bokeh.palettes": pa})


def gen(rng, i, tier):
	return {
		"fig": pick(rng, ["sequence", "error", "error", "csm", "jacobi"]),
		"n": size(rng, 1, 120),
		"source": pick(rng, ["list", "array", "column", "estimator", "estimator", "hutch"]),
		"nan": bool(rng.random() < 0.3),
		"mu": bool(rng.random() < 0.5),
		"absolute": bool(rng.random() < 0.5),
		"threshold": bool(rng.random() < 0.5),
		"kw": bool(rng.random() < 0.4),
		"deg": int(rng.integers(3, 11)),
		"seed": int(rng.integers(1 << 30)),
	}


def source(p, obs, r):
	"""(what is passed, the samples)"""
	from primate.estimators import MeanEstimator

	x = (r.normal(size=p["n"]) * 3 + float(pick(r, [5, 5, 0, -4]))) * 10.0 ** float(pick(r, [0, 0, 0, -6, 6]))
	if r.random() < 0.15:
		x = np.rint(x)
	if r.random() < 0.05:
		x[:] = x[0]
	s = p["source"]
	if s in ("list", "array", "column") and p["nan"] and p["n"] > 1:
		x[r.random(p["n"]) < 0.2] = np.nan
		x[0] = 1.0 if np.all(np.isnan(x)) else x[0]
		obs.count("missing_samples", bool(np.isnan(x).any()))
	if s == "hutch":
		e = MeanEstimator(covariance=True, record=True)
		for v in np.array_split(x, min(p["n"], 3)):
			e.update(v)
		obs.count("trace_runs")
		return e, x
	if s == "estimator":
		e = MeanEstimator(covariance=bool(p["seed"] % 2), record=True)
		e.update(x)
		obs.count("estimators_plotted")
		return e, x
	return {"list": lambda: [float(v) for v in x], "array": x.copy, "column": lambda: x[:, None].copy()}[s](), x


def run(p, obs):
	install()
	r = np.random.default_rng(p["seed"])
	{"sequence": sequence, "error": error, "csm": csm, "jacobi": jacobi}[p["fig"]](p, obs, r)
	obs.sig(p["fig"], p["n"], p["source"], p["mu"], p["absolute"], p["threshold"], p["nan"])


def options(p, obs):
	if p["kw"]:
		obs.count("figure_options")
		return {"width": 123, "height": 45}
	return {}


def sequence(p, obs, r):
	from primate.plotting import figure_sequence

	src, x = source(p, obs, r)
	ref = np.array(x, copy=True)
	mu = float(pick(r, [r.normal(), r.normal(), 0.0, -3.0])) if p["mu"] else None
	kw = options(p, obs)
	f = figure_sequence(src, mu=mu, **kw)
	obs.check(isinstance(f, Figure), "no figure was returned")
	v = ref[~np.isnan(ref)]
	t = np.arange(1, len(v) + 1)
	sc, ln, sp = f.of("scatter"), f.of("line"), [d["obj"] for d in f.of("layout") if isinstance(d["obj"], Span)]
	if obs.check(len(sc) == 1 and len(ln) == 1, "not one scatter and one line", got=[k for k, _ in f.calls]):
		obs.close(sc[0]["x"], t, 0.0, "wrong sample indices")
		obs.close(sc[0]["y"], v, 1e-12 * np.abs(v).max(), "the samples are not those given")
		obs.close(ln[0]["x"], t, 0.0, "wrong indices of the running mean")
		obs.close(ln[0]["y"], np.cumsum(v) / t, 1e-12 * np.abs(v).max(), "the line is not the running mean")
	obs.check(len(sp) == (mu is not None), "wrong number of reference lines", got=len(sp))
	if mu is not None and sp:
		obs.check(sp[0].kw.get("location") == mu and sp[0].kw.get("dimension") == "width", "the reference line is not at the true mean", got=sp[0].kw)
		obs.count("true_means")
	for k, val in kw.items():
		obs.check(f.kw.get(k) == val, "a figure option was dropped", option=k, got=f.kw)
	unchanged(src, ref, obs)
	obs.count("sequences")


def unchanged(src, ref, obs):
	now = np.ravel(src.values) if hasattr(src, "values") else np.ravel(np.array(src, dtype=float))
	obs.check(np.array_equal(now, ref, equal_nan=True), "plotting modified the samples")
	if hasattr(src, "values"):
		obs.check(len(src) == len(ref), "plotting modified the estimator")
	obs.count("purity_checks")


def error(p, obs, r):
	from primate.plotting import figure_error

	src, x = source(p, obs, r)
	ref = np.array(x, copy=True)
	mu = float(pick(r, [r.normal() + 4, r.normal() + 4, -r.uniform(0.1, 5), r.uniform(1, 9) * 1e-3, 0.0])) if p["mu"] else None
	thr = float(pick(r, [r.uniform(0.01, 1), r.uniform(0.01, 1), 0.0, 1e-12])) if p["threshold"] else None
	kw = options(p, obs)
	f = figure_error(src, mu=mu, threshold=thr, absolute=p["absolute"], **kw)
	v = ref[~np.isnan(ref)]
	n = len(v)
	t = np.arange(1, n + 1)
	avg = np.cumsum(v) / t
	big = np.abs(v).max()
	if mu is not None:
		with np.errstate(all="ignore"):
			want = np.abs(mu - avg) if p["absolute"] else np.abs((mu - avg) / mu)
			err = 1e-12 * (big + abs(mu)) / (1 if p["absolute"] else abs(mu))
		obs.count("true_means")
	else:
		sd = np.array([np.std(v[:k], ddof=1) if k > 1 else np.nan for k in t])
		se = sd / np.sqrt(t)
		z = np.array([stats.t.ppf(0.975, k - 1) if k < 30 else stats.norm.ppf(0.975) for k in np.maximum(t, 2)])
		with np.errstate(all="ignore"):
			want = np.where(t < 3, np.inf, z * se if p["absolute"] else np.abs(se / avg))
			err = 1e-10 * big if p["absolute"] else (1e-10 + 1e-12 * np.abs(want)) * big / np.abs(avg)
		obs.count("confidence_bounds")
	ln = f.of("line")
	if obs.check(len(ln) == 1 + (thr is not None), "wrong number of lines", got=len(ln)):
		obs.close(ln[0]["x"], t, 0.0, "wrong sample indices")
		got = np.ravel(ln[0]["y"]).astype(float)
		obs.check(got.shape == want.shape, "wrong number of errors", got=got.shape, n=n)
		sure = p["absolute"] | (mu is not None) | (np.abs(avg) > 1e-6 * big)  # the relative error of a mean near zero is noise
		same = np.isnan(got) & np.isnan(want) | (got == want)
		tol = np.where(np.isfinite(want) & np.isfinite(err), 1e-9 * np.abs(want) + err, 0)
		obs.check(not np.any(np.isnan(got) & ~np.isnan(want) & sure), "the error curve has gaps", mu=mu, n=n, got=got, want=want)
		obs.close(np.where(same | ~sure, 0, got), np.where(same | ~sure, 0, want), tol, "the error curve is not the error of the running mean", mu=mu, absolute=p["absolute"], n=n)
		if thr is not None:
			obs.close(ln[1]["y"], [thr, thr], 0.0, "the threshold line is elsewhere")
			obs.close(ln[1]["x"], [0, n], 0.0, "the threshold line does not span the samples")
			obs.count("thresholds")
	xr = f.__dict__.get("x_range")
	if xr is not None and isinstance(xr, Range1d):
		obs.check(xr.kw["start"] <= 1 and xr.kw["end"] >= n and xr.kw["end"] <= 2 * n + 1, "the visible range is not that of the samples", got=xr.kw, n=n)
	obs.count("relative", not p["absolute"])
	for k, val in kw.items():
		obs.check(f.kw.get(k) == val, "a figure option was dropped", option=k, got=f.kw)
	unchanged(src, ref, obs)
	obs.count("errors")


def csm(p, obs, r):
	from primate.plotting import figure_csm

	x = r.uniform(-1, 1, size=p["n"]) if p["seed"] % 3 else r.choice([-0.5, 0.0, 0.5], size=p["n"])
	x = x * 10.0 ** float(pick(r, [0, 0, -3, 2])) + float(pick(r, [0, 0, 3, -7]))
	order = pick(r, ["sorted", "random", "descending"])
	x = x if order == "random" else np.sort(x)[:: 1 if order == "sorted" else -1]
	ref = x.copy()
	kw = ({"y_range": (0, 1)} if p["seed"] % 2 else {}) | options(p, obs)
	f = figure_csm([float(v) for v in x] if p["source"] == "list" else x, **kw)
	sc, ar = f.of("scatter"), f.of("varea_step")
	if obs.check(len(sc) == 1 and len(ar) == 1, "not one scatter and one area", got=[k for k, _ in f.calls]):
		obs.close(np.sort(sc[0]["x"]), np.sort(ref), 0.0, "the marked eigenvalues are not those given")
		sx, y1, y2 = (np.ravel(ar[0][k]).astype(float) for k in ("x", "y1", "y2"))
		obs.check(ar[0].get("step_mode", "before") == "before", "unknown kind of steps", got=ar[0].get("step_mode"))
		obs.check(len(sx) == len(y2) == len(y1) and np.all(np.diff(sx) >= 0), "the area runs backwards", x=sx, order=order)
		obs.check(sx[0] == ref.min() and sx[-1] >= ref.max(), "the area does not cover the spectrum", x=sx)
		obs.close(y1, np.zeros(len(sx)), 0.0, "the area does not start at zero")
		for t in r.uniform(sx[0], sx[-1], size=20):  # the step drawn over t is that of the next position
			if np.min(np.abs(sx - t)) > 0:
				obs.close(y2[np.searchsorted(sx, t)], np.mean(ref <= t), 1e-12, "wrong cumulative density", at=t, order=order)
		if ref.max() < sx[-1]:
			obs.close(y2[-1], 1.0, 1e-12, "the distribution does not end at one")
	for k, val in kw.items():
		obs.check(f.kw.get(k) == val, "a figure option was dropped", option=k, got=f.kw)
	obs.check(np.array_equal(x, ref), "plotting modified the spectrum")
	obs.count("purity_checks")
	obs.count("spectra")


def jacobi(p, obs, r):
	from primate.plotting import figure_jacobi

	a, b = float(np.round(r.uniform(-0.9, 3), 2)), float(np.round(r.uniform(-0.9, 3), 2))
	f = figure_jacobi(p["deg"], a, b)
	ln = f.of("line")
	if obs.check(len(ln) == p["deg"], "not one line per degree", got=len(ln)):
		for d, q in enumerate(ln):
			obs.check(q["x"].min() == -1 and q["x"].max() == 1, "the domain is not [-1, 1]")
			obs.close(q["y"], special.eval_jacobi(d, a, b, q["x"]), 1e-9, "wrong polynomial", degree=d)
	obs.raises(lambda: figure_jacobi(11), (AssertionError, ValueError, KeyError), "more polynomials than colours were accepted")
	obs.count("polynomials")
