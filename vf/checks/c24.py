"""The multi-threaded sampler fills every column, once, deterministically, whatever the scheduling."""

import threading
import time

import numpy as np

from ..gens import pick, size
from .c23 import ALIAS, moments, support

PROPERTY = "C24"
EXTS = ()
COUNTS = {"quick": 4000, "thorough": 40000}
REQUIRED = ["fills", "delayed_fills", "threads_seen", "out_of_order_fills", "more_threads_than_columns", "refills", "concurrent_samplers", "single_threaded", "moment_checks", "reproduced", "worker_faults", "fills_after_faults", "stalled_fills"]
RULE = (
	"Isotropic samplers with 1..100 threads (some failing on purpose) on 1..200 columns; the generators are a NumPy Generator subclass that records the "
	"memory each call fills and delays calls at random, so that threads finish in every order; after every fill the values are "
	"checked entry by entry, compared with an undelayed run of the same seed, and compared column by column for repeats; "
	"keyed by (pdf, n, columns, threads, delay pattern, finishing order)"
)
ASSUMES = ["values are compared between runs of the same number of threads only"]

LOCK = threading.Lock()


class Fault(Exception):
	pass


class SlowGenerator(np.random.Generator):
	"""A generator whose calls take a random while and log what they filled. Spawned generators behave alike."""

	LOG = None
	DELAY = None  # function(generator number) -> seconds
	FAULTS = None  # calls (in the order they start) that fail

	def _slow(self, kind, fn, out, kw):
		log = SlowGenerator.LOG
		if log is None:
			return fn(out=out, **kw) if out is not None else fn(**kw)
		with LOCK:
			me = log["ids"].setdefault(id(self), len(log["ids"]))
			log["keep"].append(self)
			log["start"].append(me)
			if SlowGenerator.FAULTS and len(log["start"]) in SlowGenerator.FAULTS:
				ex = SlowGenerator.FAULTS[len(log["start"])] = Fault()
				raise ex
		d = SlowGenerator.DELAY(me)
		if d:
			time.sleep(d)
		r = fn(out=out, **kw) if out is not None else fn(**kw)
		if d:
			time.sleep(d / 2)
		with LOCK:
			log["end"].append(me)
			if out is not None and out.size:
				a = out.__array_interface__["data"][0]
				log["out"].append((a, a + out.nbytes, out.flags["C_CONTIGUOUS"] or out.flags["F_CONTIGUOUS"]))
			log["threads"].add(threading.get_ident())
		return r

	def random(self, size=None, dtype=np.float64, out=None):
		return self._slow("random", super().random, out, {"size": size, "dtype": dtype})

	def standard_normal(self, size=None, dtype=np.float64, out=None):
		return self._slow("standard_normal", super().standard_normal, out, {"size": size, "dtype": dtype})


def gen(rng, i, tier):
	return {
		"pdf": pick(rng, list(ALIAS)),
		"n": size(rng, 1, 100),
		"k": size(rng, 1, 200),
		"threads": int(pick(rng, [1, 2, 2, 3, 4, 7, 8, 16] if rng.random() < 0.9 else [24, 40, 70, 100])),
		"pattern": pick(rng, ["none", "random", "first_slow", "last_slow", "reverse"]) if rng.random() > 0.003 else "stall",
		"fills": int(rng.integers(1, 4)),
		"seedtype": pick(rng, ["slow", "slow", "slow", "int", "seq", "generator"]),
		"seed": int(rng.integers(1 << 30)),
		"twins": bool(rng.random() < 0.2),
	}


def new_log():
	return {"ids": {}, "keep": [], "start": [], "end": [], "out": [], "threads": set()}


def run(p, obs):
	from primate.random import Isotropic

	n, k, T = p["n"], p["k"], p["threads"]
	pdf = ALIAS[p["pdf"]]
	r = np.random.default_rng(p["seed"])
	mk = {
		"slow": lambda: SlowGenerator(np.random.PCG64(p["seed"])),
		"int": lambda: p["seed"],
		"seq": lambda: np.random.SeedSequence(p["seed"]),
		"generator": lambda: np.random.default_rng(p["seed"]),
	}[p["seedtype"]]
	jitter = r.uniform(0, 0.004, size=64)
	SlowGenerator.DELAY = {
		"none": lambda i: 0.0,
		"random": lambda i: jitter[i % 64],
		"stall": lambda i: 0.8 if i == T - 1 else 0.0,
		"first_slow": lambda i: 0.008 if i == 0 else 0.0,
		"last_slow": lambda i: 0.008 if i == T - 1 else 0.0,
		"reverse": lambda i: 0.0015 * max(0, T - i) if T <= 8 else 0.0008 * max(0, T - i),
	}[p["pattern"]]
	SlowGenerator.LOG = None
	ref = Isotropic((n, k), pdf=p["pdf"], seed=mk(), threads=T)
	obs.check(ref.values.shape == (n, k), "wrong shape", shape=ref.values.shape)
	refs = []
	for _ in range(p["fills"]):
		ref.fill()
		refs.append(ref.values.copy())
	samplers = [Isotropic((n, k), pdf=p["pdf"], seed=mk(), threads=T) for _ in range(2 if p["twins"] else 1)]
	seen = []
	for f in range(p["fills"]):
		log = new_log()
		SlowGenerator.LOG = log
		for s in samplers:
			s.values[...] = np.nan
		if p["twins"]:
			th = [threading.Thread(target=s.fill) for s in samplers]
			[t.start() for t in th]
			[t.join() for t in th]
			obs.count("concurrent_samplers")
		else:
			samplers[0].fill()
		early = [s.values.copy() for s in samplers]
		time.sleep(0.002 if p["pattern"] != "none" else 0)
		SlowGenerator.LOG = None
		w = {"n": n, "k": k, "threads": T, "pattern": p["pattern"], "fill": f}
		for s, V in zip(samplers, early):
			obs.check(s.values.shape == (n, k) and not np.any(np.isnan(V)), "columns were not filled when fill() returned", missing=np.flatnonzero(np.isnan(V).any(axis=0))[:20], **w)
			obs.check(np.array_equal(V, s.values, equal_nan=True), "values changed after fill() had returned", **w)
			support(V, pdf, obs, **w)
			obs.check(np.array_equal(V, refs[f], equal_nan=True), "the values depend on the scheduling", columns=np.flatnonzero((V != refs[f]).any(axis=0))[:20], **w)
			obs.count("reproduced")
		V = early[0]
		if n >= (40 if pdf == "rademacher" else 3):
			allv = np.hstack(seen + [V])
			obs.check(len(np.unique(allv, axis=1).T) == allv.shape[1], "two columns are identical: streams overlap", **w)
		seen.append(V)
		obs.count("fills")
		obs.count("refills", f > 0)
		obs.count("single_threaded", T == 1)
		obs.count("more_threads_than_columns", T > k)
		if log["end"] and p["seedtype"] == "slow":
			spans = sorted(log["out"])
			over = [(a, b) for a, b in zip(spans, spans[1:]) if a[1] > b[0] and a[2] and b[2]]
			obs.check(not over, "two calls filled overlapping memory", spans=over[:3], **w)
			obs.count("disjoint_outputs", len(log["out"]))
			obs.count("threads_seen", len(log["threads"]))
			obs.count("stalled_fills", p["pattern"] == "stall")
			obs.count("delayed_fills", p["pattern"] != "none")
			obs.count("out_of_order_fills", log["end"] != sorted(log["end"]))
			obs.sig(pdf, n, k, T, p["pattern"], tuple(log["end"]))
	if p["seedtype"] == "slow":
		faulty(p, obs, samplers[0], r)
	moments(np.hstack(seen), pdf, obs, what="threaded")
	obs.count("moment_checks")
	obs.sig(pdf, n, k, T, p["pattern"], p["seedtype"])
	obs.raises(lambda: Isotropic((n, k), pdf="cauchy", threads=1), (AssertionError, ValueError, KeyError), "an unknown distribution was accepted")


def faulty(p, obs, s, r):
	"""A worker that fails makes fill() raise its exception, after all workers are done; the sampler stays usable."""
	busy = min(p["threads"], -(-p["k"] // int(s.step))) if hasattr(s, "step") else 1
	SlowGenerator.LOG = log = new_log()
	SlowGenerator.FAULTS = faults = {int(r.integers(1, busy + 1)): None for _ in range(1 + int(r.integers(2)))}
	SlowGenerator.DELAY = lambda i: 0.0
	try:
		s.fill()
		caught = None
	except Fault as ex:
		caught = ex
	SlowGenerator.FAULTS = None
	thrown = [x for x in faults.values() if x is not None]
	w = {"k": p["k"], "threads": p["threads"]}
	obs.check(not thrown or caught is not None, "fill() returned normally although a worker had failed", **w)
	obs.check(caught is None or any(caught is x for x in thrown), "another exception came out", got=repr(caught), **w)
	obs.count("worker_faults", len(thrown))
	SlowGenerator.LOG = None
	s.values[...] = np.nan
	s.fill()
	obs.check(not np.any(np.isnan(s.values)), "columns were not filled after an earlier failure", **w)
	obs.count("fills_after_faults")
