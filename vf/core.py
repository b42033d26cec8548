"""Case context (the observer handed to every check) and the worker loop.

A check module (vf/checks/cNN.py) defines
  PROPERTY  the id                       EXTS     native extensions it needs (default: all three)
  FLAVOUR   'plain' or 'asan'            RULE     how cases are made and what makes one non-trivial
  COUNTS    {'quick': n, 'thorough': m}  REQUIRED counters that must be positive, else the run is inconclusive
  gen(rng, i, tier) -> dict              JSON parameters of case i (pure function of its arguments)
  run(p, obs)                            executes the real code under monitors and reports through `obs`
and optionally PROBES (name -> function(obs)): fixed executions of the known findings.
"""

import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

import numpy as np

CPU_LIMIT = int(os.environ.get("VF_CASE_CPU", "60"))  # CPU seconds of one case, normally milliseconds


class Budget(BaseException):
	"""Raised by a monitor when the code under test exceeds a logical budget (operator applications, samples...)."""


class CpuHang(BaseException):
	pass


class Obs:
	"""Collects what the monitors observed in one case."""

	def __init__(self):
		self.violations = []
		self.counters = {}
		self.sigs = set()
		self.trivial = False

	def count(self, name, k=1):
		self.counters[name] = self.counters.get(name, 0) + int(k)

	def sig(self, *key):
		"""Registers a non-trivial situation that was observed; the distinct ones are counted."""
		self.sigs.add(hashlib.sha1(repr(key).encode()).hexdigest()[:12])

	def fail(self, kind, /, **witness):
		self.violations.append({"kind": kind, "witness": {k: _short(v) for k, v in witness.items()}})

	def check(self, ok, kind, /, **witness):
		self.count("oracle_checks")
		if not bool(ok):
			self.fail(kind, **witness)
		return bool(ok)

	def close(self, got, want, tol, kind, /, **witness):
		"""|got - want| <= tol elementwise, with equal shapes after broadcasting; NaN is a mismatch unless both are NaN."""
		self.count("oracle_checks")
		try:
			g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
		except (TypeError, ValueError) as ex:
			self.fail(kind, error=repr(ex), got=repr(got)[:200], want=repr(want)[:200], **witness)
			return False
		if g.shape != w.shape:
			self.fail(kind, got_shape=g.shape, want_shape=w.shape, **witness)
			return False
		with np.errstate(all="ignore"):
			ok = (np.abs(g - w) <= tol) | (g == w) | (np.isnan(g) & np.isnan(w))
			if not np.all(ok):
				self.fail(kind, got=g, want=w, max_err=float(np.nanmax(np.abs(g - w))) if g.size else None, tol=tol, **witness)
				return False
		return True

	def raises(self, fn, exc, kind, /, **witness):
		self.count("oracle_checks")
		try:
			r = fn()
		except exc:
			return True
		self.fail(kind, returned=repr(r)[:200], **witness)
		return False


def _short(v):
	if isinstance(v, np.ndarray):
		return np.array2string(v, threshold=12, precision=8)
	if isinstance(v, (np.floating, np.integer, np.bool_)):
		return v.item()
	if isinstance(v, (int, float, str, bool, type(None))):
		return v
	return repr(v)[:400]


def _on_prof(signum, frame):
	raise CpuHang(f"case used more than {CPU_LIMIT} s of CPU")


def run_case(mod, p):
	obs = Obs()
	np.random.seed(12345)
	signal.signal(signal.SIGPROF, _on_prof)
	signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
	try:
		with warnings.catch_warnings():
			warnings.simplefilter("ignore")
			mod.run(p, obs)
	except CpuHang as ex:
		obs.fail("no termination", detail=str(ex), where=traceback.format_exc()[-1500:])
	except Budget as ex:
		obs.fail("logical budget exceeded", detail=str(ex), where=traceback.format_exc()[-1500:])
	except MemoryError:
		raise
	except Exception as ex:  # noqa: BLE001
		obs.fail("unexpected exception", error=repr(ex)[:300], where=traceback.format_exc()[-2500:])
	finally:
		signal.setitimer(signal.ITIMER_PROF, 0)
	return obs


def case_rng(prop, seed, i):
	h = int(hashlib.sha256(f"{prop}/{seed}".encode()).hexdigest()[:12], 16)
	return np.random.default_rng([h, i])


def worker(prop, stripe, stripes, seed, tier, out):
	mod = importlib.import_module(f"vf.checks.{prop.lower()}")
	n = mod.COUNTS[tier]
	start = int(os.environ.get("VF_START", "0"))
	maxv = 8
	tot = {"evaluations": 0, "sigs": set(), "counters": {}, "violations": [], "samples": [], "done": False}
	soft = float(os.environ.get("VF_SOFT_S", "1e9"))
	t0 = time.time()
	tot["cut"] = 0
	def _dump():
		tmp = out + ".tmp"
		json.dump({**tot, "sigs": sorted(tot["sigs"])}, open(tmp, "w"))
		os.replace(tmp, out)
	last = time.time()
	for i in range(stripe, n, stripes):
		if i < start:
			continue
		if time.time() - t0 > soft:
			tot["cut"] += 1
			continue
		p = mod.gen(case_rng(prop, seed, i), i, tier)
		_note(out, i, p)
		obs = run_case(mod, p)
		tot["evaluations"] += 1
		tot["sigs"] |= obs.sigs
		for k, v in obs.counters.items():
			tot["counters"][k] = tot["counters"].get(k, 0) + v
		if len(tot["samples"]) < 2 and obs.sigs:
			tot["samples"].append({"case": i, "params": p, "observed": dict(obs.counters)})
		for v in obs.violations[:3]:
			tot["violations"].append({"case": i, "params": p, **v})
		if len(tot["violations"]) >= maxv:
			break
		if time.time() - last > 5:
			_dump()
			last = time.time()
	tot["done"] = True
	_dump()


def _note(out, i, p):
	with open(out + ".cur", "w") as f:
		json.dump({"case": i, "params": p}, f)


if __name__ == "__main__":
	resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
	a = sys.argv
	if a[1] == "worker":
		worker(a[2], int(a[3]), int(a[4]), int(a[5]), a[6], a[7])
	elif a[1] == "one":
		# replay one case: prints the observations as JSON
		mod = importlib.import_module(f"vf.checks.{a[2].lower()}")
		p = json.load(open(a[3]))["params"]
		o = run_case(mod, p)
		print(json.dumps({"violations": o.violations, "counters": o.counters}))
	elif a[1] == "probe":
		mod = importlib.import_module(f"vf.checks.{a[2].lower()}")
		print(json.dumps({"present": bool(mod.PROBES[a[3]]())}))
