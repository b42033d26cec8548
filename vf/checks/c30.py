"""A seed determines the result: whatever ran before, whatever the global state, and whatever other threads do."""

import random
import threading

import numpy as np

from ..apis import NAMES, SEEDED, make
from ..gens import pick

PROPERTY = "C30"
COUNTS = {"quick": 3000, "thorough": 120000}
REQUIRED = ["repeated", "seeded_pairs", "different_seeds", "generator_seeds", "global_reseeds", "interposed_calls", "concurrent_calls", "thread_groups", "advanced_generators", "unseeded_pairs", "zero_seeds", "reused_sequences", "birthdays"]
RULE = (
	"every seeded entry point (and the deterministic ones) twice with the same seed, as integer, generator or seed sequence; "
	"between the two runs other random calls are made and NumPy's and Python's global generators are reseeded; one case in four "
	"runs 2 to 6 calls concurrently from threads and compares each with its own sequential result; different seeds must give "
	"different results; keyed by (entry point, seed kind, interposed calls)"
)
ASSUMES = ["the threaded sampler uses a seed sequence up (it spawns from it) like a generator", "results of two runs are compared to 1e-9 of their size (1e-3 in single precision), to leave room for alignment-dependent summation"]


def gen(rng, i, tier):
	names = [SEEDED[i % len(SEEDED)]] if i < 2 * len(SEEDED) else [pick(rng, SEEDED if rng.random() < 0.7 else NAMES)]
	return {
		"names": names + [pick(rng, NAMES) for _ in range(int(rng.integers(1, 6)))],
		"threads": bool(i % 4 == 3),
		"birthdays": bool(i % 100 == 50),
		"kind": pick(rng, ["int", "int", "numpy", "generator", "seq", "seq"]),
		"special": pick(rng, [None, None, None, 0, 1, 2**32, 2**64 + 1]),
		"seed": int(rng.integers(1 << 30)),
	}


def agree(a, b, tol):
	if len(a) != len(b) or any(x.shape != y.shape for x, y in zip(a, b)):
		return False
	return all(np.allclose(x, y, rtol=tol, atol=tol * (1e-300 + np.nanmax(np.abs(x[np.isfinite(x)]), initial=0.0)), equal_nan=True) for x, y in zip(a, b))


def identical(a, b):
	return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


# results of these carry enough random numbers for two different seeds to be told apart with certainty
TELLTALE = ["isotropic", "isotropic_sampler", "isotropic_out", "Isotropic", "haar", "lanczos", "symmetric"]


def run(p, obs):
	r = np.random.default_rng(p["seed"])
	s = p["seed"] ^ 0x5A5A if p.get("special") is None else p["special"]
	seq = np.random.SeedSequence(s)
	seed = lambda: {"int": s, "numpy": np.int64(s) if s < 2**63 else s, "generator": np.random.default_rng(s), "seq": np.random.SeedSequence(s) if p["names"][0] == "Isotropic" or p["threads"] else seq}[p["kind"]]
	if p["birthdays"]:
		return birthdays(p, obs, r)
	calls = [make(nm, r) for nm in p["names"]]
	if p["threads"]:
		return concurrent(p, obs, calls, seed)
	c = calls[0]
	first = c.go(seed())
	for other in calls[1:]:
		other.go(None if r.random() < 0.5 else int(r.integers(1 << 30)))
		obs.count("interposed_calls")
	np.random.seed(int(r.integers(1 << 30)))
	random.seed(int(r.integers(1 << 30)))
	obs.count("global_reseeds")
	second = c.go(seed())
	if c.same:
		obs.check(agree(first, second, c.tol), "the same seed gives a different result", call=c.name, kind=p["kind"], others=p["names"][1:], first=first[:2], second=second[:2])
		obs.count("repeated")
	obs.count("zero_seeds", p.get("special") == 0)
	obs.count("reused_sequences", p["kind"] == "seq")
	obs.count("generator_seeds", p["kind"] == "generator")
	if c.name in SEEDED:
		obs.count("seeded_pairs")
		i1, i2 = c.go(s), c.go(np.random.default_rng(s))
		obs.check(agree(i1, i2, c.tol), "an integer seed and the generator it makes give different results", call=c.name)
		if c.name in TELLTALE and sum(x.size for x in first) >= 80:
			third = c.go(s + 1)
			obs.check(not identical(first, third), "different seeds give the same result", call=c.name)
			obs.count("different_seeds")
			g = np.random.default_rng(s)
			u, v = c.go(g), c.go(g)
			obs.check(not identical(u, v), "a generator passed as seed is not advanced", call=c.name)
			obs.count("advanced_generators")
			np.random.seed(1)
			u = c.go(None)
			np.random.seed(1)
			v = c.go(None)
			obs.check(not identical(u, v), "two unseeded calls give the same result", call=c.name)
			obs.count("unseeded_pairs")
	obs.sig(c.name, p["kind"], tuple(p["names"][1:3]))


def birthdays(p, obs, r):
	"""Many seeds, no two alike: a generator that loses bits of its seed collides."""
	from primate.lanczos import lanczos
	from primate.random import haar, isotropic, symmetric
	from primate.trace import hutch, hutchpp

	A = np.diag(np.arange(1.0, 6.0)) + 0.1
	what, f = [
		("isotropic", lambda s: isotropic((9, 1), pdf="normal", seed=s)),
		("sphere", lambda s: isotropic((9, 1), pdf="sphere", seed=s)),
		("signs", lambda s: isotropic((99, 1), seed=s)),
		("symmetric", lambda s: symmetric(4, seed=s)),
		("haar", lambda s: haar(4, seed=s)),
		("haar with spectrum", lambda s: haar(4, ew=[1.0, 2.0, 3.0, 5.0], seed=s)),
		("lanczos", lambda s: np.concatenate(lanczos(A, deg=3, seed=s))),
		("hutch", lambda s: hutch(A, pdf="normal", seed=s, converge="count", count=3)),
		("hutchpp", lambda s: hutchpp(A, pdf="normal", m=3, seed=s)),
	][int(r.integers(9))]
	seeds = {int(x) for x in r.integers(1 << 62, size=600)} | set(range(600))
	got = {np.asarray(f(s)).tobytes() for s in seeds}
	obs.check(len(got) == len(seeds), "different seeds give the same result", call=what, seeds=len(seeds), results=len(got))
	obs.count("birthdays")
	obs.count("different_seeds")
	obs.sig("birthdays", what)


def concurrent(p, obs, calls, seed):
	"""Each call owns its arguments; running them at the same time must not change their results."""
	want = [c.go(seed()) for c in calls]
	got, errs = [None] * len(calls), []
	gate = threading.Barrier(len(calls))

	def work(i):
		try:
			gate.wait()
			for _ in range(3):
				got[i] = calls[i].go(seed())
		except Exception as ex:  # noqa: BLE001
			errs.append((calls[i].name, repr(ex)))

	th = [threading.Thread(target=work, args=(i,)) for i in range(len(calls))]
	[t.start() for t in th]
	[t.join() for t in th]
	obs.check(not errs, "a call failed while others were running", errors=errs)
	for c, a, b in zip(calls, want, got):
		if c.same and not errs:
			obs.check(agree(a, b, c.tol), "a result depends on what other threads do", call=c.name, others=[x.name for x in calls if x is not c])
	obs.count("concurrent_calls", len(calls))
	obs.count("thread_groups")
	obs.sig("threads", tuple(c.name for c in calls))
