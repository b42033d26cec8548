"""Streaming means and covariances do not depend on how the samples were batched."""

import numpy as np

from ..gens import pick, size

PROPERTY = "C18"
EXTS = ()
COUNTS = {"quick": 20000, "thorough": 300000}
REQUIRED = ["histories", "updates", "single_sample_batches", "covariances", "undefined_covariances", "multivariate", "rejected_batches", "large_offsets", "read_only_batches", "population_covariances", "prefix_checks", "empty_batches", "other_ddofs", "long_streams", "integer_batches"]
RULE = (
	"random sample sequences (1..300 samples, one in a hundred 5000..40000, 1..6 dimensions, offsets up to 1e8 times the spread, constant, integer, heavy-tailed) "
	"cut into random batches (scalars, lists, vectors, strided and transposed matrices), with wrong and empty batches in between; after "
	"every batch the running values are compared with the two-pass ones of the prefix; keyed by (kind, dim, n, batching)"
)
ASSUMES = ["covariances are judged to 1e-9 of the spread plus the rounding of the offset, which only a shifted algorithm meets"]


def gen(rng, i, tier):
	return {
		"kind": pick(rng, ["normal", "offset", "offset", "constant", "int", "heavy", "tiny", "signs"]),
		"dim": int(pick(rng, [1, 1, 1, 2, 3, 6])) if rng.random() < 0.97 else int(rng.integers(7, 120)),
		"n": int(rng.integers(5000, 40000)) if rng.random() < 0.01 else size(rng, 1, 300 if rng.random() < 0.3 else 40),
		"cuts": pick(rng, ["ones", "random", "random", "all", "geometric"]),
		"cov": bool(rng.random() < 0.7),
		"bad": bool(rng.random() < 0.3),
		"empty": bool(rng.random() < 0.3),
		"seed": int(rng.integers(1 << 30)),
	}


def samples(kind, n, dim, r):
	X = r.normal(size=(n, dim))
	if kind == "offset":
		X = X + 10.0 ** r.uniform(2, 8) * r.choice([-1, 1], size=dim)
	elif kind == "constant":
		X = np.tile(r.normal(size=dim), (n, 1))
	elif kind == "int":
		X = r.integers(-5, 6, size=(n, dim)).astype(float)
	elif kind == "heavy":
		X = r.standard_t(2, size=(n, dim)) * 100
	elif kind == "tiny":
		X = X * 1e-120
	elif kind == "signs":
		X = r.choice([-1.0, 1.0], size=(n, dim))
	return X


def cut(kind, n, r):
	out, left = [], n
	while left:
		k = {"ones": 1, "all": left, "random": int(r.integers(1, 9)), "geometric": 2 ** len(out), "large": int(r.integers(20, 900))}[kind]
		out.append(min(k, left))
		left -= out[-1]
	return out


def form(X, r, obs):
	"""The same batch in one of the accepted representations."""
	b, d = X.shape
	if r.random() < 0.15 and np.array_equal(X, np.round(X)) and np.abs(X).max() < 100:
		obs.count("integer_batches")
		return X.astype([np.int8, np.int64, np.int32][int(r.integers(3))])
	if d == 1:
		k = int(r.integers(6))
		if b == 1 and k < 3:
			return [float(X[0, 0]), X[0, 0], [float(X[0, 0])]][k]
		if k == 3:
			return X[:, 0].copy()
		if k == 4:
			return [float(x) for x in X[:, 0]]
		if k == 5:
			return np.repeat(X[:, 0], 2)[::2]
		return X.copy()
	k = int(r.integers(4))
	if k == 0:
		return np.asfortranarray(X)
	if k == 1:
		return np.repeat(X, 2, axis=0)[::2]
	Y = X.copy()
	if k == 2:
		Y.flags.writeable = False
		obs.count("read_only_batches")
	return Y


def run(p, obs):
	from primate.stats import Covariance, Mean

	r = np.random.default_rng(p["seed"])
	n, dim = p["n"], p["dim"]
	X = samples(p["kind"], n, dim, r)
	E = Covariance(dim=dim) if p["cov"] else Mean(dim=dim)
	obs.check(np.all(np.isnan(E.mean())), "the mean of no samples is not NaN", mean=E.mean())
	scale = np.abs(X).max() + 1e-300
	spread = (X.std(axis=0).max() if n > 1 else 0.0) + 1e-300
	eps = np.finfo(float).eps
	off = np.abs(X).max()
	long = n if n >= 5000 else 0  # columns are summed term by term
	tol_m = eps * scale * (20 * np.log2(n + 2) + long)
	tol_c = 1e-11 * spread**2 + (eps * off) ** 2 * (100 * n + long**2) + (100 + long) * eps * off * spread
	at = 0
	kept, held = None, []
	for b in cut(p["cuts"] if n < 1000 else ["geometric", "all"][n % 2], n, r):
		if p["bad"] and r.random() < 0.3:
			for bad in ([np.ones((2, dim + 1))] + ([np.ones((2, dim - 1))] if dim > 1 else []) + ([np.ones(dim)] if dim > 1 else [])):
				before = (E.mean(), E.n)
				obs.raises(lambda: E.update(bad), (AssertionError, ValueError), "samples of the wrong dimension were accepted", shape=bad.shape, dim=dim)
				obs.check(np.array_equal(before[0], E.mean(), equal_nan=True) and before[1] == E.n, "a rejected batch changed the estimate")
				obs.count("rejected_batches")
		if p.get("empty") and r.random() < 0.4:
			before = [np.array(E.mean(), copy=True), E.n] + ([np.array(E.covariance(), copy=True)] if p["cov"] else [])
			E.update(np.empty((0, dim)) if dim > 1 or r.random() < 0.5 else [])
			after = [np.array(E.mean(), copy=True), E.n] + ([np.array(E.covariance(), copy=True)] if p["cov"] else [])
			obs.check(all(np.array_equal(x, y, equal_nan=True) for x, y in zip(before, after)), "an empty batch changed the estimate", before=str(before), after=str(after))
			obs.count("empty_batches")
		batch = form(X[at : at + b], r, obs)
		ref = np.array(batch, copy=True)
		E.update(batch)
		obs.check(np.array_equal(batch, ref), "the batch was modified")
		obs.count("updates")
		obs.count("single_sample_batches", b == 1)
		at += b
		P = X[:at]
		m = E.mean()
		if kept is not None:
			obs.check(np.array_equal(kept[0], kept[1]), "a mean handed out earlier changed with later samples")
		kept = (m, np.array(m, copy=True))
		obs.check((np.ndim(m) == 0) if dim == 1 else np.shape(m) == (dim,), "wrong shape of the mean", shape=np.shape(m))
		obs.close(np.ravel(m), P.mean(axis=0), tol_m, "wrong running mean", n=at)
		obs.count("prefix_checks")
		if p["cov"]:
			for ddof in (1, 0, int(r.integers(2, 5))):
				C = E.covariance(ddof=ddof) if r.random() < 0.5 else E(ddof=ddof)
				if at <= ddof:
					obs.check(np.all(np.isinf(C)), "the covariance of too few samples is not infinite", C=C)
					obs.count("undefined_covariances")
					continue
				D = P - P.mean(axis=0)
				want = D.T @ D / (at - ddof)
				obs.check((np.ndim(C) == 0) if dim == 1 else np.shape(C) == (dim, dim), "wrong shape of the covariance", shape=np.shape(C))
				C = np.reshape(C, (dim, dim))
				obs.close(C, want, tol_c + 1e-12 * np.abs(want).max(), "wrong running covariance", n=at, ddof=ddof, kind=p["kind"])
				obs.close(C, C.T, 1e-13 * np.abs(C).max(), "the covariance is not symmetric")
				obs.check(np.all(np.diag(C) >= 0), "negative variance")
				obs.count("covariances" if ddof else "population_covariances")
				obs.count("other_ddofs", ddof > 1)
				held.append((C, C.copy()))
			obs.check(all(np.array_equal(x, y) for x, y in held), "a covariance handed out earlier changed with later samples")
			held = held[-4:]
			if at > 1:
				obs.close(E.covariance(), E.covariance(ddof=1), 0.0, "the default is not the sample covariance")
		else:
			obs.close(np.ravel(E()), np.ravel(m), 0.0, "the two ways to ask for the mean disagree")
		obs.check(E.n == at, "wrong number of samples", got=E.n, want=at)
	obs.count("histories")
	obs.count("multivariate", dim > 1)
	obs.count("long_streams", n >= 5000)
	obs.count("large_offsets", p["kind"] == "offset")
	obs.sig(p["kind"], dim, n, p["cuts"], p["cov"])
