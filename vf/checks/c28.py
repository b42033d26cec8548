"""update_trinv extends the inverse of a triangular matrix to that of the matrix with one more column."""

import numpy as np
import scipy.linalg as sl

from ..gens import pick, size

PROPERTY = "C28"
EXTS = ()
COUNTS = {"quick": 8000, "thorough": 150000}
REQUIRED = ["updates", "chains", "exact_chains", "ill_scaled", "rejected", "column_forms", "from_empty", "purity_checks", "integer_updates"]
RULE = (
	"chains of updates that build the inverse of a random upper-triangular matrix column by column, from the empty or a random "
	"leading block, n up to 60; integer unit-triangular chains must be exact; diagonals graded over 12 decades, rows and columns scaled over 50, few huge entries; the column as "
	"vector, column or row, strided or read-only; keyed by (kind, start, n, form)"
)
ASSUMES = ["inverses are judged by the residual of B X = I relative to |B| |X|, which forward substitution keeps near machine precision"]


def gen(rng, i, tier):
	return {
		"kind": pick(rng, ["random", "unit_int", "graded", "triu_sparse", "negative", "column_scaled", "row_scaled", "big_entries"]),
		"n": size(rng, 1, 60),
		"start": pick(rng, ["empty", "empty", "one", "half"]),
		"form": pick(rng, ["vec", "col", "row", "view", "readonly", "list32"]),
		"seed": int(rng.integers(1 << 30)),
	}


def run(p, obs):
	from primate.linalg import update_trinv

	r = np.random.default_rng(p["seed"])
	n, kind = p["n"], p["kind"]
	B = np.triu(r.normal(size=(n, n)))
	d = r.uniform(0.5, 2, size=n) * r.choice([-1, 1], size=n)
	if kind == "unit_int":
		B = np.triu(r.integers(-1, 2, size=(n, n)), 1).astype(float)
		d = r.choice([-1.0, 1.0], size=n)
	elif kind == "graded":
		d = d * 10.0 ** r.uniform(-6, 6, size=n)
	elif kind == "triu_sparse":
		B = B * (r.random((n, n)) < 0.2)
	elif kind == "negative":
		d = -np.abs(d)
	B = np.triu(B, 1) / (1 if kind == "unit_int" else np.sqrt(n)) + np.diag(d)
	if kind == "column_scaled":
		B = B * 10.0 ** r.uniform(-25, 25, size=n)
	elif kind == "row_scaled":
		B = B * 10.0 ** r.uniform(-12, 12, size=n)[:, None]
	elif kind == "big_entries":
		B = B * np.where((r.random((n, n)) < 0.1) & (np.triu(np.ones((n, n)), 1) > 0), 1e9, 1.0)
	dt = np.float32 if p["form"] == "list32" and "scaled" not in kind and kind != "big_entries" else np.float64
	k = {"empty": 0, "one": 1, "half": n // 2}[p["start"]]
	X = np.linalg.inv(B[:k, :k]).astype(dt) if k else np.zeros((0, 0), dtype=dt)
	if kind == "unit_int":
		X = np.round(X)
		if np.abs(np.linalg.inv(B)).max() > 2.0**40:
			n = min(n, 20)
	obs.count("from_empty", k == 0)
	for j in range(k, n):
		if not np.abs(sl.solve_triangular(B[: j + 1, : j + 1], np.eye(j + 1))).max() < (1e60 if dt == np.float64 else 1e20):
			break  # the squares in the bound would overflow
		b = B[: j + 1, j].astype(dt)
		c = {"vec": lambda: b.copy(), "col": lambda: b[:, None].copy(), "row": lambda: b.copy(), "view": lambda: np.repeat(b, 3)[::3], "readonly": lambda: b.copy(), "list32": lambda: b.copy()}[p["form"]]()
		c0, X0 = c.copy(), X.copy()
		if p["form"] == "readonly":
			c.flags.writeable = False
			X.flags.writeable = False
		if X.dtype != c.dtype:
			break  # the result is double precision: single-precision chains are a single step
		Y = update_trinv(X, c)
		obs.check(np.array_equal(X, X0) and np.array_equal(c, c0), "an argument was modified", n=j)
		obs.check(not np.shares_memory(Y, X), "the result aliases the argument", n=j)
		obs.count("purity_checks")
		obs.check(Y.shape == (j + 1, j + 1), "wrong shape", shape=Y.shape, n=j + 1)
		obs.check(np.all(np.tril(Y, -1) == 0), "the inverse is not upper triangular", n=j + 1)
		obs.close(Y[:j, :j], X, 0.0, "the leading block changed", n=j + 1)
		S = B[: j + 1, : j + 1]
		if kind == "unit_int" and dt == np.float64:
			obs.check(np.array_equal(S @ Y, np.eye(j + 1)), "an integer inverse is not exact", n=j + 1)
			obs.count("exact_chains")
		else:
			eps = 4 * np.finfo(dt).eps
			res = np.abs(S @ Y - np.eye(j + 1))
			obs.check(np.all(res <= eps * (j + 2) * (np.abs(S) @ np.abs(Y) @ np.abs(S) @ np.abs(Y) + 1)), "not the inverse of the extended matrix", n=j + 1, worst=res.max(), kind=kind)
		obs.count("updates")
		obs.count("column_forms", p["form"] != "vec")
		X = Y
	obs.count("ill_scaled", kind in ("graded", "column_scaled", "row_scaled", "big_entries"))
	obs.count("chains")
	# integers throughout: the inverse is not
	m = int(r.integers(1, 8))
	I = np.triu(r.integers(-2, 3, size=(m + 1, m + 1)), 1)
	I[np.arange(m), np.arange(m)] = r.choice([-1, 1], size=m)
	I[m, m] = int(pick(r, [1, -1, 2, 3, -4, 7]))
	J = np.rint(np.linalg.inv(I[:m, :m])).astype(int)
	Y = update_trinv(J, I[:, m])
	obs.close(I @ Y, np.eye(m + 1), 1e-12 * (1 + np.abs(J).max()) ** 2, "wrong inverse of an integer matrix", B=I)
	obs.count("integer_updates")
	m = X.shape[0]
	for badlen in (m, m + 2):
		if badlen:
			obs.raises(lambda: update_trinv(X, np.ones(badlen, dtype=X.dtype)), (AssertionError, ValueError), "a column of the wrong length was accepted", length=badlen, n=m)
	obs.raises(lambda: update_trinv(np.ones((m, m + 1)), np.ones(m + 1)), (AssertionError, ValueError), "a matrix that is not square was accepted")
	obs.raises(lambda: update_trinv(X.astype(np.float64), np.ones(m + 1, dtype=np.float32)), (AssertionError, ValueError, TypeError), "mixed precisions were accepted")
	obs.count("rejected", 3)
	obs.sig(kind, p["start"], n, p["form"])
