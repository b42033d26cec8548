"""The header-only C++ interface keeps its contract for every operator type, with exactly sized buffers."""

import os
import re
import subprocess
import tempfile
from pathlib import Path

PROPERTY = "C17"
EXTS = ()
PROGRAMS = {"c17f": "vf/native/c17.cpp -DFT=float", "c17d": "vf/native/c17.cpp -DFT=double"}
COUNTS = {"quick": 240, "thorough": 6000}
REQUIRED = ["expansions", "coefficients", "bases", "rolling_buffers", "early_stops", "orth_calls", "projected_columns", "untouched_columns", "dead_columns", "parameter_triples", "mod_values", "products", "adjoint_products", "matrix_products", "gram_products", "affine_products"]
RULE = (
	"a C++ program compiled against the current headers with AddressSanitizer and UBSan: each case is one process with its own "
	"seed and 30 rounds over orth_vector, lanczos_recurrence (with an operator that checks every pointer it is given), the Eigen "
	"operators and the parameter functions, in float or double, on heap arrays of exactly the documented sizes; keyed by seed"
)
ASSUMES = ["ncv >= min(2, deg) and orth < ncv, or full re-orthogonalisation with ncv = deg, as the headers require"]


def gen(rng, i, tier):
	return {"type": "fd"[i // 6 % 2], "seed": int(rng.integers(1 << 60)), "rounds": 30}


def run(p, obs):
	env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
	env.update(ASAN_OPTIONS="detect_leaks=1:halt_on_error=1", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")
	r = subprocess.run([os.environ["VF_PROG_c17" + p["type"]], str(p["seed"]), str(p["rounds"])], env=env, capture_output=True, text=True, timeout=600)
	for line in r.stdout.splitlines():
		if line.startswith("COUNT "):
			_, name, k = line.split()
			obs.count(name, int(k))
		elif line.startswith("FAIL "):
			kind, where, detail = (line[5:].split(" | ") + ["", ""])[:3]
			obs.fail(kind, where=where, detail=detail)
	if r.returncode != 0 and not obs.violations:
		obs.fail("sanitizer report or crash in the C++ interface", code=r.returncode, stderr=r.stderr[:3000])
	obs.sig(p["seed"], p["type"])


def _installed_headers_incomplete():
	"""Known finding: a translation unit against just the headers that the build installs."""
	repo = Path(os.environ.get("VF_REPO", "/repo")) / "src" / "primate"
	text = (repo / "meson.build").read_text()
	block = text.split("include_sources = [", 1)[1].split("]", 1)[0]
	names = re.findall(r"'include'\s*/\s*'([\w.]+)'", block)
	with tempfile.TemporaryDirectory() as tmp:
		for n in names:
			(Path(tmp) / n).write_bytes((repo / "include" / n).read_bytes())
		src = Path(tmp) / "t.cpp"
		src.write_text('#include "lanczos.h"\nint main() {}\n')
		r = subprocess.run(["g++", "-std=c++20", "-fsyntax-only", "-w", f"-I{tmp}", "-I/usr/include/eigen3", str(src)], capture_output=True)
	return r.returncode != 0


PROBES = {"installed-headers": _installed_headers_incomplete}
