"""Builds an importable copy of /repo/src/primate outside /repo, from its current working tree.

Everything lands in /verif/build (git-ignored): `base-<hash>-<flavour>-<exts>/primate/...`, keyed by the content of the
sources, so that a change to /repo always gives a fresh tree. Nothing is ever written into /repo.

flavours
  plain   -O1, library assertions on (Eigen and pythran bounds/zero-division assertions abort the process)
  asan    -O1 -fsanitize=address,undefined -fno-sanitize-recover=all (run with libasan preloaded)
"""

import fcntl
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys
import sysconfig
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VF_REPO", "/repo"))
SRC = REPO / "src" / "primate"
BUILD = VERIF / "build"
PY = "/opt/venv/bin/python"
EIGEN = "/usr/include/eigen3"
ALL_EXTS = ("lanczos", "tqli", "fttr")


class BuildError(Exception):
	pass


def _sources():
	files = sorted(SRC.glob("*.py")) + sorted(SRC.glob("*.cpp")) + sorted((SRC / "include").rglob("*.h"))
	return [f for f in files if f.is_file()]


def source_hash() -> str:
	h = hashlib.sha256()
	for f in _sources():
		h.update(str(f.relative_to(SRC)).encode() + b"\0")
		h.update(hashlib.sha256(f.read_bytes()).digest())
	h.update(pathlib.Path(__file__).read_bytes())
	return h.hexdigest()[:16]


def _venv_info():
	code = (
		"import sysconfig,numpy,pybind11,pythran;"
		"print(sysconfig.get_config_var('EXT_SUFFIX'));print(sysconfig.get_path('include'));"
		"print(numpy.get_include());print(pybind11.get_include());print(pythran.get_include())"
	)
	out = subprocess.run([PY, "-c", code], capture_output=True, text=True, check=True).stdout.split()
	return out[0], out[1:]


def _env():
	e = dict(os.environ)
	e["PATH"] = "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"
	e["PYTHONDONTWRITEBYTECODE"] = "1"
	e.setdefault("HOME", "/root")
	e.pop("LD_PRELOAD", None)
	return e


def build(exts=ALL_EXTS, flavour="plain") -> pathlib.Path:
	"""Returns a directory to put on PYTHONPATH. Raises BuildError if the tree does not compile."""
	exts = tuple(sorted(exts))
	BUILD.mkdir(exist_ok=True)
	with open(BUILD / ".lock", "w") as lock:
		fcntl.flock(lock, fcntl.LOCK_EX)
		key = f"base-{source_hash()}-{flavour}-{'+'.join(exts) or 'py'}"
		dst = BUILD / key
		if (dst / ".done").exists():
			os.utime(dst)
			return dst
		# a full build of the same flavour serves any subset
		full = BUILD / f"base-{source_hash()}-{flavour}-{'+'.join(sorted(ALL_EXTS))}"
		if (full / ".done").exists():
			os.utime(full)
			return full
		_prune()
		if dst.exists():
			shutil.rmtree(dst)
		pkg = dst / "primate"
		(pkg / "include").mkdir(parents=True)
		for f in _sources():
			t = pkg / f.relative_to(SRC)
			t.parent.mkdir(parents=True, exist_ok=True)
			shutil.copyfile(f, t)
		import tomllib

		p = tomllib.load(open(REPO / "pyproject.toml", "rb"))["project"]
		d = dst / f"scikit_primate-{p['version']}.dist-info"
		d.mkdir()
		(d / "METADATA").write_text(f"Metadata-Version: 2.1\nName: {p['name']}\nVersion: {p['version']}\n")
		if exts:
			_build_exts(dst, exts, flavour)
		(dst / ".done").write_text("ok\n")
		return dst


def _flags(flavour):
	if flavour == "plain":
		return ["-O1"]
	return ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]


def _build_exts(dst, exts, flavour):
	suffix, incs = _venv_info()
	inc = [f"-I{i}" for i in incs]
	pkg = dst / "primate"
	common = ["g++", "-std=c++20", "-w", "-fPIC", "-shared", "-fvisibility=hidden", *_flags(flavour), *inc]
	jobs = []
	for e in exts:
		if e == "lanczos":
			cmd = common + [f"-I{EIGEN}", f"-I{pkg}/include", f"{pkg}/_lanczos.cpp", "-o", f"{pkg}/_lanczos{suffix}"]
			jobs.append((e, subprocess.Popen(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
		else:
			cpp, so = f"{dst}/{e}.gen.cpp", f"{pkg}/{e}{suffix}"
			cxx = " ".join(common + ["-DENABLE_PYTHON_MODULE", "-D__PYTHRAN__=3", cpp, "-o", so])
			sh = f"pythran -E {pkg}/{e}.py -o {cpp} && {cxx}"
			jobs.append((e, subprocess.Popen(["bash", "-c", sh], env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
	bad = []
	for e, p in jobs:
		out, _ = p.communicate()
		if p.returncode != 0:
			bad.append(f"extension {e} ({flavour}) does not build:\n{out[-3000:]}")
	if bad:
		raise BuildError("\n".join(bad))


def build_program(spec: str, name: str, flavour="asan") -> pathlib.Path:
	"""Compiles a stand-alone C++ harness (path below /verif, then compiler flags) against the headers of the current tree."""
	source, *defs = spec.split()
	source = VERIF / source
	BUILD.mkdir(exist_ok=True)
	h = hashlib.sha256(source_hash().encode() + source.read_bytes() + spec.encode() + flavour.encode()).hexdigest()[:16]
	out = BUILD / f"prog-{name}-{h}"
	with open(BUILD / ".lock", "w") as lock:
		fcntl.flock(lock, fcntl.LOCK_EX)
		if out.exists():
			os.utime(out)
			return out
		_prune()
	with tempfile.TemporaryDirectory(prefix="vf-prog-", dir=BUILD) as tmp:
		shutil.copytree(SRC / "include", f"{tmp}/include")
		cmd = ["g++", "-std=c++20", "-w", *_flags(flavour), *defs, "-I/usr/include/eigen3", f"-I{tmp}/include", str(source), "-o", f"{tmp}/prog"]
		r = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
		if r.returncode != 0:
			raise BuildError(f"{source.name} does not build:\n{r.stdout[-3000:]}")
		os.rename(f"{tmp}/prog", out)
	return out


def _prune(keep=12):
	ds = [d for d in BUILD.glob("base-*")] + [d for d in BUILD.glob("prog-*")]
	ds.sort(key=lambda d: d.stat().st_mtime, reverse=True)
	now = time.time()
	for d in ds[keep:]:
		if now - d.stat().st_mtime > 600:
			shutil.rmtree(d) if d.is_dir() else d.unlink()


def runtime_env(base: pathlib.Path, flavour: str) -> dict:
	e = _env()
	e["PYTHONPATH"] = f"{base}:{VERIF}"
	e["PYTHONHASHSEED"] = "0"
	e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = e["MKL_NUM_THREADS"] = "1"
	e["PYTHONWARNINGS"] = "ignore"
	e["VF_BASE"] = str(base)
	e["VF_FLAVOUR"] = flavour
	if flavour == "asan":
		lib = lambda n: subprocess.run(["g++", f"-print-file-name={n}"], capture_output=True, text=True).stdout.strip()
		e["LD_PRELOAD"] = f"{lib('libasan.so')}:{lib('libubsan.so')}:{lib('libstdc++.so')}"
		e["ASAN_OPTIONS"] = "detect_leaks=0:halt_on_error=1:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0:strict_string_checks=0"
		e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
		e["PYTHONMALLOC"] = "malloc"
	return e


if __name__ == "__main__":
	t = time.time()
	try:
		print(build())
	except BuildError as ex:
		print(ex, file=sys.stderr)
		sys.exit(2)
	print(f"{time.time() - t:.1f} s")
