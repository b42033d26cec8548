#!/usr/bin/env python3
"""run.py CNN [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property on /repo's current working tree: builds it, drives it under the property's monitors in several
worker processes, and reports. Exit 0: held on everything observed. Exit 1 and a VIOLATION line: broken. Exit 2: the tree
does not build or the harness failed. Exit 3: inconclusive (a deciding monitor was never reached).
"""

import argparse
import ast
import concurrent.futures
import json
import os
import pathlib
import signal
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
from vf import build as vb  # noqa: E402

PY = vb.PY
WORKERS = int(os.environ.get("VF_WORKERS", "6"))
CRASH = {signal.SIGABRT, signal.SIGSEGV, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}
NATIVE_CPU_LIMIT = 150.0  # CPU seconds of a case that does not even react to the in-process limit


def const(path, name, default=None):
	"""Reads a literal module constant without importing the module (it needs the venv's packages)."""
	for node in ast.parse(path.read_text()).body:
		if isinstance(node, ast.Assign) and any(getattr(t, "id", None) == name for t in node.targets):
			return ast.literal_eval(node.value)
	return default


def cpu_s(pid):
	try:
		f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
		return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
	except (OSError, IndexError):
		return 0.0


class Stripe:
	def __init__(self, prop, s, seed, tier, env, tmp):
		self.prop, self.s, self.seed, self.tier, self.env, self.tmp = prop, s, seed, tier, env, tmp
		self.start, self.part, self.parts, self.crashes, self.killed = 0, 0, [], [], False
		self.done = self.failed = False
		self.spawn()

	def spawn(self):
		self.out = f"{self.tmp}/s{self.s}.{self.part}.json"
		self.err = f"{self.tmp}/s{self.s}.{self.part}.err"
		env = dict(self.env, VF_START=str(self.start))
		cmd = [PY, "-m", "vf.core", "worker", self.prop, str(self.s), str(WORKERS), str(self.seed), self.tier, self.out]
		self.p = subprocess.Popen(cmd, env=env, cwd=self.tmp, stdout=subprocess.DEVNULL, stderr=open(self.err, "w"))
		self.case, self.case_cpu, self.killed = None, 0.0, False

	def current(self):
		try:
			return json.load(open(self.out + ".cur"))
		except (OSError, ValueError):
			return None

	def poll(self):
		rc = self.p.poll()
		if rc is None:
			cur = self.current()
			c = cur and cur["case"]
			cpu = cpu_s(self.p.pid)
			if c != self.case:
				self.case, self.case_cpu = c, cpu
			elif c is not None and cpu - self.case_cpu > NATIVE_CPU_LIMIT:
				self.killed = True
				self.p.kill()
			return
		if rc == 0 and os.path.exists(self.out):
			self.parts.append(json.load(open(self.out)))
			self.done = True
			return
		if os.path.exists(self.out):
			d = json.load(open(self.out))
			self.parts.append(d)
		err = open(self.err).read()
		cur = self.current()
		if cur is None or not ((rc < 0 and -rc in CRASH) or self.killed):
			self.failed = f"worker {self.s} ended with {rc}:\n{err[-3000:]}"
			self.done = True
			return
		kind = "no termination inside native code" if self.killed else f"process died with signal {-rc}"
		keep = err[-6000:]
		for mark in ("ERROR: AddressSanitizer", "runtime error:", "Assertion"):
			if mark in err:
				at = max(0, err.index(mark) - 200)
				keep = err[at : at + 6000]
				break
		self.crashes.append({"case": cur["case"], "params": cur["params"], "kind": kind, "witness": {"stderr": keep}})
		self.start, self.part = cur["case"] + 1, self.part + 1
		if len(self.crashes) >= 2:
			self.done = True
			return
		self.spawn()


def findings(prop):
	"""Lines 'finding: property=Cxx key=<key> <text>' of the committed known-findings file."""
	out = {}
	f = VERIF / "known_findings.txt"
	for line in f.read_text().splitlines() if f.exists() else []:
		if line.startswith("finding: ") and f"property={prop} " in line + " ":
			body = line[len("finding: ") :]
			key = body.split("key=", 1)[1].split()[0]
			out[key] = body.split(f"key={key}", 1)[1].strip()
	return out


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument("prop")
	ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
	ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
	ap.add_argument("--replay")
	a = ap.parse_args()
	prop = a.prop.upper()
	t0 = time.time()
	modfile = VERIF / "vf" / "checks" / f"{prop.lower()}.py"
	exts, flavour = const(modfile, "EXTS", vb.ALL_EXTS), const(modfile, "FLAVOUR", "plain")
	try:
		base = vb.build(exts, flavour)
		env = vb.runtime_env(base, flavour)
		progs = const(modfile, "PROGRAMS", {})
		with concurrent.futures.ThreadPoolExecutor() as pool:
			jobs = {name: pool.submit(vb.build_program, spec, name) for name, spec in progs.items()}
			env.update({"VF_PROG_" + name: str(j.result()) for name, j in jobs.items()})
	except (vb.BuildError, OSError, subprocess.CalledProcessError) as ex:
		print(f"BUILD-ERROR {prop}: {ex}")
		return 2
	t_build = time.time() - t0

	if a.replay:
		r = subprocess.run([PY, "-m", "vf.core", "one", prop, a.replay], env=env, capture_output=True, text=True)
		print(r.stdout + r.stderr[-6000:])
		if r.returncode < 0 or (r.returncode == 0 and json.loads(r.stdout)["violations"]):
			print(f"VIOLATION property={prop} replay={a.replay}")
			return 1
		return 0 if r.returncode == 0 else 2

	bdir = VERIF / "build"
	with tempfile.TemporaryDirectory(prefix="vf-", dir=bdir) as tmp:
		stripes = [Stripe(prop, s, a.seed, a.tier, env, tmp) for s in range(WORKERS)]
		wall = 840 if a.tier == "quick" else 14000
		while not all(s.done for s in stripes):
			for s in stripes:
				if not s.done:
					s.poll()
			if time.time() - t0 > wall:
				for s in stripes:
					if not s.done:
						s.p.kill()
						s.failed, s.done = "wall clock limit", True
			time.sleep(0.05)
		parts = [p for s in stripes for p in s.parts]
		viol = [v for s in stripes for v in s.crashes] + [v for p in parts for v in p["violations"]]
		errors = [s.failed for s in stripes if s.failed]
		crashed = sum(len(s.crashes) for s in stripes)

		# known findings: fixed probe executions, each in its own process
		known = findings(prop)
		present = []
		for key, text in known.items():
			r = subprocess.run([PY, "-m", "vf.core", "probe", prop, key], env=env, capture_output=True, text=True, cwd=tmp)
			if r.returncode < 0 or (r.returncode == 0 and json.loads(r.stdout.splitlines()[-1])["present"]):
				present.append((key, text))
			elif r.returncode > 0:
				errors.append(f"probe {key}: {r.stderr[-1500:]}")

	viol.sort(key=lambda v: v["case"])
	counters, sigs = {}, set()
	for p in parts:
		sigs |= set(p["sigs"])
		for k, v in p["counters"].items():
			counters[k] = counters.get(k, 0) + v
	evals = sum(p["evaluations"] for p in parts) + crashed
	required = const(modfile, "REQUIRED", [])
	missing = [r for r in required if counters.get(r, 0) == 0]
	ev = {
		"property": prop,
		"tier": a.tier,
		"seed": a.seed,
		"level": const(modfile, "LEVEL", "exploration"),
		"coverage": {
			"evaluations": evals,
			"distinct_nontrivial": len(sigs),
			"rule": const(modfile, "RULE", ""),
			"samples": [s for p in parts for s in p["samples"]][:4],
			"monitor_events": dict(sorted(counters.items())),
			"known_findings_seen": [k for k, _ in present],
			"skipped_by_time_limit": sum(p.get("cut", 0) for p in parts),
			"build_flavour": flavour,
			"build_s": round(t_build, 2),
		},
		"assumptions": const(modfile, "ASSUMES", []),
		"wall_s": round(time.time() - t0, 2),
		"violations": len(viol),
	}
	(VERIF / "evidence").mkdir(exist_ok=True)
	(VERIF / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1) + "\n")

	for key, text in present:
		print(f"KNOWN-FINDING: property={prop} {text}")
	if viol:
		rdir = bdir / "replay"
		rdir.mkdir(exist_ok=True)
		v = viol[0]
		path = rdir / f"{prop}-seed{a.seed}-case{v['case']}.json"
		path.write_text(json.dumps({"property": prop, "seed": a.seed, "tier": a.tier, **v}, indent=1) + "\n")
		for w in viol[:4]:
			print(f"case {w["case"]}: {w["kind"]}: {json.dumps(w["witness"])[-900:]}")
		print(f"{prop}: {len(viol)} violations in {evals} executions")
		print(f"VIOLATION property={prop} replay={path}")
		return 1
	if errors:
		print(f"HARNESS-ERROR {prop}: " + "\n".join(errors)[:6000])
		return 2
	if missing:
		print(f"INCONCLUSIVE {prop}: monitors never reached: {missing}")
		return 3
	print(f"{prop}: held on {evals} executions ({len(sigs)} distinct non-trivial), {ev['wall_s']} s; events {ev['coverage']['monitor_events']}")
	return 0


if __name__ == "__main__":
	sys.exit(main())
