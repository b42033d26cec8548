"""Assembles DESIGN.md from tools/design_head.md, the properties, the checks' own constants, and tools/design_tail.md."""

import ast
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
man = {c["property"]: c for c in json.loads((V / "MANIFEST.json").read_text())["checks"]}
extra = {}
cur = None
for line in (V / "tools" / "design_notes.md").read_text().splitlines():
	if line.startswith("## "):
		cur = line[3:].strip()
		extra[cur] = []
	elif cur:
		extra[cur].append(line)
out = [(V / "tools" / "design_head.md").read_text().rstrip(), "", "## Per property", ""]
for l in (V / "properties.jsonl").read_text().splitlines():
	p = json.loads(l)
	f = V / "vf" / "checks" / f"{p['id'].lower()}.py"
	c = {}
	for n in ast.parse(f.read_text()).body:
		if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
			try:
				c[n.targets[0].id] = ast.literal_eval(n.value)
			except ValueError:
				pass
	out += [f"### {p['id']} {p['title']}", "", f"*Technique*: {man[p['id']]['technique']}.", ""]
	out += [f"*Workload and coverage key*: {c['RULE']}.", ""]
	out += [f"*Executions*: {c['COUNTS']['quick']} quick, {c['COUNTS']['thorough']} thorough. *Monitor events that must occur* (else inconclusive): {', '.join(c['REQUIRED'])}.", ""]
	if c.get("ASSUMES"):
		out += [f"*Assumes*: {'; '.join(c['ASSUMES'])}.", ""]
	out += [f"*Beyond the tests*: {p['why_tests_cant']}", ""]
	if "\n".join(extra.get(p["id"], [])).strip():
		out += ["\n".join(extra[p["id"]]).strip(), ""]
out += [(V / "tools" / "design_tail.md").read_text().strip(), ""]
out += ["| bug | caught by | shows only with |", "|---|---|---|"]
for d in sorted((V / "seeded").iterdir(), key=lambda d: (json.loads((d / "meta.json").read_text())["property"], d.name)):
	m = json.loads((d / "meta.json").read_text())
	out.append(f"| {d.name} | {m['property']} | {m['needs'].rstrip('.').replace('|', '/')} |")
out.append("")
(V / "DESIGN.md").write_text("\n".join(out))
