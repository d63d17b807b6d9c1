#!/usr/bin/env python3
# writes ../DESIGN.md from design.md, design_props.py, specs.py, known_findings.json and seeded/
import json, os, sys, glob
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, V)
import specs
exec(open(os.path.join(V, 'tools', 'design_props.py')).read())
WHY = {}; src = open(os.path.join(V, 'tools', 'mkmanifest.py')).read(); exec(src[src.index('WHY = {'):src.index('NOTE = {}')])
props = [json.loads(l) for l in open(V + '/properties.jsonl')]; out = []; na = []
for p in props:
	i = p['id']
	if i not in specs.SPECS:
		if i != 'C26': na.append(f'* **{i}** {p["title"]}: ' + WHY.get(i, 'no check built yet'))
		continue
	out.append(f'### {i} {p["title"]}\n\n{p["statement"]}\n\n{P[i]}\n\n| job | bound | quick s |\n|---|---|---|')
	for s in specs.SPECS[i]: out.append(f'| {s["name"]} | {s.get("bound") or "-"} | <= {s.get("t", 60)} |')
	out.append('')
kf = json.load(open(V + '/known_findings.json'))
seeds = ['| id | property | what it needs | outcome |', '|---|---|---|---|']
res = json.load(open(V + '/tools/caught.json'))
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
	m = json.load(open(d)); n = os.path.basename(os.path.dirname(d)); seeds.append(f'| {n} | {m["property"]} | {m["needs"]} | {res.get(n, "not run")} |')
t = open(V + '/tools/design.md').read()
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@NA@@', '\n'.join(na)).replace('@@FIXED@@', '\n'.join('* ' + k['fixed'].removeprefix('fixed: ') for k in kf if 'fixed' in k)).replace('@@KNOWN@@', '\n'.join(f'* **{k["id"]}** ({k["property"]}) {k["what"]}' for k in kf if 'id' in k)).replace('@@SEEDS@@', '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(t); print(len(t))
