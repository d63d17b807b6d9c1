#!/usr/bin/env python3
# writes ../MANIFEST.json: every property with jobs in specs.py is claimed, the others are not applicable with the reason below
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); sys.path.insert(0, V)
import specs
WHY = {
 'C26': 'The code under JASS is a one-call wrapper around libzlib/libzstd; the behaviour is that of the external library (tens of thousands of lines of table-driven code with data-dependent loops), which symbolic execution does not get through for inputs of any useful size.',
}
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
	i = p['id']
	if i in specs.SPECS:
		b = sorted(set(s['bound'] for s in specs.SPECS[i] if s.get('bound')))
		checks.append(dict(property=i, quick_cmd=f'python3 symcheck.py {i} quick', thorough_cmd=f'python3 symcheck.py {i} thorough', evidence_file=f'evidence/{i}.json', technique='symbolic execution of the LLVM IR of the real sources, path assertions decided by z3 bit-blasting; counterexamples replayed on a native build', level='model_checking', level_note=NOTE.get(i, 'Bounded: exhaustive within the bounds listed in the evidence file (job table).') + ' Trusts clang\'s translation to IR, the executor (sampled paths are re-run natively) and the models of libc/libstdc++ in rt/ and engine/builtins.cpp.'))
	else: na.append(dict(property=i, reason=WHY.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na, hooks=dict(guard='JASS_VERIFY_SMALL_TABLES', enable='-DJASS_VERIFY_SMALL_TABLES on the compiler command line (defs in specs.py)', source_commits=['83f0594']), notes='One driver (symcheck.py), one engine (engine/), harnesses in harness/, bounds in specs.py.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'claimed', [x['property'] for x in na])
