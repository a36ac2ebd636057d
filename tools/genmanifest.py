#!/usr/bin/env python3
"""writes MANIFEST.json from the rules the checker has and properties.jsonl"""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = subprocess.run([here + '/bin/checker', 'rules'], capture_output=True, text=True).stdout
by = {}
for l in out.splitlines():
    n, ps, d = l.split('\t')
    for p in ps.split(','):
        by.setdefault(p, []).append((n, d))
NA = {}
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in by and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh ' + i,
            'thorough_cmd': './check.sh ' + i,
            'technique': 'static analysis: abstract interpretation of the SSA form; rules ' + ', '.join(n for n, _ in by[i]),
            'level': 'other',
            'level_note': 'Decided from the source for all abstract paths: ' + '; '.join(d for _, d in by[i]) +
              '. Trusts go/ssa, the abstract interpreter and rules in /verif/checker, and the library models listed in DESIGN.md.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no rule has been built for it yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'The checks need no hooks: they read the source of /repo.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
