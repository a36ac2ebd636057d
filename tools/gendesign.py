#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md."""
import glob, json, os, re
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| bug | property | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['what_it_breaks'], m['needs']))
p = H + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('@@SEEDS@@', t) if '@@SEEDS@@' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
