#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = here + '/DESIGN.md'
s = open(f).read().split('### Table of planted bugs')[0].replace('SEEDTABLE\n', '')
rows = []
for m in glob.glob(here + '/seeded/*/meta.json'):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs']))
out = ['### Table of planted bugs', '', 'Each is caught by the quick check of the property it was written for.', '', '| property and check | planted bug | what it needs to show |', '|---|---|---|']
out += ['| %s | %s | %s |' % (a, b, c.replace('|', '/')) for a, b, c in sorted(rows)]
open(f, 'w').write(s.rstrip() + '\n\n' + '\n'.join(out) + '\n')
