#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from the output of tools/catch.sh (arguments: its logs)."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got = {}
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r'(\S+): exit (\d+)', l)
        if m and got.get(m[1]) != '1': got[m[1]] = m[2]
rows = {}
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    p = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))['property']
    rows.setdefault(p, []).append(d if got.get(d) == '1' else d + (' (missed)' if d in got else ' (not run)'))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
s = s[:s.rindex('The table is the result of the last complete run.')] + 'The table is the result of the last complete run.\n\n| check | catches |\n|---|---|\n'
for k in sorted(rows): s += '| %s | %s |\n' % (k, ', '.join(rows[k]))
open(p, 'w').write(s)
