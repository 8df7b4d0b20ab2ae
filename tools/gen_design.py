#!/usr/bin/env python3
"""Rewrites the table of seeded changes in /verif/DESIGN.md."""
import json, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append((m['property'], os.path.basename(os.path.dirname(f)), m['what_it_breaks']))
rows.sort()
t = '| caught by | change | what it breaks |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in rows)
p = here + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeds -->\n', '<!-- /seeds -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + t + s[j:])
