#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['needs'], m.get('caught_by', m['property'])))
t = '| property | planted bug | needs | caught by |\n|---|---|---|---|\n' + '\n'.join('| %s | %s | %s | %s |' % (p, i, n.replace('|', '/'), c) for p, i, n, c in sorted(rows))
p = V + '/DESIGN.md'; s = open(p).read()
mark = '<!-- seeds -->'
s = s.replace('@@SEEDS@@', mark + '\n' + mark)
a, b = s.index(mark), s.rindex(mark)
open(p, 'w').write(s[:a] + mark + '\n' + t + '\n' + s[b:])
