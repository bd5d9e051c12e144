#!/usr/bin/env python3
"""Rewrite DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in glob.glob(root + '/seeded/*/meta.json'):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs'], d['what_it_breaks']))
rows.sort()
L = open(root + '/DESIGN.md').read().split('\n')
idx = [k for k, l in enumerate(L) if re.match(r'^\| [A-Z]\d\d \| [a-z0-9-]+ \|', l)]
L[idx[0]:idx[-1] + 1] = ['| %s | %s | %s | %s |' % r for r in rows]
open(root + '/DESIGN.md', 'w').write('\n'.join(L))
print(len(rows), 'rows')
