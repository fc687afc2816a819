#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (a writing aid: no check uses it)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | what it breaks | manifests with |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json'), key=lambda f: f.split('/')[-2]):
    d = json.load(open(f))
    clean = lambda s: ' '.join(s.replace('|', '/').split())
    rows.append('| %s | %s | %s | %s |' % (f.split('/')[-2], d['property'], clean(d['what_it_breaks']), clean(d['needs'])))
p = V + '/DESIGN.md'
s = open(p).read()
a, b = '<!-- seeded table -->\n', '<!-- end of seeded table -->'
i, j = s.index(a) + len(a), s.index(b)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
