#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (between the markers) from seeded/*/meta.json and
tools/seed_results.txt (one line per bug: id, then `caught` or `missed`, as tools/seed_try.sh found them)."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(root, 'tools/seed_results.txt')
for l in open(p):
    w = l.split()
    if len(w) >= 2: res[w[0]] = w[1]
rows = {}
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    rows.setdefault(m['property'], []).append((d, m))
out = ['| Property | Planted bug | Needs | Check |', '|---|---|---|---|']
for prop in sorted(rows):
    for d, m in rows[prop]:
        out.append('| %s | `%s` | %s | %s |' % (prop, d, m['needs'].replace('|', '/').replace('\n', ' '), res.get(d, 'not tried')))
f = os.path.join(root, 'DESIGN.md')
t = open(f).read()
t = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(out) + '\n<!-- /seeds -->', t, flags=re.S)
open(f, 'w').write(t)
print(len(out) - 2, 'bugs', sum(v == 'caught' for v in res.values()), 'caught')
