#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, between its two markers."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['needs']))
order = [json.loads(l)['id'] for l in open(root + '/properties.jsonl')]
rows.sort(key=lambda r: (order.index(r[0]), r[1]))
t = '| check that catches it | planted bug | what it needs to show |\n|---|---|---|\n'
t += ''.join('| %s | %s | %s |\n' % r for r in rows)
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- planted -->\n).*?(<!-- end planted -->)', lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
