#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/')))
p = root + '/DESIGN.md'
t = open(p).read()
head = '| bug | property | needs |\n|---|---|---|\n'
i = t.index(head) + len(head)
j = i
while t[j:j + 1] == '|':
    j = t.index('\n', j) + 1
open(p, 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[j:])
