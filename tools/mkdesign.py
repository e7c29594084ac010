"""Assembles DESIGN.md from design_head.md, design_tail.md, the planted bugs and tools/caught.json (results of running them)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
head = open(os.path.join(HERE, 'design_head.md')).read()
tail = open(os.path.join(HERE, 'design_tail.md')).read()
try:
    caught = json.load(open(os.path.join(HERE, 'caught.json')))
except FileNotFoundError:
    caught = {}
rows = []
for i in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
    r = caught.get(i)
    rows.append('| %s | %s | %s | %s |' % (i, m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/'),
                '?' if r is None else ('%s, %.0f s' % (m['property'], r) if r >= 0 else '**missed**')))
table = '| bug | needs | breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(head.rstrip() + '\n\n' + tail.rstrip() + '\n\n' + table)
