#!/usr/bin/env python3
"""design_table.py [LOG...]: merges logs of seed_bug.py in seeded_results.json and rewrites the table of DESIGN.md."""
import ast
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
RES = os.path.join(HERE, 'seeded_results.json')
res = json.load(open(RES)) if os.path.exists(RES) else {}
for log in sys.argv[1:]:
    for line in open(log):
        m = re.match(r'(c\d\d_\w+)\s+OK\s+(\[.*\])', line)
        if m:
            new = {v.split(':')[0]: ('caught' if 'CAUGHT' in v else 'missed') for v in ast.literal_eval(m.group(2))}
            res[m.group(1)] = {**res.get(m.group(1), {}), **new}
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    meta = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    r = res.get(d, {})
    by = ', '.join(k for k, v in sorted(r.items()) if v == 'caught') or '**none**'
    rows.append('| %s | %s | %s | %s |' % (d, meta['property'], meta['what_it_breaks'].replace('|', '/'), by))
res = {k: v for k, v in sorted(res.items()) if os.path.isdir(os.path.join(ROOT, 'seeded', k))}
json.dump(res, open(RES, 'w'), indent=1)
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
a, b = s.index('<!-- seeded -->'), s.index('<!-- /seeded -->')
table = '<!-- seeded -->\n| change | property | what it breaks | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s[:a] + table + s[b:])
print(len(rows), 'bugs;', sum('**none**' in r for r in rows), 'not caught')
