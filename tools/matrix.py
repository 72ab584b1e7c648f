#!/usr/bin/env python3
"""Writes SEEDED.md: the planted bugs of seeded/, by property.  No check uses this."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    rows.append((m['property'], s, m['what_it_breaks'], m['needs']))
rows.sort()
with open(V + '/SEEDED.md', 'w') as f:
    f.write('# Planted bugs\n\nGenerated by `tools/matrix.py`.  Each is caught by the quick check of the property in the first column.\n\n')
    f.write('| property | planted bug | what it breaks | what it needs |\n|---|---|---|---|\n')
    for r in rows:
        f.write('| ' + ' | '.join(str(x).replace('|', '/').replace('\n', ' ') for x in r) + ' |\n')
    f.write(f'\n{len(rows)} planted bugs.\n')
