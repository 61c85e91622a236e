#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
rows = ['| change | property (check that catches it) | needs |', '|--|--|--|']
for i in sorted(os.listdir(V + '/seeded'), key=lambda i: (json.load(open(V + '/seeded/' + i + '/meta.json'))['property'], i)):
    m = json.load(open(V + '/seeded/' + i + '/meta.json'))
    rows.append('| %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/')))
p = V + '/DESIGN.md'; s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
