#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'lib'))
from checks import CHECKS, TECH
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
ch, na = [], []
for i in ids:
    if i in CHECKS:
        tech, note = TECH.get(i, ('runtime monitoring: independent executable model as online oracle over randomised executions of the real code', ''))
        ch.append(dict(property=i, quick_cmd='python3 run.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 run.py %s' % i,
                       evidence_file='evidence/%s.json' % i, technique=tech, level='exploration',
                       level_note=note or 'held on the seeded random executions counted in the evidence file; no claim beyond them'))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='true', checks=ch, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(ch), 'checks', len(na), 'n/a')
