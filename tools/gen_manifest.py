#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, 'tools'))
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
import notes
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes.CLAIMED:
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py ' + i,
                           thorough_cmd='VERIF_TIER=thorough python3 tools/check.py ' + i,
                           technique=notes.CLAIMED[i][0], level='model_checking', level_note=notes.CLAIMED[i][1]))
    else:
        na.append(dict(property=i, reason=notes.UNCLAIMED.get(i, 'machinery not built yet')))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
