"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys
sys.path.insert(0, os.path.join(V, 'tools'))
from claims import CLAIMS, SETUP
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        tech, level, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': './check %s' % i, 'thorough_cmd': './check %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': SETUP, 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
