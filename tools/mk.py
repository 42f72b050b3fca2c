#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py and tools/claims.py."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from props import P
from claims import CLAIMS, NA
with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks = []
for p in P:
    i = p['id']
    if i in CLAIMS:
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                       'technique': CLAIMS[i][0], 'level': 'exploration', 'level_note': CLAIMS[i][1],
                       'evidence_file': 'evidence/%s.json' % i})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')} for p in P if p['id'] not in CLAIMS]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in P:
        jsonschema.validate(p, s)
        assert p['statement'].count('. ') <= 2, p['id']
    print('schemas ok', len(checks), 'checks')
except ImportError:
    print('no jsonschema')
