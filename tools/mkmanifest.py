#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the registered checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
meta = json.load(open(os.path.join(here, 'checks.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in meta['checks']:
        c = meta['checks'][i]
        cmd = './run.sh ' + i
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': cmd, 'evidence_file': 'evidence/%s.json' % i,
                       'technique': c['technique'], 'level': 'other', 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': meta['not_applicable'].get(i, 'not decided yet: the rule for this property is not implemented')})
out = {'version': 1, 'setup_cmd': './run.sh', 'checks': checks, 'not_applicable': na, 'notes': meta['notes']}
json.dump(out, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
