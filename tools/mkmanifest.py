#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import manifest_data as M
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in M.CLAIMED:
        tech, note = M.CLAIMED[p]
        checks.append(dict(property=p, quick_cmd='python3 tools/check.py ' + p, thorough_cmd='python3 tools/check.py ' + p,
                           evidence_file='evidence/%s.json' % p, technique=tech, level='model_checking', level_note=note))
    else:
        na.append(dict(property=p, reason=M.NOT_APPLICABLE.get(p, 'the check for this property is still being built')))
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
               notes=M.NOTES), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
