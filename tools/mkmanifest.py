#!/usr/bin/env python3
"""Write MANIFEST.json out of lanes.SPECS and properties.jsonl"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import lanes

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
NA = {'C29': 'it is refuted by a program which compiles although it should not: there is no execution to observe, so neither a sanitizer nor a '
             'monitor can tell anything, and only attempts to compile (another technique) could'}
for p in props:
    i = p['id']
    if i in lanes.SPECS:
        s = lanes.SPECS[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py ' + i,
            'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': s.technique,
            'level': 'exploration',
            'level_note': s.note,
        })
    else:
        na.append({'property': i, 'reason': NA[i]})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check rebuilds its lanes from /repo in a scratch directory. No hooks: only the public interface is '
              'used. VERIF_SEED selects the random cases.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
