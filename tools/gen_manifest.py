#!/usr/bin/env python3
"""MANIFEST.json from analyzer/registry.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'analyzer'))
from registry import CHECKS, NOT_APPLICABLE, TECH
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CHECKS:
        checks.append({'property': i, 'quick_cmd': f'python3 analyzer/check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 analyzer/check.py {i}',
                       'technique': TECH.get(i, 'abstract interpretation of the compiler IR with linear loop invariants'),
                       'level': 'other', 'level_note': CHECKS[i][1]})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'VP_WARM=1 bash export.sh --driver-only', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static analyses of the MIR of /repo (driver/ exports it, analyzer/ decides); no code of /repo is executed and no hooks are needed in /repo.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
