#!/usr/bin/env python3
"""Writes MANIFEST.json from engine/props.py and properties.jsonl."""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in PROPS: continue
    P = PROPS[i]
    checks.append({'property': i, 'quick_cmd': 'python3-vt engine/check.py %s' % i, 'thorough_cmd': 'python3-vt engine/check.py %s thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': P.get('technique', 'contract-based deductive verification: harness contracts on the real code, verification conditions from its LLVM IR, discharged by z3 for all inputs and iterations'),
                   'level': P.get('level', 'proof'), 'level_note': P['note']})
na = [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check is built for it yet')} for i in ids if i not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'python3-vt engine/selftest.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the harnesses compile the unmodified headers. See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
