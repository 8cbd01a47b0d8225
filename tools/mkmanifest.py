#!/usr/bin/env python3
"""MANIFEST.json from registry.py and tools/not_applicable.json."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from registry import PROPS
NA = json.load(open(os.path.join(H, 'tools', 'not_applicable.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
T = {'proof': 'contract-based deductive verification of the real Python code (symbolic execution of the AST of '
              '/repo against function contracts and loop invariants, obligations discharged by z3)',
     'exploration': 'bounded stand-in: executable contracts checked on the running code over generated inputs'}
checks = []
for i in ids:
    if i in PROPS and i not in NA:
        p = PROPS[i]
        note = p.note or 'every obligation generated from the current source of the listed functions, no bound'
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                       'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': p.technique or T[p.level], 'level': p.level, 'level_note': note})
na = [{'property': i, 'reason': NA.get(i, 'no check built')} for i in ids if i in NA or i not in PROPS]
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
