#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the suites that exist."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
from suites import SUITES, TECH, NOTE
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    if p in SUITES:
        checks.append({'property': p, 'quick_cmd': f'python3 check.py {p}', 'thorough_cmd': f'python3 check.py {p} --thorough',
                       'technique': TECH[p], 'level': 'model_checking', 'level_note': NOTE[p]})
    else: na.append({'property': p, 'reason': 'No check has been built for it yet.'})
json.dump({'version': 1, 'setup_cmd': 'python3 lib/build.py all', 'checks': checks, 'not_applicable': na,
           'notes': 'Specifications are in spec/ (TLA+, checked with TLC); lib/ generates cases, harness/ drives the library; known-findings.txt lists findings and repairs. No hooks in /repo are needed.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
