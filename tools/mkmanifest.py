#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and harness/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
from checks import CHECKS
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ("TLC explores small-constant models of the specification exhaustively and validates every step of recorded "
        "histories of the real code against the specification; inputs are enumerated where the space is small and "
        "otherwise sampled with boundary bias. Trusted: TLC, the drivers' recording.")
m = {'version': 1, 'setup_cmd': 'true',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: everything is observed through the public interface',
               'source_commits': []},
     'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. Specification in TLA+ (spec/), checked with TLC.'}
for p in props:
    if p in CHECKS:
        c = CHECKS[p]
        m['checks'].append({
            'property': p,
            'quick_cmd': 'python3 harness/run.py %s' % p,
            'thorough_cmd': 'VERIF_TIER=thorough python3 harness/run.py %s thorough' % p,
            'technique': c.get('technique', 'TLA+ specification: TLC model checking and trace validation of the real code'),
            'level': 'model_checking', 'level_note': c.get('note', NOTE)})
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check not built yet (in progress)'})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
