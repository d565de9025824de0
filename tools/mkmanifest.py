#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from contracts/registry.py"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, H)
from contracts.registry import PROPS
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
TECH = 'contract-based deductive verification: contracts (pre/postconditions, class and loop invariants) on the functions extracted from the clang AST of the current source, obligations discharged by Z3/cvc5; models of failed obligations and undecided obligations are replayed on the compiled code'
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        P = PROPS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': P.get('technique', TECH), 'level': P.get('level', 'proof'),
                       'level_note': P.get('level_note', 'every obligation is discharged for all inputs, double arithmetic treated as real arithmetic; see DESIGN.md for what is only checked at run time')})
    else:
        na.append({'property': i, 'reason': 'no contract has been built for it (see DESIGN.md)'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
