#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and dv/props.py."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from dv import props
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
NOTE = ('Every obligation generated from the current source is discharged for all inputs and iterations (memory safety, no undefined arithmetic, loop termination, '
        'frame, functional postcondition). Trusts: clang -O0 front end and opt SSA construction, the VC generator in dv/, z3/cvc5, the specification functions in '
        'dv/contracts, LP64 memory model with separate parameters in separate objects. ')
checks = []
na = []
for i in ids:
    if i in props.MAP:
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                       'technique': 'contract-based deductive verification of the compiled C (own VC generator over LLVM IR, SMT back ends)',
                       'level': 'proof', 'level_note': (NOTE + props.NOTES.get(i, '')).strip()})
    else:
        na.append({'property': i, 'reason': 'contracts not written yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in /verif/dv/contracts and attach to functions by name. Known findings: KNOWN_FINDINGS.md.'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
