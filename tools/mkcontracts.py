"""Writes CONTRACTS.md: every function under contract with its requires and ensures clauses."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from dv import props
seen = {}
order = []
for p in props.MAP:
    for c, cases, own in props.contracts(p):
        k = (c.func, tuple(c.requires_text), tuple(c.ensures_text))
        if k not in seen:
            seen[k] = []
            order.append((k, c))
        seen[k].append(p if own else p + '*')
out = ['# Functions under contract', '', 'Generated by `tools/mkcontracts.py` from `dv/contracts`. A star marks properties in which the function is a callee only.', '']
for k, c in order:
    out.append('**%s** (%s)%s' % (c.func, ', '.join(seen[k]), ', cases: ' + '; '.join(x for x in c.cases if x) if any(c.cases) else ''))
    out += ['* requires ' + x for x in c.requires_text] + ['* ensures ' + x for x in c.ensures_text] + ['']
open(os.path.join(ROOT, 'CONTRACTS.md'), 'w').write('\n'.join(out))
