"""Make a scratch copy of /repo with one behaviour-preserving rewrite: tools/mkref.py <id> <dir>"""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactors import REF
from tryref import replace
i, r = sys.argv[1:]
props, file, fns = REF[i]
subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', r], check=True)
p = os.path.join(r, file)
s = open(p, newline='').read().replace('\r\n', '\n')
for fn, new in fns.items():
    if fn == '__subst__':
        for t in new:
            assert s.count(t[0]) == (t[2] if len(t) > 2 else 1), (i, t, s.count(t[0]))
            s = s.replace(t[0], t[1])
    else:
        s = replace(s, fn, new)
open(p, 'w').write(s)
