"""Obligation discharge: z3 (API) first; other configurations and cvc5 / z3-new as SMT-LIB fallbacks."""
import os
import subprocess
import tempfile
import time

import z3

z3.set_param('auto_config', False)
z3.set_param('smt.mbqi', False)
z3.set_param('smt.random_seed', 7)
z3.set_param('model.completion', True)


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}


STATS = Stats()
SCALE = 1


def quantified(fs):
    return any(z3.is_quantifier(f) or (z3.is_app(f) and f.decl().kind() in (z3.Z3_OP_IMPLIES, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT)
                                       and quantified(f.children())) for f in fs)


def _solver(ms, extra=None, simple=False):
    # the pre-processing chain of z3.Solver() loses quantifier instances (solve_eqs); the plain core is used with quantifiers
    s = z3.SimpleSolver() if simple else z3.Solver()
    s.set('timeout', int(ms * SCALE))
    s.set('mbqi', False)
    s.set('auto_config', False)
    s.set('qi.eager_threshold', 100.0)
    if extra:
        for k, v in extra.items():
            s.set(k, v)
    return s


def mixed(t):
    """does the term contain anything besides bit-vector operations?"""
    seen = set()
    st = [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if not z3.is_app(e) or e.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_ARRAY_SORT) or (e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            return True
        st += e.children()
    return False


def check(facts, goal, ms, extra=None, want_model=False):
    """'proved' | 'refuted?' (sat) | 'unknown'"""
    t = time.time()
    q = quantified(facts) or quantified([goal])
    for simple, m in ([(True, ms)] if q else [(True, min(ms, 500)), (False, ms)] if mixed(goal) else [(False, ms)]):
        s = _solver(m, extra, simple)
        for f in facts:
            s.add(f)
        s.add(z3.Not(goal))
        r = s.check()
        if r != z3.unknown:
            break
    STATS.queries += 1
    STATS.time += time.time() - t
    if r == z3.unsat:
        return 'proved', None
    m = None
    if want_model:
        try:
            m = s.model()
        except z3.Z3Exception:
            m = None
    return ('sat' if r == z3.sat else 'unknown'), m


def smt2(facts, goal):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(z3.Not(goal))
    t = s.to_smt2()
    for a, b in (('ubv_to_int', 'bv2nat'), ('(_ int_to_bv', '(_ int2bv')):
        t = t.replace(a, b)
    return '(set-logic ALL)\n' + t


def external(text, which, secs):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
        name = f.name
    try:
        if which == 'cvc5':
            cmd = ['cvc5', '--tlimit=%d' % (secs * 1000), name]
        elif which == 'z3-new':
            cmd = ['z3-new', '-T:%d' % secs, 'smt.mbqi=false', 'auto_config=false', name]
        else:
            cmd = ['z3', '-T:%d' % secs, 'smt.mbqi=false', 'auto_config=false', name]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 10)
        out = p.stdout.strip().split('\n')[0]
        return 'proved' if out == 'unsat' else ('sat' if out == 'sat' else 'unknown')
    except subprocess.TimeoutExpired:
        return 'unknown'
    finally:
        os.unlink(name)


def discharge(facts, goal, ms):
    """Full effort. -> (status, backend, seconds)"""
    t = time.time()
    r, m = check(facts, goal, ms)
    if r == 'proved':
        return 'proved', 'z3', time.time() - t
    if r == 'unknown':
        for ex in ({'random_seed': 3, 'arith.solver': 2}, {'random_seed': 11, 'arith.nl': True, 'case_split': 3}):
            try:
                r2, _ = check(facts, goal, ms, ex)
            except z3.Z3Exception:
                continue
            if r2 == 'proved':
                return 'proved', 'z3', time.time() - t
    try:
        text = smt2(facts, goal)
        for be in ('z3-4.8', 'cvc5'):
            if external(text, be, max(5, ms // 1000)) == 'proved':
                return 'proved', be, time.time() - t
    except Exception:
        pass
    return ('refuted' if r == 'sat' else 'unknown'), 'z3', time.time() - t


def confirm(obls, secs):
    """second opinion on discharged obligations [(key, (facts, goal))] from cvc5 and z3 4.8.12 within `secs` seconds"""
    out = {'cvc5': 0, 'z3-4.8': 0, 'undecided': 0, 'not attempted': 0, 'disputed': []}
    end = time.time() + secs
    hard = []
    for limit in (2, 10):
        todo, hard = (obls, []) if limit == 2 else (hard, [])
        for key, (facts, goal) in todo:
            if z3.is_true(z3.simplify(goal)):
                out['simplifier'] = out.get('simplifier', 0) + 1
                continue
            if time.time() > end:
                out['not attempted' if limit == 2 else 'undecided'] += 1
                continue
            text = smt2(facts, goal)
            for be in ('cvc5', 'z3-4.8'):
                r = external(text, be, limit)
                if r == 'proved':
                    out[be] += 1
                    break
                if r == 'sat' and be == 'cvc5':
                    out['disputed'].append(key)
                    break
            else:
                if limit == 2:
                    hard.append((key, (facts, goal)))
                else:
                    out['undecided'] += 1
    return out
