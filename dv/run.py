"""Verify one contract case; used by the check driver (each job in its own process)."""
import time
import traceback

import z3

from . import solver
from .core import Exec, ContractFailure
from .ir import Unsupported

SECOND = 0      # seconds per job for a second back end (thorough tier)


def verify(front, contract, case, inline=(), ms=15000, budget=300, scale=1):
    """-> result dict. inline: callees whose own contract failed: inlined instead."""
    t0 = time.time()
    callees = {}
    for c in contract.callees:
        if c.func not in inline:
            callees[c.func] = c
    if getattr(contract, 'recursive', False):
        callees[contract.func] = contract
    keep = set(callees) | {contract.func}
    res = {'func': contract.func, 'case': case, 'obligations': [], 'notes': [], 'loops': [], 'error': None}
    solver.STATS.__init__()
    solver.SCALE = scale
    try:
        if getattr(contract, 'lemma', False):
            second = []
            for name, facts, goal in contract.lemmas():
                r, _ = solver.check(facts, z3.BoolVal(False), 5000)
                if r == 'proved':
                    raise Unsupported('hypotheses of %s are unsatisfiable (vacuous)' % name)
                status, be, tm = solver.discharge(facts, goal, ms)
                res['obligations'].append({'kind': name, 'where': contract.func, 'status': status, 'backend': be, 'time': round(tm, 3)})
                if SECOND and status == 'proved':
                    second.append((len(res['obligations']) - 1, (facts, goal)))
            if second and all(o['status'] == 'proved' for o in res['obligations']):
                res['second'] = solver.confirm(second, SECOND)
                for k in res['second']['disputed']:
                    res['obligations'][k].update(status='refuted', backend='cvc5')
            return finish(res, t0)
        P = front.module(keep)
        if contract.func not in P.funcs:
            raise Unsupported('%s is not defined' % contract.func)
        for n in list(callees):
            if n not in P.funcs:
                del callees[n]
        E = Exec(P, contract.func, contract, case, callees)
        E.deadline = t0 + budget
        E.second = SECOND > 0
        E.run()
        # vacuity: neither the precondition nor the path to the end may be contradictory
        r, _ = solver.check(E.pre_facts, z3.BoolVal(False), 5000)
        if r == 'proved':
            raise Unsupported('precondition is unsatisfiable (vacuous)')
        r, _ = solver.check(E.facts + E.static_facts + list(E.final.pc), z3.BoolVal(False), 10000)
        if r == 'proved' and not any(o.status not in (None, 'proved') for o in E.obls):
            # contradictory facts are legitimate only when some obligation failed
            bad = [o for o in E.obls if o.status is None and not _quick(E, o)]
            if not bad:
                raise Unsupported('no execution reaches the end (vacuous)')
        for o in E.obls:
            if o.status is None:
                if z3.is_true(z3.simplify(o.goal)):
                    o.status, o.backend, o.time = 'proved', 'simplifier', 0.0
                else:
                    left = t0 + budget - time.time()
                    m = ms if left > 60 else max(1000, int(left * 1000 / 10))
                    o.status, o.backend, o.time = solver.discharge(o.facts + E.static_facts, o.goal, int(m))
            res['obligations'].append({'kind': o.kind, 'where': '%s:%s (%s)' % (o.where[0].split('/')[-1], o.where[1], o.where[2]),
                                       'status': o.status, 'backend': o.backend, 'time': round(o.time, 3)})
            if E.second and o.status == 'proved' and o.backend == 'z3' and o.again is None and o.facts:
                o.again = (o.facts + E.static_facts, o.goal)
        if E.second and all(o.status == 'proved' for o in E.obls):
            res['second'] = solver.confirm([(k, o.again) for k, o in enumerate(E.obls) if o.again is not None], SECOND)
            for k in res['second']['disputed']:
                res['obligations'][k].update(status='refuted', backend='cvc5')
        res['notes'] = sorted(E.notes)
        res['loops'] = E.loopinfo
        if not res['obligations']:
            raise Unsupported('no obligations were generated')
    except Unsupported as e:
        res['error'] = 'outside the verifier: %s' % e
    except z3.Z3Exception as e:
        res['error'] = 'verifier error: %s' % e
        res['trace'] = traceback.format_exc()
    except Exception as e:
        res['error'] = 'verifier error: %r' % e
        res['trace'] = traceback.format_exc()
    return finish(res, t0)


def finish(res, t0):
    res['solver_time'] = round(solver.STATS.time, 2)
    res['queries'] = solver.STATS.queries
    res['wall'] = round(time.time() - t0, 2)
    return res


def _quick(E, o):
    if z3.is_true(z3.simplify(o.goal)):
        return True
    r, _ = solver.check(o.facts + E.static_facts, o.goal, 5000)
    return r == 'proved'
