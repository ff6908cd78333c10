"""Decides one property: python3-vt -m dv.check C01 [quick|thorough]

Verifies every function the property depends on against its contract (in parallel, each
job in a fresh process), then writes evidence/<id>.json. Undischarged obligations lead to
a search for a failing input on the real code (dv.refute) and a VIOLATION line."""
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

from . import frontend, props, refute
from . import run as run_module
from .run import verify

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FRONT = None


def undecided(c, case, why, trace=None):
    return {'func': c.func, 'case': case, 'obligations': [], 'notes': [], 'loops': [], 'wall': 0, 'solver_time': 0, 'queries': 0, 'error': why, 'trace': trace}


def job(a):
    c, case, inline, scale, budget, variant = a
    try:
        if variant == 'unroll':
            c.unroll = 70
        elif variant == 'rep':
            c.default_rep = c.mix = 'int' if c.default_rep == 'bv' else 'bv'
        r = verify(FRONT, c, case, inline=inline, scale=scale, budget=budget)
        if variant:
            r['notes'].append('verifier configuration: ' + variant)
        return r
    except Exception as e:  # never lose a job silently
        return undecided(c, case, 'verifier error: %r' % e, traceback.format_exc())


def ok(r):
    return r is not None and r['error'] is None and bool(r['obligations']) and all(o['status'] == 'proved' for o in r['obligations'])


class Pool:
    """jobs (contract, case, inline, scale, budget, variant), each in a process of its own; at most `procs` at a time"""

    def __init__(self, jobs, procs=8):
        self.jobs = jobs
        self.procs = procs
        self.next = 0
        self.run = {}       # index -> (pid, file descriptor, chunks)
        self.out = [None] * len(jobs)
        self.start()

    def start(self):
        while self.next < len(self.jobs) and len(self.run) < self.procs:
            i, self.next = self.next, self.next + 1
            sys.stdout.flush()
            sys.stderr.flush()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    data = pickle.dumps(job(self.jobs[i]))
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                    sys.stderr.flush()
                finally:
                    os._exit(0)
            os.close(w)
            self.run[i] = (pid, r, [])

    def poll(self, wait=0.05):
        """collect what is finished; -> is everything finished?"""
        if self.run:
            fds = {fd: i for i, (pid, fd, ch) in self.run.items()}
            for fd in select.select(list(fds), [], [], wait)[0]:
                i = fds[fd]
                pid, _, ch = self.run[i]
                b = os.read(fd, 1 << 20)
                if b:
                    ch.append(b)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del self.run[i]
                try:
                    self.out[i] = pickle.loads(b''.join(ch))
                except Exception:
                    self.out[i] = undecided(self.jobs[i][0], self.jobs[i][1], 'the verifier process ended without a result')
        self.start()
        return not self.run and self.next == len(self.jobs)

    def close(self):
        self.next = len(self.jobs)
        for pid, fd, ch in self.run.values():
            for kill in (os.killpg, os.kill):
                try:
                    kill(pid, signal.SIGKILL)
                except OSError:
                    pass
            os.close(fd)
            os.waitpid(pid, 0)
        self.run = {}


def run_jobs(groups, end):
    """groups of alternative jobs; -> per group a result that discharges everything, else the best one"""
    jobs = [(g, j) for g, js in enumerate(groups) for j in js]
    if not jobs:
        return [None] * len(groups)
    p = Pool([j[:4] + (max(5, min(j[4], end - time.time() - 10)),) + j[5:] for g, j in jobs])
    try:
        while not p.poll() and time.time() < end:
            if all(any(ok(p.out[i]) for i, (g, j) in enumerate(jobs) if g == h) for h in range(len(groups))):
                break
    finally:
        p.close()
    res = []
    for h, js in enumerate(groups):
        rs = [p.out[i] for i, (g, j) in enumerate(jobs) if g == h and p.out[i] is not None]
        good = [r for r in rs if ok(r)]
        if good:
            res.append(good[0])
        else:
            res.append(min(rs, key=badness) if rs else undecided(js[0][0], js[0][1], 'no result within the time budget'))
    return res


def badness(r):
    return 10 ** 6 if r['error'] is not None else sum(o['status'] != 'proved' for o in r['obligations'])


def why(r):
    return r['error'] or ', '.join(o['kind'] for o in r['obligations'] if o['status'] != 'proved')[:200]


def transitive(c, failed):
    """callees (transitively) whose own contract did not verify"""
    out = set()
    st = list(c.callees)
    seen = set()
    while st:
        d = st.pop()
        if d.func in seen:
            continue
        seen.add(d.func)
        if d.func in failed:
            out.add(d.func)
        st += list(d.callees)
    return out


def decide(prop, t0, unit=1, early=None):
    """-> (results, failures, notes, concrete): failures = [(contract, case, result)] that count against the property;
    `early` looks for a failing input on the real code as soon as an obligation is not discharged or is slow.
    `unit` scales the time budgets; with 1 an answer comes within 800 s."""
    global FRONT
    FRONT = frontend.Front()
    try:
        cs = props.contracts(prop)
        for c, cases, own in cs:
            if hasattr(c, 'locate'):
                c.locate(FRONT)
        jobs = [(c, case, (), 1, 400 * unit, '') for c, cases, own in cs for case in cases]
        info = {(id(c)): own for c, cases, own in cs}
        concrete = None
        if unit > 1:
            run_module.SECOND = 560 / ((len(jobs) + 7) // 8)
        p = Pool(jobs)
        end = t0 + 420 * unit
        try:
            while not p.poll() and time.time() < end:
                if early is not None and concrete is None and (time.time() > t0 + 150 * unit or any(x is not None and not ok(x) for x in p.out)):
                    concrete = early()
                    if concrete.get('found'):
                        break
                    end = min(end, max(t0 + 300 * unit, time.time() + 60 * unit)) if any(x is not None and not ok(x) for x in p.out) else end
            res = [r or undecided(c, case, 'no result within the time budget') for r, (c, case, _, _, _, _) in zip(p.out, jobs)]
        finally:
            p.close()
        again = [i for i, r in enumerate(res) if not ok(r)]
        if again and concrete is None and early is not None:
            concrete = early()
        if concrete is not None and concrete.get('found'):
            # an input on which the real code misbehaves settles it
            fails = [(jobs[i][0], jobs[i][1], res[i]) for i in again]
            return [(jobs[i][0], jobs[i][1], r, info[id(jobs[i][0])]) for i, r in enumerate(res)], fails or [(None, None, undecided(jobs[0][0], '', 'a failing input was found'))], [], concrete
        if again:
            # a second attempt with more time and other configurations of the verifier: a rewritten function may suit another one
            print('second attempt for: ' + '; '.join('%s %s (%s)' % (jobs[i][0].func, jobs[i][1], why(res[i])) for i in again))
            groups = []
            for i in again:
                c, case = jobs[i][:2]
                groups.append([(c, case, (), 4, 200 * unit, '')] + ([] if getattr(c, 'lemma', False) else [(c, case, (), 2, 200 * unit, 'unroll'), (c, case, (), 2, 200 * unit, 'rep')]))
            new = run_jobs(groups, min(time.time() + 200 * unit, t0 + 600 * unit))
            for i, r in zip(again, new):
                if ok(r) or badness(r) < badness(res[i]) or (res[i]['error'] or '').startswith('no result'):
                    res[i] = r
        # dependencies whose contract fails: their callers are verified with the body instead of the contract
        failed = {jobs[i][0].func for i, r in enumerate(res) if not ok(r)}
        redo = [(i, transitive(jobs[i][0], failed)) for i in range(len(jobs))]
        redo = [(i, t) for i, t in redo if t]
        inlined = {}
        if redo:
            new = run_jobs([[jobs[i][:2] + (tuple(sorted(t)), 2, 200 * unit, '')] for i, t in redo], min(time.time() + 200 * unit, t0 + 740 * unit))
            for (i, t), r in zip(redo, new):
                inlined[i] = t
                r['notes'].append('inlined instead of its contract: ' + ', '.join(sorted(t)))
                res[i] = r
        fails = []
        # functions still used through their contract by some job
        used = set()
        for i, (c, case, _, _, _, _) in enumerate(jobs):
            for d in c.callees:
                if d.func not in inlined.get(i, ()):
                    used.add(d.func)
        dropped = []
        for i, r in enumerate(res):
            c, case = jobs[i][0], jobs[i][1]
            if ok(r):
                continue
            if info[id(c)] or c.func in used:
                fails.append((c, case, r))
            else:
                dropped.append(i)
        res2 = [(jobs[i][0], jobs[i][1], r, info[id(jobs[i][0])]) for i, r in enumerate(res) if i not in dropped]
        notes = ['the helper contract of %s does not hold of the current code; its callers were verified with its body inlined' % jobs[i][0].func for i in dropped]
        return res2, fails, notes, concrete
    finally:
        FRONT.close()


TRUSTED = [
    'clang 18 -O0 translation of /repo/Src to LLVM IR, llvm-link, opt (always-inline, lowerswitch, mem2reg, loop-simplify, lcssa)',
    'dv: IR parser, verification-condition generator and loop rule in /verif/dv (path merging, memory model: distinct objects are separate, flat arrays)',
    'z3 5.3 (Python API), z3 4.8.12, cvc5 1.1.2',
    'contracts and specification functions in /verif/dv/contracts state the property',
]


def evidence(prop, tier, res, fails, notes, t0, extra=None):
    obl = dis = 0
    by = {}
    funcs = []
    trusted = set()
    loops = 0
    kinds = {}
    st = 0.0
    for c, case, r, own in res:
        n = len(r['obligations'])
        d = sum(o['status'] == 'proved' for o in r['obligations'])
        if r['error'] is not None:
            n += 1
        obl += n
        dis += d
        st += r['solver_time']
        for o in r['obligations']:
            if o['status'] == 'proved':
                by[o['backend']] = by.get(o['backend'], 0) + 1
        for x in r['notes']:
            if x.startswith('trusted contract'):
                trusted.add(x.split(': ')[1])
        loops += len(r['loops'])
        funcs.append({'function': r['func'], 'case': case, 'role': 'states the property' if own else 'callee', 'obligations': n, 'discharged': d,
                      'requires': list(c.requires_text), 'ensures': list(c.ensures_text), 'wall_s': r['wall'], 'solver_s': r['solver_time'], 'queries': r['queries'],
                      'loops': [{'where': l['where'], 'invariants': l['invariants'][:40]} for l in r['loops']],
                      'notes': r['notes']})
    assume = ['preconditions (requires) of the entry functions above are the caller\'s obligation',
              'LP64 little-endian target, 8-bit bytes; objects smaller than 2^62 bytes; separate parameters designate separate objects unless a case says otherwise',
              'concurrent modification of arguments is excluded']
    if trusted:
        assume.append('library functions used through trusted contracts: ' + ', '.join(sorted(trusted)))
    for c, case, r, own in res:
        for a in getattr(c, 'assumes_text', ()):
            if a not in assume:
                assume.append(a)
    cov = {'obligations': obl, 'discharged': dis, 'checker_cmd': 'cd /verif && ./check.sh %s %s' % (prop, tier), 'trusted_base': TRUSTED,
           'back_ends': by, 'solver_s': round(st, 2), 'functions_under_contract': len({f['function'] for f in funcs}), 'loops_cut_by_invariants': loops,
           'functions': funcs}
    second = [r['second'] for _, _, r, _ in res if r.get('second')]
    if second:
        cov['second_back_end'] = {k: sum(x.get(k, 0) for x in second) for k in ('cvc5', 'z3-4.8', 'simplifier', 'undecided', 'not attempted')}
        cov['second_back_end']['disputed'] = sum(len(x['disputed']) for x in second)
    if notes:
        cov['notes'] = notes
    if extra:
        cov.update(extra)
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'proof', 'coverage': cov, 'assumptions': assume,
          'wall_s': round(time.time() - t0, 2), 'violations': 1 if fails else 0}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = tier == 'thorough'
    try:
        res, fails, notes, concrete = decide(prop, t0, 3 if thorough else 1, lambda: refute.search(prop, seed, 60 if thorough else 30))
    except frontend.BuildError as e:
        print('ERROR: /repo does not compile: %s' % e)
        sys.exit(2)
    extra = {}
    if thorough and not fails:
        # every obligation is discharged; the oracle harness cross-checks the contracts against the running code
        concrete = refute.search(prop, seed, 120)
        extra['cross_validation_executions'] = concrete.get('execs', 0)
        if concrete.get('found'):
            fails = [(None, None, {'error': 'failing input found by the cross-validation run', 'obligations': [], 'func': '?'})]
    elif fails and not (concrete and concrete.get('found')):
        # what is left of the time budget goes into a longer search
        concrete = refute.search(prop, seed + 1, max(10, min(240, int(840 - (time.time() - t0) - 60))) if thorough else max(10, min(60, int(780 - (time.time() - t0)))))
    evidence(prop, tier, res, fails, notes, t0, extra)
    n = sum(len(r['obligations']) for _, _, r, _ in res)
    if not fails:
        print('%s: %d obligations of %d functions discharged in %.1f s' % (prop, n, len({r['func'] for _, _, r, _ in res}), time.time() - t0))
        sys.exit(0)
    lines = []
    for c, case, r in fails:
        if r['error']:
            lines.append('%s %s: %s' % (r['func'], case or '', r['error']))
        for o in r['obligations']:
            if o['status'] != 'proved':
                lines.append('%s %s: %s at %s: %s' % (r['func'], case or '', o['kind'], o['where'], o['status']))
    print('%s: undischarged obligations:' % prop)
    for l in lines[:20]:
        print('  ' + l)
    found = concrete.get('found')
    if found:
        for l in concrete['output'].split('\n'):
            if l.startswith(('FAILING INPUT', 'WRONG OUTCOME')) or 'runtime error' in l or 'ERROR: AddressSanitizer' in l or 'no result within' in l:
                print('  ' + l[:400])
    path = refute.write(prop, lines, fails, concrete)
    print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    sys.exit(1)


if __name__ == '__main__':
    main()
