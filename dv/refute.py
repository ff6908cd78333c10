"""Search for a concrete failing input on the real code: the current sources of /repo, compiled with ASan and
UBSan, driven by libFuzzer against the executable oracle harness/oracle.c.  It never decides a property: it only
looks for an input that shows an undischarged obligation to be a violation (and cross-checks contracts in the
thorough tier)."""
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import tempfile
import time

from . import frontend

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(ROOT, 'harness', 'oracle.c')
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all']


def crc_table():
    """harness/oracle.c's table of variants, from the contracts' published parameters"""
    from .contracts import crc
    out = []
    for w in (8, 16, 32):
        out += ['#include "crc%d_base.h"' % w]
    for d, _, fs in sorted(os.walk(os.path.join(frontend.REPO, 'Inc', 'crc'))):
        for f in sorted(fs):
            if f.endswith('.h') and 'base' not in f:
                out.append('#include "%s"' % f)
    out += ['struct variant { const char *name; int w; uint32_t poly, init; bool refl; uint32_t xor; bool fin; uint32_t (*call)(const uint8_t *, uint32_t, bool, void *); };',
            'static uint32_t get(const void *p, int w) { return w == 8 ? *(const uint8_t *)p : w == 16 ? *(const uint16_t *)p : *(const uint32_t *)p; }',
            'static void put(void *p, uint32_t v, int w) { if (w == 8) *(uint8_t *)p = (uint8_t)v; else if (w == 16) *(uint16_t *)p = (uint16_t)v; else *(uint32_t *)p = v; }']
    rows = []
    for v in crc.V8 + crc.V16 + crc.V32:
        out.append('static uint32_t call_%s(const uint8_t *d, uint32_t n, bool fin, void *last) { (void)fin; return %s(d, n, %slast); }' % (
            v.func, v.func, 'fin, ' if v.has_final else ''))
        rows.append('{"%s", %d, 0x%xu, 0x%xu, %d, 0x%xu, %d, call_%s}' % (v.func, v.w, v.poly, v.init, bool(v.refl), v.xor, bool(v.has_final), v.func))
    out.append('static const struct variant VARIANT[] = {%s};' % ', '.join(rows))
    return '\n'.join(out) + '\n'


def build(prop, d):
    """-> (fuzz binary, replay binary)"""
    with open(os.path.join(d, 'crc_all.inc'), 'w') as f:
        f.write(crc_table())
    inc = frontend.include_flags() + ['-I' + d]
    base = ['clang', '-std=gnu99', '-g', '-O1', '-fno-omit-frame-pointer', '-w']
    jobs = []
    objs = []
    for i, s in enumerate(frontend.sources()):
        o = os.path.join(d, 's%d.o' % i)
        objs.append(o)
        jobs.append(base + SAN + ['-fsanitize=fuzzer-no-link'] + inc + ['-c', s, '-o', o])
    n = int(prop[1:])
    jobs.append(base + SAN + inc + ['-DPROP=%d' % n, '-c', HARNESS, '-o', os.path.join(d, 'h.o')])
    jobs.append(base + SAN + inc + ['-DPROP=%d' % n, '-DMAIN', '-c', HARNESS, '-o', os.path.join(d, 'm.o')])
    ps = []
    for j in jobs:
        while len([p for p in ps if p.poll() is None]) >= 8:
            time.sleep(0.005)
        ps.append(subprocess.Popen(j, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
    for p in ps:
        out, _ = p.communicate()
        if p.returncode:
            raise frontend.BuildError(out[-2000:])
    fz, rp = os.path.join(d, 'fuzz'), os.path.join(d, 'replay')
    for flags, h, o in ((['-fsanitize=fuzzer'], 'h.o', fz), ([], 'm.o', rp)):
        p = subprocess.run(['clang'] + SAN + flags + objs + [os.path.join(d, h), '-o', o, '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise frontend.BuildError(p.stdout[-2000:])
    return fz, rp


ENV = {'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:symbolize=0', 'UBSAN_OPTIONS': 'print_stacktrace=0', 'PATH': os.environ.get('PATH', '/usr/bin:/bin')}


def replay(binary, path):
    """-> (fails?, output)"""
    try:
        p = subprocess.run([binary, path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=25, env=ENV)
    except subprocess.TimeoutExpired as e:
        return True, (e.stdout or b'').decode(errors='replace') + '\nno result within 25 s (the call does not return)\n'
    return p.returncode != 0, p.stdout.decode(errors='replace')


def fuzz(prop, seed, secs, procs=8):
    """-> dict(found, input, output, execs)"""
    d = tempfile.mkdtemp(prefix='dv_fuzz_')
    ps = []
    try:
        fz, rp = build(prop, d)
        for i in range(procs):
            w = os.path.join(d, 'w%d' % i)
            c = os.path.join(w, 'corpus')
            os.makedirs(c)
            for k in range(24):
                # seeds of several lengths; the harness continues an exhausted input with a generator
                with open(os.path.join(c, 'seed%d' % k), 'wb') as f:
                    f.write(bytes((seed * 7919 + i * 104729 + k * 1299709 + j * (k + 3) * 31 >> (j % 5)) & 255 for j in range(4 * k)))
            args = [fz, '-seed=%d' % (seed * 100 + i + 1), '-max_total_time=%d' % secs, '-max_len=%d' % (64 if i % 2 else 600), '-timeout=12', '-rss_limit_mb=3000',
                    '-use_value_profile=%d' % (i % 4 >= 2), '-len_control=0', '-artifact_prefix=' + w + '/', '-print_final_stats=1', c]
            ps.append((subprocess.Popen(args, cwd=w, stdout=open(os.path.join(w, 'log'), 'w'), stderr=subprocess.STDOUT, env=ENV, start_new_session=True), w))
        end = time.time() + secs + 40
        found = None
        done = set()
        while time.time() < end:
            for p, w in ps:
                if p.poll() is not None and w not in done:
                    done.add(w)
                    for a in glob.glob(w + '/crash-*') + glob.glob(w + '/timeout-*') + glob.glob(w + '/oom-*'):
                        bad, out = replay(rp, a)
                        if bad:
                            found = (a, out)
                            break
                if found:
                    break
            if found or len(done) == len(ps):
                break
            time.sleep(0.1)
        execs = 0
        for p, w in ps:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            with open(os.path.join(w, 'log'), errors='replace') as f:
                t = f.read()
            m = re.findall(r'stat::number_of_executed_units:\s+(\d+)', t) or re.findall(r'^#(\d+)', t, re.M)
            execs += int(m[-1]) if m else 0
        if not found:
            return {'found': False, 'execs': execs}
        with open(found[0], 'rb') as f:
            data = f.read()
        data, out = shrink(rp, data, found[1], d)
        return {'found': True, 'input': data, 'output': out, 'execs': execs}
    finally:
        for p, w in ps:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
        shutil.rmtree(d, ignore_errors=True)


def shrink(rp, data, out, d):
    """a shorter input that still fails (the generator continues where the input ends)"""
    t0 = time.time()
    p = os.path.join(d, 'cand')
    if 'no result within' in out:
        return data, out

    def bad(x):
        with open(p, 'wb') as f:
            f.write(x)
        return replay(rp, p)
    n = len(data)
    step = max(1, n // 2)
    while step >= 1 and time.time() - t0 < 10:
        if len(data) > step:
            b, o = bad(data[:-step])
            if b and 'no result within' not in o:
                data, out = data[:-step], o
                continue
        step //= 2
    return data, out


def write(prop, lines, fails, res):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    rec = {'property': prop, 'undischarged_obligations': lines}
    rec['verifier'] = [{'function': r.get('func'), 'case': case, 'error': r.get('error'), 'trace': r.get('trace'),
                        'failed': [o for o in r.get('obligations', []) if o['status'] != 'proved']} for c, case, r in fails]
    if res.get('found'):
        rec['failing_input_hex'] = res['input'].hex()
        rec['decoded'] = [l for l in res['output'].split('\n') if l.startswith(('FAILING INPUT', 'WRONG OUTCOME')) or 'runtime error' in l or 'ERROR: AddressSanitizer' in l or 'no result within' in l]
        rec['output'] = res['output'][-6000:]
        rec['replay_command'] = 'cd /verif && ./replay.sh replays/%s.json' % prop
    rec['search'] = {k: v for k, v in res.items() if k in ('execs', 'note')}
    path = os.path.join(d, '%s.json' % prop)
    with open(path, 'w') as f:
        json.dump(rec, f, indent=1)
    return path


def search(prop, seed, secs):
    try:
        return fuzz(prop, seed, secs)
    except frontend.BuildError as e:
        return {'found': False, 'note': 'harness does not build: %s' % e}


def main():
    """replay a recorded failing input: python3-vt -m dv.refute replays/C01.json"""
    import sys
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    if 'failing_input_hex' not in rec:
        print('no failing input recorded; undischarged obligations:')
        print('\n'.join(rec['undischarged_obligations']))
        sys.exit(2)
    d = tempfile.mkdtemp(prefix='dv_replay_')
    try:
        fz, rp = build(rec['property'], d)
        p = os.path.join(d, 'input')
        with open(p, 'wb') as f:
            f.write(bytes.fromhex(rec['failing_input_hex']))
        bad, out = replay(rp, p)
        print(out)
        print('the input fails' if bad else 'the input passes')
        sys.exit(1 if bad else 0)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
