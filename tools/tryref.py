"""Runs the checks on behaviour-preserving rewrites in scratch copies: tools/tryref.py [-jN] [ids...]"""
import os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor
from refactors import REF
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replace(src, fn, new):
    m = re.search(r'^(?:static )?(?:inline )?[A-Za-z0-9_]+[ *]*\n%s\(' % fn, src, re.M)
    i = m.start()
    j = src.index('\n}\n', i) + 3
    return src[:i] + new.strip('\n') + '\n' + src[j:]


def one(i):
    props, file, fns = REF[i]
    w = tempfile.mkdtemp(prefix='ref_')
    out = []
    try:
        r = os.path.join(w, 'repo')
        subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', r], check=True)
        p = os.path.join(r, file)
        s = open(p, newline='').read().replace('\r\n', '\n')
        for fn, new in fns.items():
            if fn == '__subst__':
                for t in new:
                    assert s.count(t[0]) == (t[2] if len(t) > 2 else 1), (i, t, s.count(t[0]))
                    s = s.replace(t[0], t[1])
            else:
                s = replace(s, fn, new)
        open(p, 'w').write(s)
        b = subprocess.run('mkdir -p _build && make -s -j8 -f /opt/vp/build.mk && timeout 60 _build/all_tests.out', shell=True, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode:
            return i + ': TESTS FAIL\n' + b.stdout[-1500:]
        for prop in props:
            t = time.time()
            q = subprocess.run([os.path.join(ROOT, 'check.sh'), prop, 'quick'], env=dict(os.environ, DV_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out.append('%-4s %-18s %s rc=%d %5.1fs' % ('ok' if q.returncode == 0 else 'BAD', i, prop, q.returncode, time.time() - t))
            if q.returncode or 'second' in q.stdout:
                out.append('      ' + '\n      '.join(l[:230] for l in q.stdout.strip().split('\n')[-14:]))
        return '\n'.join(out)
    except Exception as e:
        return '%s: %r' % (i, e)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = int(a.pop(0)[2:]) if a and a[0].startswith('-j') else 1
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, a or list(REF)):
            print(r)
            sys.stdout.flush()
