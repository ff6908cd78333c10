"""Runs the checks against the planted changes in scratch copies: tools/try.py [-jN] [ids...]"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(ROOT, 'seeded', i)
    prop = json.load(open(os.path.join(d, 'meta.json')))['property']
    w = tempfile.mkdtemp(prefix='try_')
    try:
        r = os.path.join(w, 'repo')
        subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', r], check=True)
        subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=r, check=True)
        t = time.time()
        p = subprocess.run([os.path.join(ROOT, 'check.sh'), prop, 'quick'], env=dict(os.environ, DV_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return '%-20s %s rc=%d %5.1fs\n    %s' % (i, prop, p.returncode, time.time() - t, '\n    '.join(l[:260] for l in p.stdout.strip().split('\n')[-6:]))
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = int(a.pop(0)[2:]) if a and a[0].startswith('-j') else 1
    ids = a or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    with ThreadPoolExecutor(j) as ex:
        for r in ex.map(one, ids):
            print(r)
            sys.stdout.flush()
