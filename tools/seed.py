"""Writes seeded/<id>/ from the planted changes in tools/seeds.py and confirms each one:
the patch touches only lines of the base commit, builds, passes the stable tests; demo.sh passes without and fails with it.
usage: tools/seed.py [ids...]   (works in a scratch copy of /repo; never in /repo)"""
import json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '751ee84'
DEMO = '''#!/bin/bash
# exit 0: the library behaves; non-zero: it does not. Run in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 0
trap 'rm -rf "$work"' EXIT
inc=$(find Inc -type d | sed 's/^/-I/')
clang -std=gnu99 -w -g -O1 %s $inc "$here/demo.c" $(find Src -name '*.c') -lm -o "$work/demo" || exit 3
cd "$work" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
'''


def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def edit(path, pairs):
    with open(path, 'rb') as f:
        s = f.read()
    crlf = b'\r\n' in s
    t = s.replace(b'\r\n', b'\n').decode()
    for a, b in pairs:
        assert t.count(a) == 1, (path, t.count(a), a)
        t = t.replace(a, b)
    o = t.encode()
    if crlf:
        o = o.replace(b'\n', b'\r\n')
    with open(path, 'wb') as f:
        f.write(o)


def main():
    ids = sys.argv[1:] or sorted(SEEDS)
    base = json.load(open('/opt/vp/BASELINE.json'))
    for i in ids:
        s = SEEDS[i]
        d = os.path.join(ROOT, 'seeded', i)
        w = tempfile.mkdtemp(prefix='seed_')
        r = os.path.join(w, 'repo')
        try:
            sh(['git', 'clone', '-q', '--no-hardlinks', '/repo', r], w)
            os.makedirs(d, exist_ok=True)
            for f, pairs in s['edits'].items():
                edit(os.path.join(r, f), pairs)
            diff = subprocess.run(['git', 'diff', '--binary'], cwd=r, stdout=subprocess.PIPE).stdout
            with open(os.path.join(d, 'patch.diff'), 'wb') as f:
                f.write(diff)
            # every removed line must stem from the base commit
            bad = []
            for f in s['edits']:
                h = sh(['git', 'diff', '-U0', '--', f], r).stdout
                for a, n in re.findall(r'^@@ -(\d+)(?:,(\d+))?', h, re.M):
                    n = int(n) if n else 1
                    for k in range(n):
                        b = sh(['git', 'blame', '-s', '-L%d,%d' % (int(a) + k, int(a) + k), 'HEAD', '--', f], r).stdout
                        if BASE not in b[:12]:
                            bad.append((f, int(a) + k))
            with open(os.path.join(d, 'demo.c'), 'w') as f:
                f.write(s['demo'].lstrip('\n'))
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write(DEMO % s.get('flags', '-fsanitize=address,undefined -fno-sanitize-recover=all'))
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            with open(os.path.join(d, 'meta.json'), 'w') as f:
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
            patched = sh([os.path.join(d, 'demo.sh')], r)
            clean = sh([os.path.join(d, 'demo.sh')], '/repo')
            # the project's tests with the change (the build script works in /repo: same Makefile rules in the copy)
            t = sh('mkdir -p _build && make -s -j8 -f /opt/vp/build.mk && timeout 60 _build/all_tests.out -v', r)
            fails = len(re.findall(r':FAIL|FAIL\b', t.stdout))
            passed = len(re.findall(r'PASS', t.stdout))
            okk = clean.returncode == 0 and patched.returncode not in (0, 3) and not bad and t.returncode == 0
            print('%-5s %-24s clean=%d patched=%d tests rc=%d pass=%d fail=%d %s %s' % ('ok' if okk else 'BAD', i, clean.returncode, patched.returncode, t.returncode, passed, fails, bad, s['property']))
            if not okk:
                print(clean.stdout[-600:], patched.stdout[-600:], t.stdout[-800:])
            sys.stdout.flush()
        finally:
            shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    main()
