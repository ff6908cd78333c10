"""Mutation survey: single-token changes of the library that the tests accept, and what the checks say about them.
usage: tools/mutate.py gen OUT.json            generate, build and test every mutant; keep the ones the tests accept
       tools/mutate.py run OUT.json LOG [-jN] [file substring]   run the checks of the mutated file's properties"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    'Src/base64.c': {'Base64_encode': ['C01'], '': ['C02', 'C03']},
    'Src/bit_manipulation.c': {'BitManipulation_reflect': ['C05'], 'BitManipulation_rotl32': ['C05'], '': ['C04']},
    'Src/crc/crc8_base.c': {'': ['C10']}, 'Src/crc/crc16_base.c': {'': ['C10']}, 'Src/crc/crc32_base.c': {'': ['C10']},
    'Src/crc/crc8_variants/crc8_darc.c': {'': ['C06', 'C09']}, 'Src/crc/crc16_variants/crc16_x_25.c': {'': ['C07', 'C09']}, 'Src/crc/crc32_variants/crc32_bzip2.c': {'': ['C08', 'C09']},
    'Src/crypto/chacha20.c': {'': ['C11', 'C12']}, 'Src/crypto/caesar_cipher.c': {'': ['C13']}, 'Src/crypto/vernam_cipher.c': {'': ['C14']},
    'Src/json.c': {'Json_findByKey': ['C16', 'C17'], 'IsWhitespace': ['C16'], '': ['C15']},
    'Src/map.c': {'': ['C18']}, 'Src/queue.c': {'': ['C19']}, 'Src/priority_queue.c': {'': ['C20']}, 'Src/scheduler.c': {'': ['C21']},
    'Src/sort/bubble_sort.c': {'': ['C22']}, 'Src/sort/selection_sort.c': {'': ['C23']}, 'Src/sort/insertion_sort.c': {'': ['C24']}, 'Src/sort/heap_sort.c': {'': ['C25']},
    'Src/utils.c': {'Utils_stringToUint32': ['C28'], 'Utils_quickUint32Pow10': ['C30'], 'Utils_isUpperChar': ['C30'], 'Utils_isLowerChar': ['C30'], 'Utils_isAlpha': ['C30'], 'Utils_swapElements': ['C29'],
                    'Utils_serializeBlobBE': ['C27'], 'Utils_serializeBlobLE': ['C27'], 'Utils_deserializeBlobBE': ['C27'], 'Utils_deserializeBlobLE': ['C27'], '': ['C26']},
}
OPS = [('<=', ['<', '!=']), ('>=', ['>']), ('==', ['!=', '<=']), ('!=', ['==', '<']), ('&&', ['||']), ('||', ['&&']), ('<<', ['>>']), ('>>', ['<<']),
       ('++', ['--']), ('--', ['++']), ('+=', ['-=']), ('-=', ['+=']), ('|=', ['^=', '&=']), ('&=', ['|=']), ('^=', ['|=']),
       ('<', ['<=', '!=']), ('>', ['>=']), ('+', ['-']), ('-', ['+']), ('*', ['+']), ('/', ['*']), ('%', ['/']), ('&', ['|']), ('|', ['&', '^']), ('^', ['|'])]
TOK = re.compile(r"'(?:\\.|[^'])'|\"(?:\\.|[^\"])*\"|0[xX][0-9A-Fa-f]+[uUlL]*|\d+[uUlL]*|[A-Za-z_]\w*|->|<<=|>>=|<=|>=|==|!=|&&|\|\||<<|>>|\+\+|--|\+=|-=|\*=|/=|%=|\|=|&=|\^=|\S")
TYPES = {'uint8_t', 'uint16_t', 'uint32_t', 'int32_t', 'size_t', 'int16_t', 'int8_t', 'int64_t', 'uint64_t'}


def functions(s):
    for m in re.finditer(r'^(?:static )?(?:inline )?[A-Za-z0-9_]+[ *]*\n(\w+)\(', s, re.M):
        e = s.index('\n}\n', m.start()) + 3
        yield m.group(1), s.index('{', m.start()), e


def mutants(f, s):
    for fn, a, b in functions(s):
        body = re.sub(r'//[^\n]*|/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group()), s[a:b], flags=re.S)
        toks = [(m.start() + a, m.group()) for m in TOK.finditer(body)]
        for i, (p, t) in enumerate(toks):
            pre = toks[i - 1][1] if i else ''
            nxt = toks[i + 1][1] if i + 1 < len(toks) else ''
            subs = []
            for o, n in OPS:
                if t == o:
                    binary = re.match(r"[\w)\]]|'", pre[-1:] or ' ') and pre not in ('return', 'const')
                    if t in ('*', '&', '+', '-') and (not binary or pre in TYPES or (pre == ')' and t in '*&') or nxt in (')', ',', 'const')):
                        break
                    subs = n
            if re.match(r'^(0[xX]|\d)', t):
                v = int(re.match(r'0[xX][0-9a-fA-F]+|\d+', t).group(), 0)
                suf = re.search(r'[uUlL]*$', t).group()
                subs = ['%d%s' % (x, suf) for x in (v + 1, v - 1) if x >= 0]
            elif t in TYPES:
                subs = {'uint8_t': ['int8_t'], 'uint16_t': ['uint8_t', 'int16_t'], 'uint32_t': ['uint16_t', 'int32_t', 'uint8_t'], 'int32_t': ['uint32_t', 'int16_t'], 'size_t': ['uint16_t', 'uint8_t'], 'int16_t': ['uint8_t'], 'uint64_t': ['uint32_t'], 'int64_t': ['int32_t']}.get(t, [])
            elif t in ('true', 'false'):
                subs = ['false' if t == 'true' else 'true']
            elif t == 'break':
                subs = ['']
            for n in subs:
                yield fn, p, t, n
        for m in re.finditer(r'^[ \t]+[^\n{}]*;[ \t]*$', body, re.M):
            line = m.group()
            if re.match(r'\s*(const\s+)?\w+\s*\*?\s*\w+(\[.*\])?\s*(=.*)?;', line) and not re.match(r'\s*\w+\s*=', line):
                continue
            if 'return' in line or 'for' in line:
                continue
            yield fn, m.start() + a, line, ''


def scratch():
    w = tempfile.mkdtemp(prefix='mut_')
    subprocess.run(['git', 'clone', '-q', '--no-hardlinks', '/repo', os.path.join(w, 'repo')], check=True)
    return w


def gen(out):
    todo = []
    for f in PROPS:
        s = open('/repo/' + f, newline='').read().replace('\r\n', '\n')
        todo += [(f, fn, p, t, n) for fn, p, t, n in mutants(f, s)]
    print(len(todo), 'mutants')

    def work(part):
        w = scratch()
        r = os.path.join(w, 'repo')
        kept = []
        try:
            subprocess.run('mkdir -p _build && make -s -j2 -f /opt/vp/build.mk', shell=True, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            for f, fn, p, t, n in part:
                path = os.path.join(r, f)
                s = open('/repo/' + f, newline='').read().replace('\r\n', '\n')
                open(path, 'w').write(s[:p] + n + s[p + len(t):])
                o = os.path.join(r, '_build/obj', f[:-2] + '.o')
                if os.path.exists(o):
                    os.unlink(o)
                b = subprocess.run('make -s -j2 -f /opt/vp/build.mk && timeout 10 _build/all_tests.out', shell=True, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                if b.returncode == 0:
                    kept.append([f, fn, p, t, n])
                open(path, 'w').write(s)
        finally:
            shutil.rmtree(w, ignore_errors=True)
        return kept
    J = 6
    with ThreadPoolExecutor(J) as ex:
        ks = [k for r in ex.map(work, [todo[i::J] for i in range(J)]) for k in r]
    ks.sort()
    json.dump(ks, open(out, 'w'))
    print(len(ks), 'accepted by the tests')


def run(f_in, log, j, sub):
    ks = [k for k in json.load(open(f_in)) if sub in k[0] + ':' + k[1]]

    def one(k):
        f, fn, p, t, n = k
        w = scratch()
        r = os.path.join(w, 'repo')
        s = open('/repo/' + f, newline='').read().replace('\r\n', '\n')
        line = s.count('\n', 0, p) + 1
        try:
            open(os.path.join(r, f), 'w').write(s[:p] + n + s[p + len(t):])
            o = []
            for prop in PROPS[f].get(fn, PROPS[f]['']):
                t0 = time.time()
                q = subprocess.run([os.path.join(ROOT, 'check.sh'), prop, 'quick'], env=dict(os.environ, DV_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                o.append('%s rc=%d%s %.0fs' % (prop, q.returncode, ' nff' if 'no-failing-input' in q.stdout else '', time.time() - t0))
                if q.returncode:
                    break
            return '%s %s:%d %s  %r -> %r   %s' % ('KILLED' if 'rc=1' in o[-1] else 'QUIET', f, line, fn, t.strip(), n, '; '.join(o))
        finally:
            shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(j) as ex, open(log, 'a') as L:
        for r in as_completed([ex.submit(one, k) for k in ks]):
            r = r.result()
            L.write(r + '\n')
            L.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        gen(sys.argv[2])
    else:
        a = sys.argv[4:]
        j = int(a.pop(0)[2:]) if a and a[0].startswith('-j') else 1
        run(sys.argv[2], sys.argv[3], j, a[0] if a else '')
