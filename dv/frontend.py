"""Mechanical extraction: compiles /repo's current sources to LLVM IR and parses it.

What the extraction does: clang -std=gnu99 -O0 with the library's include paths (no
optimisation), llvm-link, inlining of every function that carries no contract, SSA
construction for scalar locals (mem2reg), loop-simplify, lcssa, switch lowering.
What it drops: debug-only metadata, function attributes, and the distinction between
the -O0 clang code and what gcc generates for the test build (same C semantics)."""
import glob
import hashlib
import os
import re
import subprocess
import tempfile
import shutil

from .ir import Parser

REPO = os.environ.get('DV_REPO', '/repo')
CLANG = '/usr/bin/clang'
OPT = '/usr/bin/opt'
LINK = '/usr/bin/llvm-link'
INCS = ['Inc', 'Inc/crc', 'Inc/crc/crc8_variants', 'Inc/crc/crc16_variants', 'Inc/crc/crc32_variants', 'Inc/crypto', 'Inc/sort']


def include_flags():
    dirs = list(INCS)
    for d, _, fs in os.walk(os.path.join(REPO, 'Inc')):
        r = os.path.relpath(d, REPO)
        if r not in dirs:
            dirs.append(r)
    return ['-I' + os.path.join(REPO, d) for d in dirs]


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'Src')):
        for f in sorted(fs):
            if f.endswith('.c'):
                out.append(os.path.join(d, f))
    return sorted(out)


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


class Front:
    """Linked -O0 IR of the whole library; module(keep) gives the parsed, inlined module."""

    def __init__(self, work=None):
        self.own = work is None
        self.dir = work or tempfile.mkdtemp(prefix='dv_')
        procs = []
        self.lls = []
        self.srcs = sources()
        for s in self.srcs:
            o = os.path.join(self.dir, os.path.relpath(s, REPO).replace('/', '_') + '.ll')
            cmd = [CLANG, '-std=gnu99', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-fno-discard-value-names',
                   '-gline-tables-only', '-D_POSIX_C_SOURCE=200809', '-w'] + include_flags() + ['-S', '-emit-llvm', s, '-o', o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            self.lls.append(o)
        for cmd, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise BuildError('%s\n%s' % (' '.join(cmd), out[-4000:]))
        self.linked = os.path.join(self.dir, 'linked.ll')
        run([LINK, '-S'] + self.lls + ['-o', self.linked])
        self.text = open(self.linked).read()
        self.defined = re.findall(r'^define [^\n]*?@([-a-zA-Z$._0-9]+)\(', self.text, re.M)
        self.cache = {}

    def module(self, keep):
        """keep: names of functions that stay separate (they carry a contract)."""
        key = frozenset(k for k in keep if k in self.defined)
        if key in self.cache:
            return self.cache[key]
        out = []
        for ln in self.text.split('\n'):
            if ln.startswith('attributes #'):
                ln = ln.replace(' noinline', '').replace(' optnone', '')
            elif ln.startswith('define'):
                nm = re.search(r'@([-a-zA-Z$._0-9]+)\(', ln).group(1)
                if nm not in key:
                    ln = re.sub(r'(?= (?:!dbg ![0-9]+ )?\{$)', ' alwaysinline', ln, count=1)
            out.append(ln)
        n = '%d_%d' % (os.getpid(), len(self.cache))
        a = os.path.join(self.dir, 'm%s.in.ll' % n)
        b = os.path.join(self.dir, 'm%s.ll' % n)
        with open(a, 'w') as f:
            f.write('\n'.join(out))
        run([OPT, '-S', '-passes=always-inline,function(lowerswitch,mem2reg,loop-simplify,lcssa)', a, '-o', b])
        text = open(b).read()
        P = Parser(text)
        P.text = text
        P.front = self
        P.sha = hashlib.sha256(text.encode()).hexdigest()
        self.cache[key] = P
        return P

    def layout(self, header, typ, fields):
        """-> ({field: (offset, size)}, size of the type), as the compiler lays it out"""
        key = (header, typ, tuple(fields))
        if key in self.cache:
            return self.cache[key]
        a = os.path.join(self.dir, 'layout_%d_%s' % (os.getpid(), typ))
        with open(a + '.c', 'w') as f:
            f.write('#include <stddef.h>\n#include "%s"\n' % header)
            for x in fields:
                f.write('const unsigned long o_%s = offsetof(%s, %s), s_%s = sizeof(((%s*)0)->%s);\n' % (x, typ, x, x, typ, x))
            f.write('const unsigned long total = sizeof(%s);\n' % typ)
        run([CLANG, '-std=gnu99', '-w'] + include_flags() + ['-S', '-emit-llvm', a + '.c', '-o', a + '.ll'])
        t = open(a + '.ll').read()
        v = {m.group(1): int(m.group(2)) for m in re.finditer(r'^@(\w+) = .*constant i64 (\d+)', t, re.M)}
        r = ({x: (v['o_' + x], v['s_' + x]) for x in fields}, v['total'])
        self.cache[key] = r
        return r

    def close(self):
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)
