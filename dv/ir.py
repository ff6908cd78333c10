"""Parser for the textual LLVM IR that clang 18 -O0 + mem2reg produces (opaque pointers)."""
import re


class IRError(Exception):
    pass


class Unsupported(Exception):
    """A construct outside the verifier's reach: the obligations of the function cannot be generated."""


# ---------------------------------------------------------------- types
# types: ('i', n) | ('ptr',) | ('void',) | ('arr', n, t) | ('struct', [t..], packed) | ('fn',)

def _align_up(x, a):
    return (x + a - 1) // a * a


class Types:
    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8}[t[1]]
        if t[0] == 'ptr':
            return 8
        if t[0] == 'arr':
            return self.align(t[2])
        if t[0] == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] + [1])
        raise Unsupported('align of %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        if t[0] == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8}.get(t[1]) or (t[1] + 7) // 8
        if t[0] == 'ptr':
            return 8
        if t[0] == 'arr':
            return t[1] * self.size(t[2])
        if t[0] == 'struct':
            offs, tot = self.struct_layout(t)
            return tot
        raise Unsupported('size of %r' % (t,))

    def struct_layout(self, t):
        t = self.resolve(t)
        off = 0
        offs = []
        for x in t[1]:
            if not t[2]:
                off = _align_up(off, self.align(x))
            offs.append(off)
            off += self.size(x)
        if not t[2]:
            off = _align_up(off, self.align(t))
        return offs, off


TOK = re.compile(r'''\s*(?:
    (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
  | (?P<local>%(?:[-a-zA-Z$._0-9]+|"[^"]*"))
  | (?P<glob>@(?:[-a-zA-Z$._0-9]+|"[^"]*"))
  | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+(?:\.[0-9eE+\-]+)?)
  | (?P<word>[a-zA-Z_.$][-a-zA-Z_.$0-9]*)
  | (?P<dots>\.\.\.)
  | (?P<p><\{|\}>|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise IRError('cannot tokenize %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        out.append((k, m.group(k)))
    return out


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise IRError('expected %r got %r in %r' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:200]))
        self.i += 1


ATTRWORDS = {'noundef', 'zeroext', 'signext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'nonnull',
             'returned', 'immarg', 'inreg', 'readnone', 'nofree', 'nosync', 'noreturn', 'dso_local', 'local_unnamed_addr',
             'unnamed_addr', 'inbounds', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'volatile', 'exact', 'nuw', 'nsw',
             'disjoint', 'nneg', 'internal', 'private', 'external', 'constant', 'global', 'hidden', 'common', 'linkonce_odr',
             'weak', 'sideeffect', 'allocsize', 'willreturn', 'nounwind', 'samesign'}


class Parser:
    def __init__(self, text):
        self.types = Types()
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self.meta = {}
        self.parse(text)

    # ---- types
    def ptype(self, t):
        w = t.peek()
        k = t.kind()
        if k == 'word':
            m = re.match(r'i(\d+)$', w)
            if m:
                t.next()
                ty = ('i', int(m.group(1)))
            elif w == 'ptr':
                t.next()
                ty = ('ptr',)
            elif w == 'void':
                t.next()
                ty = ('void',)
            elif w in ('float', 'double', 'x86_fp80', 'half'):
                t.next()
                ty = ('fp', w)
            elif w == 'metadata':
                t.next()
                ty = ('metadata',)
            elif w == 'label':
                t.next()
                ty = ('label',)
            else:
                raise IRError('type? %r' % w)
        elif w == '[':
            t.next()
            n = int(t.next())
            t.expect('x')
            e = self.ptype(t)
            t.expect(']')
            ty = ('arr', n, e)
        elif w == '{' or w == '<{':
            t.next()
            close = '}' if w == '{' else '}>'
            es = []
            while not t.accept(close):
                es.append(self.ptype(t))
                t.accept(',')
            ty = ('struct', es, w == '<{')
        elif w == '<':
            t.next()
            n = int(t.next())
            t.expect('x')
            e = self.ptype(t)
            t.expect('>')
            ty = ('vec', n, e)
        elif k == 'local':
            t.next()
            ty = ('named', w)
        else:
            raise IRError('type? %r' % w)
        # function type
        if t.peek() == '(' and ty is not None and getattr(self, '_allow_fn', False):
            d = 0
            while True:
                w = t.next()
                if w == '(':
                    d += 1
                elif w == ')':
                    d -= 1
                    if d == 0:
                        break
            ty = ('fn',)
        return ty

    # ---- constants / values
    # values: ('l', name) ('c', int) ('bool', b) ('null',) ('undef',) ('g', name) ('gep', ty, base, idxs) ('zero',) ('arr',[...]) ('bytes', b)
    def pvalue(self, t, ty):
        k = t.kind()
        w = t.next()
        if k == 'local':
            return ('l', w)
        if k == 'num':
            return ('c', int(w))
        if k == 'glob':
            return ('g', w)
        if k == 'str':
            return ('bytes', unescape(w))
        if w == 'true':
            return ('c', 1)
        if w == 'false':
            return ('c', 0)
        if w == 'null':
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if w in ('[', '{', '<{'):
            close = {'[': ']', '{': '}', '<{': '}>'}[w]
            es = []
            while not t.accept(close):
                et = self.ptype(t)
                es.append((et, self.pvalue(t, et)))
                t.accept(',')
            return ('agg', es)
        if w == 'getelementptr':
            self.skip_attrs(t)
            if t.peek() == 'inrange':
                raise Unsupported('inrange')
            t.expect('(')
            bt = self.ptype(t)
            t.expect(',')
            pt = self.ptype(t)
            base = self.pvalue(t, pt)
            idx = []
            while t.accept(','):
                t.accept('inrange')
                it = self.ptype(t)
                idx.append((it, self.pvalue(t, it)))
            t.expect(')')
            return ('gep', bt, base, idx)
        if w in ('inttoptr', 'ptrtoint', 'bitcast', 'add', 'sub', 'icmp', 'select', 'trunc', 'zext'):
            raise Unsupported('constant expression %s' % w)
        raise IRError('value? %r' % w)

    def skip_attrs(self, t):
        fl = set()
        while True:
            k = t.kind()
            w = t.peek()
            if k == 'word' and w in ATTRWORDS:
                fl.add(w)
                t.next()
            elif k == 'word' and w in ('align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'range'):
                t.next()
                if t.peek() == '(':
                    d = 0
                    while True:
                        x = t.next()
                        if x == '(':
                            d += 1
                        if x == ')':
                            d -= 1
                            if d == 0:
                                break
                else:
                    t.next()
                if w in ('byval', 'sret'):
                    raise Unsupported(w)
            else:
                return fl

    # ---- module
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                try:
                    f = self.pfunc(lines[i:j + 1])
                    self.funcs[f.name] = f
                except Unsupported as e:
                    m = re.search(r'@([-a-zA-Z$._0-9]+)\(', ln)
                    f = Func()
                    f.name = m.group(1)
                    f.error = str(e)
                    self.funcs[f.name] = f
                i = j + 1
                continue
            if ln.startswith('@'):
                self.pglobal(ln)
            elif ln.startswith('%'):
                m = re.match(r'(%[-a-zA-Z$._0-9"]+) = type (.*)$', ln)
                if m and m.group(2).strip() != 'opaque':
                    self.types.named[m.group(1)] = self.ptype(Toks(tokenize(m.group(2))))
            elif ln.startswith('declare'):
                m = re.search(r'@([-a-zA-Z$._0-9]+)\(', ln)
                if m:
                    self.decls.add(m.group(1))
            elif ln.startswith('!'):
                m = re.match(r'(!\d+) = (?:distinct )?!DILocation\(line: (\d+)(?:, column: (\d+))?, scope: (!\d+)(?:, inlinedAt: (!\d+))?', ln)
                if m:
                    self.meta[m.group(1)] = ('loc', int(m.group(2)), m.group(4), m.group(5))
                else:
                    m = re.match(r'(!\d+) = distinct !DISubprogram\(name: "([^"]+)".*?file: (!\d+)', ln)
                    if m:
                        self.meta[m.group(1)] = ('sp', m.group(2), m.group(3))
                    else:
                        m = re.match(r'(!\d+) = (?:distinct )?!DILexicalBlock(?:File)?\(scope: (!\d+)', ln)
                        if m:
                            self.meta[m.group(1)] = ('lb', m.group(2))
                        else:
                            m = re.match(r'(!\d+) = !DIFile\(filename: "([^"]+)"', ln)
                            if m:
                                self.meta[m.group(1)] = ('file', m.group(2))
            i += 1

    def where(self, dbg):
        """(file, line, function) of a debug location."""
        if dbg is None or dbg not in self.meta:
            return ('?', 0, '?')
        m = self.meta[dbg]
        if m[0] != 'loc':
            return ('?', 0, '?')
        line, sc = m[1], m[2]
        while sc in self.meta and self.meta[sc][0] == 'lb':
            sc = self.meta[sc][1]
        if sc in self.meta and self.meta[sc][0] == 'sp':
            sp = self.meta[sc]
            f = self.meta.get(sp[2], ('file', '?'))[1]
            return (f, line, sp[1])
        return ('?', line, '?')

    def pglobal(self, ln):
        m = re.match(r'@([-a-zA-Z$._0-9]+|"[^"]*") = (.*)$', ln)
        if not m:
            return
        name = m.group(1)
        t = Toks(tokenize(m.group(2)))
        const = False
        while t.kind() == 'word' and (t.peek() in ATTRWORDS):
            w = t.next()
            if w == 'constant':
                const = True
            if w in ('constant', 'global'):
                break
        try:
            ty = self.ptype(t)
            if t.peek() is None or t.peek() == ',':
                init = None
            else:
                init = self.pvalue(t, ty)
        except (IRError, Unsupported):
            return
        self.globals[name] = (ty, init, const)

    def flat_init(self, ty, init):
        """-> (elem byte width, [ints]) for arrays of integers, else None"""
        ty = self.types.resolve(ty)
        if ty[0] == 'i':
            w = max(1, ty[1] // 8)
            if init[0] == 'zero':
                return (w, [0])
            if init[0] == 'c':
                return (w, [init[1] & ((1 << (8 * w)) - 1)])
            return None
        if ty[0] == 'arr':
            w = None
            e = self.types.resolve(ty[2])
            while e[0] == 'arr':
                e = self.types.resolve(e[2])
            if e[0] != 'i':
                return None
            ew = max(1, e[1] // 8)
            total = self.types.size(ty) // ew
            if init[0] == 'zero':
                return (ew, [0] * total)
            if init[0] == 'bytes':
                return (1, list(init[1]))
            if init[0] == 'agg':
                out = []
                for et, ev in init[1]:
                    r = self.flat_init(et, ev)
                    if r is None or r[0] != ew:
                        return None
                    out += r[1]
                return (ew, out)
            return None
        if ty[0] == 'struct':
            # clang's trailing-zero trick: <{ [n x iK], [m x iK] }>
            if init[0] == 'zero':
                rs = [self.flat_init(x, ('zero',)) for x in ty[1]]
            elif init[0] == 'agg':
                rs = [self.flat_init(et, ev) for et, ev in init[1]]
            else:
                return None
            if any(r is None for r in rs) or len({r[0] for r in rs}) != 1:
                return None
            return (rs[0][0], sum((r[1] for r in rs), []))
        return None

    def pfunc(self, lines):
        hdr = lines[0]
        f = Func()
        m = re.search(r'@([-a-zA-Z$._0-9]+)\(', hdr)
        f.name = m.group(1)
        f.internal = ' internal ' in hdr[:m.start()] + ' '
        t = Toks(tokenize(hdr))
        t.expect('define')
        self.skip_attrs(t)
        f.rettype = self.ptype(t)
        t.next()  # name
        t.expect('(')
        f.params = []
        while not t.accept(')'):
            if t.accept('...'):
                raise Unsupported('variadic function')
            ty = self.ptype(t)
            self.skip_attrs(t)
            nm = t.next()
            f.params.append((nm, ty))
            t.accept(',')
        body = lines[1:-1]
        # entry label: unnamed
        nargs = sum(1 for p, _ in f.params if re.match(r'%\d+$', p))
        cur = '%' + str(nargs)
        started = False
        f.blocks = {}
        f.order = []
        insts = []
        for ln in body:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'([-a-zA-Z$._0-9]+|"[^"]*"):', s)
            if m and not ln.startswith(' '):
                if started:
                    f.blocks[cur] = insts
                    f.order.append(cur)
                cur = '%' + m.group(1)
                insts = []
                started = True
                continue
            started = True
            insts.append(self.pinst(s))
        f.blocks[cur] = insts
        f.order.append(cur)
        f.entry = f.order[0]
        return f

    def pinst(self, s):
        toks = tokenize(s)
        # debug location
        dbg = None
        for i in range(len(toks) - 1):
            if toks[i] == ('meta', '!dbg'):
                dbg = toks[i + 1][1]
        # cut metadata
        for i in range(len(toks)):
            if toks[i][0] == 'meta' and i > 0 and toks[i - 1] == ('p', ','):
                toks = toks[:i - 1]
                break
        t = Toks(toks)
        I = Inst()
        I.dbg = dbg
        I.text = s
        I.res = None
        if t.kind() == 'local' and t.peek(1) == '=':
            I.res = t.next()
            t.next()
        while t.peek() in ('tail', 'musttail', 'notail'):
            t.next()
        op = t.next()
        I.op = op
        if op == 'ret':
            ty = self.ptype(t)
            I.ty = ty
            I.args = [] if ty[0] == 'void' else [(ty, self.pvalue(t, ty))]
        elif op == 'br':
            if t.peek() == 'label':
                t.next()
                I.cond = None
                I.succ = [t.next()]
            else:
                ty = self.ptype(t)
                I.cond = self.pvalue(t, ty)
                t.expect(',')
                t.expect('label')
                a = t.next()
                t.expect(',')
                t.expect('label')
                b = t.next()
                I.succ = [a, b]
        elif op == 'switch':
            raise Unsupported('switch')
        elif op == 'unreachable':
            I.succ = []
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            I.flags = self.skip_attrs(t)
            I.ty = self.ptype(t)
            a = self.pvalue(t, I.ty)
            t.expect(',')
            b = self.pvalue(t, I.ty)
            I.args = [(I.ty, a), (I.ty, b)]
        elif op == 'icmp':
            self.skip_attrs(t)
            I.pred = t.next()
            I.ty = self.ptype(t)
            a = self.pvalue(t, I.ty)
            t.expect(',')
            b = self.pvalue(t, I.ty)
            I.args = [(I.ty, a), (I.ty, b)]
        elif op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            self.skip_attrs(t)
            ty = self.ptype(t)
            v = self.pvalue(t, ty)
            t.expect('to')
            I.ty = self.ptype(t)
            I.args = [(ty, v)]
        elif op == 'select':
            ct = self.ptype(t)
            c = self.pvalue(t, ct)
            t.expect(',')
            ty = self.ptype(t)
            a = self.pvalue(t, ty)
            t.expect(',')
            ty2 = self.ptype(t)
            b = self.pvalue(t, ty2)
            I.ty = ty
            I.args = [(ct, c), (ty, a), (ty, b)]
        elif op == 'phi':
            I.ty = self.ptype(t)
            I.inc = []
            while True:
                t.expect('[')
                v = self.pvalue(t, I.ty)
                t.expect(',')
                l = t.next()
                t.expect(']')
                I.inc.append((l, v))
                if not t.accept(','):
                    break
        elif op == 'alloca':
            self.skip_attrs(t)
            I.ty = self.ptype(t)
            I.count = None
            if t.accept(','):
                if t.peek() != 'align':
                    ct = self.ptype(t)
                    I.count = (ct, self.pvalue(t, ct))
        elif op == 'load':
            fl = self.skip_attrs(t)
            I.ty = self.ptype(t)
            t.expect(',')
            pt = self.ptype(t)
            I.args = [(pt, self.pvalue(t, pt))]
        elif op == 'store':
            fl = self.skip_attrs(t)
            ty = self.ptype(t)
            v = self.pvalue(t, ty)
            t.expect(',')
            pt = self.ptype(t)
            p = self.pvalue(t, pt)
            I.args = [(ty, v), (pt, p)]
        elif op == 'getelementptr':
            self.skip_attrs(t)
            I.bty = self.ptype(t)
            t.expect(',')
            pt = self.ptype(t)
            base = self.pvalue(t, pt)
            idx = []
            while t.accept(','):
                it = self.ptype(t)
                idx.append((it, self.pvalue(t, it)))
            I.args = [(pt, base)]
            I.idx = idx
        elif op == 'call':
            while t.kind() == 'word' and t.peek() in ATTRWORDS:
                t.next()
            self._allow_fn = True
            I.ty = self.ptype(t)
            self._allow_fn = False
            if t.peek() == 'asm':
                t.next()
                while t.kind() == 'word':
                    t.next()
                tmpl = t.next()
                I.callee = ('asm', tmpl)
                I.args = []
                return I
            k = t.kind()
            w = t.next()
            if k == 'glob':
                I.callee = ('g', w[1:])
            elif k == 'local':
                I.callee = ('l', w)
            else:
                raise Unsupported('callee %s' % w)
            t.expect('(')
            I.args = []
            while not t.accept(')'):
                ty = self.ptype(t)
                if ty[0] == 'metadata':
                    d = 0
                    while t.peek() not in (',', ')') or d:
                        w = t.next()
                        if w == '(':
                            d += 1
                        if w == ')':
                            d -= 1
                    t.accept(',')
                    continue
                self.skip_attrs(t)
                I.args.append((ty, self.pvalue(t, ty)))
                t.accept(',')
        elif op == 'freeze':
            I.ty = self.ptype(t)
            I.args = [(I.ty, self.pvalue(t, I.ty))]
        else:
            raise Unsupported('instruction %s' % op)
        return I


class Func:
    error = None
    blocks = None


class Inst:
    pass


def unescape(w):
    s = w[w.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin-1')
            i += 1
    return bytes(out)


# ---------------------------------------------------------------- CFG

class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.parent = None
        self.latches = []


class CFG:
    def __init__(self, f):
        self.f = f
        self.succ = {}
        for b in f.order:
            last = f.blocks[b][-1]
            if last.op == 'br':
                self.succ[b] = list(dict.fromkeys(last.succ))
            elif last.op in ('ret', 'unreachable'):
                self.succ[b] = []
            else:
                raise Unsupported('terminator %s' % last.op)
        # reachable + RPO
        seen = set()
        post = []
        stack = [(f.entry, iter(self.succ[f.entry]))]
        seen.add(f.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        self.rpo = post[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        self.dominators()
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    L = self.loops.setdefault(s, Loop(s))
                    L.latches.append(b)
                    self.collect(L, b)
                elif self.idx[s] <= self.idx[b]:
                    raise Unsupported('irreducible control flow')
        for L in self.loops.values():
            best = None
            for M in self.loops.values():
                if M is not L and L.header in M.blocks and (best is None or len(M.blocks) < len(best.blocks)):
                    best = M
            L.parent = best

    def collect(self, L, b):
        st = [b]
        while st:
            x = st.pop()
            if x in L.blocks:
                continue
            L.blocks.add(x)
            st.extend(self.pred[x])

    def dominators(self):
        idom = {self.rpo[0]: self.rpo[0]}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, c = p, new
                    while a != c:
                        while self.idx[a] > self.idx[c]:
                            a = idom[a]
                        while self.idx[c] > self.idx[a]:
                            c = idom[c]
                    new = a
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            n = self.idom[b]
            if n == b:
                return False
            b = n
