"""ChaCha20 (RFC 8439). KSI(64 q + j), 0 <= j < 64, stands for byte j of the block for counter inc + q mod 2^32;
the store hook replaces a stored byte by KSI(64 q + j) only after the stored term has been shown equal
to byte j of the RFC block function for that counter."""
from .base import *
from .bits import ROTL
from .utils import SER32LE, DES32LE

SIGMA = (0x61707865, 0x3320646e, 0x79622d32, 0x6b206574)


class Namer:
    """Hash-consed names for 32-bit terms over key and nonce: name(t) is a constant that stands for t.
    Equal names mean equal terms, so comparing names compares the terms."""

    def __init__(self, secret, inc):
        self.secret = secret
        self.inc = inc
        self.names = {}
        self.defs = {}
        self.ctrs = {}
        self.keep = []

    def leaves(self, t):
        """-> (mentions key/nonce/named term, maximal subterms over inc only)"""
        info = {}

        def cls(x):
            k = x.get_id()
            if k not in info:
                if z3.is_const(x):
                    info[k] = (any(x.eq(y) for y in self.secret) or k in self.defs, x.eq(self.inc))
                else:
                    cs = [cls(c) for c in x.children()]
                    info[k] = (any(c[0] for c in cs), any(c[1] for c in cs))
            return info[k]
        sec, _ = cls(t)
        out = []

        done = set()

        def walk(x):
            if x.get_id() in done:
                return
            done.add(x.get_id())
            s, c = cls(x)
            if c and not s and z3.is_bv(x) and x.size() == 32:
                out.append(x)
                return
            if x.get_id() in self.ctrs:
                out.extend(self.ctrs[x.get_id()])
                return
            for y in x.children():
                walk(y)
        walk(t)
        return sec, out

    def __call__(self, t):
        if t.size() != 32 or z3.is_const(t):
            return t
        k = t.get_id()
        if k not in self.names:
            sec, ctrs = self.leaves(t)
            self.keep.append(t)
            if not sec:
                self.names[k] = t
            else:
                n = z3.BitVec('w!%d' % len(self.names), 32)
                self.keep.append(n)
                self.names[k] = n
                self.defs[n.get_id()] = t
                u = []
                for c in ctrs:
                    if not any(c.eq(y) for y in u):
                        u.append(c)
                self.ctrs[n.get_id()] = u
        return self.names[k]


def rfc_block(name, kw, ctr, nw):
    """16 words of the RFC 8439 block function"""
    def rotl(x, n):
        return name(simp(z3.RotateLeft(x, n)))

    def add(x, y):
        return name(simp(x + y))

    ini = [z3.BitVecVal(c, 32) for c in SIGMA] + list(kw) + [ctr] + list(nw)
    x = list(ini)

    def xor(x, y):
        return name(simp(x ^ y))

    def qr(a, b, c, d):
        x[a] = add(x[a], x[b])
        x[d] = rotl(xor(x[d], x[a]), 16)
        x[c] = add(x[c], x[d])
        x[b] = rotl(xor(x[b], x[c]), 12)
        x[a] = add(x[a], x[b])
        x[d] = rotl(xor(x[d], x[a]), 8)
        x[c] = add(x[c], x[d])
        x[b] = rotl(xor(x[b], x[c]), 7)
    for _ in range(10):
        qr(0, 4, 8, 12)
        qr(1, 5, 9, 13)
        qr(2, 6, 10, 14)
        qr(3, 7, 11, 15)
        qr(0, 5, 10, 15)
        qr(1, 6, 11, 12)
        qr(2, 7, 8, 13)
        qr(3, 4, 9, 14)
    return [add(x[i], ini[i]) for i in range(16)]


KSI = z3.Function('KSI', z3.IntSort(), z3.BitVecSort(8))


class Crypt(Contract):
    func = 'Chacha20_crypt'
    default_rep = 'int'
    const_rep = 'bv'
    mix = 'bv'
    cut_counted = True
    chunks = (64,)
    cases = ['separate buffers', 'in place']
    callees = (ROTL, SER32LE, DES32LE)
    requires_text = ('plaintext designates plaintext_len readable bytes, result plaintext_len writable bytes, key 32 and nonce 12 readable bytes',
                     'result and plaintext are the same or separate; key and nonce are separate from result')
    ensures_text = ('result[t] = plaintext[t] xor byte (t mod 64) of the RFC 8439 block for counter inc + t/64 (mod 2^32), for all t < plaintext_len',
                    'nothing but result[0..plaintext_len) is written')

    def setup(self, E, st, case):
        n = int_param(E, 'plaintext_len', 32)
        self.n = n._u
        E.naturals.append(self.n)
        self.K, KA = byte_array(E, st, 'key', I(32), ro=True)
        self.N, NA = byte_array(E, st, 'nonce', I(12), ro=True)
        self.inc = bv_param(E, 'inc', 32)
        self.R, self.R0 = byte_array(E, st, 'result', self.n)
        if case == 'in place':
            self.P, self.P0 = self.R, self.R0
        else:
            self.P, self.P0 = byte_array(E, st, 'plaintext', self.n, ro=True)

        incs = self.inc._bv
        name = self.name = Namer([KA, NA], incs)
        E.hooks['bv'] = name

        def word(A, i):
            return name(simp(z3.Concat(*[z3.Select(A, I(i + 3 - b)) for b in range(4)])))
        kw = [word(KA, 4 * i) for i in range(8)]
        nw = [word(NA, 4 * i) for i in range(3)]
        blocks = {}
        mem = []

        def block(ctr):
            key = ctr.get_id()
            if key not in blocks:
                mem.append(ctr)
                ws = rfc_block(name, kw, ctr, nw)
                blocks[key] = [simp(z3.Extract(8 * b + 7, 8 * b, w)) for w in ws for b in range(4)]
            return blocks[key]

        def quot(ctr):
            """q with ctr = inc + q mod 2^32, or None"""
            ctr = simp(ctr)
            if ctr.eq(incs):
                return I(0)
            d = simp(ctr - incs)
            if z3.is_bv_value(d):
                return I(d.as_long())
            if z3.is_app_of(d, z3.Z3_OP_INT2BV):
                return d.arg(0)
            if z3.is_app_of(d, z3.Z3_OP_BADD):
                t = I(0)
                for a in d.children():
                    if z3.is_app_of(a, z3.Z3_OP_INT2BV):
                        t = t + a.arg(0)
                    elif z3.is_bv_value(a):
                        t = t + a.as_signed_long()
                    else:
                        return None
                return simp(t)
            return None

        ctrs = []

        def store(st, r, idx, v):
            if r.w != 1 or r is self.R or v.con is not None or not v.real_bv():
                return v
            t = v._bv
            j0 = cval(idx)
            _, mine = name.leaves(t)
            if not mine:
                return v
            cand = list(ctrs)
            for rnd in range(2):
                for c in cand:
                    bl = block(c)
                    for j in ([j0] if j0 is not None and 0 <= j0 < 64 else []) + list(range(64)):
                        if bl[j].eq(t):
                            q = quot(c)
                            if q is None:
                                return v
                            if (r.name, c.get_id(), j) not in E.g:
                                E.g[r.name, c.get_id(), j] = True
                            E.g.setdefault('matched', set()).add(j)
                            return IntV(8, bv=KSI(simp(64 * q + j)))
                cand = [c for c in mine if not any(c.eq(y) for y in ctrs)]
                ctrs.extend(cand)
            return v

        def stored(st, r, idx, v):
            c = st.mem[r.name]
            if cval(r.n) != 64 or len(c.ov) != 64:
                return
            base = None
            for j in range(64):
                x = c.ov[j]._bv
                if x is None or not z3.is_app(x) or x.decl().name() != 'KSI':
                    return
                o = simp(x.arg(0) - j)
                if base is not None and not base.eq(o):
                    return
                base = o
            N = E.fresh('block', E.arr_sort(r))
            j = z3.FreshInt('q')
            E.fact(z3.ForAll([j], Implies(And(0 <= j, j < 64), z3.Select(N, j) == KSI(base + j)), patterns=[z3.Select(N, j)]))
            st.mem[r.name] = ArrC(N)
        E.hooks['store'] = store
        E.hooks['stored'] = stored
        return [ptr(self.P), n, ptr(self.K), ptr(self.N), self.inc, ptr(self.R)]

    def F(self, t):
        return z3.Select(self.P0, t) ^ KSI(t)

    def invariants(self, E, X):
        r = self.R
        if r.name not in X.arrs:
            return
        A0, A = X.arrs[r.name]
        seen = []
        es = [(nm, e) for nm, e in X.int_exprs] + [('64*' + nm, 64 * e) for nm, e in X.int_exprs] + [('write index', e) for e in X.stores.get(r.name, [])]
        nb = 64 * (self.n / 64)
        X.add('result[0..full blocks) encrypted', all_pat(I(0), nb, A, lambda j: z3.Select(A, j) == self.F(j)))
        for nm, u in es:
            for tx, u in ((nm, u), ('n-' + nm, self.n - u)):
                u = simp(u)
                if cval(u) is not None or any(u.eq(y) for y in seen):
                    continue
                seen.append(u)
                X.add('result[0..%s) encrypted' % tx, all_pat(I(0), u, A, lambda j: z3.Select(A, j) == self.F(j)))
                X.add('result[%s..n) unchanged' % tx, all_pat(u, self.n, A, lambda j: z3.Select(A, j) == z3.Select(self.R0, j)))

    def post(self, E, st, case):
        A = E.arr(st, self.R)
        goal(E, st, 'every output byte is the input byte xored with its RFC 8439 key stream byte',
             all_idx(I(0), self.n, lambda j: z3.Select(A, j) == self.F(j)))


class Inverse(Contract):
    lemma = True
    func = 'lemma: applying Chacha20_crypt twice restores the message'
    ensures_text = ('(m xor s) xor s = m for every byte, and the key stream does not depend on the message',)

    def lemmas(self):
        m = z3.Array('m', z3.IntSort(), z3.BitVecSort(8))
        c = z3.Array('c', z3.IntSort(), z3.BitVecSort(8))
        d = z3.Array('d', z3.IntSort(), z3.BitVecSort(8))
        n, t = z3.Ints('n t')
        s = lambda j: KSI(j)
        hyp = [n >= 0, all_pat(I(0), n, c, lambda j: z3.Select(c, j) == z3.Select(m, j) ^ s(j)),
               all_pat(I(0), n, d, lambda j: z3.Select(d, j) == z3.Select(c, j) ^ s(j))]
        return [('second application', hyp, all_idx(I(0), n, lambda j: z3.Select(d, j) == z3.Select(m, j)))]


CRYPT = Crypt()
INVERSE = Inverse()
