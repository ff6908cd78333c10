from .base import *


class Ser(Contract):
    default_rep = 'bv'

    def __init__(self, bits, order):
        self.bits = bits
        self.n = bits // 8
        self.order = order
        self.func = 'Utils_serialize%d%s' % (bits, order)
        self.pw = {8: 8, 16: 16, 24: 32, 32: 32}[bits]
        self.requires_text = ('buf designates at least %d writable bytes' % self.n,)
        self.ensures_text = ('the %d bytes at buf are the bytes of value in %s order; nothing else changes' % (self.n, order or 'their'),)

    def spec(self, v, i):
        k = i if self.order == 'LE' else self.n - 1 - i
        return z3.Extract(8 * k + 7, 8 * k, v)

    def setup(self, E, st, case):
        self.r, _ = byte_array(E, st, 'buf', I(self.n))
        return [ptr(self.r), bv_param(E, 'value', self.pw)]

    def post(self, E, st, case):
        v = z3.BitVec('value', self.pw)
        for i in range(self.n):
            goal(E, st, 'byte %d' % i, E.bv(E.arr_get(st, self.r, I(i))) == self.spec(v, i))

    def apply(self, E, st, args):
        p, v = args
        for i in range(self.n):
            k = i if self.order == 'LE' else self.n - 1 - i
            E.store(st, ('i', 8), E.mkbv(z3.Extract(8 * k + 7, 8 * k, E.bv(v))), E.ptr_add(st, p, i, []), 'precondition of %s: buffer' % self.func)
        return None


class Des(Contract):
    default_rep = 'bv'

    def __init__(self, bits, order):
        self.bits = bits
        self.n = bits // 8
        self.order = order
        self.func = 'Utils_deserialize%d%s' % (bits, order)
        self.rw = {8: 8, 16: 16, 24: 32, 32: 32}[bits]
        self.requires_text = ('buf designates at least %d readable bytes' % self.n,)
        self.ensures_text = ('the result is the number the %d bytes spell in %s order; nothing is written' % (self.n, order or 'their'),)

    def spec(self, bs):
        bs = bs[::-1] if self.order == 'LE' else bs
        t = z3.Concat(*bs) if len(bs) > 1 else bs[0]
        return z3.ZeroExt(self.rw - t.size(), t) if t.size() < self.rw else t

    def setup(self, E, st, case):
        self.r, self.A = byte_array(E, st, 'buf', I(self.n), ro=True)
        return [ptr(self.r)]

    def post(self, E, st, case):
        goal(E, st, 'value', E.bv(st.ret) == self.spec([z3.Select(self.A, i) for i in range(self.n)]))

    def apply(self, E, st, args):
        bs = [E.bv(E.load(st, ('i', 8), E.ptr_add(st, args[0], i, []), 'precondition of %s: buffer' % self.func)) for i in range(self.n)]
        return E.mkbv(self.spec(bs))


class RoundTrip(Contract):
    """lemma over the two contracts"""
    lemma = True
    func = 'lemma: deserialization undoes serialization'
    ensures_text = ('for every width and order: the number spelled by the bytes serialization writes is the value (its low 24 bits for 24 bits)',)

    def lemmas(self):
        out = []
        for bits in (8, 16, 24, 32):
            for o in (('',) if bits == 8 else ('BE', 'LE')):
                s, d = Ser(bits, o), Des(bits, o)
                v = z3.BitVec('value', s.pw)
                t = z3.Extract(bits - 1, 0, v)
                out.append(('%d %s' % (bits, o), [], d.spec([s.spec(v, i) for i in range(s.n)]) == (t if s.pw == bits else z3.ZeroExt(s.pw - bits, t))))
        return out


class BlobRoundTrip(Contract):
    lemma = True
    func = 'lemma: blob deserialization undoes serialization'
    ensures_text = ('for every size and order: composing the two byte maps is the identity on 0..size-1, and both stay inside 0..size-1',)

    def lemmas(self):
        n, j = z3.Ints('n j')
        A, B, C = [z3.Array(x, z3.IntSort(), z3.IntSort()) for x in 'ABC']
        out = []
        for rev in (False, True):
            f = (lambda x: n - 1 - x) if rev else (lambda x: x)
            out.append(('reversed' if rev else 'copied', [0 <= j, j < n, z3.Select(B, f(j)) == z3.Select(A, f(f(j))), z3.Select(C, j) == z3.Select(B, f(j))],
                        And(0 <= f(j), f(j) < n, z3.Select(C, j) == z3.Select(A, j))))
        return out


class Blob(Contract):
    default_rep = 'int'

    def __init__(self, func, rev):
        self.func = func
        self.rev = rev
        self.ser = '_serialize' in func
        self.requires_text = ('source and destination are separate objects of at least size bytes',)
        self.ensures_text = ('destination byte i is source byte %s for every i < size; nothing else changes' % ('size-1-i' if rev else 'i'),)

    def setup(self, E, st, case):
        n = int_param(E, 'size', 32)
        self.size = n._u
        E.naturals.append(self.size)
        self.dst, self.D0 = byte_array(E, st, 'dst', self.size)
        self.src, self.S0 = byte_array(E, st, 'src', self.size, ro=True)
        return [ptr(self.dst), ptr(self.src), n] if self.ser else [ptr(self.src), ptr(self.dst), n]

    def F(self, j):
        return z3.Select(self.S0, self.size - 1 - j if self.rev else j)

    def invariants(self, E, X):
        fill_candidates(E, X, self.dst, self.F, self.size, 'copied')

    def post(self, E, st, case):
        A = E.arr(st, self.dst)
        goal(E, st, 'every destination byte', all_idx(I(0), self.size, lambda j: z3.Select(A, j) == self.F(j)))


class Swap(Contract):
    func = 'Utils_swapElements'
    default_rep = 'int'
    cases = ['separate ranges', 'same range']
    requires_text = ('first and second designate size writable bytes each; the ranges are separate or identical',)
    ensures_text = ('separate: each range holds the former bytes of the other; identical: unchanged; nothing else changes',)

    def setup(self, E, st, case):
        n = int_param(E, 'size', 32)
        self.n = n._u
        E.naturals.append(self.n)
        self.a, self.A0 = byte_array(E, st, 'first', self.n)
        if case == 'same range':
            self.b = None
            return [ptr(self.a), ptr(self.a), n]
        self.b, self.B0 = byte_array(E, st, 'second', self.n)
        return [ptr(self.a), ptr(self.b), n]

    def invariants(self, E, X):
        if self.b is None:
            fill_candidates(E, X, self.a, lambda j: z3.Select(self.A0, j), self.n, 'restored')
        else:
            fill_candidates(E, X, self.a, lambda j: z3.Select(self.B0, j), self.n, 'swapped')
            fill_candidates(E, X, self.b, lambda j: z3.Select(self.A0, j), self.n, 'swapped')

    def post(self, E, st, case):
        A = E.arr(st, self.a)
        if self.b is None:
            goal(E, st, 'range unchanged', all_idx(I(0), self.n, lambda j: z3.Select(A, j) == z3.Select(self.A0, j)))
        else:
            B = E.arr(st, self.b)
            goal(E, st, 'first range holds the second', all_idx(I(0), self.n, lambda j: z3.Select(A, j) == z3.Select(self.B0, j)))
            goal(E, st, 'second range holds the first', all_idx(I(0), self.n, lambda j: z3.Select(B, j) == z3.Select(self.A0, j)))

    def apply(self, E, st, args):
        from ..libc import one, count, rng
        a, b = one(E, st, args[0], 'swap'), one(E, st, args[1], 'swap')
        if a.reg.kind != 'rows' or b.reg.kind != 'rows' or a.rem or b.rem or a.reg.stride is not b.reg.stride:
            raise Unsupported('swap of something else than whole elements')
        n = count(E, st, a, args[2])
        if cval(n) != 1:
            raise Unsupported('swap of several elements')
        rng(E, st, 'precondition of Utils_swapElements: first range', a, n)
        rng(E, st, 'precondition of Utils_swapElements: second range', b, n)
        for t in (a, b):
            if t.reg.ro:
                E.oblige(st, 'frame: %s is not written' % t.reg.name, FALSE)
        x = z3.Select(E.arr(st, a.reg), a.idx)
        y = z3.Select(E.arr(st, b.reg), b.idx)
        st.mem[a.reg.name] = ArrC(z3.Store(E.arr(st, a.reg), a.idx, y))
        st.mem[b.reg.name] = ArrC(z3.Store(E.arr(st, b.reg), b.idx, x))
        return None


class Pow10(Contract):
    func = 'Utils_quickUint32Pow10'
    default_rep = 'bv'
    requires_text = ('result designates one writable uint32_t',)
    ensures_text = ('exponent <= 9: returns true and *result = 10^exponent; else returns false and *result is unchanged',)

    def setup(self, E, st, case):
        e = bv_param(E, 'exponent', 8)
        self.old = bv_param(E, 'old', 32)
        self.r = cells(E, st, 'result', {(0, 4): self.old}, 4)
        return [e, ptr(self.r)]

    def post(self, E, st, case):
        e = z3.BitVec('exponent', 8)
        v = E.bv(st.mem[self.r.name].cells[(0, 4)])
        goal(E, st, 'status', E.boolean(st.ret) == z3.ULE(e, 9))
        for k in range(10):
            goal(E, st, '10^%d' % k, Implies(e == k, v == 10 ** k))
        goal(E, st, 'result untouched for larger exponents', Implies(z3.UGT(e, 9), v == self.old._bv))

    def apply(self, E, st, args):
        e, p = args
        if e.con is not None:
            if e.con <= 9:
                E.store(st, ('i', 32), con(32, 10 ** e.con), p)
            return con(1, int(e.con <= 9))
        x = E.u(e, st)
        old = E.load(st, ('i', 32), p)
        t = E.u(old, st)
        for k in range(10):
            t = If(x == k, I(10 ** k), t)
        E.store(st, ('i', 32), IntV(32, u=t), p)
        return E.mkbool(1, x <= 9)


class CharClass(Contract):
    default_rep = 'bv'

    def __init__(self, func, up, low):
        self.func = func
        self.up, self.low = up, low
        self.ensures_text = ('true exactly for %s' % ' and '.join(x for x, y in (("'A'..'Z'", up), ("'a'..'z'", low)) if y),)

    def spec(self, c):
        parts = []
        if self.up:
            parts.append(And(z3.UGE(c, 65), z3.ULE(c, 90)))
        if self.low:
            parts.append(And(z3.UGE(c, 97), z3.ULE(c, 122)))
        return Or(*parts)

    def setup(self, E, st, case):
        return [bv_param(E, 'input', 8)]

    def post(self, E, st, case):
        goal(E, st, 'classification', E.boolean(st.ret) == self.spec(z3.BitVec('input', 8)))

    def apply(self, E, st, args):
        v = args[0]
        if v.real_int() and not v.real_bv():
            x = E.u(v, st)
            return E.mkbool(1, Or(*[And(x >= lo, x <= lo + 25) for lo, on in ((65, self.up), (97, self.low)) if on]))
        return E.mkbool(1, self.spec(E.bv(v)))


POW10 = Pow10()


class StringToUint32(Contract):
    func = 'Utils_stringToUint32'
    default_rep = 'int'
    cases = [str(i) for i in range(1, 11)] + ['11..255']
    callees = (POW10,)
    requires_text = ('str designates str_length readable characters, 1 <= str_length <= 255', 'integer designates one writable uint32_t')
    ensures_text = ('returns true exactly when str_length <= 10, all characters are digits and the number is at most 4294967295; then *integer is the number',)

    def unroll(self, E, case):
        return 16 if case != '11..255' else None

    def setup(self, E, st, case):
        if case != '11..255':
            self.len = con(8, int(case))
            n = I(int(case))
        else:
            self.len = int_param(E, 'str_length', 8)
            n = self.len._u
            E.fact(And(n >= 11, n <= 255))
        E.naturals.append(n)
        self.s, self.A = byte_array(E, st, 'str', n, rep='int', ro=True)
        self.r = cells(E, st, 'integer', {(0, 4): int_param(E, 'old', 32)}, 4)
        return [ptr(self.s), self.len, ptr(self.r)]

    def invariants(self, E, X):
        n = E.u(self.len)
        for nm, e in X.int_exprs:
            X.add('digits before %s' % nm, all_pat(I(0), e, self.A, lambda j: And(z3.Select(self.A, j) >= 48, z3.Select(self.A, j) <= 57)))

    def post(self, E, st, case):
        r = E.boolean(st.ret)
        if case == '11..255':
            goal(E, st, 'longer texts are rejected', Not(r))
            return
        n = int(case)
        cs = [z3.Select(self.A, i) for i in range(n)]
        digs = And(*[And(c >= 48, c <= 57) for c in cs])
        val = z3.Sum([(c - 48) * 10 ** (n - 1 - i) for i, c in enumerate(cs)])
        goal(E, st, 'accepted exactly when a 32-bit decimal number', r == And(digs, val <= 4294967295))
        out = E.u(st.mem[self.r.name].cells[(0, 4)])
        goal(E, st, 'value', Implies(r, out == val))


SERS = [Ser(8, '')] + [Ser(b, o) for b in (16, 24, 32) for o in ('BE', 'LE')]
DESS = [Des(8, '')] + [Des(b, o) for b in (16, 24, 32) for o in ('BE', 'LE')]
SER32LE = [x for x in SERS if x.func == 'Utils_serialize32LE'][0]
DES32LE = [x for x in DESS if x.func == 'Utils_deserialize32LE'][0]
BLOBS = [Blob('Utils_serializeBlobBE', False), Blob('Utils_deserializeBlobBE', False),
         Blob('Utils_serializeBlobLE', True), Blob('Utils_deserializeBlobLE', True)]
SWAP = Swap()
ISUPPER = CharClass('Utils_isUpperChar', True, False)
ISLOWER = CharClass('Utils_isLowerChar', False, True)
ISALPHA = CharClass('Utils_isAlpha', True, True)
S2U = StringToUint32()
SERRT = RoundTrip()
BLOBRT = BlobRoundTrip()
