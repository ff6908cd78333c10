"""CRC: table generators, generic functions, 44 variants, chunking lemma.

FOLD_W(poly, refin, init, A, off, n): the register after bit-serially dividing bytes
A[off..off+n) by x^W + poly, starting from init; defined by
  FOLD(.., 0) = init,  FOLD(.., n+1) = step(FOLD(.., n), A[off+n])."""
from .base import *
from .bits import REFLECT, reflect_spec


def rev(x):
    return reflect_spec(x, x.size(), x.size())


def bits8(poly, r):
    """eight division steps, most significant bit first"""
    w = r.size()
    for _ in range(8):
        sh = simp(r << 1)
        r = If(simp(z3.Extract(w - 1, w - 1, r) == 1), simp(sh ^ poly), sh)
    return r


def bits8c(poly, r, w):
    m = (1 << w) - 1
    for _ in range(8):
        r = ((r << 1) ^ poly) & m if r >> (w - 1) & 1 else (r << 1) & m
    return r


def top(b, w):
    return b if w == 8 else z3.Concat(b, z3.BitVecVal(0, w - 8))


def step(poly, refin, c, b):
    b2 = If(refin, rev(b), b)
    return bits8(poly, c ^ top(b2, c.size()))


def B8(poly, x):
    """opaque symbol for bits8; its only assumed law is the lemma B8Lemma below, which is proved for bits8"""
    w = x.size()
    f = z3.Function('B8_%d' % w, x.sort(), x.sort(), x.sort())
    return f(poly, x)


def law(poly, x, B):
    w = x.size()
    if w == 8:
        return z3.BoolVal(True)
    return B(poly, x) == (x << 8) ^ B(poly, z3.Concat(z3.Extract(w - 1, w - 8, x), z3.BitVecVal(0, w - 8)))


FOLDS = {}


def FOLD(w):
    if w not in FOLDS:
        S = z3.BitVecSort(w)
        FOLDS[w] = z3.Function('FOLD%d' % w, S, z3.BoolSort(), S, z3.ArraySort(z3.IntSort(), z3.BitVecSort(8)), z3.IntSort(), z3.IntSort(), S)
    return FOLDS[w]


def final(c, refout, xor, do_xor):
    c1 = If(refout, rev(c), c)
    return If(do_xor, c1 ^ xor, c1)


class TableCalc(Contract):
    default_rep = 'int'
    auto_unroll = 300

    def __init__(self, w):
        self.w = w
        self.func = 'Crc%dBase_tableCalculator' % w
        self.requires_text = ('crc_table designates 256 writable entries',)
        self.ensures_text = ('entry i is the remainder of i (in the most significant byte) after eight division steps by the polynomial, for all 256 i and every polynomial',)

    def setup(self, E, st, case):
        self.p = bv_param(E, 'polynomial', self.w)
        self.r, _ = byte_array(E, st, 'crc_table', I(256), w=self.w // 8)
        return [self.p, ptr(self.r)]

    def invariants(self, E, X):
        w = self.w
        fill_candidates(E, X, self.r, lambda j: bits8(self.p._bv, top(z3.Int2BV(j, 8), w)), I(256), 'division remainders', False)

    def post(self, E, st, case):
        A = None
        for i in range(256):
            c = st.mem[self.r.name]
            if i in c.ov:
                t = E.bv(c.ov[i])
            else:
                t = z3.Select(E.arr(st, self.r), I(i))
            goal(E, st, 'table entry %d' % i, t == bits8(self.p._bv, z3.BitVecVal(i << (self.w - 8), self.w)))


class Base(Contract):
    default_rep = 'int'
    const_rep = 'bv'
    callees = (REFLECT,)

    def __init__(self, w):
        self.w = w
        self.func = 'Crc%dBase' % w
        self.requires_text = ('crc_table designates the 256 entries of the table of some polynomial P (as TableCalc produces)',
                              'crc_data_ptr designates crc_length readable bytes')
        self.ensures_text = ('result = final(FOLD(P, reflected_input, crc_initial_value, data, crc_length)): reflected when reflected_output, then xored with final_xor_value when final_xor',
                             'nothing is written')

    def setup(self, E, st, case):
        w = self.w
        self.poly = z3.BitVec('P', w)
        n = int_param(E, 'crc_length', 32)
        self.n = n._u
        E.naturals.append(self.n)
        self.T, TA = byte_array(E, st, 'crc_table', I(256), ro=True, w=w // 8)
        self.D, self.DA = byte_array(E, st, 'crc_data', self.n, ro=True)
        self.init, self.x = bv_param(E, 'crc_initial_value', w), bv_param(E, 'final_xor_value', w)
        self.ro, self.ri, self.fx = bool_param(E, 'reflected_output'), bool_param(E, 'reflected_input'), bool_param(E, 'final_xor')
        F = FOLD(w)
        self.F = lambda k: F(self.poly, self.ri.b, self.init._bv, self.DA, I(0), simp(k) if not isinstance(k, int) else I(k))
        E.fact(self.F(0) == self.init._bv)

        def load(st, r, idx, iv, v):
            if r is self.T and iv is not None:
                # instance of the precondition on the table
                b = z3.Extract(7, 0, E.bv(iv)) if iv.w > 8 else E.bv(iv)
                E.assume(st, Implies(And(idx >= 0, idx < 256), E.bv(v) == B8(self.poly, top(b, w))))
            elif r is self.D:
                # unfolding of the definition of FOLD
                x = self.F(idx) ^ top(If(self.ri.b, rev(E.bv(v)), E.bv(v)), w)
                E.assume(st, Implies(And(idx >= 0), self.F(idx + 1) == B8(self.poly, x)))
                E.assume(st, law(self.poly, x, B8))
        E.hooks['load'] = load
        # table lookups with a byte index are in bounds
        return [ptr(self.T), ptr(self.D), n, self.init, self.x, self.ro, self.ri, self.fx]

    def invariants(self, E, X):
        w = self.w
        for v in X.vars.values():
            if v.rep == 'bv' and v.mode == 'fresh' and v.init.w >= w:
                for nm, e in X.int_exprs:
                    for ee, tx in ((e, nm), (self.n - e, 'n - ' + nm)):
                        t = self.F(ee)
                        if v.init.w > w:
                            X.add('%s is FOLD(%s) (low bits)' % (v.name, tx), z3.Extract(w - 1, 0, v.val._bv) == t)
                            X.add('%s is FOLD(%s)' % (v.name, tx), v.val._bv == z3.ZeroExt(v.init.w - w, t))
                        else:
                            X.add('%s is FOLD(%s)' % (v.name, tx), v.val._bv == t)

    def post(self, E, st, case):
        c = self.F(self.n)
        goal(E, st, 'result is the bitwise checksum', E.bv(st.ret) == final(c, self.ro.b, self.x._bv, self.fx.b))

    def apply(self, E, st, args):
        from ..libc import one
        tab, data, n, init, x, ro, ri, fx = args
        w = self.w
        t = one(E, st, tab, 'precondition of %s: table' % self.func)
        if t.reg.kind != 'arr' or t.reg.w != w // 8:
            raise Unsupported('table of another width')
        c = st.mem[t.reg.name]
        if not isinstance(c.base, ConstTab) or c.ov or cval(t.idx) != 0 or len(c.base.vals) != 256:
            raise Unsupported('table of %s is not a constant of 256 entries' % self.func)
        vals = c.base.vals
        poly = vals[1]
        E.g.setdefault('polys', []).append(poly)
        badi = [i for i in range(256) if vals[i] != bits8c(poly, i << (w - 8), w)]
        for i in range(256):
            if i in badi:
                E.oblige(st, 'table entry %d (0x%X) is the remainder for the polynomial' % (i, vals[i]), FALSE, assume=False)
            else:
                E.oblige(st, 'table entry %d is the remainder for the polynomial' % i, TRUE)
        N = E.u(n, st)
        alts = [(c2, a) for c2, a in data.alts]
        d = one(E, st, data, 'precondition of %s: data' % self.func)
        if d.reg.kind != 'arr' or d.reg.w != 1:
            raise Unsupported('data of another type')
        E.oblige(st, 'precondition of %s: data readable' % self.func, Or(N == 0, And(d.idx >= 0, d.idx + N <= d.reg.n)))
        f = FOLD(w)(z3.BitVecVal(poly, w), E.boolean(ri), E.bv(init), E.arr(st, d.reg), d.idx, N)
        return E.mkbv(final(f, E.boolean(ro), E.bv(x), E.boolean(fx)))


BASE = {w: Base(w) for w in (8, 16, 32)}
CALC = {w: TableCalc(w) for w in (8, 16, 32)}


class Variant(Contract):
    default_rep = 'int'
    const_rep = 'bv'
    cases = ['finalised', 'intermediate']

    def __init__(self, func, w, poly, init=0, refl=False, xor=0):
        self.func = func
        self.w, self.poly, self.init, self.refl, self.xor = w, poly, init, refl, xor
        self.has_final = refl or xor
        self.callees = (BASE[w], REFLECT)
        self.cases = ['finalised', 'intermediate'] if self.has_final else ['finalised']
        self.requires_text = ('crc_data_ptr designates crc_length readable bytes', 'last_crc_ptr is null or designates one readable value')
        self.ensures_text = ('I := last_crc_ptr is null ? 0x%X : *last_crc_ptr; result is %s' % (
            init, 'FOLD(0x%X, %s, I, data, crc_length)%s' % (poly, refl, (' finalised (reflect %s, xor 0x%X) when final_crc and raw otherwise' % (refl, xor)) if self.has_final else '')),)

    def setup(self, E, st, case):
        w = self.w
        n = int_param(E, 'crc_length', 32)
        self.n = n._u
        E.naturals.append(self.n)
        self.D, self.DA = byte_array(E, st, 'crc_data', self.n, ro=True)
        self.last = bv_param(E, 'last', w)
        self.L, LA = byte_array(E, st, 'last_crc', I(1), ro=True, w=w // 8)
        self.isnull = z3.Bool('last_is_null')
        p = PtrV([(self.isnull, None), (Not(self.isnull), Tgt(self.L, I(0)))])
        self.start = If(self.isnull, z3.BitVecVal(self.init, w), z3.Select(LA, I(0)))
        # only used when the generic function is inlined (its own contract failed)
        F = FOLD(w)
        P, R = z3.BitVecVal(self.poly, w), z3.BoolVal(bool(self.refl))
        self.F = lambda k: F(P, R, self.start, self.DA, I(0), simp(k) if not isinstance(k, int) else I(k))
        E.fact(self.F(0) == self.start)

        def load(st, r, idx, iv, v):
            if r is self.D:
                E.assume(st, Implies(idx >= 0, self.F(idx + 1) == step(P, R, self.F(idx), E.bv(v))))
        E.hooks['load'] = load
        args = [ptr(self.D), n]
        if self.has_final:
            args.append(con(1, int(case == 'finalised')))
        return args + [p]

    invariants = Base.invariants

    def post(self, E, st, case):
        w = self.w
        c = self.F(self.n)
        if case == 'finalised':
            spec = final(c, z3.BoolVal(bool(self.refl)), z3.BitVecVal(self.xor, w), z3.BoolVal(True))
        else:
            spec = c
        goal(E, st, 'checksum starting from the published initial value', Implies(self.isnull, E.bv(st.ret) == spec))
        goal(E, st, 'checksum continuing from *last_crc_ptr', Implies(Not(self.isnull), E.bv(st.ret) == spec))


V8 = [Variant('Crc8' + n, 8, *a) for n, a in [
    ('', (0x07,)), ('_8h2f', (0x2F, 0xFF, False, 0xFF)), ('_cdma2000', (0x9B, 0xFF)), ('_darc', (0x39, 0, True)),
    ('_dvbS2', (0xD5,)), ('_ebu', (0x1D, 0xFF, True)), ('_icode', (0x1D, 0xFD)), ('_itu', (0x07, 0, False, 0x55)),
    ('_maxim', (0x31, 0, True)), ('_rohc', (0x07, 0xFF, True)), ('_saeJ1850', (0x1D, 0xFF, False, 0xFF)),
    ('_saeJ1850Zero', (0x1D,)), ('_wcdma', (0x9B, 0, True))]]
V16 = [Variant('Crc16_' + n, 16, *a) for n, a in [
    ('a', (0x1021, 0xC6C6, True)), ('arc', (0x8005, 0, True)), ('augCcit', (0x1021, 0x1D0F)), ('buypass', (0x8005,)),
    ('ccitFalse', (0x1021, 0xFFFF)), ('ccitZero', (0x1021,)), ('cdma2000', (0xC867, 0xFFFF)), ('dds110', (0x8005, 0x800D)),
    ('dectR', (0x0589, 0, False, 1)), ('dectX', (0x0589,)), ('dnp', (0x3D65, 0, True, 0xFFFF)), ('en13757', (0x3D65, 0, False, 0xFFFF)),
    ('genibus', (0x1021, 0xFFFF, False, 0xFFFF)), ('kermit', (0x1021, 0, True)), ('maxim', (0x8005, 0, True, 0xFFFF)),
    ('mcrf4xx', (0x1021, 0xFFFF, True)), ('modbus', (0x8005, 0xFFFF, True)), ('riello', (0x1021, 0xB2AA, True)),
    ('t10Dif', (0x8BB7,)), ('teledisk', (0xA097,)), ('tms37157', (0x1021, 0x89EC, True)), ('usb', (0x8005, 0xFFFF, True, 0xFFFF)),
    ('x25', (0x1021, 0xFFFF, True, 0xFFFF))]]
F32 = 0xFFFFFFFF
V32 = [Variant('Crc32' + n, 32, *a) for n, a in [
    ('', (0x04C11DB7, F32, True, F32)), ('_bzip2', (0x04C11DB7, F32, False, F32)), ('_c', (0x1EDC6F41, F32, True, F32)),
    ('_d', (0xA833982B, F32, True, F32)), ('_jamcrc', (0x04C11DB7, F32, True)), ('_mpeg2', (0x04C11DB7, F32)),
    ('_posix', (0x04C11DB7, 0, False, F32)), ('_q', (0x814141AB,)), ('_xfer', (0x000000AF,))]]


class B8Lemma(Contract):
    lemma = True

    def __init__(self, w):
        self.w = w
        self.func = 'lemma: eight division steps of width %d split into table part and shift' % w
        self.ensures_text = ('bits8(P, x) = (x << 8) xor bits8(P, x with only its top byte) for all P, x',)

    def lemmas(self):
        P, x = z3.BitVec('P', self.w), z3.BitVec('x', self.w)
        return [('split', [], law(P, x, bits8))]


class ChunkLemma(Contract):
    """FOLD(.., a ++ b) = FOLD(.. starting from FOLD(.., a), b), by induction on b (no code involved)."""
    lemma = True

    def __init__(self, w):
        self.w = w
        self.func = 'lemma: FOLD%d over consecutive chunks' % w
        self.cases = ['']
        self.ensures_text = ('FOLD(P,R,I,A,0,a+b) = FOLD(P,R,FOLD(P,R,I,A,0,a),A,a,b) for all a, b >= 0',)

    def lemmas(self):
        """-> [(name, facts, goal)]"""
        w = self.w
        F = FOLD(w)
        P, R, i0 = z3.BitVec('P', w), z3.Bool('R'), z3.BitVec('I', w)
        A = z3.Array('A', z3.IntSort(), z3.BitVecSort(8))
        a, b = z3.Ints('a b')
        mid = F(P, R, i0, A, I(0), a)

        def unfold(init, off, n):
            return F(P, R, init, A, off, n + 1) == step(P, R, F(P, R, init, A, off, n), z3.Select(A, off + n))
        out = [('base case', [a >= 0, F(P, R, mid, A, a, I(0)) == mid], F(P, R, i0, A, I(0), a + 0) == F(P, R, mid, A, a, I(0)))]
        out.append(('induction step', [a >= 0, b >= 0, F(P, R, i0, A, I(0), a + b) == F(P, R, mid, A, a, b),
                                       F(P, R, i0, A, I(0), a + b + 1) == step(P, R, F(P, R, i0, A, I(0), a + b), z3.Select(A, a + b)), unfold(mid, a, b)],
                    F(P, R, i0, A, I(0), a + (b + 1)) == F(P, R, mid, A, a, b + 1)))
        # a finalising call that continues from the raw register of the first part gives the checksum of the whole
        ro, x, fx = z3.Bool('refout'), z3.BitVec('xorv', w), z3.Bool('fx')
        out.append(('composition of two calls', [F(P, R, i0, A, I(0), a + b) == F(P, R, mid, A, a, b)],
                    final(F(P, R, mid, A, a, b), ro, x, fx) == final(F(P, R, i0, A, I(0), a + b), ro, x, fx)))
        return out


B8LEMMAS = [B8Lemma(w) for w in (16, 32)]
CHUNKS = [ChunkLemma(w) for w in (8, 16, 32)]
BASES = list(BASE.values()); BA8=BASE[8]
CALCS = list(CALC.values())
