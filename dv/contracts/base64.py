"""Base64 against RFC 4648. Enc(t) is character t of the standard text of data[0..n): its definition is unfolded
(one ground instance) at every index the code writes or reads."""
from .base import *

ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
EQ = 61


def table(ix):
    """alphabet character of a 6-bit index"""
    ts = [z3.BitVecVal(x, 8) for x in ALPHA]
    for bit in range(6):
        c = z3.Extract(bit, bit, ix) == 1
        ts = [If(c, ts[i + 1], ts[i]) for i in range(0, 64, 2)] if len(ts) == 64 else [If(c, ts[i + 1], ts[i]) for i in range(0, len(ts), 2)]
    return ts[0]


ENC = z3.Function('Enc', z3.IntSort(), z3.BitVecSort(8))


def define(t, d, n):
    """RFC 4648 section 4, for character t of the encoding of d[0..n)"""
    q = t / 4
    m = t % 4
    b0 = z3.Select(d, 3 * q)
    b1 = If(3 * q + 1 < n, z3.Select(d, 3 * q + 1), z3.BitVecVal(0, 8))
    b2 = If(3 * q + 2 < n, z3.Select(d, 3 * q + 2), z3.BitVecVal(0, 8))
    w = z3.Concat(b0, b1, b2)
    ix = [z3.Extract(23 - 6 * i, 18 - 6 * i, w) for i in range(4)]
    eq = z3.BitVecVal(EQ, 8)
    e = ENC(t)
    return And(Implies(m == 0, e == table(ix[0])), Implies(m == 1, e == table(ix[1])),
               Implies(m == 2, e == If(3 * q + 1 < n, table(ix[2]), eq)),
               Implies(m == 3, e == If(3 * q + 2 < n, table(ix[3]), eq)))


class Encode(Contract):
    func = 'Base64_encode'
    default_rep = 'int'
    const_rep = 'bv'
    requires_text = ('data designates data_length readable bytes, result max_result_length writable bytes, separate objects',)
    ensures_text = ('returns 0 exactly when 4*ceil(n/3)+1 <= max_result_length; then result is the RFC 4648 text and its terminator',
                    'nothing outside result[0..max_result_length) is written and nothing outside data is read')

    def setup(self, E, st, case):
        n, cap = z3.Ints('data_length max_result_length')
        E.fact(And(0 <= n, n <= MAXOBJ, 0 <= cap, cap <= MAXOBJ))
        self.n, self.cap = n, cap
        E.naturals += [n, cap]
        self.d, self.D = byte_array(E, st, 'data', n, ro=True)
        self.r, self.R0 = byte_array(E, st, 'result', cap)

        def stored(st, r, idx, v):
            if r is self.r:
                E.assume(st, Implies(idx >= 0, define(idx, self.D, n)))
        E.hooks['stored'] = stored
        return self.order(E, st)

    def order(self, E, st):
        return [ptr(self.d), IntV(64, u=self.n, raw=self.n), ptr(self.r), IntV(64, u=self.cap, raw=self.cap)]

    def invariants(self, E, X):
        fill_candidates(E, X, self.r, lambda j: ENC(j), self.cap, 'encoded', old=False)

    def post(self, E, st, case):
        n, cap = self.n, self.cap
        full = 4 * ((n + 2) / 3)
        ok = E.u(st.ret) == 0
        goal(E, st, 'status', ok == (full + 1 <= cap))
        A = E.arr(st, self.r)
        goal(E, st, 'the text is the RFC 4648 encoding', Implies(ok, all_idx(I(0), full, lambda j: z3.Select(A, j) == ENC(j))))
        goal(E, st, 'the text is null-terminated', Implies(ok, z3.Select(A, full) == 0))


class Decode(Contract):
    """input: the standard text of data d[0..n), with or without its padding"""
    func = 'Base64_decode'
    default_rep = 'int'
    const_rep = 'bv'
    cases = ['padded text', 'text without padding']
    requires_text = ('in is the RFC 4648 text of some byte string d of length n >= 1, complete or without the trailing = characters',
                     'out designates max_out_len writable bytes')
    ensures_text = ('returns 0 exactly when n <= max_out_len; then out[0..n) = d', 'nothing outside out[0..max_out_len) is written')

    def setup(self, E, st, case):
        n, cap = z3.Ints('n max_out_len')
        E.fact(And(1 <= n, n <= MAXOBJ, 0 <= cap, cap <= MAXOBJ))
        self.n, self.cap = n, cap
        full = 4 * ((n + 2) / 3)
        if case == 'padded text':
            self.len = full
        else:
            self.len = full - (If(n % 3 == 1, I(2), If(n % 3 == 2, I(1), I(0))))
        L = z3.Int('in_len')
        E.fact(L == self.len)
        self.L = L
        E.naturals += [n, cap, L]
        self.i, self.T = byte_array(E, st, 'in', L, ro=True)
        self.o, self.O0 = byte_array(E, st, 'out', cap)
        self.D = z3.Array('d', z3.IntSort(), z3.BitVecSort(8))

        def load(st, r, idx, iv, v):
            if r is self.i:
                E.assume(st, Implies(And(idx >= 0, idx < L), And(z3.Select(self.T, idx) == ENC(idx), define(idx, self.D, n))))
        E.hooks['load'] = load
        return [ptr(self.i), IntV(64, u=L, raw=L), ptr(self.o), IntV(64, u=cap, raw=cap)]

    def invariants(self, E, X):
        fill_candidates(E, X, self.o, lambda j: z3.Select(self.D, j), self.cap, 'decoded', old=False)

    def post(self, E, st, case):
        ok = E.u(st.ret) == 0
        A = E.arr(st, self.o)
        goal(E, st, 'status', ok == (self.n <= self.cap))
        goal(E, st, 'the output is the data', Implies(ok, all_idx(I(0), self.n, lambda j: z3.Select(A, j) == z3.Select(self.D, j))))


class DecodeAny(Contract):
    func = 'Base64_decode'
    default_rep = 'int'
    const_rep = 'bv'
    requires_text = ('in designates in_len readable bytes of any content, out max_out_len writable bytes',)
    ensures_text = ('only in[0..in_len) is read and out[0..max_out_len) written; the call returns; an empty text is rejected',)

    def setup(self, E, st, case):
        L, cap = z3.Ints('in_len max_out_len')
        E.fact(And(0 <= L, L <= MAXOBJ, 0 <= cap, cap <= MAXOBJ))
        self.L = L
        E.naturals += [L, cap]
        self.i, self.T = byte_array(E, st, 'in', L, ro=True)
        self.o, self.O0 = byte_array(E, st, 'out', cap)
        return [ptr(self.i), IntV(64, u=L, raw=L), ptr(self.o), IntV(64, u=cap, raw=cap)]

    def post(self, E, st, case):
        goal(E, st, 'an empty text is rejected', Implies(self.L == 0, E.u(st.ret) != 0))


ENCODE = Encode()
DECODE = Decode()
DECODEANY = DecodeAny()
