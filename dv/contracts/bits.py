from .base import *


class SingleBit(Contract):
    default_rep = 'bv'
    requires_text = ('the output pointer designates one writable object of its type',)

    def __init__(self, func, op, text):
        self.func = func
        self.op = op
        self.cases = ['']
        self.ensures_text = (text,)

    def setup(self, E, st, case):
        d = bv_param(E, 'data', 32)
        n = bv_param(E, 'n', 8)
        if self.op == 'test':
            old = bool_param(E, 'old', 8)
            r = cells(E, st, 'out', {(0, 1): old}, 1)
        else:
            old = bv_param(E, 'old', 32)
            r = cells(E, st, 'out', {(0, 4): old}, 4)
        self.old = old
        self.r = r
        return [d, n, ptr(r)]

    def post(self, E, st, case):
        d, n = z3.BitVec('data', 32), z3.BitVec('n', 8)
        ok = z3.ULE(n, 31)
        one = z3.BitVecVal(1, 32) << z3.ZeroExt(24, n)
        goal(E, st, 'status is true exactly for positions 0..31', E.boolean(st.ret) == ok)
        out = list(st.mem[self.r.name].cells.values())[0]
        if self.op == 'test':
            v, old = E.boolean(out), self.old.b
            spec = (z3.LShR(d, z3.ZeroExt(24, n)) & 1) == 1
        else:
            v, old = E.bv(out), E.bv(self.old)
            spec = {'set': d | one, 'clear': d & ~one, 'toggle': d ^ one}[self.op]
        goal(E, st, 'output is the specified value', Implies(ok, v == spec))
        goal(E, st, 'output untouched for positions above 31', Implies(Not(ok), v == old))


def reflect_spec(d, n, w=32):
    """bit i of the result is bit n-1-i of d for i<n, else 0 (n concrete)"""
    bits = []
    for i in range(w):
        bits.append(z3.Extract(n - 1 - i, n - 1 - i, d) if i < n else z3.BitVecVal(0, 1))
    return z3.Concat(*bits[::-1])


class Reflect(Contract):
    func = 'BitManipulation_reflect'
    default_rep = 'bv'
    unroll = 33
    requires_text = ('n_bits <= 32',)
    ensures_text = ('bit i of the result is bit n_bits-1-i of data for i < n_bits and 0 otherwise',)

    def setup(self, E, st, case):
        d, n = bv_param(E, 'data', 32), bv_param(E, 'n_bits', 8)
        E.fact(z3.ULE(n._bv, 32))
        return [d, n]

    def post(self, E, st, case):
        d, n = z3.BitVec('data', 32), z3.BitVec('n_bits', 8)
        for k in range(33):
            goal(E, st, 'reflection of %d bits' % k, Implies(n == k, E.bv(st.ret) == reflect_spec(d, k)))

    def apply(self, E, st, args):
        d, n = args
        if n.con is not None:
            E.oblige(st, 'precondition of BitManipulation_reflect: n_bits <= 32', n.con <= 32)
            if n.con > 32:
                return E.new_val(('i', 32), 'refl')
            return E.mkbv(reflect_spec(E.bv(d), n.con))
        E.oblige(st, 'precondition of BitManipulation_reflect: n_bits <= 32', z3.ULE(E.bv(n), 32))
        t = z3.BitVecVal(0, 32)
        for k in range(33):
            t = If(E.bv(n) == k, reflect_spec(E.bv(d), k), t)
        return E.mkbv(t)


class Rotl(Contract):
    func = 'BitManipulation_rotl32'
    default_rep = 'bv'
    ensures_text = ('bit (i + n_bits) mod 32 of the result is bit i of data',)

    def setup(self, E, st, case):
        return [bv_param(E, 'data', 32), bv_param(E, 'n_bits', 32)]

    def post(self, E, st, case):
        d, n = z3.BitVec('data', 32), z3.BitVec('n_bits', 32)
        for k in range(32):
            goal(E, st, 'rotation by %d' % k, Implies(z3.URem(n, 32) == k, E.bv(st.ret) == z3.RotateLeft(d, k)))

    def apply(self, E, st, args):
        d, n = args
        if n.con is not None:
            return E.mkbv(z3.RotateLeft(E.bv(d), n.con % 32) if n.con % 32 else E.bv(d))
        t = E.bv(d)
        for k in range(1, 32):
            t = If(z3.Extract(4, 0, E.bv(n)) == k, z3.RotateLeft(E.bv(d), k), t)
        return E.mkbv(t)


SET = SingleBit('BitManipulation_setBit', 'set', 'n <= 31: returns true, *out = data with bit n one; else false, *out unchanged')
CLEAR = SingleBit('BitManipulation_clearBit', 'clear', 'n <= 31: returns true, *out = data with bit n zero; else false, *out unchanged')
TOGGLE = SingleBit('BitManipulation_toggleBit', 'toggle', 'n <= 31: returns true, *out = data with bit n inverted; else false, *out unchanged')
TEST = SingleBit('BitManipulation_bitSet', 'test', 'n <= 31: returns true, *bit_set = bit n of data; else false, *bit_set unchanged')
REFLECT = Reflect()
ROTL = Rotl()
