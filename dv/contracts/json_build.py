"""JSON building: the exact text, or nothing."""
from .base import *
from .ciphers import cstring

QUOTE, COLON, COMMA = 34, 58, 44


def keep_invariants(self, E, X):
    r = self.b
    if r.name not in X.arrs:
        return
    A0, A = X.arrs[r.name]
    es = [(nm, e) for nm, e in X.int_exprs]
    w = [e for e in X.stores.get(r.name, []) if cval(e) is None][:6]
    for e in w:
        X.add('buffer[0..write index) unchanged', all_pat(I(0), e, A, lambda j: z3.Select(A, j) == z3.Select(A0, j)))
        for s in self.srcs:
            for nm, c in es:
                o = simp(e - c)
                X.add('%s copied up to %s' % (s[0].name, nm), all_pat(o, e, A, lambda j: z3.Select(A, j) == z3.Select(s[1], j - o)))
                X.add('%s copied up to %s, forward' % (s[0].name, nm), all_pat(I(0), c, s[1], lambda j: z3.Select(A, j + o) == z3.Select(s[1], j)))
    for s in self.srcs:
        for nm, c in es:
            X.add('no terminator in %s before %s' % (s[0].name, nm), c <= s[2])


class Start(Contract):
    func = 'Json_startString'
    requires_text = ('buffer designates buffer_size writable bytes of any content',)
    ensures_text = ('buffer_size >= 2: returns true and the text is "{"; else returns false and nothing is written',)
    srcs = ()

    def setup(self, E, st, case):
        self.cap = z3.Int('buffer_size')
        E.fact(And(0 <= self.cap, self.cap <= MAXOBJ))
        E.naturals.append(self.cap)
        self.b, self.A0 = byte_array(E, st, 'buffer', self.cap, rep='int')
        return [ptr(self.b), IntV(64, u=self.cap, raw=self.cap)]

    def post(self, E, st, case):
        A = E.arr(st, self.b)
        r = E.boolean(st.ret)
        goal(E, st, 'status', r == (self.cap >= 2))
        goal(E, st, 'text', Implies(r, And(z3.Select(A, 0) == 123, z3.Select(A, 1) == 0)))
        goal(E, st, 'unchanged on failure', Implies(Not(r), all_idx(I(0), self.cap, lambda j: z3.Select(A, j) == z3.Select(self.A0, j))))


class Text(Contract):
    def buffer(self, E, st):
        Z, cap = z3.Ints('text_len buffer_size')
        E.fact(And(0 <= Z, Z < cap, cap <= MAXOBJ))
        E.naturals += [Z, cap]
        self.Z, self.cap = Z, cap
        self.b, A = byte_array(E, st, 'buffer', cap, rep='int')
        self.A0 = A
        E.fact(z3.Select(A, Z) == 0)
        E.fact(all_pat(I(0), Z, A, lambda j: z3.Select(A, j) != 0))
        self.b.witness.append(Z)

    def invariants(self, E, X):
        keep_invariants(self, E, X)


class End(Text):
    func = 'Json_endString'
    requires_text = ('buffer holds a null-terminated text inside its buffer_size bytes',)
    ensures_text = ('length + 2 <= buffer_size: returns true and the text is the old text followed by "}"; else returns false and the text is unchanged',)
    srcs = ()

    def setup(self, E, st, case):
        self.buffer(E, st)
        return [ptr(self.b), IntV(64, u=self.cap, raw=self.cap)]

    def post(self, E, st, case):
        A, Z = E.arr(st, self.b), self.Z
        r = E.boolean(st.ret)
        goal(E, st, 'status', r == (self.cap >= Z + 2))
        goal(E, st, 'the old text is kept', all_idx(I(0), Z, lambda j: z3.Select(A, j) == z3.Select(self.A0, j)))
        goal(E, st, 'text', Implies(r, And(z3.Select(A, Z) == 125, z3.Select(A, Z + 1) == 0)))
        goal(E, st, 'unchanged on failure', Implies(Not(r), z3.Select(A, Z) == 0))


class Add(Text):
    func = 'Json_addData'
    requires_text = ('buffer holds a null-terminated text inside its buffer_size bytes; key and value are null-terminated strings in other objects',)
    ensures_text = ('when the new text with terminator fits: returns true and the text is the old text, "," if it ends in a quote, then "key":"value"',
                    'else returns false and the text is unchanged; no byte outside the capacity is read or written')

    def setup(self, E, st, case):
        self.buffer(E, st)
        self.k, self.K, self.kn = cstring(E, st, 'key', ro=True, rep='int')
        self.v, self.V, self.vn = cstring(E, st, 'value', ro=True, rep='int')
        self.srcs = ((self.k, self.K, self.kn), (self.v, self.V, self.vn))
        return [ptr(self.b), IntV(64, u=self.cap, raw=self.cap), ptr(self.k), ptr(self.v)]

    def post(self, E, st, case):
        A, Z = E.arr(st, self.b), self.Z
        r = E.boolean(st.ret)
        sep = And(Z > 0, z3.Select(self.A0, Z - 1) == QUOTE)
        p = Z + If(sep, I(1), I(0))
        kq = p + 1 + self.kn
        vq = kq + 3 + self.vn
        goal(E, st, 'status', r == (vq + 2 <= self.cap))
        goal(E, st, 'the old text is kept', all_idx(I(0), Z, lambda j: z3.Select(A, j) == z3.Select(self.A0, j)))
        goal(E, st, 'separator', Implies(And(r, sep), z3.Select(A, Z) == COMMA))
        goal(E, st, 'opening quote of the key', Implies(r, z3.Select(A, p) == QUOTE))
        goal(E, st, 'key', Implies(r, all_idx(I(0), self.kn, lambda j: z3.Select(A, p + 1 + j) == z3.Select(self.K, j))))
        goal(E, st, 'quote, colon, quote', Implies(r, And(z3.Select(A, kq) == QUOTE, z3.Select(A, kq + 1) == COLON, z3.Select(A, kq + 2) == QUOTE)))
        goal(E, st, 'value', Implies(r, all_idx(I(0), self.vn, lambda j: z3.Select(A, kq + 3 + j) == z3.Select(self.V, j))))
        goal(E, st, 'closing quote and terminator', Implies(r, And(z3.Select(A, vq) == QUOTE, z3.Select(A, vq + 1) == 0)))
        goal(E, st, 'unchanged on failure', Implies(Not(r), z3.Select(A, Z) == 0))


START = Start()
END = End()
ADD = Add()
