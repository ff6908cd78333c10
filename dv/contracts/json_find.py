"""JSON lookup.  L: length of the text (up to a null character or the buffer size).  Pure definitions over the text T:
FQ(c) first quote at or after c (else L), FNW(c) first non-white character at or after c (else L),
INS(p) an odd number of quotes lies before p."""
from .base import *
from .ciphers import cstring

Q, COLON = 34, 58


def ws(c):
    return Or(c == 32, c == 9, c == 10, c == 13)


class Find(Contract):
    func = 'Json_findByKey'

    def common(self, E, st):
        cap, vcap, L = z3.Ints('buffer_size max_value_size text_len')
        E.fact(And(0 <= cap, cap <= MAXOBJ, 0 <= vcap, vcap <= MAXOBJ, 0 <= L, L <= cap))
        self.cap, self.vcap, self.L = cap, vcap, L
        E.naturals += [cap, vcap, L]
        self.b, self.T = byte_array(E, st, 'buffer', cap, ro=True, rep='int')
        T = self.T
        E.fact(Implies(L < cap, z3.Select(T, L) == 0))
        E.fact(all_pat(I(0), L, T, lambda j: z3.Select(T, j) != 0))
        self.k, self.K, self.kn = cstring(E, st, 'key', ro=True, rep='int')
        self.v, self.V0 = byte_array(E, st, 'value', vcap, rep='int')
        return [ptr(self.b), IntV(64, u=cap, raw=cap), ptr(self.k), ptr(self.v), IntV(64, u=vcap, raw=vcap)]


class Safe(Find):
    requires_text = ('buffer designates buffer_size readable bytes of any content, key a null-terminated string, value max_value_size writable bytes',)
    ensures_text = ('only the buffer and the key are read, only value[0..max_value_size) is written; the call returns; on success the value is null-terminated',)

    def setup(self, E, st, case):
        a = self.common(E, st)
        self.zeros = []

        def stored(st, r, idx, v):
            if r is self.v and not any(simp(idx).eq(x) for x in self.zeros):
                self.zeros.append(simp(idx))
        E.hooks['stored'] = stored
        return a

    def invariants(self, E, X):
        bools = [v.syms['b'] for v in X.vars.values() if v.rep == 'bool' and v.mode == 'fresh']
        if self.v.name in X.arrs:
            A = X.arrs[self.v.name][1]
            for b in bools:
                for nm, e in X.int_exprs:
                    self.zeros.append(e)
                    X.add('%s => value[%s] is the terminator' % (b, nm), Implies(b, And(e >= 0, e < self.vcap, z3.Select(A, e) == 0)))

    def post(self, E, st, case):
        A = E.arr(st, self.v)
        goal(E, st, 'the value is null-terminated on success',
             Implies(E.boolean(st.ret), Or(*[And(i >= 0, i < self.vcap, z3.Select(A, i) == 0) for i in self.zeros])))


class Exact(Find):
    cases = ['the key is in the text', 'the key is not in the text']
    requires_text = ('the text is a flat object: every string is closed, followed (after white space) by ":" and (after white space) another closed string, or by "," or "}"',
                     'what follows the terminator of the text in the buffer is arbitrary', 'the key contains no quote')
    ensures_text = ('key is in the text: success exactly when the value of the first pair with that key and its terminator fit; then value is that text',
                    'key is not in the text: failure')

    def setup(self, E, st, case):
        a = self.common(E, st)
        T, K, L, kn = self.T, self.K, self.L, self.kn
        FQ = self.FQ = z3.Function('FQ', z3.IntSort(), z3.IntSort())
        FNW = self.FNW = z3.Function('FNW', z3.IntSort(), z3.IntSort())
        INS = self.INS = z3.Function('INS', z3.IntSort(), z3.BoolSort())
        ND = z3.Function('ND', z3.IntSort(), z3.IntSort())
        S = lambda i: z3.Select(T, i)
        # definitions
        for F, P in ((FQ, lambda c: c == Q), (FNW, lambda c: Not(ws(c)))):
            E.fact(forall(1, lambda c: (Implies(And(0 <= c, c <= L), And(c <= F(c), F(c) <= L, Implies(F(c) < L, P(S(F(c)))))), [F(c)])))
            E.fact(forall(2, lambda c, j: (Implies(And(0 <= c, c <= j, j < F(c), j < L), Not(P(S(j)))), [(F(c), S(j))])))
        E.fact(Not(INS(0)))
        # well-formed text, the key
        E.fact(all_pat(I(0), kn, K, lambda j: z3.Select(K, j) != Q))

        def at(p):
            """definitions and well-formedness at position p"""
            opening = And(S(p) == Q, Not(INS(p)))
            c = FQ(p + 1)
            n = FNW(c + 1)
            v = FNW(n + 1)
            iskey = S(n) == COLON
            f = [INS(p + 1) == z3.Xor(INS(p), S(p) == Q),
                 Implies(opening, And(c < L, n < L, Or(S(n) == COLON, S(n) == 44, S(n) == 125),
                                      Implies(iskey, And(v < L, S(v) == Q, FQ(v + 1) < L))))]
            differs = Or(c != p + 1 + kn, And(0 <= ND(p), ND(p) < kn, S(p + 1 + ND(p)) != z3.Select(K, ND(p))))
            nomatch = Implies(opening, Or(Not(iskey), differs))
            return And(*f), nomatch, opening, iskey, c, n, v

        if case == self.cases[0]:
            P = self.P = z3.Int('P')
            f, _, opening, iskey, c, n, v = at(P)
            E.fact(And(0 <= P, P < L, f, opening, iskey, c == P + 1 + kn))
            E.fact(all_pat(I(0), kn, K, lambda j: S(P + 1 + j) == z3.Select(K, j)))
            self.VS = simp(v + 1)
            self.VE = simp(FQ(v + 1))
            E.naturals += [P]
            bound = P
        else:
            bound = L
            self.P = None

        def load(st, r, idx, iv, val):
            if r is self.b:
                f, nm, *_ = at(idx)
                E.assume(st, Implies(And(0 <= idx, idx < L), And(f, Implies(idx < bound, nm))))
        E.hooks['load'] = load
        return a

    def invariants(self, E, X):
        FQ, FNW = self.FQ, self.FNW
        bools = [(v.name, v.syms['b']) for v in X.vars.values() if v.rep == 'bool' and v.mode == 'fresh']
        for v in X.vars.values():
            if v.rep == 'int' and v.mode in ('fresh', 'affine'):
                e = v.val._u if v.val._u is not None else v.val._s
                i0 = E.u(v.init)
                X.add('%s <= next quote' % v.name, Implies(And(0 <= i0, i0 <= self.L), e <= FQ(i0)))
                X.add('%s <= next non-white' % v.name, Implies(And(0 <= i0, i0 <= self.L), e <= FNW(i0)))
        for nm, e in X.int_exprs:
            X.add('%s <= text length' % nm, e <= self.L)
            for bn, b in bools:
                X.add('%s = inside a string at %s' % (bn, nm), b == self.INS(e))
                X.add('%s = outside a string at %s' % (bn, nm), b == Not(self.INS(e)))
                if self.P is not None:
                    X.add('%s => %s is behind the match' % (bn, nm), Implies(b, e == self.P + 1))
                    X.add('%s => %s is at the match' % (bn, nm), Implies(b, e == self.P))
                    X.add('!%s => %s is not behind the match' % (bn, nm), Implies(Not(b), e <= self.P))
        if self.P is not None:
            for nm, e in X.int_exprs:
                X.add('%s <= end of the value' % nm, e <= self.VE)
                X.add('%s <= value length' % nm, e <= self.VE - self.VS)
                X.add('%s >= start of the value' % nm, e >= self.VS)
                for n2, e2 in X.int_exprs:
                    if n2 != nm:
                        X.add('%s - %s is the start of the value' % (nm, n2), e == e2 + self.VS)
            if self.v.name in X.arrs:
                A0, A = X.arrs[self.v.name]
                for bn, b in bools:
                    for nm, e in X.int_exprs:
                        X.add('%s => %s is the value length' % (bn, nm), Implies(b, e == self.VE - self.VS))
                        X.add('%s => value[%s] is the terminator' % (bn, nm), Implies(b, z3.Select(A, e) == 0))
                        X.add('!%s => %s <= end of the value' % (bn, nm), Implies(Not(b), e <= self.VE))
                        for n2, e2 in X.int_exprs:
                            if n2 != nm:
                                X.add('!%s => %s - %s is the start of the value' % (bn, nm, n2), Implies(Not(b), e == e2 + self.VS))
                for nm, e in X.int_exprs:
                    X.add('value[0..%s) copied' % nm, all_pat(I(0), e, A, lambda j: z3.Select(A, j) == z3.Select(self.T, j + self.VS)))
                    X.add('value[0..%s-start) copied' % nm, all_pat(I(0), e - self.VS, A, lambda j: z3.Select(A, j) == z3.Select(self.T, j + self.VS)))

    def post(self, E, st, case):
        r = E.boolean(st.ret)
        A = E.arr(st, self.v)
        if self.P is None:
            goal(E, st, 'a missing key is reported', Not(r))
            return
        n = self.VE - self.VS
        goal(E, st, 'success exactly when the value fits', r == (n + 1 <= self.vcap))
        goal(E, st, 'value text', Implies(r, all_idx(I(0), n, lambda j: z3.Select(A, j) == z3.Select(self.T, self.VS + j))))
        goal(E, st, 'value terminator', Implies(r, z3.Select(A, n) == 0))


SAFE = Safe()
EXACT = Exact()
