"""Map: abstract view {keys[i] -> values[i] | i < current_size}, keys distinct."""
from .base import *

HDR, TY = 'map.h', 'Map_t'
INV = 'invariant: 0 <= current_size <= max_map_size, the stored keys are pairwise distinct, keys/values have room for max_map_size elements of at most 2^31-1 bytes in total'


def state(c, E, st, ro=False, null=False):
    """arbitrary map satisfying the invariant"""
    K, V = Stride(E, 'key_size', z3.Int('key_size')), Stride(E, 'value_size', z3.Int('value_size'))
    c.SK, c.SV = K, V
    n, mx = int_param(E, 'current_size', 32, True), int_param(E, 'max_map_size', 32, True)
    c.n, c.max = n._s, mx._s
    E.naturals += [c.n]
    E.fact(And(0 <= c.n, c.n <= c.max, c.max >= 1, K.sym >= 1, V.sym >= 1))
    E.fact(And(K.bound(c.max) < (1 << 31), V.bound(c.max) < (1 << 31)))
    c.kr, c.K0 = rows_array(E, st, 'keys', c.max, K, ro)
    c.vr, c.V0 = rows_array(E, st, 'values', c.max, V, ro)
    a, b = z3.Int('a'), z3.Int('b')
    E.fact(z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < c.n), z3.Select(c.K0, a) != z3.Select(c.K0, b)),
                     patterns=[z3.MultiPattern(z3.Select(c.K0, a), z3.Select(c.K0, b))]))
    c.S = Struct(E, st, 'map', HDR, TY, {'keys': ptr(c.kr), 'values': ptr(c.vr), 'key_size': size_val(K, 32, True), 'value_size': size_val(V, 32, True),
                                         'max_map_size': mx, 'current_size': n}, ro)
    kp, kid = rows_array(E, st, 'key', I(1), K, True)
    c.key = z3.Select(kid, 0)
    c.isnull = z3.Bool('map_is_null')
    return c.S.ptr(c.isnull), ptr(kp)


def search_candidates(c, E, X):
    K = z3.Const('keys', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    ne = lambda j: z3.Select(K, j) != c.key
    bools = [(v.name, v.syms['b']) for v in X.vars.values() if v.rep == 'bool' and v.mode == 'fresh']
    for nm, e in X.int_exprs:
        for lo, hi, t in ((I(0), e, '[0..%s)'), (e, c.n, '[%s..size)'), (e + 1, c.n, '(%s..size)')):
            f = all_pat(lo, hi, K, ne)
            X.add('keys%s differ from the key' % (t % nm), f)
            for bn, b in bools:
                X.add('%s => keys%s differ from the key' % (bn, t % nm), Implies(b, f))
                X.add('!%s => keys%s differ from the key' % (bn, t % nm), Implies(Not(b), f))
        hit = lambda x: And(0 <= x, x < c.n, z3.Select(K, x) == c.key)
        X.add('%s < 0 or keys[%s] is the key' % (nm, nm), Or(e < 0, hit(e)))
        X.add('%s = -1 or keys[%s] is the key' % (nm, nm), Or(e == -1, hit(e)))
        X.add('%s = size or keys[%s] is the key' % (nm, nm), Or(e == c.n, hit(e)))
        X.add('%s < 0: not found in front' % nm, Implies(e < 0, all_pat(I(0), X.k, K, ne)))
        for bn, b in bools:
            X.add('%s => keys[%s] is the key' % (bn, nm), Implies(b, hit(e)))
            X.add('!%s => keys[%s] is the key' % (bn, nm), Implies(Not(b), hit(e)))
            X.add('%s => keys[%s-1] is the key' % (bn, nm), Implies(b, hit(e - 1)))
            X.add('%s => %s < 0' % (bn, nm), Implies(b, e < 0))
            X.add('!%s => %s < 0' % (bn, nm), Implies(Not(b), e < 0))
            X.add('!%s => %s >= 0' % (bn, nm), Implies(Not(b), e >= 0))


class Init(Contract):
    func = 'Map_init'
    requires_text = ('map designates a writable Map_t', 'keys and values are null or designate storage')
    ensures_text = ('returns true exactly when keys and values are not null and all three sizes are positive; then the map is empty, of that capacity and uses that storage',)

    def setup(self, E, st, case):
        self.kn, self.vn = z3.Bool('keys_null'), z3.Bool('values_null')
        kr = E.region('keys', 'opaque')
        vr = E.region('values', 'opaque')
        self.k, self.v = nullable(kr, self.kn), nullable(vr, self.vn)
        self.p = {x: int_param(E, x, 32, True) for x in ('key_size', 'value_size', 'max_map_size')}
        old = {x: int_param(E, 'old_' + x, 32, True) for x in ('key_size', 'value_size', 'max_map_size', 'current_size')}
        self.S = Struct(E, st, 'map', HDR, TY, dict(keys=old_pointer(E, st, 'oldk'), values=old_pointer(E, st, 'oldv'), **old))
        return [self.S.ptr(), self.k, self.v, self.p['key_size'], self.p['value_size'], self.p['max_map_size']]

    def post(self, E, st, case):
        r = E.boolean(st.ret)
        pos = And(*[v._s > 0 for v in self.p.values()])
        goal(E, st, 'status', r == And(pos, Not(self.kn), Not(self.vn)))
        for f, v in self.p.items():
            goal(E, st, f, Implies(r, E.s(self.S.get(st, f), st) == v._s))
        goal(E, st, 'the map is empty', Implies(r, E.s(self.S.get(st, 'current_size'), st) == 0))
        goal(E, st, 'key storage', Implies(r, E.boolean(E.icmp_ptr(st, 'eq', self.S.get(st, 'keys'), self.k))))
        goal(E, st, 'value storage', Implies(r, E.boolean(E.icmp_ptr(st, 'eq', self.S.get(st, 'values'), self.v))))


class Op(Contract):
    cases = ['the key is stored', 'the key is not stored']
    requires_text = ('map is null or designates a Map_t that satisfies the ' + INV, 'key and value designate key_size and value_size bytes outside the map')

    def begin(self, E, st, case, ro):
        m, k = state(self, E, st, ro)
        self.w = z3.Int('position')
        if case == self.cases[0]:
            E.fact(And(0 <= self.w, self.w < self.n, z3.Select(self.K0, self.w) == self.key))
        else:
            E.fact(all_pat(I(0), self.n, self.K0, lambda j: z3.Select(self.K0, j) != self.key))
        return m, k

    def invariants(self, E, X):
        search_candidates(self, E, X)


class Insert(Op):
    func = 'Map_insert'
    ensures_text = ('null map: false', 'stored key: true, exactly its value is replaced', 'new key: true and the pair is added when current_size < max_map_size, else false and nothing changes',
                    INV + ' holds again')

    def setup(self, E, st, case):
        m, k = self.begin(E, st, case, False)
        vp, vid = rows_array(E, st, 'value', I(1), self.SV, True)
        self.val = z3.Select(vid, 0)
        return [m, k, ptr(vp)]

    def post(self, E, st, case):
        r = E.boolean(st.ret)
        K, V = E.arr(st, self.kr), E.arr(st, self.vr)
        n = E.s(self.S.get(st, 'current_size'), st)
        there = case == self.cases[0]
        room = self.n < self.max
        live = Not(self.isnull)
        g = lambda nm, f: goal(E, st, nm, f)
        g('status', r == And(live, TRUE if there else room))
        for f in ('keys', 'values', 'key_size', 'value_size', 'max_map_size'):
            g('%s unchanged' % f, self.S.same(E, st, f))
        sel = z3.Select
        g('stored keys unchanged', all_idx(I(0), self.n, lambda j: sel(K, j) == sel(self.K0, j)))
        if there:
            g('number of entries', n == self.n)
            g('the value is replaced', Implies(live, sel(V, self.w) == self.val))
            g('other values unchanged', all_idx(I(0), self.n, lambda j: Implies(Or(self.isnull, j != self.w), sel(V, j) == sel(self.V0, j))))
        else:
            g('number of entries', n == If(And(live, room), self.n + 1, self.n))
            g('the pair is added', Implies(And(live, room), And(sel(K, self.n) == self.key, sel(V, self.n) == self.val)))
            g('values unchanged', all_idx(I(0), self.n, lambda j: sel(V, j) == sel(self.V0, j)))
        a, b = z3.FreshInt('a'), z3.FreshInt('b')
        g('invariant: sizes', And(0 <= n, n <= self.max))
        g('invariant: keys distinct', z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < n), sel(K, a) != sel(K, b))))


class Get(Op):
    func = 'Map_getValue'
    ensures_text = ('true exactly when the map is not null and the key is stored; then *value is its value', 'the map is not changed')

    def setup(self, E, st, case):
        m, k = self.begin(E, st, case, True)
        self.out, _ = rows_array(E, st, 'value', I(1), self.SV)
        return [m, k, ptr(self.out)]

    def post(self, E, st, case):
        r = E.boolean(st.ret)
        there = case == self.cases[0]
        goal(E, st, 'status', r == And(Not(self.isnull), z3.BoolVal(there)))
        if there:
            goal(E, st, 'the stored value', Implies(r, z3.Select(E.arr(st, self.out), 0) == z3.Select(self.V0, self.w)))


INIT, INSERT, GET = Init(), Insert(), Get()
