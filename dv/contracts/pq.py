"""Priority queue: abstract view = the sequence (priority_array[k], buffer[k]), k < size, in order of arrival."""
from .base import *

HDR, TY, ITEM = 'priority_queue.h', 'PriorityQueue_t', 'PriorityQueueItem_t'
INV = 'invariant: size <= capacity, capacity >= 1, priority_array and buffer have room for capacity priorities and elements (of at most 2^32-1 bytes in total)'
sel = z3.Select


class State:
    def __init__(self, E, st, ro=False):
        S = Stride(E, 'element_size', z3.Int('element_size'))
        self.S = S
        size, cap = int_param(E, 'size', 32), int_param(E, 'capacity', 32)
        self.size, self.cap = size._u, cap._u
        E.naturals += [self.size]
        E.fact(And(self.size <= self.cap, self.cap >= 1, S.bound(self.cap) < (1 << 32)))
        S.bound(self.size)
        self.br, self.B0 = rows_array(E, st, 'buffer', self.cap, S, ro)
        self.pr, self.P0 = byte_array(E, st, 'priority_array', self.cap, rep='int', w=4, ro=ro)
        self.struct = Struct(E, st, 'queue', HDR, TY, {'size': size, 'capacity': cap, 'element_size': size_val(S, 32),
                                                       'priority_array': ptr(self.pr), 'buffer': ptr(self.br)}, ro)

    def fixed(self, E, st):
        for x in ('capacity', 'element_size', 'priority_array', 'buffer'):
            goal(E, st, '%s unchanged' % x, self.struct.same(E, st, x))

    def view(self, E, st, what, cond, wantp, wantb, size):
        P, B = E.arr(st, self.pr), E.arr(st, self.br)
        goal(E, st, what + ': number of elements', Implies(cond, E.u(self.struct.get(st, 'size'), st) == size))
        goal(E, st, what + ': priorities', Implies(cond, all_idx(I(0), size, lambda k: sel(P, k) == wantp(k))))
        goal(E, st, what + ': elements', Implies(cond, all_idx(I(0), size, lambda k: sel(B, k) == wantb(k))))

    def without(self, A, w):
        return lambda k: If(k < w, sel(A, k), sel(A, k + 1))


class Init(Contract):
    func = 'PriorityQueue_init'
    requires_text = ('queue is null or designates a writable PriorityQueue_t', 'items is null or designates an item whose arrays have room for capacity entries')
    ensures_text = ('returns true exactly when no pointer is null and neither size is 0; then the queue is empty, of that capacity and element size, and uses the arrays of items',)

    def setup(self, E, st, case):
        self.qn, self.inl = z3.Bool('queue_null'), z3.Bool('items_null')
        self.cap, self.es = int_param(E, 'capacity', 32), int_param(E, 'element_size', 32)
        old = {x: int_param(E, 'old_' + x, 32) for x in ('size', 'capacity', 'element_size')}
        self.struct = Struct(E, st, 'queue', HDR, TY, dict(old, priority_array=old_pointer(E, st, 'oldp'), buffer=old_pointer(E, st, 'oldb')))
        self.p, self.b = old_pointer(E, st, 'priorities'), old_pointer(E, st, 'elements')
        items = Struct(E, st, 'items', HDR, ITEM, {'priority': self.p, 'element': self.b}, True)
        return [self.struct.ptr(self.qn), self.cap, self.es, items.ptr(self.inl)]

    def post(self, E, st, case):
        r = E.boolean(st.ret)
        goal(E, st, 'status', r == And(self.cap._u != 0, self.es._u != 0, Not(self.qn), Not(self.inl)))
        g = lambda x: E.u(self.struct.get(st, x), st)
        goal(E, st, 'capacity', Implies(r, g('capacity') == self.cap._u))
        goal(E, st, 'element size', Implies(r, g('element_size') == self.es._u))
        goal(E, st, 'the queue is empty', Implies(r, g('size') == 0))
        goal(E, st, 'priority storage', Implies(r, E.boolean(E.icmp_ptr(st, 'eq', self.struct.get(st, 'priority_array'), self.p))))
        goal(E, st, 'element storage', Implies(r, E.boolean(E.icmp_ptr(st, 'eq', self.struct.get(st, 'buffer'), self.b))))


class Empty(Contract):
    func = 'PriorityQueue_empty'
    requires_text = ('queue designates a PriorityQueue_t that satisfies the ' + INV,)
    ensures_text = ('true exactly when size = 0; nothing changes',)

    def setup(self, E, st, case):
        self.q = State(E, st, True)
        return [self.q.struct.ptr()]

    def post(self, E, st, case):
        goal(E, st, 'result', E.boolean(st.ret) == (self.q.size == 0))


class Op(Contract):
    def extreme(self, E, low):
        """ghost: position of the first lowest / highest priority"""
        q = self.q
        self.w = w = z3.Int('position')
        P = q.P0
        if low:
            f = lambda j: And(sel(P, j) >= sel(P, w), Implies(j < w, sel(P, j) > sel(P, w)))
        else:
            f = lambda j: And(sel(P, j) <= sel(P, w), Implies(j < w, sel(P, j) < sel(P, w)))
        E.fact(And(0 <= w, w < q.size, all_pat(I(0), q.size, P, f)))
        E.naturals.append(w)

    def invariants(self, E, X):
        q, w = self.q, self.w
        ints = X.int_exprs
        P = E.arr(X.st0, q.pr)
        if P.eq(q.P0):
            for nm, e in ints:
                X.add('%s = position' % nm, e == w)
                X.add('%s <= position' % nm, e <= w)
                for nm2, m in ints:
                    if m.eq(e):
                        continue
                    X.add('%s = priority[%s]' % (nm, nm2), e == sel(P, m))
                    X.add('%s beyond position => %s = position' % (nm, nm2), Implies(e > w, m == w))
                    X.add('%s at or beyond position => %s = position' % (nm, nm2), Implies(e >= w, m == w))
                    X.add('%s at or before position => %s = position' % (nm, nm2), Implies(e <= w, m == w))
                    X.add('%s before position => %s = position' % (nm, nm2), Implies(e < w, m == w))
        for r, A0 in ((q.pr, q.P0), (q.br, q.B0)):
            if r.name in X.arrs:
                fill_candidates(E, X, r, q.without(A0, w), q.size - 1, 'shifted')
                A = X.arrs[r.name][1]
                for nm, e in ints:
                    X.add('%s[0..%s) shifted' % (r.name, nm), all_pat(I(0), e, A, lambda j: sel(A, j) == If(j < w, sel(A0, j), sel(A0, j + 1))))
                    X.add('%s[%s..size) original' % (r.name, nm), all_pat(e, q.size, A, lambda j: sel(A, j) == sel(A0, j)))
                    X.add('%s(%s..size) original' % (r.name, nm), all_pat(e + 1, q.size, A, lambda j: sel(A, j) == sel(A0, j)))


class Enqueue(Op):
    func = 'PriorityQueue_enqueue'
    cases = ['not full', 'full']
    requires_text = ('queue designates a PriorityQueue_t that satisfies the ' + INV, 'item designates a priority and element_size bytes outside the queue')
    ensures_text = ('not full: true; the sequence is the old one followed by the item',
                    'full, w = first position of the lowest priority: when that is below the new priority, true and the sequence is the old one without entry w followed by the item; else false and nothing changes')

    def setup(self, E, st, case):
        q = self.q = State(E, st)
        er, e0 = rows_array(E, st, 'element', I(1), q.S, True)
        pr, p0 = byte_array(E, st, 'priority', I(1), rep='int', w=4, ro=True)
        self.e, self.p = sel(e0, 0), sel(p0, 0)
        E.fact(And(self.p >= 0, self.p < (1 << 32)))
        item = Struct(E, st, 'item', HDR, ITEM, {'priority': ptr(pr), 'element': ptr(er)}, True)
        if case == 'full':
            E.fact(q.size == q.cap)
            self.extreme(E, True)
        else:
            E.fact(q.size < q.cap)
            self.w = I(0)
        return [q.struct.ptr(), item.ptr()]

    def post(self, E, st, case):
        q = self.q
        r = E.boolean(st.ret)
        q.fixed(E, st)
        app = lambda f, x, n: (lambda k: If(k == n, x, f(k)))
        P0, B0 = (lambda k: sel(q.P0, k)), (lambda k: sel(q.B0, k))
        if case == 'not full':
            goal(E, st, 'status', r)
            q.view(E, st, 'appended', TRUE, app(P0, self.p, q.size), app(B0, self.e, q.size), q.size + 1)
            return
        ok = sel(q.P0, self.w) < self.p
        goal(E, st, 'status', r == ok)
        q.view(E, st, 'the earliest lowest is replaced', ok, app(q.without(q.P0, self.w), self.p, q.size - 1), app(q.without(q.B0, self.w), self.e, q.size - 1), q.size)
        q.view(E, st, 'nothing changes', Not(ok), P0, B0, q.size)


class Dequeue(Op):
    func = 'PriorityQueue_dequeue'
    cases = ['not empty', 'empty']
    requires_text = ('queue designates a PriorityQueue_t that satisfies the ' + INV, 'element designates element_size writable bytes outside the queue')
    ensures_text = ('not empty, w = first position of the highest priority: true, *element is element w and the sequence is the old one without entry w', 'empty: false and nothing changes')

    def setup(self, E, st, case):
        q = self.q = State(E, st)
        self.el, self.e0 = rows_array(E, st, 'element', I(1), q.S)
        if case == 'empty':
            E.fact(q.size == 0)
            self.w = I(0)
        else:
            E.fact(q.size > 0)
            self.extreme(E, False)
        return [q.struct.ptr(), ptr(self.el)]

    def post(self, E, st, case):
        q = self.q
        r = E.boolean(st.ret)
        q.fixed(E, st)
        e = sel(E.arr(st, self.el), 0)
        if case == 'empty':
            goal(E, st, 'status', Not(r))
            goal(E, st, '*element unchanged', e == sel(self.e0, 0))
            q.view(E, st, 'nothing changes', TRUE, lambda k: sel(q.P0, k), lambda k: sel(q.B0, k), q.size)
            return
        goal(E, st, 'status', r)
        goal(E, st, 'the element of the highest priority', e == sel(q.B0, self.w))
        q.view(E, st, 'removed', TRUE, q.without(q.P0, self.w), q.without(q.B0, self.w), q.size - 1)


INIT, EMPTY, ENQUEUE, DEQUEUE = Init(), Empty(), Enqueue(), Dequeue()
