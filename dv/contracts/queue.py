"""Queue: abstract view = the sequence buffer[(front + k) mod capacity], k < size."""
from .base import *

HDR, TY = 'queue.h', 'Queue_t'
F = ('front', 'rear', 'size', 'capacity', 'element_size', 'buffer')
INV = 'invariant: front < capacity, size <= capacity, rear = (front + size - 1) mod capacity, buffer has room for capacity elements of at most 2^32-1 bytes in total'


class QState:
    def __init__(self, E, st, ro=False):
        S = Stride(E, 'element_size', z3.Int('element_size'))
        self.S = S
        v = {x: int_param(E, x, 32) for x in ('front', 'rear', 'size', 'capacity')}
        self.front, self.rear, self.size, self.cap = [v[x]._u for x in ('front', 'rear', 'size', 'capacity')]
        E.naturals += [self.size, self.cap]
        E.fact(self.inv(self.front, self.rear, self.size))
        E.fact(And(self.cap >= 1, S.bound(self.cap) < (1 << 32)))
        self.br, self.B0 = rows_array(E, st, 'buffer', self.cap, S, ro)
        self.struct = Struct(E, st, 'queue', HDR, TY, dict(v, element_size=size_val(S, 32), buffer=ptr(self.br)), ro)

    def inv(self, f, r, s):
        return And(0 <= f, f < self.cap, 0 <= s, s <= self.cap,
                   r == If(s == 0, If(f == 0, self.cap - 1, f - 1), self.pos(f, s - 1)))

    def pos(self, f, k):
        return If(f + k < self.cap, f + k, f + k - self.cap)

    def get(self, E, st, x):
        return E.u(self.struct.get(st, x), st)

    def fixed(self, E, st):
        for x in ('capacity', 'element_size', 'buffer'):
            goal(E, st, '%s unchanged' % x, self.struct.same(E, st, x))

    def view(self, E, st, cond, want, size):
        """under cond: the queue holds the sequence want(k), k < size"""
        f, r, s = [self.get(E, st, x) for x in ('front', 'rear', 'size')]
        B = E.arr(st, self.br)
        goal(E, st, 'number of elements', Implies(cond, s == size))
        goal(E, st, INV.split(',')[0] + ' etc.', Implies(cond, self.inv(f, r, s)))
        goal(E, st, 'the sequence of elements', Implies(cond, all_idx(I(0), size, lambda k: z3.Select(B, self.pos(f, k)) == want(k))))

    def old(self, k):
        return z3.Select(self.B0, self.pos(self.front, k))


class Init(Contract):
    func = 'Queue_init'
    requires_text = ('queue designates a writable Queue_t', 'buffer is null or designates storage for capacity elements')
    ensures_text = ('returns true exactly when capacity and element_size are not 0 and buffer is not null; then the queue is empty, of that capacity and element size, uses buffer and satisfies the ' + INV,)

    def setup(self, E, st, case):
        self.bn = z3.Bool('buffer_null')
        br = E.region('buffer', 'opaque')
        self.b = nullable(br, self.bn)
        self.cap, self.es = int_param(E, 'capacity', 32), int_param(E, 'element_size', 32)
        old = {x: int_param(E, 'old_' + x, 32) for x in F[:5]}
        self.struct = Struct(E, st, 'queue', HDR, TY, dict(old, buffer=old_pointer(E, st, 'oldb')))
        return [self.struct.ptr(), self.cap, self.es, self.b]

    def post(self, E, st, case):
        r = E.boolean(st.ret)
        goal(E, st, 'status', r == And(self.cap._u != 0, self.es._u != 0, Not(self.bn)))
        g = lambda x: E.u(self.struct.get(st, x), st)
        goal(E, st, 'capacity', Implies(r, g('capacity') == self.cap._u))
        goal(E, st, 'element size', Implies(r, g('element_size') == self.es._u))
        goal(E, st, 'the queue is empty', Implies(r, g('size') == 0))
        goal(E, st, 'storage', Implies(r, E.boolean(E.icmp_ptr(st, 'eq', self.struct.get(st, 'buffer'), self.b))))
        f = g('front')
        goal(E, st, 'invariant', Implies(r, And(f < self.cap._u, g('rear') == If(f == 0, self.cap._u - 1, f - 1))))


class Query(Contract):
    def __init__(self, func, full):
        self.func, self.full = func, full
        self.requires_text = ('queue designates a Queue_t that satisfies the ' + INV,)
        self.ensures_text = ('true exactly when size %s; nothing changes' % ('= capacity' if full else '= 0'),)

    def setup(self, E, st, case):
        self.q = QState(E, st, True)
        return [self.q.struct.ptr()]

    def post(self, E, st, case):
        goal(E, st, 'result', E.boolean(st.ret) == (self.q.size == (self.q.cap if self.full else 0)))


class Op(Contract):
    requires_text = ('queue is null or designates a Queue_t that satisfies the ' + INV, 'element is null or designates element_size bytes outside the queue')

    def __init__(self, func, op):
        self.func, self.op = func, op
        self.ensures_text = {
            'enqueue': ('true exactly when neither argument is null and size < capacity; then the sequence is the old one followed by the element',),
            'dequeue': ('true exactly when neither argument is null and size > 0; then *element is the first element and the sequence is the old one without it',),
            'front': ('true exactly when neither argument is null and size > 0; then *element is the first element; the queue is not changed',),
            'rear': ('true exactly when neither argument is null and size > 0; then *element is the last element; the queue is not changed',)}[op] + \
            ('otherwise nothing changes', INV + ' holds again')

    def setup(self, E, st, case):
        self.q = QState(E, st)
        self.qn, self.en = z3.Bool('queue_null'), z3.Bool('element_null')
        self.el, self.e0 = rows_array(E, st, 'element', I(1), self.q.S, self.op == 'enqueue')
        return [self.q.struct.ptr(self.qn), nullable(self.el, self.en)]

    def post(self, E, st, case):
        q = self.q
        r = E.boolean(st.ret)
        live = And(Not(self.qn), Not(self.en))
        ok = And(live, q.size < q.cap) if self.op == 'enqueue' else And(live, q.size > 0)
        goal(E, st, 'status', r == ok)
        q.fixed(E, st)
        e = z3.Select(E.arr(st, self.el), 0)
        if self.op == 'enqueue':
            q.view(E, st, ok, lambda k: If(k == q.size, z3.Select(self.e0, 0), q.old(k)), q.size + 1)
            q.view(E, st, Not(ok), q.old, q.size)
            return
        goal(E, st, 'the element', Implies(ok, e == q.old(q.size - 1 if self.op == 'rear' else I(0))))
        goal(E, st, 'a failing operation leaves *element alone', Implies(Not(ok), e == z3.Select(self.e0, 0)))
        if self.op == 'dequeue':
            q.view(E, st, ok, lambda k: q.old(k + 1), q.size - 1)
            q.view(E, st, Not(ok), q.old, q.size)
        else:
            q.view(E, st, TRUE, q.old, q.size)


INIT = Init()
FULL, EMPTY = Query('Queue_full', True), Query('Queue_empty', False)
OPS = [Op('Queue_' + x, x) for x in ('enqueue', 'dequeue', 'front', 'rear')]
