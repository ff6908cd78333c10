"""The four sorts. Element contents are opaque; an element is identified by its original position
(the initial contents are A0[j] = j), so 'A is a permutation' is: every A[j] is a position and no two
are equal. A strict weak order is given by a rank: compare(x, y) = rank(x) > rank(y), for every rank
function; the order of the result is by rank."""
from .base import *
from .utils import SWAP

sel = z3.Select
RANK = z3.Function('rank', z3.IntSort(), z3.IntSort())


def plain(A):
    """may the array term occur in a pattern?  (otherwise the formula only serves as a goal, where patterns do not matter)"""
    return z3.is_const(A) or (z3.is_app_of(A, z3.Z3_OP_STORE) and plain(A.arg(0)) and not conditional(A))


def conditional(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                return True
            st += x.children()
    return False


def pairs(A, body):
    a, b = z3.FreshInt('a'), z3.FreshInt('b')
    return z3.ForAll([a, b], body(a, b), patterns=[z3.MultiPattern(sel(A, a), sel(A, b))] if plain(A) else [])


def sorted_on(A, lo, hi, hole=None):
    def f(a, b):
        c = [lo <= a, a < b, b < hi]
        if hole is not None:
            c += [a != hole, b != hole]
        return Implies(And(*c), RANK(sel(A, a)) <= RANK(sel(A, b)))
    return pairs(A, f)


def partition(A, n, m):
    return pairs(A, lambda a, b: Implies(And(0 <= a, a < m, m <= b, b < n), RANK(sel(A, a)) <= RANK(sel(A, b))))


def distinct(A, n, hole=None):
    def f(a, b):
        c = [0 <= a, a < b, b < n]
        if hole is not None:
            c += [a != hole, b != hole]
        return Implies(And(*c), sel(A, a) != sel(A, b))
    return pairs(A, f)


def one(A, lo, hi, body):
    j = z3.FreshInt('q')
    return z3.ForAll([j], Implies(And(lo <= j, j < hi), body(j)), patterns=[sel(A, j)] if plain(A) else [])


def child(p, c):
    return Or(c == 2 * p + 1, c == 2 * p + 2)


def heap(A, lo, hi, hole=None):
    """every position p >= lo is at least its children below hi"""
    def f(p, c):
        h = [lo <= p, child(p, c), c < hi]
        if hole is not None:
            h.append(p != hole)
        return Implies(And(*h), RANK(sel(A, p)) >= RANK(sel(A, c)))
    return pairs(A, f)


def grand(A, lo, hi, x):
    """the parent of x (when it is at least lo) is at least the children of x"""
    return pairs(A, lambda p, c: Implies(And(lo <= p, child(p, x), child(x, c), c < hi), RANK(sel(A, p)) >= RANK(sel(A, c))))


class Sort(Contract):
    callees = (SWAP,)
    max_n = (1 << 31) - 1
    max_size = None
    features = ()
    assumes_text = ('the comparison function is a strict weak order on element contents: pure, terminating and not writing to the elements',)

    def __init__(self, func):
        self.func = func
        self.requires_text = ('buffer designates number_of_elements >= 0 elements of element_size >= 1 bytes, at most 2^31-1 bytes in total' +
                              (', element_size <= %d' % self.max_size if self.max_size else '') + (', fewer than 2^30 elements' if self.max_n == (1 << 30) - 1 else ''),
                              'compareFun(x, y) tells whether x comes strictly after y in a strict weak order')
        self.ensures_text = ('the elements are a permutation of the given ones', 'no element comes strictly after a later one', 'compareFun is only given elements; nothing outside the buffer is changed')

    def setup(self, E, st, case):
        n = int_param(E, 'number_of_elements', 32, True)
        self.n = n._s
        E.naturals.append(self.n)
        S = self.S = Stride(E, 'element_size', z3.Int('element_size'))
        E.fact(And(self.n >= 0, self.n <= self.max_n, S.bound(self.n) < (1 << 31), S.sym < (1 << 31)))
        if self.max_size:
            E.fact(S.sym <= self.max_size)
        self.r, self.A0 = rows_array(E, st, 'buffer', self.n, S)
        E.fact(one(self.A0, I(0), self.n, lambda j: sel(self.A0, j) == j))
        fr = E.region('compareFun', 'func')
        self.temps = {}
        return [ptr(self.r), n, size_val(S, 32, True), ptr(fr)]

    # temporary storage for one element
    def make_global(self, E, st, nm, ty, const):
        t = E.types.resolve(ty)
        if const or t[0] != 'arr' or E.types.resolve(t[2]) != ('i', 8):
            return None
        return self.temp(E, st, 'g_' + nm, t[1], True)

    def make_local(self, E, st, nm, ty):
        t = E.types.resolve(ty)
        if t[0] != 'arr' or E.types.resolve(t[2]) != ('i', 8):
            return None
        return self.temp(E, st, nm, t[1], False)

    def temp(self, E, st, nm, size, glob):
        r = E.region(nm, 'rows', n=I(1), stride=self.S, cap=self.S.sym <= size)
        c = ArrC(z3.Const('temp_' + nm, z3.ArraySort(z3.IntSort(), z3.IntSort())))
        self.temps[r.name] = r
        if glob:
            E.glob_content(r, c)
        else:
            st.mem[r.name] = c
        return r

    def indirect(self, E, st, p, args, i):
        if len(args) != 2 or any(t is None or t.reg.kind != 'func' for _, t in p.alts):
            raise Unsupported('indirect call')
        vals = []
        for what, a in zip(('first', 'second'), args):
            x = None
            for c, t in E.targets(st, a, 'argument of compareFun'):
                if t.reg.kind != 'rows' or t.rem:
                    raise Unsupported('compareFun is given something else than an element')
                sub = E.sub(st, c) if len(a.alts) > 1 else st
                E.oblige(sub, '%s argument of compareFun is an element of %s' % (what, t.reg.name), E.in_bounds(t))
                v = sel(E.arr(st, t.reg), t.idx)
                if t.reg is not self.r:
                    E.oblige(sub, '%s argument of compareFun is one of the given elements' % what, And(0 <= v, v < self.n))
                x = v if x is None else If(c, v, x)
            vals.append(x)
        return E.mkbool(1, RANK(vals[0]) > RANK(vals[1]))

    def invariants(self, E, X):
        n = self.n
        A0 = E.mat(self.r, X.st0.mem[self.r.name])
        changed = self.r.name in X.arrs
        A = X.arrs[self.r.name][1] if changed else A0
        bools = [(v.name, v.syms['b']) for v in X.vars.values() if v.rep == 'bool' and v.mode == 'fresh'][:2]
        guards = [('', TRUE)]
        for bn, b in bools:
            guards += [(bn + ' => ', b), ('!' + bn + ' => ', Not(b))]
        own = list(X.int_exprs)
        es = []
        for nm, e in own + X.outer:
            if not any(e.eq(y) for _, y in es):
                es.append((nm, e))

        def add(nm, f, gs=guards):
            for gn, g in gs:
                X.add(gn + nm, Implies(g, f))
        plain = guards[:1]
        k = X.k

        def cut(nm, e):
            return [(nm, e), (nm + '+1', e + 1), ('n-' + nm, n - e)]
        if 'heap' in self.features:
            es = ends = [(nm, e) for nm, e in (X.outer or own) if nm not in ('k', 'outer k')] or X.outer or own
        cuts = [c for nm, e in es for c in cut(nm, e)]
        if changed:
            rng = lambda A: one(A, I(0), n, lambda j: And(0 <= sel(A, j), sel(A, j) < n))
            add('elements are given ones', rng(A), plain)
            add('elements are distinct', distinct(A, n), plain)
            gs = plain if 'heap' in self.features else guards
            add('sorted', sorted_on(A, I(0), n), gs)
            for nm, e in cuts:
                add('sorted [0..%s)' % nm, sorted_on(A, I(0), e), gs)
                add('sorted [%s..n)' % nm, sorted_on(A, e, n), gs)
                add('parts around %s ordered' % nm, partition(A, n, e), plain)
            for nm, e in es:
                add('%s is a maximum so far' % nm, one(A, I(0), e, lambda j: RANK(sel(A, j)) <= RANK(sel(A, e))), plain)
        if 'hole' in self.features:
            for tn in list(self.temps):
                if tn not in X.st0.mem or (tn in X.arrs):
                    continue
                T = sel(E.mat(self.temps[tn], X.st0.mem[tn]), 0)
                for nm, e in own:
                    for hn, h in ((nm + '+1', e + 1), (nm, e)):
                        add('distinct but for hole %s' % hn, distinct(A, n, h), plain)
                        add('hole %s: distinct from the temporary' % hn, one(A, I(0), n, lambda j: Implies(j != h, sel(A, j) != T)), plain)
                        for en, e2 in [c for nm2, x in X.outer for c in cut(nm2, x)]:
                            add('sorted [0..%s) but for hole %s' % (en, hn), sorted_on(A, I(0), e2, h), plain)
                            add('(%s..%s) above the temporary' % (hn, en), one(A, h + 1, e2, lambda j: RANK(sel(A, j)) >= RANK(T)), plain)
                            add('[%s..%s) above the temporary' % (hn, en), one(A, h, e2, lambda j: RANK(sel(A, j)) >= RANK(T)), plain)
                        add('element in front of hole %s above the temporary' % hn, And(h >= 1, RANK(sel(A, h - 1)) > RANK(T)))
                        add('element in front of hole %s not above the temporary' % hn, Or(h < 1, RANK(sel(A, h - 1)) <= RANK(T)))
        if 'min' in self.features:
            for mn, m in own:
                for en, e in own:
                    if e.eq(m):
                        continue
                    for ln, lo in X.outer + [('0', I(0))]:
                        add('%s is a minimum of [%s..%s)' % (mn, ln, en), one(A, lo, e, lambda j: RANK(sel(A, m)) <= RANK(sel(A, j))), plain)
                for ln, lo in X.outer:
                    add('%s >= %s' % (mn, ln), m >= lo, plain)
        if 'heap' in self.features:
            if changed and not X.outer:
                for nm, e in own:
                    if nm != 'k':
                        for en, e2 in cut(nm, e)[:2]:
                            # lemma 'the root of a heap is a maximum'
                            X.lemmas.append(Implies(heap(A, I(0), e2), one(A, I(0), e2, lambda j: RANK(sel(A, 0)) >= RANK(sel(A, j)))))
            lows = [('0', I(0)), ('1', I(1))] + [c for nm, e in ends for c in cut(nm, e)[:2]]
            highs = [('n', n)] + [c for nm, e in ends for c in cut(nm, e)[:2]]
            for ln, lo in lows:
                for hn, hi in highs:
                    if lo.eq(hi):
                        continue
                    add('heap [%s..%s)' % (ln, hn), heap(A, lo, hi))
            if changed:
                for xn, x in own:
                    for ln, lo in lows:
                        for hn, hi in highs:
                            if lo.eq(hi) or x.eq(lo) or x.eq(hi):
                                continue
                            add('heap [%s..%s) but for %s' % (ln, hn, xn), And(heap(A, lo, hi, x), grand(A, lo, hi, x)), plain)

    def post(self, E, st, case):
        A = E.arr(st, self.r)
        goal(E, st, 'every element is one of the given ones', all_idx(I(0), self.n, lambda j: And(0 <= sel(A, j), sel(A, j) < self.n)))
        a, b = z3.FreshInt('a'), z3.FreshInt('b')
        goal(E, st, 'no element is duplicated or lost', z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < self.n), sel(A, a) != sel(A, b))))
        goal(E, st, 'the order is non-decreasing', z3.ForAll([a, b], Implies(And(0 <= a, a < b, b < self.n), RANK(sel(A, a)) <= RANK(sel(A, b)))))


class Insertion(Sort):
    max_size = 64
    features = ('hole',)


class Selection(Sort):
    features = ('min',)


class Heapify(Sort):
    """helper: restores the heap order below one position"""
    features = ('heap',)
    max_n = (1 << 31) - 1

    def __init__(self):
        self.func = 'Heapify'
        self.requires_text = ('buffer designates N elements, 0 <= lo <= i < N, n <= N; positions lo.. below n other than i are in heap order and the parent of i (from lo on) is above the children of i; elements are distinct given ones',
                              'no element in front of n comes strictly after an element from n on')
        self.ensures_text = ('positions lo.. below n are in heap order; elements from n on are unchanged; elements are distinct given ones',
                             'no element in front of n comes strictly after an element from n on')

    recursive = True
    order = (0, 1, 2, 3, 4)     # where buffer, n, i, element_size, compareFun are among the parameters

    def locate(self, front):
        """the helper under this contract is the one function HeapSort_sort hands the elements to, whatever its name and parameter order"""
        P = front.module(set(front.defined))
        f = P.funcs['HeapSort_sort']
        if len(f.params) != 4 or f.error:
            return
        names = [nm for nm, ty in f.params]
        calls = {}
        for b in f.order:
            for i in f.blocks[b]:
                if i.op == 'call' and i.callee[0] != 'l' and i.callee[1] in P.funcs and len(i.args) == 5:
                    calls.setdefault(i.callee[1], []).append([a[1] for a in i.args])
        if len(calls) != 1:
            return
        (fn, cs), = calls.items()
        pos = {}
        for role, nm in ((0, names[0]), (3, names[2]), (4, names[3])):
            ps = [q for q in range(5) if all(c[q] == ('l', nm) for c in cs)]
            if len(ps) != 1:
                return
            pos[role] = ps[0]
        rest = [q for q in range(5) if q not in pos.values()]
        zero = [q for q in rest if any(c[q] in (('c', 0), ('zero',)) for c in cs)]
        if len(rest) != 2 or len(zero) != 1:
            return
        pos[2] = zero[0]
        pos[1] = [q for q in rest if q != zero[0]][0]
        self.func = fn
        self.order = tuple(pos[r] for r in range(5))

    def setup(self, E, st, case):
        m = int_param(E, 'n', 32, True)
        i = int_param(E, 'i', 32, True)
        self.n = z3.Int('number_of_elements')
        self.m, self.i = m._s, i._s
        E.naturals += [self.n, self.m]
        S = self.S = Stride(E, 'element_size', z3.Int('element_size'))
        E.fact(And(self.n >= 0, self.n <= self.max_n, S.bound(self.n) < (1 << 31), S.sym < (1 << 31)))
        E.fact(And(0 <= self.i, self.i < self.n, self.m >= 0, self.m <= self.n))
        self.r, self.A0 = rows_array(E, st, 'buffer', self.n, S)
        self.lo = z3.Int('lo')      # ghost: where the heap order starts
        E.fact(And(0 <= self.lo, self.lo <= self.i))
        for f in self.pre(self.A0, self.n, self.m, self.i, self.lo):
            E.fact(f)
        fr = E.region('compareFun', 'func')
        self.temps = {}
        out = [None] * 5
        for q, v in zip(self.order, (ptr(self.r), m, i, size_val(S, 32, True), ptr(fr))):
            out[q] = v
        return out

    def pre(self, A, n, m, i, lo):
        return self.kept(A, n, m) + [heap(A, lo, m, i), grand(A, lo, m, i)]

    def kept(self, A, n, m):
        return [one(A, I(0), n, lambda j: And(0 <= sel(A, j), sel(A, j) < n)), distinct(A, n), partition(A, n, m)]

    def invariants(self, E, X):
        n, m, i = self.n, self.m, self.lo
        if self.r.name not in X.arrs:
            return
        A = X.arrs[self.r.name][1]
        X.add('elements are given ones', one(A, I(0), n, lambda j: And(0 <= sel(A, j), sel(A, j) < n)))
        X.add('elements are distinct', distinct(A, n))
        X.add('parts around n ordered', partition(A, n, m))
        X.add('elements from n on are unchanged', one(A, m, n, lambda j: sel(A, j) == sel(self.A0, j)))
        bools = [(v.name, v.syms['b']) for v in X.vars.values() if v.rep == 'bool' and v.mode == 'fresh'][:2]
        for nm, x in X.int_exprs:
            if nm != 'k':
                X.add('heap [lo..n) but for %s' % nm, heap(A, i, m, x))
                X.add('parent of %s above its children' % nm, grand(A, i, m, x))
        for bn, b in bools:
            X.add('!%s => heap [lo..n)' % bn, Implies(Not(b), heap(A, i, m)))
            X.add('%s => heap [lo..n)' % bn, Implies(b, heap(A, i, m)))
        X.add('heap [lo..n)', heap(A, i, m))

    def post(self, E, st, case):
        A = E.arr(st, self.r)
        for nm, f in zip(('elements are given ones', 'elements are distinct', 'parts around n ordered'), self.kept(A, self.n, self.m)):
            goal(E, st, nm, f)
        goal(E, st, 'heap order', heap(A, self.lo, self.m))
        goal(E, st, 'elements from n on are unchanged', one(A, self.m, self.n, lambda j: sel(A, j) == sel(self.A0, j)))

    def apply(self, E, st, args):
        from ..libc import one as target, count
        args = [args[q] for q in self.order]
        t = target(E, st, args[0], 'heap')
        c = E.c
        if t.reg is not getattr(c, 'r', None) or t.rem or not isinstance(c, Sort) or count(E, st, t, args[3]) is None or cval(count(E, st, t, args[3])) != 1:
            raise Unsupported('heap of something else than the elements')
        if not all(a is not None and a.reg.kind == 'func' for _, a in args[4].alts):
            raise Unsupported('unknown comparison function')
        n, m, i = c.n, E.s(args[1], st), E.s(args[2], st)
        A = E.arr(st, t.reg)
        lo = i
        if c is self:
            lo = self.lo
            E.oblige(st, 'recursion terminates', And(m == self.m, i > self.i))
        E.oblige(st, 'precondition of Heapify: positions', And(t.idx == 0, 0 <= i, i < n, 0 <= m, m <= n))
        for nm, f in zip(('elements are given ones', 'elements are distinct', 'parts around n ordered', 'heap order but for i', 'the parent of i is above the children of i'), self.pre(A, n, m, i, lo)):
            E.oblige(st, 'precondition of Heapify: ' + nm, f, assume=False)
        B = E.fresh('heapified', A.sort())
        st.mem[t.reg.name] = ArrC(B)
        for f in self.kept(B, n, m) + [heap(B, lo, m), one(B, m, n, lambda j: sel(B, j) == sel(A, j))]:
            E.assume(st, f)
        return None


HEAPIFY = Heapify()


class Heap(Sort):
    callees = (SWAP, HEAPIFY)
    features = ('heap',)
    max_n = (1 << 31) - 1


class RootMax(Contract):
    """the root of a heap is a maximum: strong induction over the position"""
    lemma = True
    func = 'lemma: the root of a heap is a maximum'
    ensures_text = ('heap(A, 0, hi) implies rank(A[0]) >= rank(A[t]) for every 0 <= t < hi',)

    def lemmas(self):
        A = z3.Array('A', z3.IntSort(), z3.IntSort())
        t, hi, p = z3.Ints('t hi p')
        h = [0 <= t, t < hi, heap(A, I(0), hi)]
        return [('induction step', h + [Implies(t > 0, And(0 <= p, p < t, child(p, t))),
                                        Implies(t > 0, RANK(sel(A, 0)) >= RANK(sel(A, p)))], RANK(sel(A, 0)) >= RANK(sel(A, t))),
                ('the parent position exists', [t > 0], And(0 <= (t - 1) / 2, (t - 1) / 2 < t, Or(2 * ((t - 1) / 2) + 1 == t, 2 * ((t - 1) / 2) + 2 == t)))]


BUBBLE, SELECTION, INSERTION, HEAP = Sort('BubbleSort_sort'), Selection('SelectionSort_sort'), Insertion('InsertionSort_sort'), Heap('HeapSort_sort')
ROOTMAX = RootMax()
