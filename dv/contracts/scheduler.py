"""Scheduler: table of slots; a slot is free when its function is null."""
from .base import *

HDR, TY = 'scheduler.h', 'SchedulerTask_t'
sel = z3.Select


def table(E, st, name, n, ro=False):
    lay, size = layout(E, HDR, TY, ['function', 'active'])
    fo, ao = lay['function'][0], lay['active'][0]
    r = E.region(name, 'sarr', n=n, stride=size, fields={fo: (8, 'ptr'), ao: (1, 'bool')}, ro=ro)
    Fn = z3.Const(name + '_function', z3.ArraySort(z3.IntSort(), z3.IntSort()))
    Ac = z3.Const(name + '_active', z3.ArraySort(z3.IntSort(), z3.BoolSort()))
    st.mem[r.name] = SArrC({fo: Fn, ao: Ac})
    return r, fo, ao, Fn, Ac


class Init(Contract):
    func = 'Scheduler_init'
    requires_text = ('tasks designates num_of_tasks writable slots',)
    ensures_text = ('every slot is free',)

    def setup(self, E, st, case):
        n = int_param(E, 'num_of_tasks', 32)
        self.n = n._u
        E.naturals.append(self.n)
        self.r, self.fo, self.ao, self.F0, self.A0 = table(E, st, 'tasks', self.n)
        return [ptr(self.r), n]

    def invariants(self, E, X):
        if self.r.name not in X.arrs or self.fo not in X.arrs[self.r.name]:
            return
        A = X.arrs[self.r.name][self.fo][1]
        for nm, e in X.int_exprs:
            X.add('slots [0..%s) free' % nm, all_pat(I(0), e, A, lambda j: sel(A, j) == 0))
            X.add('slots [%s..n) free' % nm, all_pat(e, self.n, A, lambda j: sel(A, j) == 0))

    def post(self, E, st, case):
        A = st.mem[self.r.name].f[self.fo]
        goal(E, st, 'every slot is free', all_idx(I(0), self.n, lambda j: sel(A, j) == 0))


class Add(Contract):
    func = 'Scheduler_addTask'
    cases = ['a slot is free', 'no slot is free']
    requires_text = ('tasks designates max_num_tasks slots', 'new_task designates a task outside the table')
    ensures_text = ('a slot is free: true; the first free slot holds the task (function and active flag), all others are unchanged', 'no slot is free: false, nothing changes')

    def setup(self, E, st, case):
        n = int_param(E, 'max_num_tasks', 32)
        self.n = n._u
        E.naturals.append(self.n)
        self.r, self.fo, self.ao, self.F0, self.A0 = table(E, st, 'tasks', self.n)
        self.t, _, _, self.F1, self.A1 = table(E, st, 'new_task', I(1), True)
        self.w = z3.Int('first_free')
        used = lambda hi: all_pat(I(0), hi, self.F0, lambda j: sel(self.F0, j) != 0)
        if case == self.cases[0]:
            E.fact(And(0 <= self.w, self.w < self.n, sel(self.F0, self.w) == 0, used(self.w)))
            E.naturals.append(self.w)
        else:
            E.fact(used(self.n))
        return [ptr(self.r), n, ptr(self.t)]

    def invariants(self, E, X):
        bools = [(v.name, v.syms['b']) for v in X.vars.values() if v.rep == 'bool' and v.mode == 'fresh']
        arrs = X.arrs.get(self.r.name, {})
        for nm, e in X.int_exprs:
            X.add('%s <= first free' % nm, e <= self.w)
            X.add('slots [0..%s) used' % nm, all_pat(I(0), e, self.F0, lambda j: sel(self.F0, j) != 0))
            X.add('%s < 0 or first free' % nm, Or(e < 0, e == self.w))
            X.add('%s = n or first free' % nm, Or(e == self.n, e == self.w))
            for bn, b in bools:
                for g, gn in ((b, bn), (Not(b), '!' + bn)):
                    X.add('%s => %s <= first free' % (gn, nm), Implies(g, e <= self.w))
                    X.add('%s => %s = first free' % (gn, nm), Implies(g, e == self.w))
                    X.add('%s => %s = first free + 1' % (gn, nm), Implies(g, e == self.w + 1))
                    X.add('%s => slots [0..%s) used' % (gn, nm), Implies(g, all_pat(I(0), e, self.F0, lambda j: sel(self.F0, j) != 0)))
        for off, new in ((self.fo, self.F1), (self.ao, self.A1)):
            if off in arrs:
                A0, A = arrs[off]
                same = all_pat(I(0), self.n, A, lambda j: sel(A, j) == sel(A0, j))
                done = all_pat(I(0), self.n, A, lambda j: sel(A, j) == If(j == self.w, sel(new, 0), sel(A0, j)))
                X.add('column %d unchanged' % off, same)
                for bn, b in bools:
                    for g, gn in ((b, bn), (Not(b), '!' + bn)):
                        X.add('%s => column %d unchanged' % (gn, off), Implies(g, same))
                        X.add('%s => column %d holds the task' % (gn, off), Implies(g, done))

    def post(self, E, st, case):
        r = E.boolean(st.ret)
        Fn, Ac = st.mem[self.r.name].f[self.fo], st.mem[self.r.name].f[self.ao]
        there = case == self.cases[0]
        goal(E, st, 'status', r == z3.BoolVal(there))
        other = (lambda j: j != self.w) if there else (lambda j: TRUE)
        goal(E, st, 'other slots: function', all_idx(I(0), self.n, lambda j: Implies(other(j), sel(Fn, j) == sel(self.F0, j))))
        goal(E, st, 'other slots: active flag', all_idx(I(0), self.n, lambda j: Implies(And(other(j), sel(Fn, j) != 0), sel(Ac, j) == sel(self.A0, j))))
        if there:
            goal(E, st, 'the slot: function', sel(Fn, self.w) == sel(self.F1, 0))
            goal(E, st, 'the slot: active flag', sel(Ac, self.w) == sel(self.A1, 0))


CNT = z3.Function('Active', z3.IntSort(), z3.IntSort())


class Run(Contract):
    func = 'Scheduler_run'
    requires_text = ('task designates num_of_tasks slots',)
    ensures_text = ('with c(i) the number of active stored tasks among the first i slots: exactly c(n) calls are made, and the task in slot j is call number c(j) for every active stored task',)
    assumes_text = ('tasks return and do not modify the task table while it is being run',)

    def setup(self, E, st, case):
        n = int_param(E, 'num_of_tasks', 32)
        self.n = n._u
        E.naturals.append(self.n)
        self.r, self.fo, self.ao, self.F0, self.A0 = table(E, st, 'task', self.n, True)
        self.tr = E.region('ghost_trace', 'arr', n=self.n, w=8, rep='int')
        self.T0 = z3.Array('trace', z3.IntSort(), z3.IntSort())
        st.mem[self.tr.name] = ArrC(self.T0)
        self.gc = cells(E, st, 'ghost_calls', {(0, 8): IntV(64, u=I(0), s=I(0))}, 8)
        st.mem[self.gc.name] = CellC({(0, 8): con(64, 0)})
        E.fact(CNT(0) == 0)
        j = z3.FreshInt('q')
        E.fact(z3.ForAll([j], Implies(j >= 0, CNT(j + 1) == CNT(j) + If(self.act(j), I(1), I(0))), patterns=[sel(self.F0, j)]))
        return [ptr(self.r), n]

    def act(self, j):
        return And(sel(self.F0, j) != 0, sel(self.A0, j))

    def indirect(self, E, st, p, args, i):
        if args:
            raise Unsupported('task called with arguments')
        ts = E.targets(st, p, 'call of a task')
        x = I(0)
        for c, t in ts:
            if t.reg.kind != 'opaque':
                raise Unsupported('call of something else than a stored task')
            x = If(c, t.idx, x)
        n = E.u(st.mem[self.gc.name].cells[(0, 8)], st)
        E.arr_set(st, self.tr, n, IntV(64, u=simp(x)))
        if cval(n) is not None:
            # keep a plain array term
            st.mem[self.tr.name] = ArrC(E.arr(st, self.tr))
        st.mem[self.gc.name] = CellC({(0, 8): IntV(64, u=simp(n + 1), s=simp(n + 1))})
        return None

    def invariants(self, E, X):
        g = [v for v in X.vars.values() if v.key[0] == 'cell' and v.key[1] == self.gc.name]
        if not g or self.tr.name not in X.arrs:
            return
        n = g[0].val._u if g[0].val._u is not None else g[0].val._s
        A0, A = X.arrs[self.tr.name]
        for nm, e in X.int_exprs:
            # instances of the definition of CNT
            E.static_facts.append(Implies(e >= 0, CNT(e + 1) == CNT(e) + If(self.act(e), I(1), I(0))))
            X.add('calls so far = active tasks in [0..%s)' % nm, n == CNT(e))
            X.add('%s: ranks' % nm, all_pat(I(0), e, self.F0, lambda j: Implies(self.act(j), And(0 <= CNT(j), CNT(j) + 1 <= CNT(e)))))
            X.add('%s: counted' % nm, CNT(e) >= 0)
            X.add('%s: calls in order' % nm, all_pat(I(0), e, self.F0, lambda j: Implies(self.act(j), sel(A, CNT(j)) == sel(self.F0, j))))
            X.add('%s: counter' % nm, CNT(e) <= e)

    def post(self, E, st, case):
        n = E.u(st.mem[self.gc.name].cells[(0, 8)], st)
        A = E.arr(st, self.tr)
        goal(E, st, 'number of calls', n == CNT(self.n))
        goal(E, st, 'every active task is called once, in slot order', all_idx(I(0), self.n, lambda j: Implies(self.act(j), sel(A, CNT(j)) == sel(self.F0, j))))


INIT, ADD, RUN = Init(), Add(), Run()
