"""Loops that copy or exchange opaque elements byte by byte.

The contracts treat an element of run-time size S as one value (a row). A loop of S iterations whose k-th iteration
moves exactly byte o(k) of some rows to the same byte of other rows, o(k) = k or o(k) = S - 1 - k, moves the rows.
The loop is recognised by what it does, not by its text: its header and body are executed once for an arbitrary
iteration k with 0 <= k < S, where an access inside a row at an offset proved to be o(k) is recorded. The rule applies
if one iteration does nothing else (no other memory is changed, no way out of the body), every loop variable is its
initial value plus or minus k, the loop is not left before iteration S (proved) and is left then (proved). All reads of
an iteration come before its writes or concern other objects; different rows share no bytes and an iteration touches
byte o(k) only, so the reads give the contents before the loop and the loop is a simultaneous copy of whole rows.
Obligations: every row is inside its object, and objects that are not to be written are not written."""
import z3
from .core import Unsupported, State, IntV, PtrV, Tgt, ArrC, I, TRUE, FALSE, And, Not, simp, cval


class Ctx:
    def __init__(self, E, S, k):
        self.E = E
        self.S = S
        self.k = k
        self.loads = []        # (fresh symbol, region, row)
        self.stores = []       # (region, row, load number)
        self.order = []
        self.dir = None

    def offset(self, st, o):
        o = simp(o)
        S = self.S.sym
        for d, t in (('up', self.k), ('down', S - 1 - self.k)):
            if self.dir in (None, d) and self.E.prove(st, o == t):
                self.dir = d
                return
        raise Unsupported('access inside an opaque element at another offset')

    def load(self, st, r, t):
        if r.stride is not self.S:
            raise Unsupported('byte access to an element of another size')
        self.offset(st, t.rem[1])
        for rr, _, _ in self.stores:
            if rr is r:
                raise Unsupported('read after write in a byte-wise loop')
        self.E.oblige(st, 'read within %s' % r.name, self.E.in_bounds(Tgt(r, t.idx)))
        x = self.E.fresh('byte')
        self.loads.append((x, r, t.idx))
        self.E.assume(st, And(x >= 0, x < 256))
        return IntV(8, u=x)

    def store(self, st, r, t, v):
        if r.stride is not self.S:
            raise Unsupported('byte access to an element of another size')
        self.offset(st, t.rem[1])
        u = simp(self.E.u(v, st))
        for n, (x, _, _) in enumerate(self.loads):
            if x.eq(u):
                break
        else:
            raise Unsupported('a byte that is not copied is written inside an opaque element')
        if r.ro:
            self.E.oblige(st, 'frame: %s is not written' % r.name, FALSE)
            raise Unsupported('write to a read-only element')
        self.E.oblige(st, 'write within %s' % r.name, self.E.in_bounds(Tgt(r, t.idx)))
        self.stores.append((r, t.idx, n))


def decompose(E, st, r, idx, o):
    """idx rows and o bytes with the whole rows in o moved to idx"""
    o = simp(o)
    parts = o.children() if z3.is_add(o) else [o]
    rest = []
    for t in parts:
        m, x = 1, t
        if z3.is_mul(t) and t.num_args() == 2 and cval(t.arg(0)) in (1, -1):
            m, x = cval(t.arg(0)), t.arg(1)
        if z3.is_app(x) and x.decl().eq(r.stride.mul):
            idx = idx + m * x.arg(0)
        else:
            rest.append(t)
    o = simp(z3.Sum(rest)) if rest else I(0)
    S = r.stride.sym
    if not E.prove(st, And(o >= 0, o <= S)):
        for d in (1, -1):
            if E.prove(st, And(o - d * S >= 0, o - d * S <= S)):
                return simp(idx + d), simp(o - d * S)
    return simp(idx), o


def steps(E, L):
    """phi -> +1 or -1 per iteration, or None"""
    f = E.f
    defs = {i.res: i for b in L.blocks for i in f.blocks[b] if getattr(i, 'res', None)}
    out = {}
    for ph in E.phis(L.header):
        back = [x for l, x in ph.inc if l in L.blocks]
        if len(back) != 1 or back[0][0] != 'l':
            return None
        i = defs.get(back[0][1])
        if i is None:
            return None
        me = ('l', ph.res)
        d = None
        if i.op in ('add', 'sub'):
            a, b = [x[1] for x in i.args]
            if i.op == 'add' and b == me:
                a, b = b, a
            if a == me and b[0] == 'c':
                w = E.types.resolve(ph.ty)[1]
                c = b[1] % (1 << w)
                c = c - (1 << w) if c >> (w - 1) else c
                d = c if i.op == 'add' else -c
        elif i.op == 'getelementptr' and i.args[0][1] == me and len(i.idx) == 1 and E.types.size(E.types.resolve(i.bty)) == 1 and i.idx[0][1][0] == 'c':
            w = E.types.resolve(i.idx[0][0])[1]
            c = i.idx[0][1][1] % (1 << w)
            d = c - (1 << w) if c >> (w - 1) else c
        if d not in (1, -1):
            return None
        out[ph.res] = d
    return out


def bytewise(E, L):
    """could this loop be one? (cheap)"""
    ops = [i for b in L.blocks for i in E.f.blocks[b]]
    if len(L.blocks) > 4 or any(i.op in ('call', 'ret', 'alloca', 'unreachable') for i in ops):
        return False
    if not any(r.kind == 'rows' for r in E.regions.values()):
        return False
    return any(i.op == 'store' and E.types.resolve(i.args[0][0]) == ('i', 8) for i in ops) and any(i.op == 'load' and E.types.resolve(i.ty) == ('i', 8) for i in ops)


def at(E, st, init, d, k, S):
    """the value of a loop variable in iteration k (0 <= k <= S)"""
    if isinstance(init, PtrV):
        alts = []
        some = [(c, t) for c, t in init.alts if t is not None or not E.prove(st, Not(c))]
        for c, t in some if len(some) > 1 else [(TRUE, t) for _, t in some]:
            if t is None or t.reg.kind != 'rows' or t.rem != 0:
                raise Unsupported('pointer variable of a byte-wise loop')
            if k is S.sym:
                alts.append((c, Tgt(t.reg, simp(t.idx + d), 0)))
            elif k is None:
                alts.append((c, t))
            elif d == 1:
                alts.append((c, Tgt(t.reg, t.idx, ('x', k))))
            else:       # counts down from the row's end: inside the row before
                alts.append((c, Tgt(t.reg, simp(t.idx - 1), ('x', simp(S.sym - k)))))
        return PtrV(alts)
    if init.w == 1 or init.ptr is not None:
        raise Unsupported('variable of a byte-wise loop')
    u = E.u(init, st)
    t = simp(u + d * k)
    if not E.prove(st, And(t >= 0, t < (1 << init.w))):
        raise Unsupported('counter of a byte-wise loop wraps around')
    if k is S.sym and cval(u) == 0 and d == 1:
        return IntV(init.w, u=S.sym, lin=(S, I(1), I(0)), raw=S.sym)
    if cval(t) is not None:
        from .core import con
        return con(init.w, cval(t))
    return IntV(init.w, u=t, raw=t)


def attempt(E, L, incoming):
    """-> outs of the loop, or None"""
    if not bytewise(E, L):
        return None
    sd = steps(E, L)
    if not sd:
        return None
    strides = []
    for r in E.regions.values():
        if r.kind == 'rows' and r.stride is not None and r.stride not in strides:
            strides.append(r.stride)
    from . import loops
    for S in strides:
        s = loops.snap(E)
        logs = {x: len(E.g[x]) for x in ('cmps', 'subs', 'stores') if x in E.g}
        old = E.g.get('bytes')
        try:
            return one(E, L, incoming, sd, S)
        except Unsupported as e:
            if loops.DEBUG:
                print('byte-wise loop %s: %s' % (L.header, e))
        finally:
            E.g['bytes'] = old
        loops.restore(E, s)
        for x, n in logs.items():
            del E.g[x][n:]
    return None


def one(E, L, incoming, sd, S):
    hs = E.enter(L.header, incoming)
    init = {ph.res: hs.env[ph.res] for ph in E.phis(L.header)}
    k = E.fresh('k')
    st = hs.copy()
    st.pc = hs.pc + (And(k >= 0, k < S.sym),)
    cx = E.g['bytes'] = Ctx(E, S, k)
    for p, v in init.items():
        st.env[p] = at(E, st, v, sd[p], k, S)
    outs = E.exec_range(L.blocks, L.header, [(None, st)], L.header)
    back = [x for x in outs if x[1] == L.header]
    if len(back) != 1 or not cx.stores:
        raise Unsupported('shape of a byte-wise loop')
    for (_, _, o) in outs:
        if o is not back[0][2] and not E.prove(o, FALSE):
            raise Unsupported('a byte-wise loop may end early')
    o = back[0][2]
    for n, c in hs.mem.items():
        if o.mem.get(n) is not c:
            if E.regions[n].kind == 'cells' and all(o.mem[n].cells.get(x) is v for x, v in c.cells.items()):
                continue
            raise Unsupported('a byte-wise loop changes something else')
    # in the iteration after the last one nothing is touched any more
    E.g['bytes'] = None
    fin = hs.copy()
    pre = {r.name: E.mat(r, hs.mem[r.name]) for r, _, _ in cx.stores}
    pre.update({r.name: E.mat(r, hs.mem[r.name]) for _, r, _ in cx.loads})
    cur = {}
    for r, idx, n in cx.stores:
        _, rs, si = cx.loads[n]
        cur[r.name] = z3.Store(cur.get(r.name, pre[r.name]), idx, z3.Select(pre[rs.name], si))
        if 'stores' in E.g:
            E.g['stores'].append((r.name, idx))
    for n, A in cur.items():
        fin.mem[n] = ArrC(A)
    E.assume(fin, S.sym >= 1)
    for p, v in init.items():
        fin.env[p] = at(E, fin, v, sd[p], S.sym, S)
    res = []
    for dst, s2 in E.exec_block(L.header, fin):
        if dst in L.blocks:
            if not E.prove(s2, FALSE):
                raise Unsupported('a byte-wise loop may go on')
        else:
            res.append((L.header, dst, s2))
    if len(res) != 1:
        raise Unsupported('shape of a byte-wise loop')
    E.notes.add('byte-wise loop over an opaque element taken as a copy of whole elements')
    return res
