"""Loop rule: concrete unrolling, or cut-point with ghost iteration counter and inferred invariants."""
import os
import re
import sys

import z3

from .ir import Unsupported
from . import solver

DEBUG = os.environ.get('DV_DEBUG')


def _core():
    from . import core
    return core


def consts(t, seen=None, out=None):
    seen = set() if seen is None else seen
    out = {} if out is None else out
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
        st.extend(x.children())
    return out


def serial(name):
    m = re.search(r'!(\d+)$', name)
    return int(m.group(1)) if m else 0


def snap(E):
    return (len(E.facts), len(E.obls), set(E.notes), len(E.loopinfo), dict((r, list(x.witness)) for r, x in E.regions.items()))


def restore(E, s):
    del E.facts[s[0]:]
    del E.obls[s[1]:]
    E.notes = s[2]
    del E.loopinfo[s[3]:]
    for r, w in s[4].items():
        E.regions[r].witness = list(w)


def exec_loop(self, L, incoming):
    from . import rowcopy
    if self.g.get('bytes') is None:
        r = rowcopy.attempt(self, L, incoming)
        if r is not None:
            return r
    u = getattr(self.c, 'unroll', None)
    if callable(u):
        u = u(self, self.case)
    if u is not None:
        return self.unroll(L, incoming, u, True)
    s = snap(self)
    logs = {x: len(self.g[x]) for x in ('cmps', 'subs', 'stores') if x in self.g}
    try:
        r = self.unroll(L, incoming, getattr(self.c, 'auto_unroll', 80), False)
    except Unsupported:
        r = None
    if r is not None:
        # a counted loop over an object of unknown extent is better served by an invariant
        big = [n for n, x in self.regions.items() if x.kind == 'arr' and cz(x.n) is None]
        m0 = incoming[0][1].mem
        if not (getattr(self.c, 'cut_counted', False) and any(m0.get(n) is not st.mem.get(n) for n in big for (_, d, st) in r)):
            return r
    restore(self, s)
    for x, n in logs.items():
        del self.g[x][n:]
    return self.cut(L, incoming)


def unroll(self, L, incoming, limit, force):
    C = _core()
    cur = incoming
    outs = []
    n = 0
    while True:
        hs = self.enter(L.header, cur)
        o = self.exec_range(L.blocks, L.header, [(None, hs)], L.header)
        backs = [(a, s) for (a, d, s) in o if d == L.header]
        exits = [x for x in o if x[1] != L.header]
        if backs and exits and not force:
            return None
        outs += exits
        if not backs:
            return outs
        n += 1
        if n > limit:
            if not force:
                return None
            st = self.merge([s for _, s in backs])
            self.where = ('loop', 0, self.f.name)
            self.oblige(st, 'loop runs at most %d times' % limit, C.FALSE)
            return outs
        if force and n > 1:
            # drop infeasible continuations early
            backs2 = [(a, s) for a, s in backs if not self.prove(s, C.FALSE, 800)] if n % 4 == 0 or (n < 40 and limit == 70) else backs
            if not backs2:
                return outs
            backs = backs2
        cur = backs


class Slot:
    """one symbol of a loop variable and how to read it off a value"""

    def __init__(self, sym, get):
        self.sym = sym
        self.get = get


def make_slots(E, v, C):
    """(re)build symbols of a fresh loop variable; sets v.val, v.slots"""
    init = v.init
    nm = v.name
    if v.rep == 'ptr':
        T = v.targets
        slots = []
        alts = []
        if len(T) > 1:
            if 'sel' not in v.syms:
                v.syms['sel'] = E.fresh(nm + '_sel')
                E.static_facts.append(C.And(v.syms['sel'] >= 0, v.syms['sel'] < len(T)))
            sel = v.syms['sel']

            def getsel(st, p):
                t = C.I(0)
                for c, a in p.alts:
                    t = C.If(c, C.I(index_of(T, a)), t)
                return t
            slots.append(Slot(sel, getsel))
        for n, x in enumerate(T):
            c = C.TRUE if len(T) == 1 else sel == n
            if x is None:
                alts.append((c, None))
                continue
            key = 'idx%d' % n
            if x[0].kind in ('cells', 'func'):
                alts.append((c, C.Tgt(x[0], C.I(0), x[1])))
                continue
            if v.mode == 'affine' and len(T) == 1:
                alts.append((c, C.Tgt(x[0], C.simp(v.i0 + v.step * v.k), x[1])))
                continue
            if key not in v.syms:
                v.syms[key] = E.fresh('%s_%s' % (nm, x[0].name))

            def getidx(st, p, n=n):
                t = C.I(0)
                for c2, a in p.alts:
                    if index_of(T, a) == n:
                        t = a.idx if z3.is_true(c2) else C.If(c2, a.idx, t)
                return t
            slots.append(Slot(v.syms[key], getidx))
            alts.append((c, C.Tgt(x[0], v.syms[key], x[1])))
        v.val = C.PtrV(alts)
        v.slots = slots
        return
    w = init.w
    if v.rep == 'bool':
        if 'b' not in v.syms:
            v.syms['b'] = E.fresh(nm, z3.BoolSort())
        v.val = C.IntV(w, b=v.syms['b'])
        v.slots = [Slot(v.syms['b'], lambda st, x: E.boolean(x))]
        return
    if v.rep == 'bv':
        if v.mode == 'affine':
            v.val = C.IntV(w, bv=v.i0 + v.step * z3.Int2BV(v.k, w))
            v.slots = []
            return
        if 'bv' not in v.syms:
            v.syms['bv'] = E.fresh(nm, z3.BitVecSort(w))
        v.val = C.IntV(w, bv=v.syms['bv'])
        v.slots = [Slot(v.syms['bv'], lambda st, x: E.bv(x))]
        return
    if v.rep == 'lin':
        S = v.stride
        if v.mode == 'affine':
            cc = C.simp(v.i0 + v.step * v.k)
            v.val = E.mk_lin(w, (S, cc, C.I(0)), None, v.view == 's')
            v.slots = []
            return
        if 'c' not in v.syms:
            v.syms['c'] = E.fresh(nm + '_c')
        v.val = E.mk_lin(w, (S, v.syms['c'], C.I(0)), None, v.view == 's')
        v.slots = [Slot(v.syms['c'], lambda st, x: lin_c(x, C))]
        return
    # int
    get = (lambda st, x: E.u(x, st)) if v.view == 'u' else (lambda st, x: E.s(x, st))
    if v.mode == 'affine':
        t = C.simp(v.i0 + v.step * v.k)
        both = False
        lo, hi = (0, 1 << w) if v.view == 'u' else (-(1 << (w - 1)), 1 << (w - 1))
        v.val = C.IntV(w, u=t if v.view == 'u' else None, s=t if v.view == 's' else None, raw=t)
        v.rng = C.And(t >= lo, t < hi)
        v.slots = []
        v.get = get
        return
    lo, hi = (0, 1 << w) if v.view == 'u' else (-(1 << (w - 1)), 1 << (w - 1))
    if 'i' not in v.syms:
        t = E.fresh(nm)
        v.syms['i'] = t
        E.static_facts.append(C.And(t >= lo, t < hi))
    t = v.syms['i']
    v.val = C.IntV(w, u=t if v.view == 'u' else None, s=t if v.view == 's' else None, raw=t)
    v.slots = [Slot(t, get)]


def lin_c(x, C):
    if x.lin is not None:
        return x.lin[1]
    if x.con == 0:
        return C.I(0)
    raise Unsupported('element offset became irregular in a loop')


def index_of(T, a):
    for n, x in enumerate(T):
        if a is None and x is None:
            return n
        if a is not None and x is not None and x[0] is a.reg and x[1] == a.rem:
            return n
    raise Unsupported('pointer target changes in a loop')


def targets_of(p):
    out = []
    for c, a in p.alts:
        out.append(None if a is None else (a.reg, a.rem))
    return out


def syn_bool(E, name):
    """the SSA value is 0 or 1 by construction"""
    defs = E.g.get('defs')
    if defs is None or E.g.get('defs_of') is not E.f:
        defs = {i.res: i for b in E.f.order for i in E.f.blocks[b] if i.res is not None}
        E.g['defs'], E.g['defs_of'] = defs, E.f
    seen = set()

    def ok(v):
        if v[0] == 'c':
            return v[1] in (0, 1)
        if v[0] in ('zero',):
            return True
        if v[0] != 'l':
            return False
        if v[1] in seen:
            return True
        seen.add(v[1])
        i = defs.get(v[1])
        if i is None:
            return False
        if i.op == 'zext':
            return i.args[0][0] == ('i', 1) or ok(i.args[0][1])
        if i.op == 'phi':
            return all(ok(x) for l, x in i.inc)
        if i.op == 'select':
            return ok(i.args[1][1]) and ok(i.args[2][1])
        if i.op in ('and', 'or', 'xor'):
            return all(ok(a[1]) for a in i.args)
        return False
    return ok(('l', name))


def init_rep(E, v):
    C = _core()
    x = v.init
    v.syms = {}
    if isinstance(x, C.PtrV):
        v.rep = 'ptr'
        v.targets = targets_of(x)
        return
    if x.ptr is not None:
        raise Unsupported('integer copy of a pointer carried through a loop')
    if x.b is not None or (v.key[0] == 'phi' and (x.con is not None and x.con <= 1) and syn_bool(E, v.key[1])):
        v.rep = 'bool'
    elif x.lin is not None and cz(x.lin[2]) == 0:
        v.rep = 'lin'
        v.stride = x.lin[0]
        v.view = 's' if x._s is not None and x._u is None else 'u'
    elif x.con is not None:
        v.rep = E.default_rep
        v.view = 'u'
    elif x.real_bv() and not x.real_int():
        v.rep = 'bv'
    elif x.real_bv():
        v.rep = E.default_rep
    else:
        v.rep = 'int'
        v.view = 's' if x._s is not None and x._u is None else 'u'


def cz(t):
    C = _core()
    return C.cval(t)


def cut(self, L, incoming):
    C = _core()
    E = self
    h = L.header
    st0 = E.enter(h, incoming)
    where0 = E.where
    start = E.cnt
    E.cnt += 1
    k = E.fresh('k')
    E.static_facts.append(k >= 0)
    vars = {}
    for ph in E.phis(h):
        v = C.LoopVar(('phi', ph.res), st0.env[ph.res])
        v.name = ph.res.strip('%').replace('.', '_')
        v.k = k
        init_rep(E, v)
        vars[v.key] = v
    arrmod = {}     # region -> array symbol(s)
    cellmod = set()

    def build():
        hs = st0.copy()
        for v in vars.values():
            if v.mode == 'inv':
                v.val = v.init
                v.slots = []
            else:
                make_slots(E, v, C)
            if v.key[0] == 'phi':
                hs.env[v.key[1]] = v.val
        for rn, sym in arrmod.items():
            r = E.regions[rn]
            if r.kind == 'sarr':
                f = dict(hs.mem[rn].f)
                f.update(sym)
                hs.mem[rn] = C.SArrC(f)
            else:
                hs.mem[rn] = C.ArrC(sym)
        for v in vars.values():
            if v.key[0] == 'cell':
                _, rn, off = v.key
                cells = dict(hs.mem[rn].cells)
                cells[off] = v.val
                hs.mem[rn] = C.CellC(cells)
        return hs

    def body(hs):
        sc = C.LoopCtx()
        sc.k, sc.vars = k, vars
        E.g.setdefault('scopes', []).append(int_exprs(E, sc, C))
        try:
            o = E.exec_range(L.blocks, h, [(None, hs)], h)
        finally:
            E.g['scopes'].pop()
        backs = [(a, s) for (a, d, s) in o if d == h]
        exits = [x for x in o if x[1] != h]
        bk = E.enter(h, backs) if backs else None
        return bk, exits

    def bkval(v, bk):
        if v.key[0] == 'phi':
            return bk.env[v.key[1]]
        return bk.mem[v.key[1]].cells[v.key[2]]

    hdrnames = None
    cmps = subs = None
    old_c, old_s, old_w = E.g.get('cmps'), E.g.get('subs'), E.g.get('stores')
    stores = None

    def header_syms():
        s = {k.decl().name()}
        for v in vars.values():
            for sl in v.slots:
                s.add(sl.sym.decl().name())
        for sym in arrmod.values():
            for x in (sym.values() if isinstance(sym, dict) else [sym]):
                s.add(x.decl().name())
        return s

    def invariant_term(t):
        hs = header_syms()
        for n in consts(t):
            if n in hs or serial(n) > start:
                return False
        return True

    def header_term(t):
        hs = header_syms()
        for n in consts(t):
            if n not in hs and serial(n) > start:
                return False
        return True

    def analyse():
        """dry runs until the set of modified objects and the variable modes are stable"""
        nonlocal cmps, subs, stores
        for rnd in range(40):
            hs = build()
            s = snap(E)
            E.g['cmps'], E.g['subs'], E.g['stores'] = [], [], []
            hb = State_facts(hs)
            for f in hb:
                E.fact(f)
            bk, exits = body(hs)
            cmps, subs, stores = E.g['cmps'], E.g['subs'], E.g['stores']
            again = False
            if bk is None:
                restore(E, s)
                return None
            # memory
            for rn in list(hs.mem):
                if rn not in bk.mem:
                    continue
                a, b = hs.mem[rn], bk.mem[rn]
                if a is b:
                    continue
                r = E.regions[rn]
                if r.kind in ('arr', 'rows'):
                    if rn not in arrmod:
                        if E.mat(r, a).eq(E.mat(r, b)):
                            continue
                        arrmod[rn] = E.fresh(rn, E.arr_sort(r) if r.kind == 'arr' else z3.ArraySort(z3.IntSort(), z3.IntSort()))
                        again = True
                elif r.kind == 'sarr':
                    d = arrmod.get(rn, {})
                    ch = False
                    for off in r.fields:
                        if off not in d and not a.f[off].eq(b.f[off]):
                            d = dict(d)
                            d[off] = E.fresh('%s_%d' % (rn, off), a.f[off].sort())
                            ch = True
                    if ch:
                        arrmod[rn] = d
                        again = True
                elif r.kind == 'cells':
                    for key, val in a.cells.items():
                        if ('cell', rn, key) in vars:
                            continue
                        nv = b.cells.get(key)
                        if nv is val:
                            continue
                        if nv is None:
                            raise Unsupported('structure field lost in a loop')
                        if not isinstance(val, C.PtrV) and not isinstance(nv, C.PtrV) and val.con is not None and val.con == nv.con:
                            continue
                        v = C.LoopVar(('cell', rn, key), val)
                        v.name = '%s_%d' % (rn, key[0])
                        v.k = k
                        init_rep(E, v)
                        vars[v.key] = v
                        again = True
            if again:
                restore(E, s)
                continue
            # variables
            for v in vars.values():
                if v.mode in ('inv', 'affine'):
                    continue
                x = bkval(v, bk)
                if v.rep == 'ptr':
                    T = list(v.targets)
                    for t in targets_of(x):
                        try:
                            index_of(T, None if t is None else C.Tgt(t[0], C.I(0), t[1]))
                        except Unsupported:
                            T.append(t)
                    if len(T) != len(v.targets):
                        v.targets = T
                        v.syms = {}
                        again = True
                        continue
                    if len(T) == 1 and T[0] is not None and T[0][0].kind not in ('cells', 'func') and not v.noaff:
                        d = C.simp(x.alts[0][1].idx - v.val.alts[0][1].idx)
                        if invariant_term(d):
                            v.i0 = v.init.alts[0][1].idx
                            v.step = d
                            v.mode = 'inv' if cz(d) == 0 else 'affine'
                            again = True
                    continue
                if x.ptr is not None:
                    raise Unsupported('integer copy of a pointer carried through a loop')
                if v.rep == 'bool':
                    if not (x.b is not None or (x.con is not None and x.con <= 1)):
                        v.rep = E.default_rep
                        again = True
                    elif x.b is not None and x.b.eq(v.syms['b']):
                        v.mode = 'inv'
                        again = True
                    continue
                if x is v.val:
                    v.mode = 'inv'
                    again = True
                    continue
                if v.init.con is not None and v.init.con <= 1 and (x.b is not None or (x.con is not None and x.con <= 1)) and v.rep != 'bool' \
                        and not getattr(v, 'boolfail', False) and (x.b is not None or v.init.w == 1 or x.con != v.init.con):
                    v.rep = 'bool'
                    v.boolfail = True
                    again = True
                    continue
                if v.rep == 'lin':
                    if x.lin is None and x.con != 0:
                        v.rep = 'int'
                        again = True
                        continue
                    sg = x._u is None and x._s is not None
                    if sg and v.view == 'u' and v.init.con is not None:
                        v.view = 's'
                        again = True
                        continue
                    d = C.simp(lin_c(x, C) - v.val.lin[1])
                    if not v.noaff and invariant_term(d):
                        v.i0 = lin_c(v.init, C)
                        v.step = d
                        v.mode = 'inv' if cz(d) == 0 else 'affine'
                        again = True
                    continue
                if v.rep == 'int':
                    if x.real_bv() and not x.real_int():
                        v.rep = 'bv'
                        again = True
                        continue
                    if x.lin is not None and cz(x.lin[2]) == 0 and (v.init.con == 0 or v.init.lin is not None):
                        v.rep = 'lin'
                        v.stride = x.lin[0]
                        v.view = 's' if x._u is None else 'u'
                        again = True
                        continue
                    if x._u is None and x._s is not None and v.view == 'u' and x.con is None and not getattr(v, 'vw', False):
                        v.view = 's'
                        v.vw = True
                        v.syms = {}
                        again = True
                        continue
                    if v.noaff:
                        continue
                    t = x.raw if x.raw is not None else (E.u(x) if v.view == 'u' else E.s(x))
                    d = C.simp(t - v.syms['i'])
                    if invariant_term(d):
                        v.i0 = E.u(v.init) if v.view == 'u' else E.s(v.init)
                        v.step = d
                        v.mode = 'inv' if cz(d) == 0 else 'affine'
                        again = True
                    continue
                if v.rep == 'bv':
                    if not x.has_bv():
                        if v.init.con is not None or v.init.has_int():
                            v.rep = 'int'
                            v.view = 's' if x._u is None else 'u'
                            again = True
                            continue
                    if v.noaff:
                        continue
                    d = C.simp(E.bv(x) - v.syms['bv'])
                    if invariant_term(d):
                        v.i0 = E.bv(v.init)
                        v.step = d
                        v.mode = 'inv' if z3.is_bv_value(d) and d.as_long() == 0 else 'affine'
                        again = True
                    continue
            restore(E, s)
            if not again:
                return hs
        raise Unsupported('loop analysis does not settle')

    def State_facts(hs):
        out = []
        pc = hs.cond()
        for v in vars.values():
            if v.mode == 'affine' and v.rep == 'int':
                out.append(C.Implies(pc, v.rng))
        return out

    for attempt in range(6):
        E.g.setdefault('icache', []).append({})
        E.g['dry'] = E.g.get('dry', 0) + 1
        was = E.g.get('light')
        lenient0 = E.g.get('lenient')
        E.g['light'] = True
        s = snap(E)
        try:
            # what a loop modifies seldom depends on the invariants of the loops inside it
            hs = analyse()
        except Unsupported:
            if was:
                raise
            restore(E, s)
            E.g['light'] = False
            E.g['icache'][-1] = {}
            try:
                hs = analyse()
            except Unsupported:
                # an element's position may be known only under the invariants: any position will do to see what is modified
                if E.g.get('lenient'):
                    raise
                restore(E, s)
                E.g['icache'][-1] = {}
                E.g['lenient'] = True
                hs = analyse()
        finally:
            E.g['light'] = was
            E.g.pop('lenient', None) if not lenient0 else None
            E.g['dry'] -= 1
            E.g['icache'].pop()
        if hs is None:
            # body never loops back: a single pass
            hs2 = st0.copy()
            o = E.exec_range(L.blocks, h, [(None, hs2)], h)
            E.g['cmps'], E.g['subs'], E.g['stores'] = old_c, old_s, old_w
            if old_c is None:
                E.g.pop('cmps'), E.g.pop('subs'), E.g.pop('stores')
            return o
        # ---- candidates
        X = C.LoopCtx()
        X.E, X.k, X.vars, X.st0, X.hs, X.loop = E, k, vars, st0, hs, L
        X.arrs = {}
        for rn, sym in arrmod.items():
            r = E.regions[rn]
            if r.kind == 'sarr':
                X.arrs[rn] = {off: (st0.mem[rn].f[off], s) for off, s in sym.items()}
            else:
                X.arrs[rn] = (E.mat(r, st0.mem[rn]), sym)
        X.cmps, X.subs, X.stores = cmps, subs, {}
        for rn, t in stores:
            if header_term(t):
                l = X.stores.setdefault(rn, [])
                t = C.simp(t)
                if not any(t.eq(y) for y in l):
                    l.append(t)
        X.where = where0
        X.outer = [('outer ' + nm, t) for l in E.g.get('scopes', []) for nm, t in l]
        X.blocks_where = loop_where(E, L)
        cands = []
        seen = set()

        def add(name, term):
            t = term
            if not z3.is_bool(t):
                return
            if not z3.is_quantifier(t):
                t = C.simp(t)
            if z3.is_true(t) or z3.is_false(t) or t.get_id() in seen:
                return
            if not header_term(t):
                return
            seen.add(t.get_id())
            E.keep.append(t)
            cands.append(C.Cand(name, t))
        X.add = add
        X.lemmas = []
        X.header_term = header_term
        X.invariant_term = invariant_term
        X.int_exprs = int_exprs(E, X, C)
        generic(E, X, C)
        if hasattr(E.c, 'invariants') and not E.g.get('light'):
            E.c.invariants(E, X)
        # repeated analysis of an inner loop, under weaker and weaker hypotheses: start from what was inductive before
        cache = E.g['icache'][-1] if E.g.get('icache') else None
        ckey = (E.f.name, h)
        if cache is not None and ckey in cache:
            cands = [c for c in cands if c.name in cache[ckey]]
        mand = []
        for v in vars.values():
            if v.mode == 'affine':
                mand.append(v)

        def subst_map(get, kk):
            m = [(k, kk)]
            for v in vars.values():
                for sl in v.slots:
                    m.append((sl.sym, get(v, sl)))
            return m

        # ---- entry
        E.where = X.blocks_where
        ms = E.qms if not E.g.get('dry') else min(E.qms, 400)
        m0 = subst_map(lambda v, sl: sl.get(st0, v.init), C.I(0))
        for rn, sym in arrmod.items():
            if isinstance(sym, dict):
                for off, sy in sym.items():
                    m0.append((sy, st0.mem[rn].f[off]))
            else:
                m0.append((sym, E.mat(E.regions[rn], st0.mem[rn])))
        base = E.allfacts() + list(st0.pc)
        kept = []
        goals = [(c, z3.substitute(c.term, *m0)) for c in cands]
        kept, slow = filter_goals(E, base, goals, ms)
        entry = (base, {c.name: g for c, g in goals})
        step = None
        cands = kept
        if DEBUG:
            print('LOOP', E.f.name, h, X.blocks_where, 'vars', [(v.name, v.rep, v.mode, str(v.step) if v.step is not None else '') for v in vars.values()],
                  'mem', list(arrmod), 'entry', len(goals), '->', len(cands), file=sys.stderr)
        # ---- inductive
        redo = False
        E.g.setdefault('icache', []).append({})
        while True:
            s = snap(E)
            hs = build()
            for f in State_facts(hs):
                E.fact(f)
            pc = hs.cond()
            for c in cands:
                E.fact(C.Implies(pc, c.term))
            for t in X.lemmas:
                E.fact(t)
            E.g['cmps'], E.g['subs'], E.g['stores'] = [], [], []
            bk, exits = body(hs)
            if bk is None:
                break
            E.where = X.blocks_where
            m1 = subst_map(lambda v, sl: sl.get(bk, bkval(v, bk)), k + 1)
            for rn, sym in arrmod.items():
                if isinstance(sym, dict):
                    for off, sy in sym.items():
                        m1.append((sy, bk.mem[rn].f[off]))
                else:
                    m1.append((sym, E.mat(E.regions[rn], bk.mem[rn])))
            base = E.allfacts() + list(bk.pc)
            bad = None
            for v in mand:
                x = bkval(v, bk)
                if v.rep == 'ptr':
                    g = x.alts[0][1].idx == v.i0 + v.step * (k + 1)
                elif v.rep == 'lin':
                    g = lin_c(x, C) == v.i0 + v.step * (k + 1)
                elif v.rep == 'bv':
                    base2 = base + [z3.Int2BV(k + 1, v.init.w) == z3.Int2BV(k, v.init.w) + 1]
                    g = E.bv(x) == v.i0 + v.step * z3.Int2BV(k + 1, v.init.w)
                    r, _ = solver.check(base2, g, ms)
                    if r != 'proved':
                        bad = v
                        break
                    continue
                else:
                    g = v.get(bk, x) == v.i0 + v.step * (k + 1)
                g = C.simp(g)
                if z3.is_true(g):
                    continue
                r, _ = solver.check(base, g, ms)
                if r != 'proved':
                    if DEBUG:
                        print('   affine fails', v.name, g, file=sys.stderr)
                    bad = v
                    break
            goals = [(c, z3.substitute(c.term, *m1)) for c in cands]
            if bad is None:
                kept, slow = filter_goals(E, base, goals, ms)
                step = (base, {c.name: g for c, g in goals})
                if DEBUG:
                    print('   round', len(goals), '->', len(kept), [c.name for c in cands if c not in kept][:12], file=sys.stderr)
                if len(kept) == len(cands):
                    break
            if bad is not None:
                # a candidate may be needed for it: only give up the affine form if nothing else can be dropped
                bad.noaff = True
                bad.mode = 'fresh'
                bad.step = None
                restore(E, s)
                redo = True
                break
            cands = kept
            restore(E, s)
        E.g['icache'].pop()
        if not redo and cache is not None:
            cache[ckey] = set(c.name for c in cands)
        if redo:
            continue
        break
    else:
        raise Unsupported('loop analysis does not settle')
    E.g['cmps'], E.g['subs'], E.g['stores'] = (old_c, old_s, old_w)
    if old_c is None:
        E.g.pop('cmps', None), E.g.pop('subs', None), E.g.pop('stores', None)
    else:
        E.g['cmps'] = old_c + cmps
        E.g['subs'] = old_s + subs
        E.g['stores'] = old_w + [(rn, C.simp(z3.substitute(t, *m0))) for rn, t in stores]
    if bk is not None:
        # everything one iteration changes was taken as unknown at the loop's head
        for rn, a in hs.mem.items():
            b = bk.mem.get(rn, a)
            if a is b:
                continue
            r = E.regions[rn]
            if r.kind in ('arr', 'rows'):
                done = rn in arrmod or E.mat(r, a).eq(E.mat(r, b))
            elif r.kind == 'sarr':
                done = all(off in arrmod.get(rn, {}) or a.f[off].eq(b.f[off]) for off in r.fields)
            elif r.kind == 'cells':
                done = all(('cell', rn, key) in vars or b.cells.get(key) is val or
                           (not isinstance(val, C.PtrV) and not isinstance(b.cells.get(key), C.PtrV) and b.cells.get(key) is not None and val.con is not None and val.con == b.cells[key].con)
                           for key, val in a.cells.items())
            else:
                done = True
            if not done:
                raise Unsupported('a loop modifies %s in a way its analysis did not see' % rn)
    E.where = X.blocks_where
    for c in cands:
        for what in ('holds on entry', 'is preserved'):
            o = C.Obl('loop invariant %s: %s' % (what, c.name), E.where, [], C.TRUE)
            o.status, o.backend = 'proved', 'z3'
            f = entry if what == 'holds on entry' else step
            if E.second and not E.g.get('dry') and f is not None:
                o.again = (f[0] + E.static_facts, f[1][c.name])
            E.obls.append(o)
    for v in mand:
        o = C.Obl('loop invariant: %s advances by a fixed step' % v.name, E.where, [], C.TRUE)
        o.status, o.backend = 'proved', 'z3'
        E.obls.append(o)
    # termination
    if bk is not None:
        pool = [C.I(0), C.I(1)]
        for N in list(E.naturals) + [y for (_, x, y) in cmps] + [x for (_, x, y) in cmps] + \
                [v.init._u if v.init._u is not None else v.init._s for v in vars.values() if isinstance(v.init, C.IntV) and v.init.real_int()]:
            if z3.is_int(N) and invariant_term(N):
                for d in (0, 1):
                    pool.append(C.simp(N + d))
        uniq = []
        for p in pool:
            if not any(p.eq(q) for q in uniq):
                uniq.append(p)
        hst = C.State(st0.pc, {}, {})
        ok = False
        for B in uniq:
            r, _ = solver.check(E.allfacts() + list(st0.pc), k <= B, 1000)
            if r == 'proved':
                ok = True
                break
        o = C.Obl('loop terminates', E.where, [], z3.BoolVal(ok))
        o.status, o.backend = ('proved' if ok else 'unknown'), 'z3'
        E.obls.append(o)
    E.loopinfo.append({'where': '%s:%s' % (X.blocks_where[0].split('/')[-1], X.blocks_where[1]), 'invariants': [c.name for c in cands],
                       'variables': [(v.name, v.mode) for v in vars.values()]})
    if DEBUG:
        print('   final', [c.name for c in cands], file=sys.stderr)
    return exits


def loop_where(E, L):
    for b in E.cfg.rpo:
        if b in L.blocks:
            for i in E.f.blocks[b]:
                if i.dbg is not None:
                    w = E.P.where(i.dbg)
                    if w[1]:
                        return w
    return ('?', 0, E.f.name)


def filter_goals(E, base, goals, ms):
    """the candidates whose goals are all proved."""
    C = _core()
    todo = []
    kept = []
    for c, g in goals:
        g2 = g if z3.is_quantifier(g) else C.simp(g)
        if z3.is_true(g2):
            kept.append(c)
        elif z3.is_false(g2):
            # still may hold if the path is infeasible
            todo.append((c, g2))
        else:
            todo.append((c, g2))
    if not todo:
        return [c for c, _ in goals], []
    keepset = set(kept)

    def rec(ts, facts, ms):
        if not ts:
            return
        r, _ = solver.check(facts, C.And(*[g for _, g in ts]), ms)
        if r == 'proved':
            keepset.update(c for c, _ in ts)
            return
        if len(ts) == 1:
            return
        if len(ts) <= 6:
            for t in ts:
                rec([t], facts, ms)
            return
        m = len(ts) // 2
        rec(ts[:m], facts, ms)
        rec(ts[m:], facts, ms)
    # quantified and ground goals separately; ground goals without the quantified facts first
    plain = [t for t in todo if not z3.is_quantifier(t[1])]
    if solver.quantified(base):
        rec(plain, [f for f in base if not solver.quantified([f])], min(ms, 1000))
        plain = [t for t in plain if t[0] not in keepset]
        ms = min(ms, 1500)
        for t in plain:
            rec([t], base, ms)
    else:
        rec(plain, base, ms)
    for t in todo:
        if z3.is_quantifier(t[1]):
            rec([t], base, ms)
    return [c for c, _ in goals if c in keepset], []


def int_exprs(E, X, C):
    """integer-valued header terms: counter, integer variables, pointer indices"""
    out = []

    def put(n, t):
        if t is None or not z3.is_int(t):
            return
        t = C.simp(t)
        if C.cval(t) is not None:
            return
        if not any(t.eq(y) for _, y in out):
            out.append((n, t))
    put('k', X.k)
    for v in X.vars.values():
        if v.mode == 'inv':
            continue
        if v.rep == 'int':
            put(v.name, v.val._u if v.val._u is not None else v.val._s)
        elif v.rep == 'lin':
            put(v.name, v.val.lin[1])
        elif v.rep == 'ptr':
            for c, a in v.val.alts:
                if a is not None and a.reg.kind in ('arr', 'rows', 'sarr'):
                    put(v.name, a.idx)
    return out


def generic(E, X, C):
    bools = [v for v in X.vars.values() if v.rep == 'bool' and v.mode == 'fresh']
    guards = [(None, None)]
    for v in bools[:3]:
        guards.append((v.name, v.syms['b']))
        guards.append(('!' + v.name, C.Not(v.syms['b'])))

    def addg(n, t):
        for gn, g in guards:
            if g is None:
                X.add(n, t)
            else:
                X.add('%s => %s' % (gn, n), C.Implies(g, t))
    for v in bools:
        X.add(v.name, v.syms['b'])
        X.add('!' + v.name, C.Not(v.syms['b']))
        for w2 in bools:
            if w2 is not v:
                X.add('%s = %s' % (v.name, w2.name), v.syms['b'] == w2.syms['b'])
                X.add('%s = !%s' % (v.name, w2.name), v.syms['b'] != w2.syms['b'])
    seen = set()
    hs = X.header_term
    for p, x, y in X.cmps:
        key = (C.simp(x).get_id(), C.simp(y).get_id())
        if key in seen:
            continue
        E.keep.append((C.simp(x), C.simp(y)))
        seen.add(key)
        if not (hs(x) and hs(y)):
            continue
        if X.invariant_term(x) and X.invariant_term(y):
            continue
        addg('%s <= %s' % (short(x), short(y)), x <= y)
        addg('%s >= %s' % (short(x), short(y)), x >= y)
        addg('%s < %s' % (short(x), short(y)), x < y)
        addg('%s > %s' % (short(x), short(y)), x > y)
        X.add('%s <= %s + 1' % (short(x), short(y)), x <= y + 1)
        X.add('%s >= %s - 1' % (short(x), short(y)), x >= y - 1)
    for t in X.subs:
        if hs(t) and not X.invariant_term(t):
            X.add('%s >= 0' % short(t), t >= 0)
    ints = [v for v in X.vars.values() if v.rep in ('int', 'lin') and v.mode == 'fresh'] + \
           [v for v in X.vars.values() if v.rep == 'ptr' and v.mode == 'fresh' and len(v.targets) == 1]
    for v in ints:
        for sl in v.slots:
            i0 = sl.get(X.st0, v.init)
            x = sl.sym
            X.add('%s >= init' % v.name, x >= i0)
            addg('%s <= init' % v.name, x <= i0)
            addg('%s >= init+k' % v.name, x >= i0 + X.k)
            X.add('%s <= init+k' % v.name, x <= i0 + X.k)
            X.add('%s <= k' % v.name, x <= X.k)
            X.add('%s >= 0' % v.name, x >= 0)
            X.add('%s >= -1' % v.name, x >= -1)
            for N in E.naturals:
                addg('%s <= %s' % (v.name, short(N)), x <= N)
                addg('%s < %s' % (v.name, short(N)), x < N)
            for c in getattr(E.c, 'chunks', ()):
                # a position that advances by chunks of c, the last of which may be shorter
                for N in E.naturals:
                    u = C.If(c * X.k <= N, c * X.k, N)
                    X.add('%s = min(%d*k, %s)' % (v.name, c, short(N)), x == u)
                    X.add('%s = %s - min(%d*k, %s)' % (v.name, short(N), c, short(N)), x == N - u)
    for nm, t in X.int_exprs:
        if not z3.is_const(t):
            for N in E.naturals:
                X.add('%s <= %s' % (nm, short(N)), t <= N)
                X.add('%s < %s' % (nm, short(N)), t < N)
    addg('k <= 0', X.k <= 0)
    addg('k >= 1', X.k >= 1)
    X.add('k <= 1', X.k <= 1)
    for N in E.naturals:
        addg('k <= %s' % short(N), X.k <= N)
        addg('k < %s' % short(N), X.k < N)
        addg('k < max(%s, 1)' % short(N), C.Or(X.k < N, X.k <= 0))
        X.add('k <= %s + 1' % short(N), X.k <= N + 1)


def short(t):
    C = _core()
    s = str(C.simp(t)).replace('\n', ' ')
    s = re.sub(r'![0-9]+', '', re.sub(r'\s+', ' ', s))
    return s if len(s) < 60 else s[:57] + '...'
