"""Verification-condition generator: symbolic execution of LLVM IR with merged paths,
loop cut-points (Houdini-inferred invariants from contract templates) and callee contracts."""
import re
import time

import z3

from .ir import CFG, Unsupported
from . import solver

I = z3.IntVal
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(x) for x in xs):
        return FALSE
    return TRUE if not xs else (xs[0] if len(xs) == 1 else z3.And(*xs))


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(x) for x in xs):
        return TRUE
    return FALSE if not xs else (xs[0] if len(xs) == 1 else z3.Or(*xs))


def Not(x):
    if z3.is_true(x):
        return FALSE
    if z3.is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


def If(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def simp(t):
    return z3.simplify(t, arith_lhs=False)


def cval(t):
    """python int of a constant Int term, else None"""
    if z3.is_int_value(t):
        return t.as_long()
    t2 = z3.simplify(t)
    if z3.is_int_value(t2):
        return t2.as_long()
    return None


def forall(n, body, pats=None, names=None):
    """universally quantified fact over n Ints; body(*vars)->(formula, [patterns])"""
    vs = [z3.FreshInt('q') for _ in range(n)]
    r = body(*vs)
    f, ps = r if isinstance(r, tuple) else (r, None)
    if ps:
        pp = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in ps]
        return z3.ForAll(vs, f, patterns=pp)
    return z3.ForAll(vs, f)


class IntV:
    __slots__ = ('w', 'con', '_bv', '_u', '_s', 'b', 'lin', 'raw', 'rw', 'ptr', 'tag')

    def __init__(self, w, con=None, bv=None, u=None, s=None, b=None, lin=None, raw=None, ptr=None):
        self.w = w
        self.con = con
        self._bv = bv
        self._u = u
        self._s = s
        self.b = b
        self.lin = lin
        self.raw = raw        # an integer equal to the value modulo 2^rw
        self.rw = w
        self.ptr = ptr
        self.tag = None

    def has_bv(self):
        return self._bv is not None or self.con is not None or self.b is not None

    def has_int(self):
        return self._u is not None or self._s is not None or self.con is not None or self.b is not None

    def real_bv(self):
        return self._bv is not None

    def real_int(self):
        return self._u is not None or self._s is not None

    def __repr__(self):
        return 'IntV(%d,%s)' % (self.w, self.con if self.con is not None else self.b if self.b is not None else self._u if self._u is not None else self._s if self._s is not None else self._bv)


def con(w, c):
    return IntV(w, con=c & ((1 << w) - 1))


def scon(v):
    return v.con - (1 << v.w) if v.con >> (v.w - 1) else v.con


def may_bits(e, memo):
    """mask of the bits of bit-vector term e that may be 1"""
    k = e.get_id()
    if k in memo:
        return memo[k][0]
    w = e.size()
    full = (1 << w) - 1
    r = full
    if z3.is_bv_value(e):
        r = e.as_long()
    elif z3.is_app(e):
        d = e.decl().kind()
        ch = e.children()
        if d == z3.Z3_OP_ZERO_EXT:
            r = may_bits(ch[0], memo)
        elif d == z3.Z3_OP_CONCAT:
            r = 0
            for c in ch:
                r = (r << c.size()) | may_bits(c, memo)
        elif d == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            r = (may_bits(ch[0], memo) >> lo) & full
        elif d == z3.Z3_OP_ITE:
            r = may_bits(ch[1], memo) | may_bits(ch[2], memo)
        elif d in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
            r = 0
            for c in ch:
                r |= may_bits(c, memo)
        elif d == z3.Z3_OP_BAND:
            for c in ch:
                r &= may_bits(c, memo)
        elif d in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            m = may_bits(ch[0], memo)
            r = (m << ch[1].as_long()) & full if d == z3.Z3_OP_BSHL else m >> ch[1].as_long()
    memo[k] = (r, e)
    return r


class Tgt:
    __slots__ = ('reg', 'idx', 'rem', 'iv')

    def __init__(self, reg, idx, rem=0, iv=None):
        self.reg = reg
        self.idx = idx
        self.rem = rem
        self.iv = iv


class PtrV:
    """guarded alternatives: [(cond, Tgt or None)]"""
    __slots__ = ('alts', 'raw')

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Ptr(%s)' % ', '.join('%s: %s' % (c, 'null' if t is None else '%s[%s]+%d' % (t.reg.name, t.idx, t.rem)) for c, t in self.alts)


NULL = PtrV([(TRUE, None)])


class Stride:
    """A symbolic element size S >= 1 in bytes; mul(c) = c*S."""

    def __init__(self, E, name, sym):
        self.name = name
        self.sym = sym
        self.mul = z3.Function('mul_' + name, z3.IntSort(), z3.IntSort())
        self.E = E
        self.bounds = []   # (count term): counts N whose product facts are tied
        E.fact(self.mul(I(0)) == 0)
        E.fact(self.mul(I(1)) == sym)
        E.fact(sym >= 1)
        self.seen = set()

    def term(self, c):
        c = simp(c)
        v = cval(c)
        if v == 0:
            return I(0)
        if v == 1:
            return self.sym
        m = self.mul(c)
        if c.get_id() not in self.seen:
            self.seen.add(c.get_id())
            self.E.keep.append(c)
            f = [z3.Implies(c >= 0, m >= c), z3.Implies(c >= 1, m >= self.sym), z3.Implies(c <= -1, m <= -self.sym)]
            for N in self.bounds:
                mn = self.mul(N)
                f.append(z3.Implies(c <= N, m <= mn))
                f.append(z3.Implies(c < N, m + self.sym <= mn))
                f.append(z3.Implies(c > N, m >= mn + self.sym))
            self.E.static_facts.append(And(*f))
        return m

    def bound(self, N):
        N = simp(N)
        self.bounds.append(N)
        return self.mul(N)


class Region:
    def __init__(self, name, kind, n=None, w=1, rep='int', ro=False, stride=None, fields=None, size=None, cap=None):
        self.name = name
        self.kind = kind      # arr rows cells sarr opaque func
        self.n = n            # extent in elements (Int term)
        self.w = w            # bytes per element (arr)
        self.rep = rep        # int | bv element representation (arr)
        self.ro = ro
        self.stride = stride  # Stride (rows) or int (sarr)
        self.fields = fields  # sarr: off -> (size, kind in {'int','bool','ptr'})
        self.size = size      # cells: bytes
        self.cap = cap        # rows: additional capacity condition
        self.witness = []     # arr: terms of known terminator positions


class ArrC:
    """contents of an arr region: base (z3 array | ConstTab) + overlay of constant indices"""
    __slots__ = ('base', 'ov')

    def __init__(self, base, ov=None):
        self.base = base
        self.ov = ov or {}


class ConstTab:
    def __init__(self, vals):
        self.vals = vals


class CellC:
    __slots__ = ('cells',)

    def __init__(self, cells):
        self.cells = cells


class SArrC:
    __slots__ = ('f',)

    def __init__(self, f):
        self.f = f


class State:
    __slots__ = ('pc', 'env', 'mem', 'ret')

    def __init__(self, pc, env, mem):
        self.pc = pc
        self.env = env
        self.mem = mem
        self.ret = None

    def copy(self):
        s = State(self.pc, dict(self.env), dict(self.mem))
        return s

    def cond(self):
        return And(*self.pc)


class Obl:
    __slots__ = ('kind', 'where', 'facts', 'goal', 'status', 'backend', 'time', 'func', 'again')

    def __init__(self, kind, where, facts, goal):
        self.kind = kind
        self.where = where
        self.facts = facts
        self.goal = goal
        self.status = None
        self.backend = None
        self.time = 0.0
        self.again = None     # (facts, goal) for a second back end when the obligation was discharged on the way


def merge_pcs(pcs):
    """pcs: list of literal tuples -> literal tuple of their disjunction."""
    pcs = [tuple(p) for p in pcs]
    while len(pcs) > 1:
        # find the pair with the longest common prefix
        best = None
        for i in range(len(pcs)):
            for j in range(i + 1, len(pcs)):
                a, b = pcs[i], pcs[j]
                n = 0
                while n < len(a) and n < len(b) and a[n].eq(b[n]):
                    n += 1
                if best is None or n > best[0]:
                    best = (n, i, j)
        n, i, j = best
        a, b = pcs[i], pcs[j]
        ra, rb = a[n:], b[n:]
        if not ra or not rb:
            m = a[:n]
        elif len(ra) == 1 and len(rb) == 1 and Not(ra[0]).eq(rb[0]):
            m = a[:n]
        elif Not(ra[0]).eq(rb[0]) and len(ra) == 1:
            m = a[:n] + (Or(ra[0], And(*rb[1:])),)
        elif Not(ra[0]).eq(rb[0]) and len(rb) == 1:
            m = a[:n] + (Or(rb[0], And(*ra[1:])),)
        else:
            m = a[:n] + (Or(And(*ra), And(*rb)),)
        pcs = [p for k, p in enumerate(pcs) if k not in (i, j)] + [m]
    return pcs[0]


class Cand:
    def __init__(self, name, term, mandatory=None):
        self.name = name
        self.term = term
        self.mandatory = mandatory


class LoopVar:
    def __init__(self, key, init):
        self.key = key
        self.init = init
        self.mode = 'fresh'     # fresh | affine | inv | ptr
        self.rep = None         # int | bv | bool | ptr
        self.view = 'u'
        self.step = None
        self.sym = None
        self.val = None         # value at header
        self.noaff = False
        self.name = None


class LoopCtx:
    pass


class ContractFailure(Exception):
    pass


class Exec:
    def __init__(self, P, func, contract, case, contracts=None, qms=3000):
        self.P = P
        self.types = P.types
        self.f = P.funcs[func]
        if self.f.error:
            raise Unsupported(self.f.error)
        self.cfg = CFG(self.f)
        self.c = contract
        self.case = case
        self.contracts = contracts or {}
        self.facts = []
        self.static_facts = []
        self.bits_memo = {}
        self.keep = []
        self.obls = []
        self.cnt = 0
        self.regions = {}
        self.globs = {}
        self.qms = qms
        self.where = ('?', 0, func)
        self.naturals = []
        self.strides = []
        self.notes = set()
        self.loopinfo = []
        self.memo = {}
        self.hooks = {}
        self.g = {}
        self.default_rep = getattr(contract, 'default_rep', 'int')
        self.mix = getattr(contract, 'mix', 'int')
        self.deadline = None
        self.second = False

    # ------------------------------------------------------------ basics
    def fresh(self, p, sort=None):
        self.cnt += 1
        return z3.Const('%s!%d' % (p, self.cnt), z3.IntSort() if sort is None else sort)

    def fact(self, f):
        if not z3.is_true(f):
            self.facts.append(f)

    def assume(self, st, f):
        self.fact(Implies(st.cond(), f))

    def allfacts(self):
        return self.facts + self.static_facts

    def prove(self, st, goal, ms=None):
        goal = simp(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal) and not st.pc:
            return False
        key = (goal.get_id(), tuple(x.get_id() for x in st.pc))
        if key in self.memo:
            r, nf, first = self.memo[key]
            if r and nf <= len(self.facts) and (nf == 0 or self.facts[nf - 1] is first):
                return True
            if not r and nf == len(self.facts) and (nf == 0 or self.facts[nf - 1] is first):
                return False
        self.keep.append((goal, st.pc))
        r, _ = solver.check(self.allfacts() + list(st.pc), goal, ms or 1500)
        self.memo[key] = (r == 'proved', len(self.facts), self.facts[-1] if self.facts else None)
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the contract exhausted')
        return r == 'proved'

    def oblige(self, st, kind, goal, assume=True):
        goal = goal if z3.is_bool(goal) else z3.BoolVal(goal)
        o = Obl(kind, self.where, None, Implies(st.cond(), goal))
        if not z3.is_true(simp(o.goal)):
            o.facts = list(self.facts)
        else:
            o.facts = []
        self.obls.append(o)
        if assume:
            self.assume(st, goal)

    # ------------------------------------------------------------ value views
    def bv(self, v):
        if v._bv is not None:
            return v._bv
        if v.con is not None:
            return z3.BitVecVal(v.con, v.w)
        if v.b is not None:
            return If(v.b, z3.BitVecVal(1, v.w), z3.BitVecVal(0, v.w))
        t = v._u if v._u is not None else v._s
        r = z3.Int2BV(t, v.w)
        return r

    def u(self, v, st=None):
        if v.con is not None:
            return I(v.con)
        if v._u is not None:
            return v._u
        if v.b is not None:
            return If(v.b, I(1), I(0))
        if v._s is not None:
            t = v._s
            if st is not None and self.prove(st, t >= 0):
                return t
            return If(t >= 0, t, t + (1 << v.w))
        x = self.peel(v._bv)
        t = z3.BV2Int(x)
        self.range_fact(t, x.size())
        v._u = t
        return t

    def peel(self, x):
        """x without zero extension"""
        while True:
            if z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
                x = x.arg(0)
            elif z3.is_app_of(x, z3.Z3_OP_CONCAT) and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
                x = x.arg(1) if x.num_args() == 2 else z3.Concat(*x.children()[1:])
            else:
                return x

    def exact(self, v, st):
        """the unwrapped value if no wrap-around happened on this path, else the signed view"""
        t = self.s(v, st)
        if v.raw is not None and v.rw >= v.w and not v.raw.eq(t) and self.prove(st, And(v.raw >= 0, v.raw < (1 << (v.w - 1)))):
            return v.raw
        return t

    def s(self, v, st=None):
        if v.con is not None:
            return I(scon(v))
        if v._s is not None:
            return v._s
        if v.b is not None and v.w > 1:
            return If(v.b, I(1), I(0))
        if v._u is not None or v._bv is None:
            t = v._u
            if st is not None and self.prove(st, t < (1 << (v.w - 1))):
                return t
            return If(t < (1 << (v.w - 1)), t, t - (1 << v.w))
        if self.peel(v._bv).size() < v.w:
            v._s = self.u(v, st)
            return v._s
        t = z3.BV2Int(v._bv, True)
        self.static_facts.append(And(t >= -(1 << (v.w - 1)), t < (1 << (v.w - 1))))
        v._s = t
        return t

    def range_fact(self, t, w):
        k = ('rng', t.get_id(), w)
        if k not in self.memo:
            self.memo[k] = (True, 0, None)
            self.keep.append(t)
            self.static_facts.append(And(t >= 0, t < (1 << w)))

    def boolean(self, v):
        if v.b is not None:
            return v.b
        if v.con is not None:
            return z3.BoolVal(v.con & 1 == 1)
        if v._bv is not None:
            return z3.Extract(0, 0, v._bv) == 1
        t = v._u if v._u is not None else v._s
        return t % 2 == 1

    def mkbool(self, w, b):
        b = simp(b) if not (z3.is_const(b)) else b
        if z3.is_true(b):
            return con(w, 1)
        if z3.is_false(b):
            return con(w, 0)
        return IntV(w, b=b)

    def mkbv(self, t):
        t = simp(t)
        if z3.is_bv_value(t):
            return con(t.size(), t.as_long())
        if 'bv' in self.hooks:
            t = self.hooks['bv'](t)
        return IntV(t.size(), bv=t)

    def mku(self, w, t, raw=None, lin=None, both=False):
        t = simp(t)
        if z3.is_int_value(t):
            return con(w, t.as_long())
        return IntV(w, u=t, s=t if both else None, raw=raw, lin=lin)

    def mks(self, w, t, lin=None, both=False):
        t = simp(t)
        if z3.is_int_value(t):
            return con(w, t.as_long())
        return IntV(w, s=t, u=t if both else None, raw=t, lin=lin)

    def new_int(self, w, p, signed=False):
        t = self.fresh(p)
        if signed:
            self.static_facts.append(And(t >= -(1 << (w - 1)), t < (1 << (w - 1))))
            return IntV(w, s=t)
        self.static_facts.append(And(t >= 0, t < (1 << w)))
        return IntV(w, u=t)

    def new_val(self, ty, p):
        ty = self.types.resolve(ty)
        if ty[0] == 'i':
            if ty[1] == 1:
                return IntV(1, b=self.fresh(p, z3.BoolSort()))
            if self.default_rep == 'bv':
                return IntV(ty[1], bv=self.fresh(p, z3.BitVecSort(ty[1])))
            return self.new_int(ty[1], p)
        if ty[0] == 'ptr':
            raise Unsupported('use of an indeterminate pointer')
        raise Unsupported('value of type %r' % (ty,))

    # lin forms -------------------------------------------------
    def lin_of(self, v, stride=None):
        """(stride, c, r) or None; constants are (None, 0, r)"""
        if v.lin is not None:
            return v.lin
        return None

    def mk_lin(self, w, lin, st, signed):
        stride, c, r = lin
        c = simp(c)
        t = stride.term(c) + r
        raw = simp(t)
        if signed:
            return IntV(w, s=raw, lin=(stride, c, r), raw=raw)
        return IntV(w, u=raw, lin=(stride, c, r), raw=raw)

    # ------------------------------------------------------------ memory
    def region(self, name, kind, **kw):
        if name in self.regions:
            self.cnt += 1
            name = '%s.%d' % (name, self.cnt)
        r = Region(name, kind, **kw)
        self.regions[name] = r
        return r

    def arr_sort(self, r):
        if r.rep == 'bv':
            return z3.ArraySort(z3.IntSort(), z3.BitVecSort(8 * r.w))
        return z3.ArraySort(z3.IntSort(), z3.IntSort())

    def fresh_content(self, r, p=None):
        p = p or r.name
        if r.kind == 'arr':
            return ArrC(self.fresh(p, self.arr_sort(r)))
        if r.kind == 'rows':
            return ArrC(self.fresh(p, z3.ArraySort(z3.IntSort(), z3.IntSort())))
        if r.kind == 'sarr':
            return SArrC({off: self.fresh('%s_%d' % (p, off), z3.ArraySort(z3.IntSort(), z3.BoolSort() if k == 'bool' else z3.IntSort()))
                          for off, (sz, k) in r.fields.items()})
        if r.kind == 'cells':
            return CellC({})
        return None

    def term_of(self, r, v, st=None):
        """element term of value v for region r"""
        return self.bv(v) if r.rep == 'bv' else self.u(v, st)

    def mat(self, r, c):
        """content as a z3 array"""
        b = c.base
        if isinstance(b, ConstTab):
            k = ('ct', r.name)
            if k not in self.g:
                A = self.fresh('tab_' + r.name, self.arr_sort(r))
                for i, x in enumerate(b.vals):
                    self.static_facts.append(z3.Select(A, i) == (z3.BitVecVal(x, 8 * r.w) if r.rep == 'bv' else I(x)))
                self.g[k] = A
            b = self.g[k]
        for i, v in sorted(c.ov.items()):
            b = z3.Store(b, I(i), self.term_of(r, v))
        return b

    def arr(self, st, r):
        return self.mat(r, st.mem[r.name])

    def wrap_elem(self, r, t, st=None):
        if r.rep == 'bv':
            return self.mkbv(t)
        t = simp(t)
        if z3.is_int_value(t):
            return con(8 * r.w, t.as_long())
        if st is not None:
            self.assume(st, And(t >= 0, t < (1 << (8 * r.w))))
        return IntV(8 * r.w, u=t)

    def arr_get(self, st, r, idx, iv=None):
        c = st.mem[r.name]
        k = cval(idx)
        if isinstance(c.base, ConstTab) and not c.ov:
            vals = c.base.vals
            if k is not None:
                return con(8 * r.w, vals[k] if 0 <= k < len(vals) else 0)
            if iv is not None and iv.has_bv() and r.rep == 'bv':
                return self.mux(vals, self.bv(iv), 8 * r.w)
            if r.rep == 'bv':
                return self.mux(vals, z3.Int2BV(idx, 64), 8 * r.w)
            return self.wrap_elem(r, z3.Select(self.mat(r, c), idx), st)
        if k is not None and c.ov:
            if k in c.ov:
                return c.ov[k]
            if isinstance(c.base, ConstTab):
                vals = c.base.vals
                return con(8 * r.w, vals[k] if 0 <= k < len(vals) else 0)
            return self.wrap_elem(r, z3.Select(c.base, I(k)), st)
        return self.wrap_elem(r, z3.Select(self.mat(r, c), idx), st)

    def mux(self, vals, ix, w):
        n = 1
        while (1 << n) < len(vals):
            n += 1
        n = min(n, ix.size())
        vs = list(vals) + [0] * ((1 << n) - len(vals))
        ts = [z3.BitVecVal(x, w) for x in vs]
        for bit in range(n):
            c = z3.Extract(bit, bit, ix) == 1
            ts = [If(c, ts[i + 1], ts[i]) for i in range(0, len(ts), 2)]
        return self.mkbv(ts[0])

    def arr_set(self, st, r, idx, v, cond=None):
        c = st.mem[r.name]
        k = cval(idx)
        if cond is not None and not z3.is_true(cond):
            A = self.mat(r, c)
            st.mem[r.name] = ArrC(If(cond, z3.Store(A, idx, self.term_of(r, v, st)), A))
        elif k is not None and not (not z3.is_const(c.base) if not isinstance(c.base, ConstTab) else False) and r.kind == 'arr':
            ov = dict(c.ov)
            ov[k] = v
            st.mem[r.name] = ArrC(c.base, ov)
        else:
            st.mem[r.name] = ArrC(z3.Store(self.mat(r, c), idx, self.term_of(r, v, st)))

    def in_bounds(self, t, n=1):
        r = t.reg
        if r.kind in ('arr', 'rows', 'sarr'):
            g = And(t.idx >= 0, t.idx + n <= r.n)
            if r.cap is not None:
                g = And(g, r.cap)
            return g
        raise Unsupported('bounds of %s region' % r.kind)

    def targets(self, st, p, what):
        """non-null alternatives, with the obligation that the pointer is not null."""
        if not isinstance(p, PtrV):
            raise Unsupported('access through an integer')
        nulls = [c for c, t in p.alts if t is None]
        if nulls:
            self.oblige(st, '%s: pointer is not null' % what, Not(Or(*nulls)))
        out = [(c, t) for c, t in p.alts if t is not None]
        return out

    def load(self, st, ty, p, what='read'):
        ty = self.types.resolve(ty)
        size = self.types.size(ty)
        alts = self.targets(st, p, what)
        vals = []
        for c, t in alts:
            r = t.reg
            one = len(alts) == 1
            sub = st if one else self.sub(st, c)
            if r.kind == 'cells':
                if not (0 <= t.rem and t.rem + size <= r.size):
                    self.oblige(sub, '%s within %s' % (what, r.name), FALSE)
                cell = st.mem[r.name].cells.get((t.rem, size))
                if cell is None:
                    for (o, z) in st.mem[r.name].cells:
                        if o < t.rem + size and t.rem < o + z:
                            raise Unsupported('partial access to a structure field of %s' % r.name)
                    cell = self.new_val(ty, r.name)
                    cc = dict(st.mem[r.name].cells)
                    cc[(t.rem, size)] = cell
                    st.mem[r.name] = CellC(cc)
                if ty[0] == 'ptr' and not isinstance(cell, PtrV):
                    raise Unsupported('pointer read of integer cell')
                vals.append((c, cell))
            elif r.kind == 'arr':
                if t.rem == 0 and size == r.w:
                    self.oblige(sub, '%s within %s' % (what, r.name), self.in_bounds(t))
                    x = self.arr_get(st, r, t.idx, t.iv)
                    if 'load' in self.hooks:
                        self.hooks['load'](sub, r, t.idx, t.iv, x)
                    vals.append((c, x))
                elif t.rem == 0 and r.w == 1 and ty[0] == 'i':
                    self.oblige(sub, '%s within %s' % (what, r.name), self.in_bounds(t, size))
                    bs = [self.bv(self.arr_get(st, r, simp(t.idx + i))) for i in range(size)]
                    vals.append((c, self.mkbv(z3.Concat(*bs[::-1]))))
                else:
                    raise Unsupported('%d byte access to an array of %d byte elements' % (size, r.w))
            elif r.kind == 'sarr':
                self.oblige(sub, '%s within %s' % (what, r.name), self.in_bounds(t))
                if t.rem not in r.fields or r.fields[t.rem][0] != size:
                    raise Unsupported('partial access to a structure field of %s' % r.name)
                k = r.fields[t.rem][1]
                x = simp(z3.Select(st.mem[r.name].f[t.rem], t.idx))
                if k == 'bool':
                    vals.append((c, self.mkbool(8, x)))
                elif k == 'ptr':
                    vals.append((c, self.opaque_ptr(x)))
                else:
                    self.assume(sub, And(x >= 0, x < (1 << (8 * size))))
                    vals.append((c, IntV(8 * size, u=x)))
            elif r.kind == 'rows' and size == 1 and isinstance(t.rem, tuple) and one and self.g.get('bytes') is not None:
                vals.append((c, self.g['bytes'].load(sub, r, t)))
            else:
                raise Unsupported('%s of a %s object' % (what, r.kind))
        if not vals:
            return self.new_val(ty, 'undef') if ty[0] == 'i' else NULL
        if len(vals) == 1:
            return vals[0][1]
        return self.ite_vals(st, vals)

    def opaque_ptr(self, x):
        op = self.regions.get('$opaque')
        if op is None:
            op = Region('$opaque', 'opaque')
            self.regions['$opaque'] = op
        nz = simp(x == 0)
        alts = []
        if not z3.is_false(nz):
            alts.append((nz, None))
        if not z3.is_true(nz):
            alts.append((Not(nz), Tgt(op, x)))
        return PtrV(alts)

    def opaque_id(self, p):
        t = I(0)
        for c, a in p.alts:
            if a is None:
                x = I(0)
            elif a.reg.kind == 'opaque':
                x = a.idx
            else:
                raise Unsupported('pointer stored in an opaque field')
            t = If(c, x, t)
        return t

    def sub(self, st, c):
        s = State(st.pc + (() if z3.is_true(c) else (c,)), st.env, st.mem)
        return s

    def store(self, st, ty, v, p, what='write'):
        ty = self.types.resolve(ty)
        size = self.types.size(ty)
        alts = self.targets(st, p, what)
        for c, t in alts:
            r = t.reg
            one = len(alts) == 1
            cc = None if one else c
            sub = st if one else self.sub(st, c)
            if 'stores' in self.g and r.kind in ('arr', 'rows', 'sarr'):
                self.g['stores'].append((r.name, t.idx))
            if r.ro:
                self.oblige(sub, 'frame: %s is not written' % r.name, FALSE)
                continue
            if r.kind == 'cells':
                if not (0 <= t.rem and t.rem + size <= r.size):
                    self.oblige(sub, '%s within %s' % (what, r.name), FALSE)
                cells = dict(st.mem[r.name].cells)
                for (o, z) in list(cells):
                    if (o, z) != (t.rem, size) and o < t.rem + size and t.rem < o + z:
                        if not one:
                            raise Unsupported('partial access to a structure field of %s' % r.name)
                        raise Unsupported('partial access to a structure field of %s' % r.name)
                if cc is not None:
                    old = cells.get((t.rem, size))
                    if old is None:
                        raise Unsupported('conditional write to an uninitialised object')
                    v2 = self.ite_vals(st, [(cc, v), (Not(cc), old)])
                else:
                    v2 = v
                cells[(t.rem, size)] = v2
                st.mem[r.name] = CellC(cells)
            elif r.kind == 'arr':
                if isinstance(v, PtrV):
                    raise Unsupported('pointer stored in an array')
                if t.rem == 0 and size == r.w:
                    self.oblige(sub, '%s within %s' % (what, r.name), self.in_bounds(t))
                    if 'store' in self.hooks:
                        v = self.hooks['store'](st, r, t.idx, v)
                    self.arr_set(st, r, t.idx, v, cc)
                    if 'stored' in self.hooks:
                        self.hooks['stored'](st, r, t.idx, v)
                elif t.rem == 0 and r.w == 1:
                    self.oblige(sub, '%s within %s' % (what, r.name), self.in_bounds(t, size))
                    b = self.bv(v)
                    for i in range(size):
                        self.arr_set(st, r, simp(t.idx + i), self.mkbv(z3.Extract(8 * i + 7, 8 * i, b)), cc)
                else:
                    raise Unsupported('%d byte access to an array of %d byte elements' % (size, r.w))
            elif r.kind == 'sarr':
                self.oblige(sub, '%s within %s' % (what, r.name), self.in_bounds(t))
                if t.rem not in r.fields or r.fields[t.rem][0] != size:
                    raise Unsupported('partial access to a structure field of %s' % r.name)
                k = r.fields[t.rem][1]
                if k == 'ptr':
                    if not isinstance(v, PtrV):
                        raise Unsupported('integer stored in a pointer field')
                    x = self.opaque_id(v)
                elif k == 'bool':
                    x = self.boolean(v)
                else:
                    x = self.u(v, st)
                f = dict(st.mem[r.name].f)
                A = f[t.rem]
                f[t.rem] = z3.Store(A, t.idx, x) if cc is None else If(cc, z3.Store(A, t.idx, x), A)
                st.mem[r.name] = SArrC(f)
            elif r.kind == 'rows' and size == 1 and isinstance(t.rem, tuple) and one and self.g.get('bytes') is not None:
                self.g['bytes'].store(sub, r, t, v)
            else:
                raise Unsupported('%s of a %s object' % (what, r.kind))

    # ------------------------------------------------------------ merging
    def ite_vals(self, st, cvs):
        """cvs: [(cond, value)]: exhaustive and disjoint under st.pc"""
        vs = [v for _, v in cvs]
        if all(v is vs[0] for v in vs):
            return vs[0]
        if isinstance(vs[0], PtrV):
            return self.ite_ptrs(cvs)
        w = vs[0].w
        if all(v.con is not None for v in vs) and len({v.con for v in vs}) == 1:
            return vs[0]
        if all(v.b is not None or (v.con is not None and v.con <= 1) for v in vs):
            t = self.boolean(vs[-1])
            for c, v in cvs[-2::-1]:
                t = If(c, self.boolean(v), t)
            return self.mkbool(w, t)
        if all(v.ptr is not None for v in vs):
            return IntV(w, ptr=self.ite_ptrs([(c, v.ptr) for c, v in cvs]))
        if all(v.has_bv() for v in vs) and any(v.real_bv() for v in vs) or \
                (self.default_rep == 'bv' and all(v.has_bv() for v in vs)):
            t = self.bv(vs[-1])
            for c, v in cvs[-2::-1]:
                t = If(c, self.bv(v), t)
            return self.mkbv(t)
        if all(v.lin is not None or v.con is not None for v in vs) and any(v.lin is not None for v in vs):
            S = [v.lin[0] for v in vs if v.lin is not None][0]
            if all(v.lin is None or v.lin[0] is S for v in vs):
                allu = all(v._u is not None or v.con is not None for v in vs)
                lc = [v.lin if v.lin is not None else (S, I(0), I(v.con if allu else scon(v))) for v in vs]
                cc, rr = lc[-1][1], lc[-1][2]
                for (c, v), l in list(zip(cvs, lc))[-2::-1]:
                    cc = If(c, l[1], cc)
                    rr = If(c, l[2], rr)
                return self.mk_lin(w, (S, cc, rr), st, not allu)
        if all(v._s is not None or v.con is not None for v in vs) and not all(v._u is not None or v.con is not None for v in vs):
            f = lambda v, c: self.s(v)
            mk = self.mks
        else:
            f = lambda v, c: self.u(v, self.sub(st, c))
            mk = self.mku
        t = f(vs[-1], cvs[-1][0])
        for c, v in cvs[-2::-1]:
            t = If(c, f(v, c), t)
        r = mk(w, t)
        if mk is self.mku and r.con is None and all((v._s is not None and v._u is not None and v._s.eq(v._u)) or
                                                    (v.con is not None and v.con < (1 << (w - 1))) for v in vs):
            r._s = r._u
        return r

    def ite_ptrs(self, cps):
        out = []
        for c, p in cps:
            if not isinstance(p, PtrV):
                raise Unsupported('merge of pointer and integer')
            for d, t in p.alts:
                cd = And(c, d)
                if z3.is_false(cd):
                    continue
                for i, (c2, t2) in enumerate(out):
                    if t is None and t2 is None:
                        out[i] = (Or(c2, cd), None)
                        break
                    if t is not None and t2 is not None and t.reg is t2.reg and t.rem == t2.rem:
                        out[i] = (Or(c2, cd), Tgt(t.reg, If(cd, t.idx, t2.idx), t.rem))
                        break
                else:
                    out.append((cd, t))
        if len(out) == 1:
            out = [(TRUE, out[0][1])]
        return PtrV(out)

    def merge_content(self, r, ccs):
        cs = [c for _, c in ccs]
        if all(c is cs[0] for c in cs):
            return cs[0]
        if r.kind in ('arr', 'rows'):
            if all(c.base is cs[0].base for c in cs):
                keys = set()
                for c in cs:
                    keys |= set(c.ov)
                if len(keys) <= 256 and r.kind == 'arr':
                    ov = {}
                    for k in keys:
                        vs = []
                        for cond, c in ccs:
                            v = c.ov.get(k)
                            if v is None:
                                v = con(8 * r.w, c.base.vals[k]) if isinstance(c.base, ConstTab) else self.wrap_elem(r, z3.Select(c.base, I(k)))
                            vs.append((cond, v))
                        if all(v is vs[0][1] for _, v in vs):
                            ov[k] = vs[0][1]
                        else:
                            t = self.term_of(r, vs[-1][1])
                            for cond, v in vs[-2::-1]:
                                t = If(cond, self.term_of(r, v), t)
                            ov[k] = self.wrap_elem(r, t)
                    return ArrC(cs[0].base, ov)
            t = self.mat(r, cs[-1])
            for cond, c in ccs[-2::-1]:
                t = If(cond, self.mat(r, c), t)
            return ArrC(t)
        if r.kind == 'sarr':
            f = {}
            for off in r.fields:
                t = cs[-1].f[off]
                for cond, c in ccs[-2::-1]:
                    t = If(cond, c.f[off], t)
                f[off] = t
            return SArrC(f)
        if r.kind == 'cells':
            keys = set(cs[0].cells)
            for c in cs:
                keys &= set(c.cells)
            out = {}
            for k in keys:
                vs = [(cond, c.cells[k]) for cond, c in ccs]
                if all(v is vs[0][1] for _, v in vs):
                    out[k] = vs[0][1]
                else:
                    try:
                        out[k] = self.ite_vals(self.tmpst(ccs), vs)
                    except Unsupported:
                        pass
            return CellC(out)
        return cs[0]

    def tmpst(self, ccs):
        return State((), {}, {})

    def merge(self, states):
        """merge states (disjoint pcs)"""
        if len(states) == 1:
            return states[0].copy()
        pc = merge_pcs([s.pc for s in states])
        env = {}
        first = states[0].env
        for k, v in first.items():
            if all(s.env.get(k) is v for s in states[1:]):
                env[k] = v
        # distinguishing conditions
        conds = self.rel_conds(pc, states)
        mem = {}
        names = set(states[0].mem)
        for s in states[1:]:
            names &= set(s.mem)
        for nme in names:
            r = self.regions[nme]
            mem[nme] = self.merge_content(r, [(c, s.mem[nme]) for c, s in zip(conds, states)])
        return State(pc, env, mem)

    def rel_conds(self, pc, states):
        n = None
        for s in states:
            m = 0
            while m < len(s.pc) and m < len(states[0].pc) and s.pc[m].eq(states[0].pc[m]):
                m += 1
            n = m if n is None else min(n, m)
        return [And(*s.pc[n:]) for s in states]

    # ------------------------------------------------------------ running
    def run(self):
        st = State((), {}, {})
        self.st0 = st
        args = self.c.setup(self, st, self.case)
        if len(args) != len(self.f.params):
            raise Unsupported('parameters of %s changed' % self.f.name)
        for (nm, ty), a in zip(self.f.params, args):
            st.env[nm] = a
        self.args = args
        self.pre_facts = list(self.facts)
        for b in self.f.order:
            for i in self.f.blocks[b]:
                for nm in re.findall(r'@([-a-zA-Z$._0-9]+)', i.text):
                    if nm in self.P.globals and not self.P.globals[nm][2]:
                        self.global_ptr(st, nm)
        self.mem0 = dict(st.mem)
        self.where = ('contract', 0, self.f.name)
        outs = self.exec_range(set(self.cfg.rpo), self.f.entry, [(None, st)], None)
        rets = [s for (_, d, s) in outs if d is None]
        self.where = ('contract', 0, self.f.name)
        if not rets:
            raise Unsupported('no return reachable')
        ret_states = rets
        fin = self.merge(ret_states)
        if rets[0].ret is not None:
            conds = self.rel_conds(fin.pc, ret_states)
            fin.ret = self.ite_vals(fin, [(c, s.ret) for c, s in zip(conds, ret_states)])
        self.final = fin
        self.c.post(self, fin, self.case)
        return fin

    def exec_range(self, blocks, entry, incoming, header):
        inc = {entry: list(incoming)}
        outs = []
        skip = set()

        def route(src, dst, st):
            if dst in blocks and dst != header:
                inc.setdefault(dst, []).append((src, st))
            else:
                outs.append((src, dst, st))

        for b in self.cfg.rpo:
            if b not in blocks or b in skip or b not in inc:
                continue
            L = self.cfg.loops.get(b)
            if L is not None and b != header:
                skip |= L.blocks
                for (src, dst, st) in self.exec_loop(L, inc.pop(b)):
                    if dst is None:
                        outs.append((src, None, st))
                    else:
                        route(src, dst, st)
                continue
            ins = inc.pop(b)
            if b == header:
                st = ins[0][1].copy()
            else:
                st = self.enter(b, ins)
            for (dst, s2) in self.exec_block(b, st):
                if dst is None:
                    outs.append((b, None, s2))
                else:
                    route(b, dst, s2)
        return outs

    def phis(self, b):
        return [i for i in self.f.blocks[b] if i.op == 'phi']

    def enter(self, b, ins):
        phis = self.phis(b)
        st = self.merge([s for _, s in ins])
        if phis:
            conds = self.rel_conds(st.pc, [s for _, s in ins]) if len(ins) > 1 else [TRUE]
            for ph in phis:
                vals = []
                for (src, s), c in zip(ins, conds):
                    v = [x for l, x in ph.inc if l == src]
                    if not v:
                        raise Unsupported('phi without value for %s' % src)
                    vals.append((c, self.value(s, ph.ty, v[0])))
                st.env[ph.res] = vals[0][1] if len(vals) == 1 else self.ite_vals(st, vals)
        return st

    def value(self, st, ty, v):
        k = v[0]
        if k == 'l':
            if v[1] not in st.env:
                raise Unsupported('value %s not available' % v[1])
            return st.env[v[1]]
        rty = self.types.resolve(ty)
        if k == 'c':
            return con(rty[1], v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            if rty[0] == 'ptr':
                return NULL
            return self.new_val(rty, 'undef')
        if k == 'zero' and rty[0] == 'i':
            return con(rty[1], 0)
        if k == 'g':
            return self.global_ptr(st, v[1])
        if k == 'gep':
            base = self.value(st, ('ptr',), v[2])
            return self.gep(st, v[1], base, [(t, self.value(st, t, x)) for t, x in v[3]])
        raise Unsupported('value %r' % (v,))

    def global_ptr(self, st, name):
        nm = name[1:] if name.startswith('@') else name
        if nm in self.globs:
            r = self.globs[nm]
        else:
            if nm in self.P.funcs or nm in self.P.decls:
                r = self.region('fn_' + nm, 'func')
            else:
                if nm not in self.P.globals:
                    raise Unsupported('global %s' % nm)
                ty, init, const = self.P.globals[nm]
                r = None
                if hasattr(self.c, 'make_global'):
                    r = self.c.make_global(self, st, nm, ty, const)
                if r is None:
                    fi = self.P.flat_init(ty, init) if init is not None else None
                    if fi is None:
                        raise Unsupported('initialiser of %s' % nm)
                    r = self.region('g_' + nm, 'arr', n=I(len(fi[1])), w=fi[0], rep=self.const_rep(fi[0]), ro=const)
                    self.glob_content(r, ArrC(ConstTab(fi[1])) if const else self.fresh_content(r))
                    if const and 0 in fi[1]:
                        r.witness = [I(fi[1].index(0))]
            self.globs[nm] = r
        if r.kind != 'func' and r.name not in st.mem:
            st.mem[r.name] = self.g['content', r.name]
        return PtrV([(TRUE, Tgt(r, I(0)))])

    def glob_content(self, r, c):
        self.g['content', r.name] = c

    def const_rep(self, w):
        return getattr(self.c, 'const_rep', self.default_rep)

    def exec_block(self, b, st):
        """-> [(dst, state)]"""
        for ins in self.f.blocks[b]:
            if ins.op == 'phi':
                continue
            if ins.dbg is not None:
                self.where = self.P.where(ins.dbg)
            if ins.op == 'br':
                if ins.cond is None:
                    return [(ins.succ[0], st)]
                c = simp(self.boolean(self.value(st, ('i', 1), ins.cond)))
                if ins.succ[0] == ins.succ[1]:
                    return [(ins.succ[0], st)]
                for lit in st.pc:
                    if lit.eq(c):
                        c = TRUE
                        break
                    if lit.eq(Not(c)):
                        c = FALSE
                        break
                if z3.is_true(c):
                    return [(ins.succ[0], st)]
                if z3.is_false(c):
                    return [(ins.succ[1], st)]
                a, d = st.copy(), st.copy()
                a.pc = st.pc + (c,)
                d.pc = st.pc + (Not(c),)
                return [(ins.succ[0], a), (ins.succ[1], d)]
            if ins.op == 'ret':
                if ins.args:
                    st.ret = self.value(st, ins.args[0][0], ins.args[0][1])
                return [(None, st)]
            if ins.op == 'unreachable':
                self.oblige(st, 'unreachable code is not reached', FALSE)
                return []
            r = self.exec_inst(ins, st)
            if ins.res is not None and r is not None:
                st.env[ins.res] = r
        raise Unsupported('block without terminator')

    def exec_inst(self, i, st):
        op = i.op
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a = self.value(st, *i.args[0])
            b = self.value(st, *i.args[1])
            return self.binop(st, op, a, b, i.ty[1], i.flags)
        if op == 'icmp':
            a = self.value(st, *i.args[0])
            b = self.value(st, *i.args[1])
            return self.icmp(st, i.pred, a, b)
        if op in ('zext', 'sext', 'trunc'):
            return self.cast(st, op, self.value(st, *i.args[0]), i.ty[1])
        if op == 'bitcast':
            return self.value(st, *i.args[0])
        if op == 'ptrtoint':
            return IntV(64, ptr=self.value(st, *i.args[0]))
        if op == 'inttoptr':
            v = self.value(st, *i.args[0])
            if v.ptr is not None:
                return v.ptr
            raise Unsupported('inttoptr')
        if op == 'select':
            c = simp(self.boolean(self.value(st, *i.args[0])))
            a = self.value(st, *i.args[1])
            b = self.value(st, *i.args[2])
            if z3.is_true(c):
                return a
            if z3.is_false(c):
                return b
            return self.ite_vals(st, [(c, a), (Not(c), b)])
        if op == 'load':
            return self.load(st, i.ty, self.value(st, *i.args[0]))
        if op == 'store':
            self.store(st, i.args[0][0], self.value(st, *i.args[0]), self.value(st, *i.args[1]))
            return None
        if op == 'getelementptr':
            return self.gep(st, i.bty, self.value(st, *i.args[0]), [(t, self.value(st, t, v)) for t, v in i.idx])
        if op == 'alloca':
            return self.alloca(st, i)
        if op == 'call':
            return self.call(st, i)
        if op == 'freeze':
            return self.value(st, *i.args[0])
        raise Unsupported('instruction %s' % op)

    def alloca(self, st, i):
        ty = self.types.resolve(i.ty)
        if i.count is not None:
            raise Unsupported('variable length array')
        nm = 'local' + i.res.replace('%', '_')
        if hasattr(self.c, 'make_local'):
            r = self.c.make_local(self, st, nm, ty)
            if r is not None:
                return PtrV([(TRUE, Tgt(r, I(0)))])
        if ty[0] == 'arr':
            e = self.types.resolve(ty[2])
            n = ty[1]
            while e[0] == 'arr':
                n *= e[1]
                e = self.types.resolve(e[2])
            if e[0] == 'i':
                w = self.types.size(e)
                r = self.region(nm, 'arr', n=I(n), w=w, rep=self.const_rep(w))
                st.mem[r.name] = self.fresh_content(r)
                return PtrV([(TRUE, Tgt(r, I(0)))])
            raise Unsupported('local array of %r' % (e,))
        r = self.region(nm, 'cells', size=self.types.size(ty))
        r.leaves = self.leaves(ty)
        st.mem[r.name] = CellC({})
        return PtrV([(TRUE, Tgt(r, I(0)))])

    def leaves(self, ty, o=0):
        """scalar fields of a type: [(offset, size, type)]"""
        ty = self.types.resolve(ty)
        if ty[0] == 'arr':
            e = self.types.size(ty[2])
            return [x for k in range(min(ty[1], 64)) for x in self.leaves(ty[2], o + k * e)]
        if ty[0] == 'struct':
            return [x for a, t in zip(self.types.struct_layout(ty)[0], ty[1]) for x in self.leaves(t, o + a)]
        return [(o, self.types.size(ty), ty)]

    # ------------------------------------------------------------ pointers
    def gep(self, st, bty, base, idx):
        terms = []
        const = 0
        ty = bty
        for k, (it, v) in enumerate(idx):
            if k == 0:
                sz = self.types.size(ty)
            else:
                ty = self.types.resolve(ty)
                if ty[0] == 'arr':
                    ty = ty[2]
                    sz = self.types.size(ty)
                elif ty[0] == 'struct':
                    offs, _ = self.types.struct_layout(ty)
                    n = v.con
                    const += offs[n]
                    ty = ty[1][n]
                    continue
                else:
                    raise Unsupported('gep into %r' % (ty,))
            if v.con is not None:
                const += sz * scon(v)
            else:
                terms.append((sz, v))
        return self.ptr_add(st, base, const, terms)

    def ptr_add(self, st, base, const, terms):
        if not isinstance(base, PtrV):
            raise Unsupported('pointer arithmetic on an integer')
        if const == 0 and not terms:
            return base
        alts = []
        for c, t in base.alts:
            if t is None:
                alts.append((c, None))
                continue
            r = t.reg
            sub = st if len(base.alts) == 1 else self.sub(st, c)
            if r.kind == 'arr':
                ix = t.idx
                iv = None
                for sz, v in terms:
                    if v.lin is not None and r.w == 1 and False:
                        pass
                    if sz % r.w == 0:
                        d = self.exact(v, sub)
                        if sz // r.w == 1 and cval(ix) == 0 and const == 0 and len(terms) == 1:
                            iv = v
                        ix = ix + (sz // r.w) * d
                    else:
                        raise Unsupported('index scale %d in array of %d byte elements' % (sz, r.w))
                tot = t.rem + const
                ix = simp(ix + tot // r.w)
                alts.append((c, Tgt(r, ix, tot % r.w, iv)))
            elif r.kind == 'rows':
                ix = t.idx
                rem = t.rem
                if self.g.get('bytes') is not None and not (isinstance(rem, int) and all(v.lin is not None and sz == 1 and cval(v.lin[2]) is not None for sz, v in terms)):
                    # inside an element, at an offset that depends on the iteration (rowcopy.py)
                    o = rem[1] if isinstance(rem, tuple) else I(rem)
                    for sz, v in terms:
                        if v.lin is not None and sz == 1 and v.lin[0] is r.stride:
                            ix, o = ix + v.lin[1], o + v.lin[2]
                        else:
                            o = o + sz * self.exact(v, sub)
                    from .rowcopy import decompose
                    ix, o = decompose(self, sub, r, ix, o + const)
                    alts.append((c, Tgt(r, ix, ('x', o))))
                    continue
                if self.g.get('lenient') and isinstance(rem, int) and any(v.lin is None for sz, v in terms):
                    alts.append((c, Tgt(r, self.fresh('somewhere'), 0)))
                    continue
                for sz, v in terms:
                    if v.lin is None or v.lin[0] is not r.stride or sz != 1:
                        raise Unsupported('access inside an opaque element of %s' % r.name)
                    ix = ix + v.lin[1]
                    rr = cval(v.lin[2])
                    if rr is None:
                        raise Unsupported('access inside an opaque element of %s' % r.name)
                    rem += rr
                rem += const
                alts.append((c, Tgt(r, simp(ix), rem)))
            elif r.kind == 'sarr':
                ix = t.idx
                for sz, v in terms:
                    if sz % r.stride:
                        raise Unsupported('index scale %d in array of structures' % sz)
                    ix = ix + (sz // r.stride) * self.exact(v, sub)
                tot = t.rem + const
                alts.append((c, Tgt(r, simp(ix + tot // r.stride), tot % r.stride)))
            elif r.kind == 'cells':
                if terms:
                    raise Unsupported('variable index into %s' % r.name)
                alts.append((c, Tgt(r, t.idx, t.rem + const)))
            else:
                raise Unsupported('pointer arithmetic on %s' % r.kind)
        return PtrV(alts)

    def icmp_ptr(self, st, pred, a, b):
        res = FALSE
        for c, x in a.alts:
            for d, y in b.alts:
                cd = And(c, d)
                if x is None and y is None:
                    e = z3.BoolVal(pred in ('eq', 'ule', 'uge'))
                elif x is None or y is None:
                    if pred == 'eq':
                        e = FALSE
                    elif pred == 'ne':
                        e = TRUE
                    else:
                        raise Unsupported('ordering of null')
                elif x.reg is y.reg:
                    if x.reg.kind in ('cells', 'func'):
                        l, r = I(x.rem), I(y.rem)
                    elif (isinstance(x.rem, tuple) or isinstance(y.rem, tuple)) and x.reg.kind == 'rows' and pred in ('eq', 'ne'):
                        # offsets between 0 and the element size
                        S = x.reg.stride.sym
                        ox, oy = [t.rem[1] if isinstance(t.rem, tuple) else I(t.rem) for t in (x, y)]
                        if not self.prove(st, And(ox >= 0, ox <= S, oy >= 0, oy <= S)):
                            raise Unsupported('comparison of element interiors')
                        g = Or(And(x.idx == y.idx, ox == oy), And(x.idx + 1 == y.idx, ox == S, oy == 0), And(x.idx == y.idx + 1, oy == S, ox == 0))
                        l, r = If(g, I(0), I(1)), I(0)
                    elif x.rem == y.rem:
                        l, r = x.idx, y.idx
                    else:
                        raise Unsupported('comparison of element interiors')
                    if 'cmps' in self.g and x.reg.kind not in ('cells', 'func'):
                        self.g['cmps'].append((pred, l, r))
                    e = {'eq': l == r, 'ne': l != r, 'ult': l < r, 'ule': l <= r, 'ugt': l > r, 'uge': l >= r}.get(pred)
                    if e is None:
                        raise Unsupported('pointer comparison %s' % pred)
                else:
                    if pred == 'eq':
                        e = FALSE
                    elif pred == 'ne':
                        e = TRUE
                    else:
                        raise Unsupported('ordering of unrelated pointers')
                res = Or(res, And(cd, e))
        return self.mkbool(1, res)

    # ------------------------------------------------------------ integers
    def icmp(self, st, pred, a, b):
        if isinstance(a, PtrV) or isinstance(b, PtrV):
            return self.icmp_ptr(st, pred, a, b)
        if a.ptr is not None and b.ptr is not None:
            return self.icmp_ptr(st, pred, a.ptr, b.ptr)
        w = a.w
        if a.con is not None and b.con is not None:
            x, y = (scon(a), scon(b)) if pred[0] == 's' else (a.con, b.con)
            r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pred if pred in ('eq', 'ne') else pred[1:]]
            return con(1, int(r))
        if pred in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if x.b is not None and (y.b is not None or y.con is not None):
                    if y.con is not None:
                        e = x.b if y.con == 1 else (Not(x.b) if y.con == 0 else FALSE)
                    else:
                        e = x.b == y.b
                    return self.mkbool(1, e if pred == 'eq' else Not(e))
        if a.has_bv() and b.has_bv() and (a.real_bv() or b.real_bv()):
            x, y = self.bv(a), self.bv(b)
            e = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
                 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
                 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
            return self.mkbool(1, e)
        if pred[0] == 's':
            x, y = self.s(a, st), self.s(b, st)
            p = pred[1:]
        elif pred in ('eq', 'ne'):
            p = pred
            if a._s is not None and a._u is None or b._s is not None and b._u is None:
                x, y = self.s(a, st), self.s(b, st)
            else:
                x, y = self.u(a, st), self.u(b, st)
        else:
            x, y = self.u(a, st), self.u(b, st)
            p = pred[1:]
        e = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
        if 'cmps' in self.g:
            self.g['cmps'].append((p, x if a.raw is None else a.raw, y if b.raw is None else b.raw))
        return self.mkbool(1, e)

    def cast(self, st, op, v, w):
        r = self.cast0(st, op, v, w)
        if r is not v and r.raw is not None:
            r.rw = min(v.rw, v.w, w)
            # without a wrap-around the unwrapped value is the value
            if r.rw < w and v.rw >= v.w and (self.prove(st, And(v.raw >= 0, v.raw < (1 << v.w))) if op == 'zext' else
                                             op == 'sext' and self.prove(st, And(v.raw >= -(1 << (v.w - 1)), v.raw < (1 << (v.w - 1))))):
                r.rw = w
        return r

    def cast0(self, st, op, v, w):
        if v.ptr is not None:
            if w == 64:
                return v
            raise Unsupported('truncated pointer')
        if op == 'zext':
            if v.con is not None:
                return con(w, v.con)
            if v.b is not None:
                return IntV(w, b=v.b)
            if v._bv is not None and v._u is None:
                r = IntV(w, bv=z3.ZeroExt(w - v.w, v._bv))
                return r
            t = self.u(v, st)
            return IntV(w, u=t, s=t, lin=v.lin if (v.lin is not None and v._u is not None) or (v.lin is not None and t is v._s) else None, raw=v.raw)
        if op == 'sext':
            if v.con is not None:
                return con(w, scon(v))
            if v.b is not None and v.w > 1:
                return IntV(w, b=v.b)
            if v.b is not None:
                return IntV(w, s=If(v.b, I(-1), I(0)))
            if v._bv is not None and v._s is None:
                return IntV(w, bv=z3.SignExt(w - v.w, v._bv))
            t = self.s(v, st)
            r = IntV(w, s=t, lin=v.lin if v.lin is not None and (v._s is not None or t is v._u) else None, raw=v.raw)
            if v._u is not None and v._u.eq(t):
                r._u = t
            return r
        # trunc
        if v.con is not None:
            return con(w, v.con)
        if w == 1:
            return self.mkbool(1, self.boolean(v))
        if v.b is not None:
            return IntV(w, b=v.b)
        if v._bv is not None:
            return self.mkbv(z3.Extract(w - 1, 0, v._bv))
        t = v._u if v._u is not None else v._s
        if self.prove(st, And(t >= 0, t < (1 << w))):
            r = IntV(w, u=t, lin=v.lin, raw=v.raw)
            return r
        if v._s is not None and self.prove(st, And(v._s >= -(1 << (w - 1)), v._s < (1 << (w - 1)))):
            return IntV(w, s=v._s, lin=v.lin, raw=v.raw)
        return self.mku(w, t % (1 << w), raw=v.raw)

    def binop(self, st, op, a, b, w, flags):
        nsw = 'nsw' in flags
        if w == 1:
            x, y = self.boolean(a), self.boolean(b)
            if op == 'and':
                return self.mkbool(1, And(x, y))
            if op == 'or':
                return self.mkbool(1, Or(x, y))
            if op == 'xor':
                if b.con is not None:
                    return self.mkbool(1, Not(x) if b.con else x)
                return self.mkbool(1, z3.Xor(x, y))
            raise Unsupported('i1 %s' % op)
        if a.ptr is not None or b.ptr is not None:
            return self.ptr_arith(st, op, a, b)
        if a.con is not None and b.con is not None:
            r = self.const_op(st, op, a, b, w, nsw)
            if r is not None:
                return r
        if op in ('and', 'or', 'xor') and all(v.b is not None or (v.con is not None and v.con <= 1) for v in (a, b)):
            x, y = self.boolean(a), self.boolean(b)
            return self.mkbool(w, And(x, y) if op == 'and' else Or(x, y) if op == 'or' else simp(z3.Xor(x, y)))
        if op == 'xor' and b.con == 1 and a.b is not None:
            return self.mkbool(w, Not(a.b))
        if op in ('shl', 'lshr', 'ashr'):
            return self.shift(st, op, a, b, w, nsw)
        if op in ('and', 'or', 'xor'):
            return self.bitop(st, op, a, b, w)
        use_bv = a.has_bv() and b.has_bv() and (a.real_bv() or b.real_bv() or self.default_rep == 'bv')
        if not use_bv and self.mix == 'bv' and (a.real_bv() or b.real_bv()):
            use_bv = True
        if use_bv:
            return self.bv_arith(st, op, a, b, w, nsw)
        return self.int_arith(st, op, a, b, w, nsw)

    def const_op(self, st, op, a, b, w, nsw):
        x, y = a.con, b.con
        sx, sy = scon(a), scon(b)
        if op in ('add', 'sub', 'mul'):
            r = {'add': sx + sy, 'sub': sx - sy, 'mul': sx * sy}[op]
            if nsw and not -(1 << (w - 1)) <= r < (1 << (w - 1)):
                self.oblige(st, 'no signed overflow', FALSE)
            return con(w, r)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if y == 0:
                self.oblige(st, 'no division by zero', FALSE)
                return con(w, 0)
            if op == 'udiv':
                return con(w, x // y)
            if op == 'urem':
                return con(w, x % y)
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0):
                q = -q
            return con(w, q if op == 'sdiv' else sx - q * sy)
        if op == 'and':
            return con(w, x & y)
        if op == 'or':
            return con(w, x | y)
        if op == 'xor':
            return con(w, x ^ y)
        if op in ('shl', 'lshr', 'ashr'):
            if y >= w:
                self.oblige(st, 'shift distance below %d' % w, FALSE)
                return con(w, 0)
            if op == 'shl':
                return con(w, x << y)
            return con(w, (x if op == 'lshr' else sx) >> y)
        return None

    def ptr_arith(self, st, op, a, b):
        if op == 'sub' and a.ptr is not None and b.ptr is not None:
            t = None
            for c, x in a.ptr.alts:
                for d, y in b.ptr.alts:
                    if x is None or y is None or x.reg is not y.reg:
                        self.oblige(st, 'pointer difference within one object', Not(And(c, d)))
                        continue
                    if x.reg.kind == 'arr':
                        e = x.reg.w * (x.idx - y.idx) + (x.rem - y.rem)
                        lin = None
                    elif x.reg.kind == 'rows':
                        cc = simp(x.idx - y.idx)
                        e = x.reg.stride.term(cc) + (x.rem - y.rem)
                        lin = (x.reg.stride, cc, I(x.rem - y.rem))
                    elif x.reg.kind == 'sarr':
                        e = x.reg.stride * (x.idx - y.idx) + (x.rem - y.rem)
                        lin = None
                    else:
                        e = I(x.rem - y.rem)
                        lin = None
                    t = e if t is None else If(And(c, d), e, t)
            if t is None:
                raise Unsupported('pointer difference')
            r = self.mks(64, t)
            if lin is not None and len(a.ptr.alts) == 1 and len(b.ptr.alts) == 1:
                r.lin = lin
            return r
        raise Unsupported('arithmetic on a pointer value')

    def bv_arith(self, st, op, a, b, w, nsw):
        x, y = self.bv(a), self.bv(b)
        if op in ('add', 'sub', 'mul'):
            if nsw:
                ex = 1 if op != 'mul' else w
                X, Y = z3.SignExt(ex, x), z3.SignExt(ex, y)
                R = X + Y if op == 'add' else X - Y if op == 'sub' else X * Y
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                self.oblige(st, 'no signed overflow', R == z3.SignExt(ex, r))
                return self.mkbv(r)
            if op == 'add' and may_bits(x, self.bits_memo) & may_bits(y, self.bits_memo) == 0:
                return self.mkbv(x | y)       # no carries
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            return self.mkbv(r)
        self.oblige(st, 'no division by zero', y != 0)
        if op == 'udiv':
            return self.mkbv(z3.UDiv(x, y))
        if op == 'urem':
            return self.mkbv(z3.URem(x, y))
        self.oblige(st, 'no signed overflow', Not(And(x == (1 << (w - 1)), y == -1)))
        if op == 'sdiv':
            return self.mkbv(x / y)
        return self.mkbv(z3.SRem(x, y))

    def shift(self, st, op, a, b, w, nsw):
        if b.con is not None:
            n = b.con
            if n >= w:
                self.oblige(st, 'shift distance below %d' % w, FALSE)
                return con(w, 0)
            if a.real_int() and not a.real_bv():
                if op == 'shl':
                    if nsw:
                        return self.int_arith(st, 'mul', a, con(w, 1 << n), w, True)
                    return self.int_arith(st, 'mul', a, con(w, 1 << n), w, False)
                if op == 'lshr':
                    t = self.u(a, st)
                    return IntV(w, u=simp(t / (1 << n)), s=simp(t / (1 << n)) if n > 0 else None)
                t = self.s(a, st)
                return self.mks(w, t / (1 << n))
        else:
            if b.real_bv() or b._bv is not None:
                self.oblige(st, 'shift distance below %d' % w, z3.ULT(self.bv(b), z3.BitVecVal(w, w)))
            else:
                t = self.u(b, st)
                self.oblige(st, 'shift distance below %d' % w, And(t >= 0, t < w))
        x, y = self.bv(a), self.bv(b)
        if op == 'shl':
            if nsw:
                r = x << y
                self.oblige(st, 'no signed overflow', (r >> y) == x)
                return self.mkbv(r)
            r = self.mkbv(x << y)
            if b.con is not None and r.con is None:
                r.tag = ('shl', x, b.con)
            return r
        if op == 'lshr':
            r = self.mkbv(z3.LShR(x, y))
            if b.con is not None and r.con is None:
                r.tag = ('lshr', x, b.con)
            return r
        return self.mkbv(x >> y)

    def bitop(self, st, op, a, b, w):
        if b.con is None and a.con is not None:
            a, b = b, a
        if op == 'and' and b.con is not None and a.real_int() and not a.real_bv():
            m = b.con
            if m == (1 << w) - 1:
                return a
            if m & (m + 1) == 0:
                t = simp(self.u(a, st) % (m + 1))
                return IntV(w, u=t, s=t) if not z3.is_int_value(t) else con(w, t.as_long())
            inv = ((1 << w) - 1) ^ m
            if inv & (inv + 1) == 0:
                t = self.u(a, st)
                return self.mku(w, t - t % (inv + 1))
        if op in ('or', 'xor', 'add') and b.con == 0:
            return a
        x, y = self.bv(a), self.bv(b)
        if op in ('or', 'xor') and a.tag and b.tag:
            for p, q in ((a.tag, b.tag), (b.tag, a.tag)):
                if p[0] == 'shl' and q[0] == 'lshr' and p[1].eq(q[1]) and p[2] + q[2] == w:
                    return self.mkbv(z3.RotateLeft(p[1], p[2]))
        r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
        return self.mkbv(r)

    def int_arith(self, st, op, a, b, w, nsw):
        lo, hi = -(1 << (w - 1)), (1 << (w - 1))
        M = 1 << w
        # forms c*S + r
        if op in ('add', 'sub') and (a.lin is not None or b.lin is not None):
            la = a.lin or ((b.lin[0], I(0), (self.s if nsw else self.u)(a, st)))
            lb = b.lin or ((a.lin[0], I(0), (self.s if nsw else self.u)(b, st)))
            if la[0] is lb[0]:
                c = la[1] + lb[1] if op == 'add' else la[1] - lb[1]
                r = la[2] + lb[2] if op == 'add' else la[2] - lb[2]
                v = self.mk_lin(w, (la[0], c, simp(r)), st, nsw)
                t = v.raw
                if nsw:
                    self.oblige(st, 'no signed overflow', And(t >= lo, t < hi))
                    return v
                if self.prove(st, And(t >= 0, t < M)):
                    return v
                return self.mku(w, self.wrap(t, M, op), raw=t)
        if op == 'mul' and (a.lin is not None or b.lin is not None):
            for p, q in ((a, b), (b, a)):
                if p.lin is not None and cval(p.lin[1]) == 1 and cval(p.lin[2]) == 0:
                    c = self.s(q, st) if nsw else self.u(q, st)
                    v = self.mk_lin(w, (p.lin[0], c, I(0)), st, nsw)
                    t = v.raw
                    if nsw:
                        self.oblige(st, 'no signed overflow', And(t >= lo, t < hi))
                        return v
                    if self.prove(st, And(t >= 0, t < M)):
                        return v
                    return self.mku(w, t % M, raw=t)
                if p.lin is not None and q.con is not None:
                    k = scon(q) if nsw else q.con
                    v = self.mk_lin(w, (p.lin[0], p.lin[1] * k, simp(p.lin[2] * k)), st, nsw)
                    t = v.raw
                    if nsw:
                        self.oblige(st, 'no signed overflow', And(t >= lo, t < hi))
                        return v
                    if self.prove(st, And(t >= 0, t < M)):
                        return v
                    return self.mku(w, t % M, raw=t)
        if op in ('add', 'sub', 'mul'):
            if nsw:
                x, y = self.s(a, st), self.s(b, st)
                t = simp(x + y if op == 'add' else x - y if op == 'sub' else x * y)
                self.oblige(st, 'no signed overflow', And(t >= lo, t < hi))
                return self.mks(w, t)
            x, y = self.u(a, st), self.u(b, st)
            if b.con is not None and b.con >= hi and op == 'add':
                t = simp(x - (M - b.con))
                k = 'sub'
            elif a.con is not None and a.con >= hi and op == 'add':
                t = simp(y - (M - a.con))
                k = 'sub'
            elif b.con is not None and b.con >= hi and op == 'sub':
                t = simp(x + (M - b.con))
                k = 'add'
            else:
                t = simp(x + y if op == 'add' else x - y if op == 'sub' else x * y)
                k = op
            if k == 'sub' and 'subs' in self.g:
                self.g['subs'].append(t)
            if op != 'mul':
                # sums of wrapped values: the unwrapped sum is simpler and equal modulo 2^w
                x2 = a.raw if a.raw is not None and a.rw >= w else x
                y2 = b.raw if b.raw is not None and b.rw >= w else y
                if not (x2.eq(x) and y2.eq(y)):
                    if b.con is not None and b.con >= hi:
                        y2 = I(scon(b))
                    if a.con is not None and a.con >= hi and op == 'add':
                        x2 = I(scon(a))
                    t2 = simp(x2 + y2 if op == 'add' else x2 - y2)
                    if self.prove(st, And(t2 >= 0, t2 < M)):
                        return self.mku(w, t2, raw=t2)
                    return self.mku(w, self.wrap(t, M, k), raw=t2)
            if self.prove(st, And(t >= 0, t < M)):
                return self.mku(w, t, raw=t)
            return self.mku(w, self.wrap(t, M, k), raw=t)
        if op in ('udiv', 'urem'):
            x, y = self.u(a, st), self.u(b, st)
            self.oblige(st, 'no division by zero', y != 0)
            if b.con is not None:
                t = simp(x / y if op == 'udiv' else x % y)
                return self.mku(w, t)
            # symbolic divisor: defining facts
            q = self.fresh('quo')
            r = self.fresh('rem')
            self.assume(st, And(r >= 0, r < y, q >= 0, q <= x, r <= x,
                                z3.Implies(x < y, And(q == 0, r == x)),
                                z3.Implies(And(y <= x, x < 2 * y), And(q == 1, r == x - y)),
                                z3.Implies(x == 2 * y, And(q == 2, r == 0))))
            return self.mku(w, q if op == 'udiv' else r)
        if op in ('sdiv', 'srem'):
            x, y = self.s(a, st), self.s(b, st)
            self.oblige(st, 'no division by zero', y != 0)
            if b.con is not None and scon(b) > 0:
                if self.prove(st, x >= 0):
                    t = x / y if op == 'sdiv' else x % y
                else:
                    t = If(x >= 0, x / y, -((-x) / y)) if op == 'sdiv' else If(x >= 0, x % y, -((-x) % y))
                return self.mks(w, t)
            raise Unsupported('signed division by a variable')
        raise Unsupported('integer %s' % op)

    def wrap(self, t, M, op):
        if op == 'add':
            return If(t >= M, t - M, t)
        if op == 'sub':
            return If(t < 0, t + M, t)
        return t % M

    # ------------------------------------------------------------ calls
    def call(self, st, i):
        if i.callee[0] == 'asm':
            if i.callee[1] not in ('""', 'c""'):
                raise Unsupported('inline assembly')
            return None
        if i.callee[0] == 'l':
            p = self.value(st, ('ptr',), i.callee)
            args = [self.value(st, t, v) for t, v in i.args]
            if not hasattr(self.c, 'indirect'):
                raise Unsupported('indirect call')
            return self.c.indirect(self, st, p, args, i)
        name = i.callee[1]
        if name.startswith('llvm.dbg') or name.startswith('llvm.stack') or name == 'llvm.assume' or name.startswith('llvm.donothing'):
            return None
        if name.startswith('llvm.lifetime'):
            return None
        args = [self.value(st, t, v) for t, v in i.args]
        if name in self.contracts:
            k = self.contracts[name]
            self.notes.add('callee contract used: ' + name)
            return k.apply(self, st, args)
        from . import libc
        base = name
        if name.startswith('llvm.'):
            base = '.'.join(name.split('.')[:2])
        h = libc.TABLE.get(base)
        if h is not None:
            self.notes.add('trusted contract used: ' + base.replace('llvm.', ''))
            return h(self, st, args, i)
        raise Unsupported('call of %s' % name)

    # ------------------------------------------------------------ loops
    from .loops import exec_loop, unroll, cut
