"""Trusted contracts of the C library functions and LLVM intrinsics the sources use."""
import z3

from .core import And, Or, Not, Implies, If, I, TRUE, FALSE, Tgt, PtrV, IntV, ArrC, ConstTab, CellC, SArrC, con, cval, simp
from .ir import Unsupported


def one(E, st, p, what):
    """the single non-null target of a pointer (with the non-null obligation)"""
    alts = E.targets(st, p, what)
    regs = {id(t.reg) for _, t in alts}
    if len(alts) == 1:
        return alts[0][1]
    if len(regs) == 1 and len({t.rem for _, t in alts}) == 1:
        t = alts[-1][1].idx
        for c, a in alts[-2::-1]:
            t = If(c, a.idx, t)
        return Tgt(alts[0][1].reg, t, alts[0][1].rem)
    raise Unsupported('%s through a pointer to one of several objects' % what)


def disjoint(E, st, what, d, s, n):
    if d.reg is s.reg:
        E.oblige(st, '%s: ranges do not overlap' % what, Or(n <= 0, d.idx + n <= s.idx, s.idx + n <= d.idx))


def rng(E, st, what, t, n):
    """n elements from t are inside the object"""
    g = Or(n <= 0, And(t.idx >= 0, t.idx + n <= t.reg.n)) if cval(n) is None else (TRUE if cval(n) <= 0 else And(t.idx >= 0, t.idx + n <= t.reg.n))
    if t.reg.cap is not None:
        g = And(g, t.reg.cap)
    E.oblige(st, '%s within %s' % (what, t.reg.name), g)


def count(E, st, t, v):
    """byte count v in elements of t's region; -> Int term"""
    r = t.reg
    if r.kind == 'rows':
        if v.lin is not None and v.lin[0] is r.stride and cval(v.lin[2]) == 0:
            return simp(v.lin[1])
        if v.con == 0:
            return I(0)
        raise Unsupported('copy of a part of an opaque element')
    n = E.u(v, st)
    if r.kind == 'arr' and r.w > 1:
        k = cval(n)
        if k is not None and k % r.w == 0:
            return I(k // r.w)
        q = simp(n / r.w)
        E.oblige(st, 'whole elements are copied', n % r.w == 0)
        return q
    return n


def writable(E, st, t, n):
    if t.reg.ro:
        E.oblige(st, 'frame: %s is not written' % t.reg.name, n <= 0 if z3.is_expr(n) else FALSE)
        return False
    return True


def copy_array(E, st, d, s, n, A_src=None):
    """elements s..s+n of s.reg to d..d+n of d.reg (simultaneously)"""
    rd, rs = d.reg, s.reg
    k = cval(n)
    B = A_src if A_src is not None else None
    if rd.kind == 'arr' and (rd.rep != rs.rep or rd.w != rs.w):
        if not (k is not None and k <= 256):
            raise Unsupported('copy between differently represented arrays')
    if k is not None and k <= (256 if rd.kind == 'arr' else 8):
        vals = []
        for i in range(k):
            if rs.kind == 'arr':
                vals.append(E.arr_get(st, rs, simp(s.idx + i)))
            else:
                vals.append(z3.Select(E.mat(rs, st.mem[rs.name]), simp(s.idx + i)))
        for i in range(k):
            if rd.kind == 'arr':
                v = vals[i]
                if rd.rep != rs.rep and v.con is None:
                    v = IntV(v.w, bv=E.bv(v)) if rd.rep == 'bv' else IntV(v.w, u=E.u(v, st))
                E.arr_set(st, rd, simp(d.idx + i), v)
            else:
                st.mem[rd.name] = ArrC(z3.Store(E.mat(rd, st.mem[rd.name]), simp(d.idx + i), vals[i]))
        return
    A = E.mat(rd, st.mem[rd.name])
    B = E.mat(rs, st.mem[rs.name])
    N = E.fresh(rd.name, A.sort())
    j = z3.FreshInt('q')
    E.assume(st, z3.ForAll([j], z3.Select(N, j) == If(And(d.idx <= j, j < d.idx + n), z3.Select(B, j - d.idx + s.idx), z3.Select(A, j)),
                           patterns=[z3.Select(N, j)]))
    # forward trigger: source positions
    j2 = z3.FreshInt('q')
    E.assume(st, z3.ForAll([j2], Implies(And(s.idx <= j2, j2 < s.idx + n), z3.Select(N, j2 - s.idx + d.idx) == z3.Select(B, j2)),
                           patterns=[z3.Select(B, j2)]))
    st.mem[rd.name] = ArrC(N)


def memcpy(E, st, args, i, move=False):
    what = 'memmove' if move else 'memcpy'
    v = args[2]
    d, s = one(E, st, args[0], what), one(E, st, args[1], what)
    # structures
    kinds = (d.reg.kind, s.reg.kind)
    if 'cells' in kinds or 'sarr' in kinds:
        if v.con is None:
            raise Unsupported('%s of a structure with variable size' % what)
        struct_copy(E, st, d, s, v.con, what)
        return args[0]
    if d.rem or s.rem:
        raise Unsupported('%s of element interiors' % what)
    if kinds[0] != kinds[1]:
        raise Unsupported('%s between different kinds of objects' % what)
    if kinds[0] == 'rows' and d.reg.stride is not s.reg.stride:
        raise Unsupported('%s between arrays of different element sizes' % what)
    n = count(E, st, s, v)
    rng(E, st, what + ' source', s, n)
    rng(E, st, what + ' destination', d, n)
    if not move:
        disjoint(E, st, what, d, s, n)
    if not writable(E, st, d, n):
        return args[0]
    # whole constant initialisers
    if kinds[0] == 'arr' and isinstance(st.mem[s.reg.name].base, ConstTab) and not st.mem[s.reg.name].ov and cval(d.idx) == 0 and cval(s.idx) == 0 \
            and cval(n) == len(st.mem[s.reg.name].base.vals) and cval(d.reg.n) == cval(n) and d.reg.w == s.reg.w:
        d.reg.rep = s.reg.rep = d.reg.rep
        st.mem[d.reg.name] = ArrC(st.mem[s.reg.name].base)
        d.reg.witness += s.reg.witness
        return args[0]
    copy_array(E, st, d, s, n)
    return args[0]


def struct_copy(E, st, d, s, size, what):
    def fields(t):
        r = t.reg
        if r.kind == 'cells':
            return {o - t.rem: z for (o, z) in st.mem[r.name].cells if t.rem <= o and o + z <= t.rem + size}
        if r.kind == 'sarr':
            if t.rem or size != r.stride:
                raise Unsupported('%s of a part of a structure' % what)
            return {o: z for o, (z, k) in r.fields.items()}
        raise Unsupported('%s between a structure and raw bytes' % what)
    fs = fields(s)
    if d.reg.kind == 'sarr':
        fs2 = fields(d)
        if fs != fs2 and s.reg.kind == 'cells' and set(fs2) <= set(fs) and size == d.reg.stride:
            fs = fs2
        if fs != fs2:
            raise Unsupported('%s between different structures' % what)
    for o, z in fs.items():
        src = PtrV([(TRUE, Tgt(s.reg, s.idx, s.rem + o))])
        dst = PtrV([(TRUE, Tgt(d.reg, d.idx, d.rem + o))])
        if s.reg.kind == 'sarr':
            k = s.reg.fields[o][1]
            ty = ('ptr',) if k == 'ptr' else ('i', 8 * z)
        else:
            cell = st.mem[s.reg.name].cells[(s.rem + o, z)]
            ty = ('ptr',) if isinstance(cell, PtrV) else ('i', 8 * z)
        E.store(st, ty, E.load(st, ty, src), dst)


def memmove(E, st, args, i):
    return memcpy(E, st, args, i, True)


def memset(E, st, args, i):
    d = one(E, st, args[0], 'memset')
    v = args[1]
    if d.reg.kind == 'cells':
        if args[2].con is None or v.con != 0:
            raise Unsupported('memset of a structure')
        from .core import CellC, NULL
        for (o, z, ty) in getattr(d.reg, 'leaves', ()):
            cs = st.mem[d.reg.name].cells
            if d.rem <= o and o + z <= d.rem + args[2].con and (o, z) not in cs and not any(a < o + z and o < a + b for (a, b) in cs):
                cs = dict(cs)
                cs[(o, z)] = NULL if ty[0] == 'ptr' else con(8 * z, 0)
                st.mem[d.reg.name] = CellC(cs)
        for (o, z) in list(st.mem[d.reg.name].cells):
            if d.rem <= o and o + z <= d.rem + args[2].con:
                cell = st.mem[d.reg.name].cells[(o, z)]
                ty = ('ptr',) if isinstance(cell, PtrV) else ('i', 8 * z)
                E.store(st, ty, NULL if ty[0] == 'ptr' else con(8 * z, 0), PtrV([(TRUE, Tgt(d.reg, d.idx, o))]))
        return args[0]
    if d.reg.kind == 'sarr':
        n = E.u(args[2], st)
        if v.con != 0 or d.rem:
            raise Unsupported('memset of structures')
        q = simp(n / d.reg.stride)
        E.oblige(st, 'whole structures are set', n % d.reg.stride == 0)
        rng(E, st, 'memset', d, q)
        if not writable(E, st, d, q):
            return args[0]
        f = {}
        for off, (z, k) in d.reg.fields.items():
            A = st.mem[d.reg.name].f[off]
            N = E.fresh('%s_%d' % (d.reg.name, off), A.sort())
            j = z3.FreshInt('q')
            zero = z3.BoolVal(False) if k == 'bool' else I(0)
            E.assume(st, z3.ForAll([j], z3.Select(N, j) == If(And(d.idx <= j, j < d.idx + q), zero, z3.Select(A, j)), patterns=[z3.Select(N, j)]))
            f[off] = N
        st.mem[d.reg.name] = SArrC(f)
        return args[0]
    if d.reg.kind != 'arr' or d.rem:
        raise Unsupported('memset of %s' % d.reg.kind)
    n = count(E, st, d, args[2])
    if d.reg.w > 1 and v.con != 0:
        raise Unsupported('memset of wide elements')
    rng(E, st, 'memset', d, n)
    if not writable(E, st, d, n):
        return args[0]
    val = con(8 * d.reg.w, 0) if v.con == 0 else E.cast(st, 'trunc', v, 8) if v.w > 8 else v
    k = cval(n)
    if k is not None and k <= 256:
        for x in range(k):
            E.arr_set(st, d.reg, simp(d.idx + x), val)
        return args[0]
    A = E.mat(d.reg, st.mem[d.reg.name])
    N = E.fresh(d.reg.name, A.sort())
    j = z3.FreshInt('q')
    E.assume(st, z3.ForAll([j], z3.Select(N, j) == If(And(d.idx <= j, j < d.idx + n), E.term_of(d.reg, val, st), z3.Select(A, j)), patterns=[z3.Select(N, j)]))
    st.mem[d.reg.name] = ArrC(N)
    return args[0]


def zero(E, r):
    return z3.BitVecVal(0, 8) if r.rep == 'bv' else I(0)


def string(E, st, p, what):
    """-> (Tgt, position Z of the terminator): the pointer designates a null-terminated string"""
    t = one(E, st, p, what)
    r = t.reg
    if r.kind != 'arr' or r.w != 1 or t.rem:
        raise Unsupported('%s of a non-character object' % what)
    c = st.mem[r.name]
    if isinstance(c.base, ConstTab) and not c.ov and cval(t.idx) is not None:
        i = cval(t.idx)
        if 0 in c.base.vals[i:]:
            return t, I(i + c.base.vals[i:].index(0))
        E.oblige(st, '%s argument is null-terminated' % what, FALSE)
        return t, I(i)
    A = E.mat(r, c)
    z0 = zero(E, r)
    E.oblige(st, '%s argument is null-terminated within %s' % (what, r.name),
             Or(*[And(t.idx <= w, w < r.n, z3.Select(A, w) == z0) for w in r.witness], FALSE) if r.witness else FALSE)
    E.oblige(st, '%s argument starts inside %s' % (what, r.name), And(t.idx >= 0, t.idx < r.n))
    for w, A2, ix in E.g.setdefault('strs', []):
        if A2.eq(A) and ix.eq(simp(t.idx)):
            Z = w
            break
    else:
        Z = E.fresh('nul_' + r.name)
        E.g['strs'].append((Z, A, simp(t.idx)))
        E.keep.append(A)
    j = z3.FreshInt('q')
    E.assume(st, And(t.idx <= Z, Z < r.n, z3.Select(A, Z) == z0))
    E.assume(st, z3.ForAll([j], Implies(And(t.idx <= j, j < Z), z3.Select(A, j) != z0), patterns=[z3.Select(A, j)]))
    r.witness.append(Z)
    return t, Z


def strlen(E, st, args, i):
    t, Z = string(E, st, args[0], 'strlen')
    n = simp(Z - t.idx)
    if cval(n) is not None:
        return con(64, cval(n))
    E.assume(st, And(n >= 0, n < (1 << 62)))
    return IntV(64, u=n, s=n, raw=n)


def do_copy(E, st, what, d, s, n, dst):
    """copies n characters plus a terminator"""
    if d.reg.kind != 'arr' or d.reg.w != 1 or d.rem:
        raise Unsupported('%s into a non-character object' % what)
    rng(E, st, what + ' destination', d, simp(n + 1))
    if d.reg is s.reg:
        E.oblige(st, '%s: ranges do not overlap' % what, Or(d.idx + n + 1 <= s.idx, s.idx + n + 1 <= d.idx))
    if not writable(E, st, d, simp(n + 1)):
        return
    k = cval(n)
    if k is not None and k <= 16 and isinstance(st.mem[s.reg.name].base, ConstTab):
        A = E.mat(d.reg, st.mem[d.reg.name])
        i0 = cval(s.idx)
        for x in range(k + 1):
            ch = st.mem[s.reg.name].base.vals[i0 + x]
            A = z3.Store(A, simp(d.idx + x), z3.BitVecVal(ch, 8) if d.reg.rep == 'bv' else I(ch))
        st.mem[d.reg.name] = ArrC(A)
    else:
        copy_array(E, st, d, s, simp(n + 1))
    d.reg.witness.append(simp(d.idx + n))


def strcpy(E, st, args, i):
    s, Z = string(E, st, args[1], 'strcpy')
    d = one(E, st, args[0], 'strcpy')
    do_copy(E, st, 'strcpy', d, s, simp(Z - s.idx), args[0])
    return args[0]


def strcat(E, st, args, i):
    d0, Zd = string(E, st, args[0], 'strcat')
    s, Z = string(E, st, args[1], 'strcat')
    do_copy(E, st, 'strcat', Tgt(d0.reg, Zd), s, simp(Z - s.idx), args[0])
    return args[0]


def cmp_result(E, st, p):
    r = E.new_int(32, 'cmp', True)
    return r


def strncmp(E, st, args, i):
    """supported: one argument is a string of at least n characters (so n characters are compared unless they differ)"""
    n = E.u(args[2], st)
    a, b = one(E, st, args[0], 'strncmp'), one(E, st, args[1], 'strncmp')
    for t in (a, b):
        if t.reg.kind != 'arr' or t.reg.w != 1 or t.rem:
            raise Unsupported('strncmp of a non-character object')
    A, B = E.arr(st, a.reg), E.arr(st, b.reg)
    z0 = zero(E, a.reg)
    # at most n characters are read, and none after the first difference or terminator: the object must hold them all
    # unless a terminator or a difference comes first (the simple sufficient condition is demanded)
    for t, X in ((a, A), (b, B)):
        alts = [n <= 0, And(t.idx >= 0, t.idx + n <= t.reg.n)]
        for w in t.reg.witness:
            alts.append(And(t.idx >= 0, t.idx <= w, w < t.reg.n, z3.Select(X, w) == z0))
        E.oblige(st, 'strncmp within %s' % t.reg.name, Or(*alts))
    # one side has no terminator among the first n characters
    ok = []
    for t, X in ((a, A), (b, B)):
        for (Z, A2, ix) in E.g.get('strs', []):
            if A2.eq(X):
                ok.append((ix, Z))
    nz = [And(t.idx == ix, t.idx + n <= Z) for t in (a, b) for ix, Z in ok if True]
    if not any(E.prove(st, And(t.idx == ix, t.idx + n <= Z)) for t, X in ((a, A), (b, B)) for (Z, A2, ix) in E.g.get('strs', []) if A2.eq(X)):
        raise Unsupported('strncmp where both strings may end early')
    return equal_result(E, st, a, b, A, B, n)


def equal_result(E, st, a, b, A, B, n):
    r = E.new_int(32, 'cmp', True)
    j = z3.FreshInt('q')
    w = E.fresh('diff')
    k = cval(n)
    if k is not None and k <= 16:
        E.assume(st, (r._s == 0) == And(*[z3.Select(A, simp(a.idx + x)) == z3.Select(B, simp(b.idx + x)) for x in range(k)]))
        return r
    E.assume(st, Implies(r._s == 0, z3.ForAll([j], Implies(And(b.idx <= j, j < b.idx + n), z3.Select(A, j - b.idx + a.idx) == z3.Select(B, j)),
                                              patterns=[z3.Select(B, j)])))
    j2 = z3.FreshInt('q')
    E.assume(st, Implies(r._s == 0, z3.ForAll([j2], Implies(And(a.idx <= j2, j2 < a.idx + n), z3.Select(A, j2) == z3.Select(B, j2 - a.idx + b.idx)),
                                              patterns=[z3.Select(A, j2)])))
    E.assume(st, Implies(r._s != 0, And(0 <= w, w < n, z3.Select(A, a.idx + w) != z3.Select(B, b.idx + w))))
    return r


def memcmp(E, st, args, i):
    a, b = one(E, st, args[0], 'memcmp'), one(E, st, args[1], 'memcmp')
    if a.reg.kind == 'rows' or b.reg.kind == 'rows':
        if a.reg.kind != b.reg.kind or a.reg.stride is not b.reg.stride or a.rem or b.rem:
            raise Unsupported('memcmp between different kinds of objects')
        n = count(E, st, a, args[2])
        if cval(n) != 1:
            raise Unsupported('memcmp of several elements')
        rng(E, st, 'memcmp', a, n)
        rng(E, st, 'memcmp', b, n)
        r = E.new_int(32, 'cmp', True)
        E.assume(st, (r._s == 0) == (z3.Select(E.arr(st, a.reg), a.idx) == z3.Select(E.arr(st, b.reg), b.idx)))
        return r
    if a.reg.kind != 'arr' or b.reg.kind != 'arr' or a.reg.w != 1 or b.reg.w != 1:
        raise Unsupported('memcmp')
    n = E.u(args[2], st)
    rng(E, st, 'memcmp', a, n)
    rng(E, st, 'memcmp', b, n)
    return equal_result(E, st, a, b, E.arr(st, a.reg), E.arr(st, b.reg), n)


def memchr(E, st, args, i):
    a = one(E, st, args[0], 'memchr')
    if a.reg.kind != 'arr' or a.reg.w != 1:
        raise Unsupported('memchr')
    n = E.u(args[2], st)
    rng(E, st, 'memchr', a, n)
    A = E.arr(st, a.reg)
    ch = E.cast(st, 'trunc', args[1], 8)
    c = E.term_of(a.reg, ch, st)
    found = E.fresh('found', z3.BoolSort())
    w = E.fresh('pos')
    j = z3.FreshInt('q')
    E.assume(st, Implies(found, And(a.idx <= w, w < a.idx + n, z3.Select(A, w) == c)))
    E.assume(st, z3.ForAll([j], Implies(And(a.idx <= j, j < If(found, w, a.idx + n)), z3.Select(A, j) != c), patterns=[z3.Select(A, j)]))
    return PtrV([(found, Tgt(a.reg, w)), (Not(found), None)])


TABLE = {
    'memcpy': memcpy, 'llvm.memcpy': memcpy, '__memcpy_chk': memcpy,
    'memmove': memmove, 'llvm.memmove': memmove,
    'memset': memset, 'llvm.memset': memset,
    'strlen': strlen, 'strcpy': strcpy, 'strcat': strcat, 'strncmp': strncmp, 'memcmp': memcmp, 'memchr': memchr,
}
