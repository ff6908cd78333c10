import z3

from ..core import *  # noqa
from ..core import And, Or, Not, Implies, If, I, TRUE, FALSE, IntV, PtrV, Tgt, NULL, ArrC, CellC, SArrC, Stride, con, cval, simp, forall, State
from ..ir import Unsupported

MAXOBJ = 1 << 62


class Contract:
    func = None
    cases = ['']
    callees = ()          # contracts applied at calls (the callee's own contract is verified separately)
    default_rep = 'int'
    mix = 'int'
    requires_text = ()
    ensures_text = ()
    unroll = None

    def setup(self, E, st, case):
        raise NotImplementedError

    def post(self, E, st, case):
        raise NotImplementedError


# ---- helpers to build pre-states

def bv_param(E, name, w):
    return IntV(w, bv=z3.BitVec(name, w))


def int_param(E, name, w, signed=False):
    t = z3.Int(name)
    if signed:
        E.fact(And(t >= -(1 << (w - 1)), t < (1 << (w - 1))))
        return IntV(w, s=t, raw=t)
    E.fact(And(t >= 0, t < (1 << w)))
    return IntV(w, u=t, raw=t)


def bool_param(E, name, w=1):
    return IntV(w, b=z3.Bool(name))


def byte_array(E, st, name, n, rep='bv', ro=False, w=1):
    """object of n elements with arbitrary contents; -> (region, array term)"""
    r = E.region(name, 'arr', n=n, w=w, rep=rep, ro=ro)
    A = z3.Const(name, E.arr_sort(r))
    if rep == 'int':
        q = z3.FreshInt('q')
        E.fact(z3.ForAll([q], And(z3.Select(A, q) >= 0, z3.Select(A, q) < (1 << (8 * w))), patterns=[z3.Select(A, q)]))
    st.mem[r.name] = ArrC(A)
    return r, A


def ptr(r, idx=0):
    return PtrV([(TRUE, Tgt(r, I(idx) if isinstance(idx, int) else idx))])


def cells(E, st, name, fields, size, ro=False):
    """structure object; fields: {(off,size): value}"""
    r = E.region(name, 'cells', size=size, ro=ro)
    st.mem[r.name] = CellC(dict(fields))
    return r


def goal(E, st, name, g):
    E.oblige(st, 'ensures: ' + name, g, assume=False)


def same_array(E, st, name, r, A0):
    A = E.arr(st, r)
    if A.eq(A0):
        goal(E, st, name, TRUE)
        return
    j = z3.FreshInt('j')
    goal(E, st, name, z3.ForAll([j], Implies(And(j >= 0, j < r.n), z3.Select(A, j) == z3.Select(A0, j))))


def all_idx(lo, hi, body):
    """forall j in [lo,hi): body(j)"""
    j = z3.FreshInt('j')
    b = body(j)
    return z3.ForAll([j], Implies(And(lo <= j, j < hi), b))


def all_pat(lo, hi, A, body):
    j = z3.FreshInt('q')
    return z3.ForAll([j], Implies(And(lo <= j, j < hi), body(j)), patterns=[z3.Select(A, j)])


def fill_candidates(E, X, r, F, n, label='filled', old=True):
    """processed part holds F, the rest is unchanged; processed part = [0,e) or [e,n) for every integer expression e"""
    if r.name not in X.arrs:
        return
    A0, A = X.arrs[r.name]
    es = list(X.int_exprs)
    for e in X.stores.get(r.name, [])[:12]:
        if cval(e) is None and not any(simp(e).eq(simp(y)) for _, y in es):
            es.append(('write index', e))
    ends = []
    for N in E.naturals[:4]:
        if cval(N) is None and not simp(N).eq(simp(n)) and not any(N.eq(y) for y in ends):
            ends.append(N)
    for N in ends:
        if old:
            X.add('%s[%s..n) unchanged' % (r.name, N), all_pat(N, n, A, lambda j: z3.Select(A, j) == z3.Select(A0, j)))
        for nm, e in es:
            X.add('%s[%s..%s) %s' % (r.name, nm, N, label), all_pat(e, N, A, lambda j: z3.Select(A, j) == F(j)))
            X.add('%s(%s..%s) %s' % (r.name, nm, N, label), all_pat(e + 1, N, A, lambda j: z3.Select(A, j) == F(j)))
    for nm, e in es:
        X.add('%s[0..%s) %s' % (r.name, nm, label), all_pat(I(0), e, A, lambda j: z3.Select(A, j) == F(j)))
        X.add('%s[%s..n) %s' % (r.name, nm, label), all_pat(e, n, A, lambda j: z3.Select(A, j) == F(j)))
        X.add('%s(%s..n) %s' % (r.name, nm, label), all_pat(e + 1, n, A, lambda j: z3.Select(A, j) == F(j)))
        if old:
            X.add('%s[%s..n) unchanged' % (r.name, nm), all_pat(e, n, A, lambda j: z3.Select(A, j) == z3.Select(A0, j)))
            X.add('%s[0..%s) unchanged' % (r.name, nm), all_pat(I(0), e, A, lambda j: z3.Select(A, j) == z3.Select(A0, j)))
            X.add('%s[0..%s] unchanged' % (r.name, nm), all_pat(I(0), e + 1, A, lambda j: z3.Select(A, j) == z3.Select(A0, j)))
    if old:
        X.add('%s unchanged' % r.name, all_pat(I(0), n, A, lambda j: z3.Select(A, j) == z3.Select(A0, j)))


def layout(E, header, typ, fields):
    from ..frontend import BuildError
    try:
        return E.P.front.layout(header, typ, fields)
    except BuildError:
        raise Unsupported('the structure %s no longer has the fields %s' % (typ, ', '.join(fields)))


class Struct:
    """structure object with named fields (offsets from the compiler)"""

    def __init__(self, E, st, name, header, typ, vals, ro=False):
        self.lay, self.size = layout(E, header, typ, list(vals))
        self.r = cells(E, st, name, {self.lay[f]: v for f, v in vals.items()}, self.size, ro)
        self.vals = vals

    def get(self, st, f):
        c = st.mem[self.r.name].cells
        if self.lay[f] not in c:
            raise Unsupported('field %s of %s is not determined' % (f, self.r.name))
        return c[self.lay[f]]

    def same(self, E, st, f):
        """field f has its initial value"""
        return equal(E, st, self.get(st, f), self.vals[f])

    def ptr(self, null=None):
        if null is None:
            return ptr(self.r)
        return nullable(self.r, null)


def equal(E, st, a, b):
    if a is b:
        return TRUE
    return E.boolean(E.icmp(st, 'eq', a, b))


def nullable(r, null):
    return PtrV([(null, None), (Not(null), Tgt(r, I(0)))])


def rows_array(E, st, name, n, stride, ro=False):
    """object of n opaque elements of stride bytes each; contents are element identities; -> (region, array term)"""
    r = E.region(name, 'rows', n=n, stride=stride, ro=ro)
    A = z3.Const(name, z3.ArraySort(z3.IntSort(), z3.IntSort()))
    st.mem[r.name] = ArrC(A)
    return r, A


def old_pointer(E, st, name):
    """a pointer to some unrelated object"""
    r = E.region(name, 'opaque')
    return PtrV([(TRUE, Tgt(r, I(1)))])


def size_val(S, w, signed=False):
    """the element size as a w bit integer"""
    return IntV(w, s=S.sym if signed else None, u=S.sym if not signed else None, raw=S.sym, lin=(S, I(1), I(0)))
