"""Caesar and Vernam ciphers: every byte of the message is given by a function of the byte (and the key byte)."""
from .base import *
from .utils import ISUPPER, ISLOWER, ISALPHA


def isup(c):
    return And(c >= 65, c <= 90)


def islo(c):
    return And(c >= 97, c <= 122)


def rotate(c, d):
    """letter c moved d places in the alphabet, wrapping and keeping its case; other characters stay"""
    return If(isup(c), 65 + (c - 65 + d) % 26, If(islo(c), 97 + (c - 97 + d) % 26, c))


def offset(k):
    """alphabet offset of a key character (signed char), counted from 'a' for lower-case letters, else from 'A'"""
    return If(k < 128, k, k - 256) - If(islo(k), I(97), I(65))


SPEC = z3.Function('Ciphered', z3.IntSort(), z3.IntSort())


def unfold(self, E):
    """SPEC(j) stands for F(j); its definition is unfolded at every message position the code touches"""
    def hook(st, r, idx, *a):
        if r is self.m:
            E.assume(st, SPEC(idx) == self.F(idx))
    E.hooks['load'] = hook
    E.hooks['stored'] = hook


def cstring(E, st, name, ro=False, rep='int'):
    """null-terminated string in an object that may be longer; -> (region, array, length)"""
    Z, n = z3.Int(name + '_len'), z3.Int(name + '_size')
    E.fact(And(Z >= 0, Z < n, n <= MAXOBJ))
    r, A = byte_array(E, st, name, n, ro=ro, rep=rep)
    z0 = z3.BitVecVal(0, 8) if rep == 'bv' else I(0)
    E.fact(z3.Select(A, Z) == z0)
    E.fact(all_pat(I(0), Z, A, lambda j: z3.Select(A, j) != z0))
    r.witness.append(Z)
    E.naturals.append(Z)
    return r, A, Z


class Caesar(Contract):
    default_rep = 'int'
    callees = (ISUPPER, ISLOWER, ISALPHA)
    requires_text = ('msg is a null-terminated string in writable memory',)

    def __init__(self, func, dec):
        self.func = func
        self.dec = dec
        self.ensures_text = ('every letter before the terminator is replaced by the letter shift places %s (wrapping, same case); every other byte of the object is unchanged'
                             % ('back' if dec else 'on'),)

    def F(self, j):
        d = self.shift
        return rotate(z3.Select(self.A0, j), -d if self.dec else d)

    def setup(self, E, st, case):
        self.m, self.A0, self.Z = cstring(E, st, 'msg')
        s = int_param(E, 'shift', 8)
        self.shift = s._u
        unfold(self, E)
        return [ptr(self.m), s]

    def invariants(self, E, X):
        fill_candidates(E, X, self.m, SPEC, self.m.n, 'ciphered')

    def post(self, E, st, case):
        A = E.arr(st, self.m)
        goal(E, st, 'every character of the message', all_idx(I(0), self.Z, lambda j: z3.Select(A, j) == SPEC(j)))
        goal(E, st, 'the terminator and what follows it', all_idx(self.Z, self.m.n, lambda j: z3.Select(A, j) == z3.Select(self.A0, j)))


class Vernam(Contract):
    default_rep = 'int'
    callees = (ISUPPER, ISLOWER, ISALPHA)
    cases = ['key as long as the message', 'another key length']
    requires_text = ('msg is a null-terminated string in writable memory; key designates key_length readable characters (when key_length is not negative)',)

    def __init__(self, func, dec):
        self.func = func
        self.dec = dec
        self.ensures_text = ('key_length = strlen(msg): returns true and every letter is moved %s by its key offset modulo 26, all else is unchanged' % ('back' if dec else 'on'),
                             'key_length differs: returns false and nothing is written')

    def F(self, j):
        d = offset(z3.Select(self.K, j))
        return rotate(z3.Select(self.A0, j), -d if self.dec else d)

    def setup(self, E, st, case):
        self.m, self.A0, self.Z = cstring(E, st, 'msg')
        kl = int_param(E, 'key_length', 32, True)
        if case == self.cases[0]:
            E.fact(kl._s == self.Z)
        else:
            E.fact(kl._s != self.Z)
            self.m.ro = True
        E.naturals.append(kl._s)
        self.key, self.K = byte_array(E, st, 'key', If(kl._s < 0, I(0), kl._s), ro=True, rep='int')
        unfold(self, E)
        return [ptr(self.m), ptr(self.key), kl]

    def invariants(self, E, X):
        fill_candidates(E, X, self.m, SPEC, self.m.n, 'ciphered')

    def post(self, E, st, case):
        A = E.arr(st, self.m)
        r = E.boolean(st.ret)
        if case != self.cases[0]:
            goal(E, st, 'status', Not(r))
            same_array(E, st, 'the message is unchanged', self.m, self.A0)
            return
        goal(E, st, 'status', r)
        goal(E, st, 'every character of the message', all_idx(I(0), self.Z, lambda j: z3.Select(A, j) == SPEC(j)))
        goal(E, st, 'the terminator and what follows it', all_idx(self.Z, self.m.n, lambda j: z3.Select(A, j) == z3.Select(self.A0, j)))


class RoundTrip(Contract):
    lemma = True

    def __init__(self, what):
        self.what = what
        self.func = 'lemma: %s decryption undoes encryption' % what
        self.ensures_text = ('for every message byte and every %s: decrypting the encrypted byte gives the byte back, and no byte becomes a terminator'
                             % ('shift' if what == 'Caesar' else 'key byte'),)

    def lemmas(self):
        c, k = z3.Ints('c k')
        rg = And(c >= 0, c < 256, k >= 0, k < 256)
        d = k if self.what == 'Caesar' else offset(k)
        out = []
        # split by case: the remainder arithmetic stays small
        for nm, h in (('upper case', isup(c)), ('lower case', islo(c)), ('other', Not(Or(isup(c), islo(c))))):
            e = rotate(c, d)
            out.append(('round trip, ' + nm, [h, rg], rotate(e, -d) == c))
            out.append(('no terminator appears, ' + nm, [h, rg], Implies(c != 0, e != 0)))
            out.append(('letters stay letters of their case, ' + nm, [h, rg], And(isup(e) == isup(c), islo(e) == islo(c))))
        return out


CAESAR = [Caesar('CaesarCipher_encrypt', False), Caesar('CaesarCipher_decrypt', True)]
VERNAM = [Vernam('VernamCipher_encrypt', False), Vernam('VernamCipher_decrypt', True)]
CAESARRT = RoundTrip('Caesar')
VERNAMRT = RoundTrip('Vernam')
