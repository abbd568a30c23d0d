"""Binomial systems of equations as Laurent polynomials over their coefficients.

A number the program computes is a polynomial over the unknown coefficients and
the results of euclidGCD().  The latter is replaced by its contract (shown by
E03): G = X * A + Y * B divides A and B.  A division by a divisor that divides
its operand is exact, so A / G is the monomial A * G^-1.  Identities are decided
by comparing polynomials (after Y has been replaced by (G - X * A) / B), the
signs of numbers by known signs of polynomials and their sums."""
import itertools
from fractions import Fraction
from math import gcd
from .absint import *
from .common import install_vf
from .jsonval import choose

ONE = ()


def times(m, n):
    """The possible signs (bits -, 0, +) of a product."""
    return sum({1 << (1 + (i - 1) * (j - 1)) for i in range(3) for j in range(3) if m >> i & 1 and n >> j & 1})


class NoPoly(Exception):
    pass


def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + c * k
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def mmul(a, b, k=1):
    d = dict(a)
    for s, e in b:
        e = d.get(s, 0) + e * k
        if e:
            d[s] = e
        else:
            d.pop(s, None)
    return tuple(sorted(d.items(), key=repr))


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def pdiv(a, b):
    """Quotient by a monomial."""
    (m, c), = b.items()
    return {mmul(n, m, -1): Fraction(d) / c for n, d in a.items()}


def key(p):
    """p up to a positive factor, and whether the sign was turned."""
    it = sorted(p.items(), key=repr)
    f = it[0][1]
    return tuple((m, c / abs(f) if f > 0 else -c / abs(f)) for m, c in it), f < 0


def key0(p):
    return tuple(sorted(p.items(), key=repr))


def flip(m):
    return (m & 2) | (1 if m & 4 else 0) | (4 if m & 1 else 0)


class EqEngine(Engine):
    """Signed comparisons are decided on polynomials."""

    def icmp(self, st, pred, a, b, w):
        if w != 64 or pred[0] == 'u' or a == U or b == U or isinstance(a, int) and isinstance(b, int) or is_ptr(a) or is_ptr(b):
            return super().icmp(st, pred, a, b, w)
        if isinstance(a, tuple) and a[0] in ('pack', 'pu', 'fn') or isinstance(b, tuple) and b[0] in ('pack', 'pu', 'fn'):
            return super().icmp(st, pred, a, b, w)
        s = self.client.sign(self, st, padd(self.client.poly(st, a), self.client.poly(st, b), -1))
        if s == 0 and b == 0 and isinstance(a, tuple) and a[0] == 'x' and a[1] == 'srem':
            self.client.divisible(st, a[3], a[4])
        return int({'eq': s == 0, 'ne': s != 0, 'slt': s < 0, 'sle': s <= 0, 'sgt': s > 0, 'sge': s >= 0}[pred])

    def intrinsic(self, st, name, a, ins):
        if name.startswith('llvm.abs') and not isinstance(a[0], int):
            w = twidth(a[0]) if a[0][0] != 's' else a[0][2]
            return self.binop(st, 'sub', w, 0, a[0]) if self.icmp(st, 'slt', a[0], 0, w) else a[0]
        return super().intrinsic(st, name, a, ins)


class Equation:
    def __init__(self, eng, deep):
        self.deep = deep
        i = eng.intr
        i['spec_coef'] = lambda eng, st, c: self.number(eng, st, c, 5)
        i['spec_const'] = lambda eng, st, c: self.number(eng, st, c, 7)
        i['spec_zero'] = self.zero
        i['spec_gcd'] = self.isgcd
        i['spec_bezout'] = lambda eng, st, c: self.calls(st)[c.a[0]][2 if c.a[1] else 1]
        i['spec_one'] = self.one
        i['spec_divides'] = self.dividesp
        i['spec_solvable'] = self.solvable
        fail = i['__assert_fail']
        i['__assert_fail'] = lambda eng, st, c: self.failed(eng, st, c, fail)
        if deep:
            eng.models['milp::detail::euclidGCD'] = self.inner
            i['labs'] = i['llabs'] = lambda eng, st, c: eng.intrinsic(st, 'llvm.abs', c.a, None)
        else:
            eng.models['milp::euclidGCD'] = self.outer

    # -- Euclid's algorithm as a loop --------------------------------------------
    # After some iterations the roles of the variables are known from their
    # values: a = x0 |L| + y0 |R|, b = x1 |L| + y1 |R|, with a determinant of 1 or
    # -1. These relations are the invariant: the variables become unknown, and the
    # next iteration must establish it again.
    def normalise(self, eng, st):
        f = st.frames[-1]
        if not self.deep or not f.fn.short.endswith('euclidGCD') or self.calls(st):
            return
        locs = {('r', k): v for k, v in f.regs.items() if isinstance(v, int) or v[0] in ('s', 'x') and twidth(v) == 64}
        for o, ob in st.mem.items():
            if not ob.const:
                locs.update({('c', o, k): v for k, (n, v) in ob.cells.items() if n == 8 and (isinstance(v, int) or v[0] in ('s', 'x') and twidth(v) == 64)})
        P = lambda v: self.poly(st, v)
        inv = st.mon.get('inv')
        if inv:
            A, B, X0, Y0, X1, Y1 = inv[1:7]
            for la, lx, ly in inv[7:]:
                if la not in locs or lx not in locs or ly not in locs:
                    raise ir.AnalysisBroken('the variables of the loop in euclidGCD() change')
            co = []
            for la, lx, ly in inv[7:]:
                eng.obl += 2
                c = self.coefs(P(locs[la]), P(A), P(B))
                if c is None:
                    eng.bad(st, 'specification', 'an iteration keeps the common divisors of the arguments')
                for l, u, v in ((lx, X0, X1), (ly, Y0, Y1)):
                    if P(locs[l]) != padd(pmul(c[0], P(u)), pmul(c[1], P(v))):
                        eng.bad(st, 'specification', 'the GCD is the sum of the arguments multiplied by the coefficients')
                co.append((c, locs[la]))
            if self.det(co[0][0], co[1][0]) not in ({ONE: 1}, {ONE: -1}):
                eng.bad(st, 'specification', 'an iteration keeps the common divisors of the arguments')
            a, b = co[0][1], co[1][1]
            d = self.remainder(st, a, b)
            if d is None:
                a, b = b, a
                d = self.remainder(st, a, b)
            if d is None:
                eng.bad(st, 'specification', 'an argument becomes smaller with each iteration')
            for v in (a, d):
                if self.negative(st, P(v)):
                    eng.bad(st, 'specification', 'the arguments are never negative')
            eng.sites.setdefault('spec', set()).add('loop')
            raise Stop()
        hist = st.mon.get('hist', ('hist', 0, ()))
        n, old = hist[1] + 1, dict(hist[2])
        if n > 6:
            eng.sites.setdefault('spec', set()).add('bounded')
            raise Stop()
        st.mon['hist'] = ('hist', n, tuple(sorted(locs.items(), key=repr)))
        if n < 4:
            return
        L, R = self.absolute(eng, st)
        vals = {}
        for l, v in locs.items():
            if old.get(l) != v:
                vals.setdefault(key0(P(v)), []).append(l)
        pairs = []
        for k, ls in vals.items():
            c = self.coefs(dict(k), L, R)
            if c and any(c) and key0(c[0]) in vals and key0(c[1]) in vals:
                pairs.append((c, k))
        for c, k in pairs:
            for d, j in pairs:
                if self.det(c, d) in ({ONE: 1}, {ONE: -1}):
                    break
            else:
                continue
            break
        else:
            return
        role = [k, j, key0(c[0]), key0(c[1]), key0(d[0]), key0(d[1])]
        if len(set(role)) < 6:
            return
        new = [st.fresh(x) for x in ('A', 'B', 'X0', 'Y0', 'X1', 'Y1')]
        for k, ls in vals.items():
            v = new[role.index(k)] if k in role else st.fresh('w')
            for l in ls:
                if l[0] == 'r':
                    f.regs[l[1]] = v
                else:
                    st.mem[l[1]].cells[l[2]] = (8, v)
        del st.mon['hist']
        st.mon['sign'] = st.mon.get('sign', ('sign',)) + tuple((((((v, 1),), Fraction(1)),), 6) for v in new[:2])
        first = lambda k: vals[k][0]
        st.mon['inv'] = ('inv',) + tuple(new) + ((first(role[0]), first(role[2]), first(role[3])), (first(role[1]), first(role[4]), first(role[5])))

    def absolute(self, eng, st):
        r = []
        for v in st.mon['lr'][1:]:
            p = self.poly(st, v)
            r.append(p if not self.negative(st, p) else padd({}, p, -1))
        return r

    @staticmethod
    def coefs(e, a, b):
        """(p, s) with e = p a + s b, for a and b of one symbol with a factor 1 or -1."""
        p, s = {}, {}
        (m, c), (n, d) = [next(iter(q.items())) if q else (((None, 1),), 1) for q in (a, b)]
        for t, k in e.items():
            h = dict(t)
            u, v = h.get(m[0][0], 0), h.get(n[0][0], 0)
            if (u, v) == (1, 0):
                p[mmul(t, m, -1)] = k / c
            elif (u, v) == (0, 1):
                s[mmul(t, n, -1)] = k / d
            else:
                return None
        return p, s

    @staticmethod
    def det(c, d):
        return padd(pmul(c[0], d[1]), pmul(c[1], d[0]), -1)

    # -- polynomials -----------------------------------------------------------
    def poly(self, st, v, y=None):
        if isinstance(v, int):
            v = sgn(v, 64)
            return {ONE: Fraction(v)} if v else {}
        if v[0] == 's' and v[2] == 64:
            for g, x, yy, a, b in self.calls(st) if y else ():
                if v == yy and not self.deep:
                    num = padd(self.poly(st, g, y), pmul(self.poly(st, x, y), self.poly(st, a, y)), -1)
                    B = self.poly(st, b, y)
                    if len(B) != 1:
                        raise NoPoly()
                    return pdiv(num, B)
                if self.deep and v == g:
                    return padd(pmul(self.poly(st, x, False), self.poly(st, a, y)), pmul(self.poly(st, yy, False), self.poly(st, b, y)))
            return {((v, 1),): Fraction(1)}
        if v[0] == 'x' and v[1] == 'prod':
            return pmul(self.poly(st, v[3], y), self.poly(st, v[4], y))
        if v[0] == 'x' and v[1] in ('add', 'mul', 'sub'):
            d, c = lin(v)
            r = self.poly(st, c & mask(64), y)
            for k, n in d.items():
                n = sgn(n & mask(64), 64)
                if k == v:
                    return {((v, 1),): Fraction(1)}
                r = padd(r, self.poly(st, k, y), n)
            return r
        if v[0] == 'x' and v[1] in ('sdiv', 'srem') and v[2] == 64:
            a, b = v[3], v[4]
            B = self.poly(st, b, y)
            if len(B) == 1 and self.divides(st, self.poly(st, a), self.poly(st, b)):
                return pdiv(self.poly(st, a, y), B) if v[1] == 'sdiv' else {}
            q = {((('x', 'sdiv', 64, a, b), 1),): Fraction(1)}
            if v[1] == 'sdiv':
                return q
            return padd(self.poly(st, a, y), pmul(B, q), -1)
        return {((v, 1),): Fraction(1)}

    def divisible(self, st, a, g):
        st.mon['div'] = st.mon.get('div', ('div',)) + ((a, g),)

    lim = 1 << 30

    def facts(self, st):
        """Known divisors; each is understood by means of the earlier ones."""
        old = self.lim
        try:
            for k, (a, g) in enumerate(st.mon.get('div', ('div',))[1:]):
                if k >= old:
                    break
                self.lim = k
                f = self.poly(st, a), self.poly(st, g)
                self.lim = old
                yield f
        finally:
            self.lim = old

    def divides(self, st, e, g, depth=3):
        """g divides e."""
        if not e:
            return True

        def multiple(e, f):
            if not f:
                return False
            if len(f) == 1:
                return all(c.denominator == 1 and all(n > 0 for s, n in m) for m, c in pdiv(e, f).items())
            return e == f or not padd(e, f)
        if multiple(e, g):
            return True
        if not depth:
            return False
        for f, h in self.facts(st):
            if multiple(e, f) and (h == g or len(h) == 1 and self.divides(st, h, g, depth - 1)):
                return True
        return False

    # -- signs -----------------------------------------------------------------
    def known(self, st):
        return st.mon.get('sign', ('sign',))[1:]

    def sign(self, eng, st, p):
        if not p:
            return 0
        if set(p) == {ONE}:
            return 1 if p[ONE] > 0 else -1
        k, turned = key(p)
        m = self.signs(st, k)
        opts = [s for s, bit in ((-1, 1), (0, 2), (1, 4)) if m & bit]
        if not opts:
            raise Stop()
        s = opts[choose(st, len(opts))] if len(opts) > 1 else opts[0]
        st.mon['sign'] = ('sign',) + tuple((q, n) for q, n in self.known(st) if q != k) + ((k, {-1: 1, 0: 2, 1: 4}[s]),)
        return -s if turned else s

    def negative(self, st, p):
        """May p be negative?"""
        if not p or set(p) == {ONE}:
            return bool(p) and p[ONE] < 0
        k, turned = key(p)
        return bool(self.signs(st, k) & (4 if turned else 1))

    def signs(self, st, k):
        """The possible signs of a polynomial in normal form."""
        m = 7
        fs = {}
        for q, n in self.known(st):
            fs[q] = fs.get(q, 7) & n
        if k in fs:
            m = fs[k]
        elif len(k) == 1:
            # a monomial: a product of monomials whose signs are known
            m = self.product(k[0][0], [(q[0][0], n) for q, n in fs.items() if len(q) == 1 and n != 7])
        if m == 7 or m in (3, 5, 6):
            # sums of two or three numbers of known signs
            pos = []
            for q, n in fs.items():
                if not n & 1 and n != 7:
                    pos.append((dict(q), not n & 2))
                if not n & 4 and n != 7:
                    pos.append(({a: -c for a, c in q}, not n & 2))
            for sg, bits in ((1, 6), (-1, 3)):
                t = {a: c * sg for a, c in k}
                if self.sums(t, pos, 3) is not None:
                    m &= bits & (7 if not self.sums(t, pos, 3) else 5)
        return m

    def product(self, mono, facts):
        """The possible signs of a monomial, from those of other monomials."""
        odd = frozenset(a for a, n in mono if n % 2)
        sym = {a for a, n in mono}
        one, many = {}, []
        for q, n in facts:
            s = {a for a, k in q}
            if len(q) == 1 and q[0][1] % 2:
                one[q[0][0]] = n
            elif s & sym:
                many.append((frozenset(a for a, k in q if k % 2), s, n))
        m = 7
        for size in range(0, 4):
            for fs in itertools.combinations(many, size):
                o, s, n = frozenset(), set(), 4
                for fo, fsym, fn in fs:
                    o, s, n = o ^ fo, s | fsym, times(n, fn)
                if n & 2 and any(one.get(a, 7) & 2 for a in s - sym):
                    # another factor may be the one that is 0
                    continue
                for a in o ^ odd:
                    n = times(n, one.get(a, 7))
                if any(one.get(a, 7) & 2 for a in sym - s - odd):
                    n |= 2
                m &= n
        return m

    def sums(self, t, pos, depth):
        """t is a sum of known numbers >= 0: is it positive (None if it is no sum)?"""
        if not t:
            return False
        if set(t) == {ONE} and t[ONE] > 0:
            return True
        if not depth:
            return None
        for q, strict in pos:
            for a in q:
                if a in t and t[a] * q[a] > 0:
                    r = self.sums(padd(t, q, -t[a] / q[a]), pos, depth - 1)
                    if r is not None:
                        return r or strict
        return None

    # -- the contract of euclidGCD ---------------------------------------------
    def calls(self, st):
        return st.mon.get('gcd', ('gcd',))[1:]

    def result(self, eng, st, c, a, b):
        g, x, y = st.fresh('G'), st.fresh('X'), st.fresh('Y')
        st.mon['gcd'] = st.mon.get('gcd', ('gcd',)) + ((g, x, y, a, b),)
        if not self.deep:
            self.divisible(st, a, g)
            self.divisible(st, b, g)
        for k, v in enumerate((y, x, g)):
            eng.store(st, eng.padd(st, c.a[0], 8 * k), 8, v)
        return g

    def args(self, eng, st, c):
        return c.a[-2:]

    def outer(self, eng, st, c):
        g = self.result(eng, st, c, *self.args(eng, st, c))
        st.mon['sign'] = st.mon.get('sign', ('sign',)) + ((((((g, 1),), Fraction(1)),), 4),)
        eng.sites.setdefault('call', set()).add('euclidGCD')

    def inner(self, eng, st, c):
        if not any(f.fn.short == c.fn.short for f in st.frames):
            return PASS
        # a recursive call: its contract, for smaller arguments
        a, b = self.args(eng, st, c)
        eng.obl += 1
        d = self.remainder(st, a, b)
        if d is None:
            eng.bad(st, 'specification', 'the second argument becomes smaller with each recursion')
        # a remainder has the sign of the dividend
        for v in (a, d):
            if self.sign(eng, st, self.poly(st, v)) < 0:
                eng.bad(st, 'specification', 'arguments of the recursion are not negative')
        self.result(eng, st, c, a, b)

    def remainder(self, st, a, b):
        """b is the remainder of a division by a."""
        if b == 0:
            return 0
        p = self.poly(st, b)
        for m in p:
            for t, n in m:
                if t[0] == 'x' and t[1] == 'sdiv' and t[4] == a:
                    if p == self.poly(st, ('x', 'srem', 64, t[3], a)):
                        return t[3]

    def isgcd(self, eng, st, c):
        g, x, y, l, r = c.a
        eng.obl += 3
        eng.sites.setdefault('spec', set()).add('gcd')
        P = lambda v: self.poly(st, v, True)
        if 'inv' not in st.mon and padd(P(g), padd(pmul(P(x), P(l)), pmul(P(y), P(r))), -1):
            eng.bad(st, 'specification', 'the GCD is the sum of the arguments multiplied by the coefficients')
        if self.calls(st):
            h = self.calls(st)[-1]
            if g != h[0]:
                eng.bad(st, 'specification', 'the GCD of a recursion is that of the arguments')
            eng.sites['spec'].add('recursion')
            # (a, b) = M * (l, r) with a unimodular M
            a, b = P(h[3]), P(h[4])
            co = []
            for e in (a, b):
                row = []
                for s in (l, r):
                    q = {}
                    for m, k in e.items():
                        if dict(m).get(s) == 1:
                            q[mmul(m, ((s, 1),), -1)] = k
                    row.append(q)
                t = e
                for q, s in zip(row, (l, r)):
                    t = padd(t, pmul(q, {((s, 1),): Fraction(1)}), -1)
                if t:
                    eng.bad(st, 'specification', 'a recursion keeps the common divisors of the arguments')
                co.append(row)
            det = padd(pmul(co[0][0], co[1][1]), pmul(co[0][1], co[1][0]), -1)
            if det not in ({ONE: 1}, {ONE: -1}):
                eng.bad(st, 'specification', 'a recursion keeps the common divisors of the arguments')
            return
        L, R = self.absolute(eng, st)
        one = ({ONE: 1}, {ONE: -1})
        sl, sr = [1 if p == P(v) else -1 for p, v in ((L, l), (R, r))]
        inv = st.mon.get('inv')
        if inv:
            A, B, X0, Y0, X1, Y1 = inv[1:7]
            for a, b, u, v in ((A, B, X0, Y0), (B, A, X1, Y1)):
                if (key(P(b))[0], 2) in self.known(st):
                    eng.sites['spec'].add('loop')
                    if P(g) != P(a) or padd({}, P(x), sl) != P(u) or padd({}, P(y), sr) != P(v):
                        eng.bad(st, 'specification', 'the result is the other argument with its coefficients if one argument became 0')
                    return
            eng.bad(st, 'specification', 'the computation ends if an argument becomes 0')
        if st.mon.get('hist') and L and R and st.mon['hist'][1] > 1:
            # an exact number of iterations
            c = self.coefs(P(g), L, R)
            if c:
                for q, n in self.known(st):
                    z = self.coefs(dict(q), L, R) if n == 2 else None
                    if z and self.det(c, z) in one:
                        return
            eng.bad(st, 'specification', 'the result divides the arguments')
        eng.sites['spec'].add('base')
        zr = self.sign(eng, st, P(r))
        if zr == 0:
            t = P(l)
        elif self.sign(eng, st, P(l)) == 0:
            t = P(r)
        else:
            eng.bad(st, 'specification', 'the GCD with 0 is the other argument')
        s = self.sign(eng, st, t)
        if padd(P(g), t, -1 if s >= 0 else 1):
            eng.bad(st, 'specification', 'the GCD with 0 is the absolute value of the other argument')

    def solvable(self, eng, st, c):
        st.mon['solvable'] = ('solvable',)

    def failed(self, eng, st, c, fail):
        # a precondition of solve(): the equations have a solution
        if 'solvable' in st.mon and any(f.fn.short.endswith('BinomialSystem::solve') for f in st.frames):
            raise Stop()
        return fail(eng, st, c)

    # -- the specification -----------------------------------------------------
    def number(self, eng, st, c, m):
        v = st.fresh(c_string(eng, st, c.a[0]))
        if self.deep:
            st.mon['lr'] = st.mon.get('lr', ('lr',)) + (v,)
        if m != 7:
            st.mon['sign'] = st.mon.get('sign', ('sign',)) + ((((((v, 1),), Fraction(1)),), m),)
        return v

    def zero(self, eng, st, c):
        eng.obl += 1
        msg = c_string(eng, st, c.a[1])
        eng.sites.setdefault('check', set()).add(msg)
        try:
            if not self.poly(st, c.a[0], True):
                return
        except NoPoly:
            pass
        eng.bad(st, 'specification', msg)

    def one(self, eng, st, c):
        eng.obl += 1
        try:
            a, b = (self.poly(st, v, True) for v in c.a[:2])
        except NoPoly:
            return 0
        return int(any(padd(a, b, k) in ({ONE: 1}, {ONE: -1}) for k in (1, -1)))

    def dividesp(self, eng, st, c):
        k, v = c.a
        if k >= len(self.calls(st)):
            return 0
        g = self.calls(st)[k][0]
        p = self.poly(st, v)
        if v == 0:
            return int(False)
        if self.divides(st, p, self.poly(st, g)):
            return 1
        r = ('x', 'srem', 64, v, g)
        return int(eng.icmp(st, 'eq', r, 0, 64))


def run(m, entry):
    eng = EqEngine(m)
    install_vf(eng)
    eng.client = Equation(eng, entry == 'drv_gcd')
    eng.WIDEN_AFTER = 100
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
