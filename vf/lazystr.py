"""Strings of unknown length whose characters are revealed one by one.

A symbol ('s', 'seq', 64, n) among the pieces of a string stands for an unknown,
possibly empty, rest.  Reading the first character of the rest forks on "the
rest is empty" / "the rest is a character and another rest".  The rest may be
watched by an automaton of the specification, which sees every character (and
the end) exactly once, in order; the fork on the character is then the partition
of the 256 byte values by the automaton's successor, and later tests of the same
character refine the set of its values.  At loop heads the characters that were
passed are folded into one symbol of unknown length, and positions of the form
(length of the passed part + constant) are renamed accordingly, so loops over
strings of any length reach a fixpoint."""
from .absint import *
from . import strmodel
from .strmodel import *

BIG = 1 << 40
ORG = ('s', 'org', 64, 0)
ALL = (1 << 256) - 1


def is_seq(p):
    return isinstance(p, tuple) and p and p[0] == 's' and p[1] in ('seq', 'pre')


def flat(v):
    if isinstance(v, tuple) and not v:
        return v
    if not any(isinstance(p, tuple) and (p[0] in ('cat', 'nil') or p[0] == 'ch' and isinstance(p[1], int)) for p in v):
        return v
    out = []
    for p in v:
        if isinstance(p, tuple) and p[0] == 'cat':
            out += flat(p[1:])
        elif isinstance(p, tuple) and p[0] == 'nil':
            pass
        elif isinstance(p, tuple) and p[0] == 'ch' and isinstance(p[1], int):
            out.append(p[1] & 255)
        else:
            out.append(p)
    return tuple(out)


def chval(p):
    return p if isinstance(p, int) else p[1]


def lin_bounds(st, v):
    """Bounds of a sum of lengths and constants."""
    if isinstance(v, int):
        v = sgn(v & mask(64), 64)
        return v, v
    d, c = lin(v)
    c = sgn(c & mask(64), 64)
    lo = hi = c
    for k, n in d.items():
        r = st.rng.get(k)
        if r is None:
            r = (0, BIG) if k[0] == 'x' and k[1] == 'len' else None
        if r is None:
            return None, None
        a, b = (r[0] * n, r[1] * n) if n > 0 else (r[1] * n, r[0] * n)
        lo, hi = lo + a, hi + b
    return lo, hi


def decide(st, k):
    """Value of a comparison of sums of lengths, if the bounds decide it."""
    (a, b), (c, d) = lin_bounds(st, k[3]), lin_bounds(st, k[4])
    if isinstance(k[3], int) and k[3] & mask(64) >> 63 << 63:
        a = b = k[3] & mask(64)
    if isinstance(k[4], int) and k[4] & mask(64) >> 63 << 63:
        c = d = k[4] & mask(64)
    if a is None or c is None or a < 0 or c < 0:
        return None
    if k[1] == 'ult':
        if b < c:
            return 1
        if a >= d:
            return 0
    elif b < c or d < a:
        return 0
    return None


def simp_len(v):
    """len of a sequence after a substitution."""
    p = v[3]
    if isinstance(p, tuple) and p:
        if p[0] == 'nil':
            return 0
        if p[0] == 'cat':
            n = 0
            for e in p[1:]:
                n = addt(n, 1 if is_char(e) else ('x', 'len', 64, e))
            return n
    return v


class LazyStrings(StringModel):
    KEEP = 1            # characters before the front that stay visible at loop heads
    MAX_OPEN = 64

    def __init__(self, eng):
        super().__init__(eng)
        m = eng.models
        m[B + 'operator[]'] = self.index
        m[B + 'at'] = self.at_checked
        m[B + 'front'] = self.front
        m[B + 'back'] = self.back
        m[B + 'begin'] = m[B + 'cbegin'] = self.begin
        m[B + 'end'] = m[B + 'cend'] = self.end
        m[B + 'substr'] = self.m_substr
        m[B + 'compare'] = self.compare
        m[B + 'insert'] = self.insert
        m[B + 'replace'] = self.replace
        m[B + 'erase'] = self.erase
        m[B + 'pop_back'] = self.pop_back
        m[B + 'find'] = self.find
        self.redirect(eng)
        m[B + 'resize'] = self.resize
        m[B + 'copy'] = self.copy
        eng.intr['strlen'] = self.strlen
        eng.intr['memcmp'] = self.memcmp
        eng.intr['bcmp'] = self.memcmp
        for p in ('std::__cxx11::', 'std::'):
            m[p + 'basic_string::_S_compare'] = self.sizes
        m['std::basic_string_view::_S_compare'] = self.sizes
        if 'std::copy' not in m:
            m['std::copy'] = self.copy_range
        self.cap = {}

    def redirect(self, eng):
        """Searches whose result depends on unknown characters are those of
        drivers/vfstr.h, if the driver includes it."""
        import copy
        f = eng.m.fns
        if 'vf_find' not in f:
            return
        eng.m = copy.copy(eng.m)
        eng.m.fns = dict(f)
        for k, fn in f.items():
            if not fn.short.startswith(B):
                continue
            n = fn.short[len(B):]
            par = split_params(ir.params(fn.dem))
            if n == 'find' and par[:1] == ['char'] and len(par) == 2:
                eng.m.fns[k] = f['vf_find']
            elif n in ('find_first_of', 'find_first_not_of') and par[:1] == ['char const*'] and len(par) == 2:
                eng.m.fns[k] = f['vf_' + n]

    # pieces ---------------------------------------------------------------
    def get(self, eng, st, p):
        o = eng.obj(st, p, 'use of a string')
        d = o.sh.get(p[2])
        if d is not None and d[0] == 'str':
            f = flat(d[1])
            if f is not d[1]:
                o.sh[p[2]] = ('str', f)
            return f
        return eng.shadow(st, p, 'str')[1]

    def put(self, eng, st, p, pieces):
        eng.set_shadow(st, p, ('str', norm(eng, st, flat(tuple(pieces)))))

    def rng(self, st, p):
        """Range of the length of a symbolic piece, facts included."""
        l = ('x', 'len', 64, p)
        lo, hi = st.rng.get(l, (0, BIG))
        for k in list(st.facts):
            if k[0] == 'x' and k[1] == 'eq' and k[4] == l and isinstance(k[3], int):
                if st.facts[k] == 0 and k[3] == lo:
                    lo += 1
                elif st.facts[k] == 1:
                    lo = hi = k[3]
        e = ('x', 'empty', 1, p)
        if e in st.facts:
            if st.facts[e]:
                lo = hi = 0
            else:
                lo = max(lo, 1)
        return lo, hi

    def length(self, eng, st, v):
        n = 0
        for x in flat(v):
            if is_char(x):
                n = addt(n, 1)
            elif x[0] == 'x' and x[1] == 'rep':
                n = addt(n, x[3])
            else:
                l = ('x', 'len', 64, x)
                lo, hi = self.rng(st, x)
                if lo == hi:
                    n = addt(n, lo)
                    continue
                st.rng[l] = (lo, hi)
                n = addt(n, l)
        return n

    def is_empty(self, eng, st, v):
        return eng.eqt(st, self.length(eng, st, v), 0)

    def len1(self, eng, st, x):
        return self.length(eng, st, (x,))

    # revealing the rest ---------------------------------------------------
    def reveal(self, eng, st, R, at=None):
        """Forks: R is empty / R is a character followed by a rest."""
        lo, hi = self.rng(st, R)
        l = ('x', 'len', 64, R)
        out = []
        w = st.mon.get('watch')
        watched = w is not None and w[1] == R
        if lo == 0:
            s = st.copy() if hi > 0 else st
            self.drop_len(s, R)
            try:
                subst(s, R, ('nil',))
                if watched:
                    self.step(eng, s, None, None, w)
                    if s.mon['watch'][1] == R:
                        s.mon['watch'] = w[:1] + (('nil',),) + s.mon['watch'][2:]
                out.append(s)
            except Stop:
                pass
            except Fork as f:
                out += f.states
        a = eng.client.automata[w[4]] if watched else None
        if hi > 0 and hasattr(a, 'alphabet'):
            # a whole token of a known spelling
            for i, t in enumerate(a.alphabet):
                k = a.next(w[3], i)
                if k is None:
                    continue
                s = st.copy()
                R2 = s.fresh('seq')
                self.drop_len(s, R)
                try:
                    subst(s, R, ('cat',) + tuple(t) + (R2,))
                    s.rng[('x', 'len', 64, R2)] = (0, BIG)
                    self.tidy(s)
                    s.mon['watch'] = (w[0], R2) + w[2:]
                    self.step(eng, s, k, i, w, len(t))
                    out.append(s)
                except Stop:
                    pass
                except Fork as f:
                    out += f.states
        elif hi > 0:
            if watched:
                g = {}
                for b in range(256):
                    k = self.auto(eng, st).next(w[3], b)
                    g[k] = g.get(k, 0) | 1 << b
                groups = [(k, d) for k, d in g.items()]
            else:
                groups = [(None, ALL)]
            for i, (k, d) in enumerate(groups):
                s = st.copy() if i < len(groups) - 1 else st
                X = s.byte('c', d)
                R2 = s.fresh('seq')
                self.drop_len(s, R)
                try:
                    subst(s, R, ('cat', charpiece(X), R2))
                    s.rng[('x', 'len', 64, R2)] = (max(0, lo - 1), hi - 1 if hi < BIG // 2 else BIG)
                    self.tidy(s)
                    if watched:
                        s.mon['watch'] = (w[0], R2) + w[2:]
                        self.step(eng, s, k, X, w)
                    out.append(s)
                except Stop:
                    pass
                except Fork as f:
                    out += f.states
        eng.stats['forks'] += 1
        raise Fork(out)

    def auto(self, eng, st):
        return eng.client.automata[st.mon['watch'][4]]

    def step(self, eng, st, nxt, X, w, n=1):
        """w = ('watch', R, position of R, automaton state, automaton)."""
        pos = w[2][1]
        if X is None:
            n = eng.client.automata[w[4]].next(w[3], None)
            st.mon['watch'] = (w[0], st.mon['watch'][1], w[2], self.place(n, pos)) + w[4:]
        else:
            st.mon['watch'] = (w[0], st.mon['watch'][1], ('@', addt(pos, n)), self.place(nxt, pos)) + w[4:]
        h = getattr(eng.client, 'watched', None)
        if h:
            h(eng, st)

    def place(self, t, pos):
        if isinstance(t, tuple):
            if len(t) == 2 and t[0] == 'HERE':
                return ('@', addt(pos, t[1]))
            return tuple(self.place(e, pos) for e in t)
        return t

    def drop_len(self, st, R):
        l = ('x', 'len', 64, R)
        st.rng.pop(l, None)
        for k in [k for k in st.facts if k[0] == 'x' and k[1] in ('eq', 'empty', 'ult') and l in (k[3], k[-1]) or k == ('x', 'empty', 1, R)]:
            a = [e for e in k[3:] if e != l]
            if k[1] == 'empty' or k[1] == 'eq' and len(a) == 1 and isinstance(a[0], int) and a[0] == 0:
                del st.facts[k]

    def tidy(self, st):
        """Facts that say nothing: a length differs from a huge number."""
        for k in [k for k in st.facts if k[0] == 'x' and k[1] == 'eq' and isinstance(k[3], int) and k[3] >= BIG * 2]:
            if st.facts[k] == 1:
                raise Stop()
            del st.facts[k]
        for k in [k for k in st.facts if k[0] == 'x' and k[1] == 'eq' and k[3] == 0 and st.facts[k] == 0 and k[4][0] == 'x' and k[4][1] == 'len']:
            lo, hi = st.rng.get(k[4], (0, BIG))
            st.rng[k[4]] = (max(1, lo), hi)
            del st.facts[k]
        for k in [k for k in st.facts if k[0] == 'x' and k[1] in ('ult', 'eq') and len(k) == 5]:
            # comparisons that the bounds decide
            t = decide(st, k)
            if t is not None:
                if t != st.facts[k]:
                    raise Stop()
                del st.facts[k]

    # positions ------------------------------------------------------------
    def locate(self, eng, st, v, off):
        """(piece index, offset inside it) of position off; reveals what is needed.
        index len(v) means the end.  None: not known."""
        rem = off
        for i, x in enumerate(v):
            if isinstance(rem, int):
                r = sgn(rem & mask(64), 64)
                if r < 0:
                    return ('before', r)
                if is_char(x):
                    if r == 0:
                        return i, 0
                    rem = r - 1
                    continue
                if is_seq(x):
                    lo, hi = self.rng(st, x)
                    if r == 0 and hi == 0:
                        continue
                    if x[1] == 'seq':
                        self.reveal(eng, st, x)
                    if hi == lo:
                        if r >= lo:
                            rem = r - lo
                            continue
                    return i, r
                l = self.len1(eng, st, x)
                if isinstance(l, int):
                    if r >= l:
                        rem = r - l
                        continue
                return i, r
            l = self.len1(eng, st, x) if not is_char(x) else 1
            n = addt(rem, mult(l, -1)) if not isinstance(l, int) else addt(rem, -l)
            if isinstance(n, int):
                n = sgn(n & mask(64), 64)
                if n >= 0:
                    rem = n
                    continue
                return i, addt(n, l)
            lo, hi = lin_bounds(st, n)
            if lo is not None and lo >= 0:
                rem = n
                continue
            if hi is not None and hi < 0:
                return i, rem
            # is the position behind this piece?
            if lin(rem)[0].get(('x', 'len', 64, x)):
                rem = n
                continue
            return None
        if isinstance(rem, int):
            r = sgn(rem & mask(64), 64)
            return (len(v), 0) if r == 0 else ('before', r) if r < 0 else ('after', r)
        lo, hi = lin_bounds(st, rem)
        if lo is not None and lo > 0:
            return 'after', rem
        return None

    def char_at(self, eng, st, v, off, what, terminator):
        """Value of the character at off; checks the bounds."""
        eng.obl += 1
        eng.sites.setdefault('character access', set())
        eng.site(st, 'character access')
        n = self.length(eng, st, v)
        r = self.locate(eng, st, v, off)
        if r is None:
            # an unknown position: it must at least be provably inside
            lo, hi = lin_bounds(st, off)
            d = addt(n, mult(off, -1)) if not (isinstance(n, int) and isinstance(off, int)) else n - off
            dlo, _ = lin_bounds(st, d)
            if lo is None or lo < 0 or dlo is None or dlo < (0 if terminator else 1):
                eng.bad(st, 'out-of-bounds', '%s of a character at a position that may lie outside the string' % what)
            return st.byte('c')
        i, k = r
        if i == 'before':
            eng.bad(st, 'out-of-bounds', '%s of a character before the beginning of a string' % what)
        if i == 'after' or i == len(v) and not terminator:
            eng.bad(st, 'out-of-bounds', '%s of a character behind the end of a string' % what)
        if i == len(v):
            return 0
        if is_char(v[i]):
            return chval(v[i])
        x = v[i]
        if not (isinstance(k, int) and k == 0) or not is_seq(x):
            lo = lin_bounds(st, k)[0]
            if lo is None or lo < 0:
                eng.bad(st, 'out-of-bounds', '%s of a character at a position that may lie outside the string' % what)
            d = addt(self.len1(eng, st, x), mult(k, -1) if not isinstance(k, int) else -k)
            lo = lin_bounds(st, d)[0]
            if (lo is None or lo < 1) and i == len(v) - 1:
                eng.bad(st, 'out-of-bounds', '%s of a character at a position that may lie outside the string' % what)
        else:
            lo, hi = self.rng(st, x)
            if lo == 0:
                eng.bad(st, 'out-of-bounds', '%s of a character at a position that may lie outside the string' % what)
        return st.byte('c')

    def cells(self, eng, st, p, iterator):
        """The object that stands for the contents of the string at p."""
        o = eng.obj(st, p, 'use of a string')
        k = p[2] + (10 ** 6 if iterator else 2 * 10 ** 6)
        d = o.sh.get(k)
        if d is not None and st.mem.get(d[1][1]) is not None:
            return d[1]
        q = st.alloc('strbuf', None, None, 'characters of a string')
        st.mem[q[1]].sh[-3] = ('chars of', p, iterator)
        o.sh[k] = ('buf', q)
        return q

    def buf_read(self, eng, st, o, p, size, what):
        owner, it = o.sh[-3][1:]
        if size != 1:
            eng.bad(st, 'out-of-bounds', '%s of several characters' % what)
        v = self.get(eng, st, owner)
        return self.char_at(eng, st, v, addt(p[2], mult(ORG, -1)), what, not it)

    def buf_write(self, eng, st, o, p, size, c):
        owner, it = o.sh[-3][1:]
        v = self.get(eng, st, owner)
        off = addt(p[2], mult(ORG, -1))
        i, k = self.need(eng, st, v, off, 'write', False)
        if not is_char(v[i]):
            self.put(eng, st, owner, (st.fresh('str'),))
            return
        self.put(eng, st, owner, v[:i] + (charpiece(c),) + v[i + 1:])

    def need(self, eng, st, v, off, what, end_ok):
        r = self.locate(eng, st, v, off)
        if r is None or r[0] in ('before', 'after') or r[0] == len(v) and not end_ok:
            eng.bad(st, 'out-of-bounds', '%s at a position outside the string' % what)
        return r

    # operations -------------------------------------------------------------
    def dtor(self, eng, st, c):
        eng.shadow(st, c.a[0], 'str', 'destruction')
        o = st.mem[c.a[0][1]]
        for k in (c.a[0][2] + 10 ** 6, c.a[0][2] + 2 * 10 ** 6):
            d = o.sh.pop(k, None)
            if d and d[1][1] in st.mem:
                st.mem[d[1][1]].alive = False
        eng.set_shadow(st, c.a[0], None)
        return None

    def index(self, eng, st, c):
        self.get(eng, st, c.a[0])
        return ('p', self.cells(eng, st, c.a[0], False)[1], addt(ORG, c.a[1]))

    def at_checked(self, eng, st, c):
        v = self.get(eng, st, c.a[0])
        n = self.length(eng, st, v)
        if not eng.branch(st, eng.icmp(st, 'ult', c.a[1], n, 64)):
            raise Raise('_ZTISt12out_of_range')
        return self.index(eng, st, c)

    def nonempty(self, eng, st, p, what):
        v = self.get(eng, st, p)
        e = self.is_empty(eng, st, v)
        if eng.branch(st, e):
            eng.bad(st, 'out-of-bounds', '%s of an empty string' % what)
        return v

    def front(self, eng, st, c):
        self.nonempty(eng, st, c.a[0], 'front()')
        return ('p', self.cells(eng, st, c.a[0], False)[1], ORG)

    def back(self, eng, st, c):
        v = self.nonempty(eng, st, c.a[0], 'back()')
        return ('p', self.cells(eng, st, c.a[0], False)[1], addt(ORG, addt(self.length(eng, st, v), -1)))

    def begin(self, eng, st, c):
        self.get(eng, st, c.a[0])
        return ('p', self.cells(eng, st, c.a[0], True)[1], ORG)

    def end(self, eng, st, c):
        v = self.get(eng, st, c.a[0])
        return ('p', self.cells(eng, st, c.a[0], True)[1], addt(ORG, self.length(eng, st, v)))

    def data(self, eng, st, c):
        v = self.get(eng, st, c.a[0])
        if all(is_char(x) for x in v):
            return self.buffer(eng, st, v)
        if not any(is_seq(x) for x in v):
            return self.buffer(eng, st, v)
        return ('p', self.cells(eng, st, c.a[0], False)[1], ORG)

    def split(self, eng, st, v, off, what):
        """Pieces before and from position off (off <= size)."""
        if off == 0:
            return (), v
        n = self.length(eng, st, v)
        if eng.eqt(st, n, off) == 1:
            return v, ()
        r = self.locate(eng, st, v, off)
        if r is None:
            return None
        i, k = r
        if i == 'after':
            return 'out'
        if i == 'before':
            return 'out'
        if isinstance(k, int) and k == 0:
            return v[:i], v[i:]
        return None

    def m_substr(self, eng, st, c):
        """substr(pos, n): c.a = (result, this, pos, n)."""
        v = self.get(eng, st, c.a[1])
        pos = c.a[2] if len(c.a) > 2 else 0
        n = c.a[3] if len(c.a) > 3 else mask(64)
        self.put(eng, st, c.a[0], self.part(eng, st, v, pos, n))
        return None

    def part(self, eng, st, v, pos, n):
        if pos == U or n == U:
            eng.bad(st, 'uninitialised', 'a part of a string at an uninitialised position')
        size = self.length(eng, st, v)
        t = eng.icmp(st, 'ult', size, pos, 64)
        lo = None
        if not isinstance(t, int):
            d = addt(size, mult(pos, -1)) if not isinstance(pos, int) else addt(size, -pos)
            lo, hi = lin_bounds(st, d)
            if lo is not None and lo >= 0:
                t = 0
            elif hi is not None and hi < 0:
                t = 1
        if eng.branch(st, t):
            raise Raise('_ZTISt12out_of_range')
        s = self.split(eng, st, v, pos, 'substr')
        if s is None or s == 'out':
            return (('x', 'substr', 64, v, pos, n),)
        rest = s[1]
        l = self.length(eng, st, rest)
        if n == mask(64):
            return rest
        d = addt(l, mult(n, -1)) if not (isinstance(l, int) and isinstance(n, int)) else l - n
        lo, hi = lin_bounds(st, d)
        if hi is not None and hi <= 0:
            return rest
        if lo is None or lo < 0:
            if isinstance(n, int) and n < 32:
                self.locate(eng, st, rest, n)       # reveals
            t = eng.icmp(st, 'ult', l, n, 64)
            if eng.branch(st, t):
                return rest
        s = self.split(eng, st, rest, n, 'substr')
        if s is None or s == 'out':
            return (('x', 'substr', 64, v, pos, n),)
        return s[0]

    def substr(self, eng, st, v, pos, n):
        return self.part(eng, st, v, pos, n)

    def compare(self, eng, st, c):
        par = split_params(c.params())
        v = self.get(eng, st, c.a[0])
        if len(par) >= 3 and par[0] == 'unsigned long':
            v = self.part(eng, st, v, c.a[1], c.a[2])
            q, a = par[2], c.a[3]
        else:
            q, a = par[0], c.a[1]
        if 'basic_string_view' in q:
            n, a = (c.a[-2], c.a[-1]) if len(c.a) > len(par) + 1 else (eng.load(st, a, 8), eng.load(st, eng.padd(st, a, 8), 8))
            w = self.range(eng, st, a, n)
        else:
            w = self.get(eng, st, a) if 'basic_string<' in q else self.cstr(eng, st, a)
        t = self.same(eng, st, v, w)
        if isinstance(t, int):
            if t:
                return 0
            r = st.fresh('cmp', 32)
            eng.assume(st, eng.eqt(st, r, 0, 32), 0)
            return r
        return ('x', 'cmp', 32, notb(t)) if False else ('x', 'zext', 32, notb(t))

    def sizes(self, eng, st, c):
        """The difference of two lengths."""
        a, b = c.a[-2:]
        if eng.branch(st, eng.eqt(st, a, b, 64)):
            return 0
        r = st.fresh('cmp', 32)
        eng.assume(st, eng.eqt(st, r, 0, 32), 0)
        return r

    def same(self, eng, st, a, b):
        a, b = flat(a), flat(b)
        while a and b and a[0] == b[0]:
            a, b = a[1:], b[1:]
        while a and b and a[-1] == b[-1]:
            a, b = a[:-1], b[:-1]
        if a == b:
            return 1
        if not a or not b:
            return self.is_empty(eng, st, a or b)
        if all(is_char(x) for x in a + b):
            if len(a) != len(b):
                return 0
            t = 1
            for x, y in zip(a, b):
                t = eng.binop(st, 'and', 1, t, eng.eqt(st, chval(x), chval(y), 8))
            return t
        # a known and an unknown string: reveal the unknown one
        for x, y in ((a, b), (b, a)):
            if all(is_char(e) for e in y) and all(is_char(e) or is_seq(e) and e[1] == 'seq' for e in x):
                for i, e in enumerate(x):
                    if is_seq(e):
                        if i > len(y):
                            return 0
                        if all(is_char(p) for p in x[:i]):
                            for p, q in zip(x[:i], y):
                                if not eng.branch(st, eng.eqt(st, chval(p), chval(q), 8)):
                                    return 0
                        self.reveal(eng, st, e)
        h = getattr(eng.client, 'same_strings', None)
        if h:
            r = h(eng, st, a, b)
            if r is not None:
                return r
        return ('x', 'streq', 1) + tuple(sorted([a, b], key=repr))

    def eqv(self, eng, st, c):
        if 'basic_string<char' not in c.params():
            return None
        par = split_params(c.params())
        v = [self.get(eng, st, a) if 'basic_string<' in q else self.cstr(eng, st, a) for q, a in zip(par, c.a)]
        return self.same(eng, st, *v)

    def insert(self, eng, st, c):
        par = split_params(c.params())
        if par[0] != 'unsigned long' or len(par) not in (2, 3):
            raise ir_broken('insert(%s)' % c.params())
        v = self.get(eng, st, c.a[0])
        if par[1].startswith('char const*'):
            x = self.range(eng, st, c.a[2], c.a[3]) if len(par) == 3 else self.cstr(eng, st, c.a[2])
        elif par[1] == 'unsigned long':
            x = (charpiece(c.a[3]),) * c.a[2]
        else:
            x = self.get(eng, st, c.a[2])
        s = self.split_at(eng, st, v, c.a[1], 'insert()')
        self.put(eng, st, c.a[0], s[0] + x + s[1])
        return c.a[0]

    def split_at(self, eng, st, v, pos, what):
        s = self.split(eng, st, v, pos, what)
        if s == 'out':
            raise Raise('_ZTISt12out_of_range')
        if s is None:
            eng.bad(st, 'analysis', '%s at a position that is not understood' % what)
        return s

    def cut(self, eng, st, v, pos, n, what):
        a, b = self.split_at(eng, st, v, pos, what)
        l = self.length(eng, st, b)
        if n == mask(64):
            return a, b, ()
        if isinstance(n, int) and n < 64:
            self.locate(eng, st, b, n)
        t = eng.icmp(st, 'ult', l, n, 64)
        if eng.branch(st, t):
            return a, b, ()
        m, e = self.split_at(eng, st, b, n, what)
        return a, m, e

    def replace(self, eng, st, c):
        par = split_params(c.params())
        if par[:2] != ['unsigned long'] * 2:
            raise ir_broken('replace(%s)' % c.params())
        v = self.get(eng, st, c.a[0])
        if par[2].startswith('char const*'):
            x = self.range(eng, st, c.a[3], c.a[4]) if len(par) == 4 else self.cstr(eng, st, c.a[3])
        elif par[2] == 'unsigned long':
            x = (charpiece(c.a[4]),) * c.a[3]
        else:
            x = self.get(eng, st, c.a[3])
        a, m, e = self.cut(eng, st, v, c.a[1], c.a[2], 'replace()')
        self.put(eng, st, c.a[0], a + x + e)
        return c.a[0]

    def erase(self, eng, st, c):
        par = split_params(c.params())
        v = self.get(eng, st, c.a[0])
        if par and par[0] == 'unsigned long':
            a, m, e = self.cut(eng, st, v, c.a[1], c.a[2] if len(c.a) > 2 else mask(64), 'erase()')
            self.put(eng, st, c.a[0], a + e)
            return c.a[0]
        off = addt(c.a[1][2], mult(ORG, -1))
        if len(par) > 1:
            n = addt(c.a[2][2], mult(c.a[1][2], -1))
        else:
            n = 1
        a, m, e = self.cut(eng, st, v, off, n, 'erase()')
        self.put(eng, st, c.a[0], a + e)
        return c.a[1]

    def pop_back(self, eng, st, c):
        v = self.nonempty(eng, st, c.a[0], 'pop_back()')
        n = addt(self.length(eng, st, v), -1)
        a, b = self.split_at(eng, st, v, n, 'pop_back()')
        self.put(eng, st, c.a[0], a)
        return None

    def resize(self, eng, st, c):
        v = self.get(eng, st, c.a[0])
        l = self.length(eng, st, v)
        n = c.a[1]
        if eng.branch(st, eng.icmp(st, 'ult', l, n, 64)):
            if isinstance(l, int) and isinstance(n, int) and n - l < 64:
                self.put(eng, st, c.a[0], v + (charpiece(c.a[2]) if len(c.a) > 2 else 0,) * (n - l))
            else:
                self.put(eng, st, c.a[0], v + (('x', 'rep', 64, addt(n, mult(l, -1)), 0),))
            return None
        self.put(eng, st, c.a[0], self.split_at(eng, st, v, n, 'resize()')[0])
        return None

    def find(self, eng, st, c):
        """find(char, pos), find(string, pos); the result is any position (or none)
        where unknown characters matter."""
        par = split_params(c.params())
        v = self.get(eng, st, c.a[0])
        if par[0] == 'char':
            pat = (c.a[1] & 255,) if isinstance(c.a[1], int) else None
        else:
            pat = flat(self.get(eng, st, c.a[1]) if 'basic_string<' in par[0] else self.cstr(eng, st, c.a[1]))
            if not all(isinstance(x, int) for x in pat):
                pat = None
        pos = c.a[2] if len(c.a) > 2 and len(par) < 3 else 0
        if not pat:
            return st.fresh('found')
        s = self.split(eng, st, v, pos, 'find') if isinstance(pos, int) and pos < 1 << 62 or is_sym(pos) else None
        if s is None or s == 'out':
            return st.fresh('found')
        w = flat(s[1])
        at = pos
        for i in range(len(w)):
            x = w[i]
            if not isinstance(x, int):
                if not is_char(x) and x[0] == 'x' and x[1] == 'piece' and len(pat) == 1 and pat[0] not in x[4]:
                    at = addt(at, self.len1(eng, st, x))
                    continue
                return st.fresh('found')
            k = [j for j in range(len(pat)) if i + j >= len(w) or w[i + j] != pat[j]]
            if not k:
                return at
            j = i + k[0]
            if j < len(w) and not isinstance(w[j], int):
                # it may continue with the pattern
                if not (is_char(w[j]) and not st.dom.get(w[j][1], ALL) >> pat[k[0]] & 1):
                    return st.fresh('found')
            at = addt(at, 1)
        return mask(64)

    def copy(self, eng, st, c):
        """copy(dest, n, pos = 0)."""
        v = self.get(eng, st, c.a[0])
        pos = c.a[3] if len(c.a) > 3 else 0
        p = self.part(eng, st, v, pos, c.a[2])
        n = self.length(eng, st, p)
        self.fill(eng, st, c.a[1], p, n)
        return n

    def copy_range(self, eng, st, c):
        """std::copy() of characters of a string to new memory."""
        if len(c.a) != 3 or self.strbuf(st, c.a[0]) is None or not is_ptr(c.a[2]) or not is_ptr(c.a[1]) or c.a[0][1] != c.a[1][1]:
            return PASS
        n = eng.binop(st, 'sub', 64, c.a[1], c.a[0])
        return eng.padd(st, c.a[2], n) if self.copied(eng, st, c.a[2], c.a[0], n) else PASS

    def copied(self, eng, st, d, s, n):
        """memcpy() of an unknown number of characters of a string to new memory."""
        o, t = st.mem.get(d[1]), st.mem.get(s[1])
        if d[2] != 0 or o is None or o.sh.get(-2) or o.kind == 'strbuf' or t is None or not (t.kind == 'strbuf' or -2 in t.sh):
            return False
        end = ()
        if t.kind == 'strbuf':
            # the null character behind a string
            off = addt(s[2], mult(ORG, -1))
            k = addt(off, n)
            z = self.length(eng, st, self.get(eng, st, t.sh[-3][1]))
            k = addt(k, mult(z, -1)) if not isinstance(z, int) else addt(k, -z)
            if k == 1:
                n, end = addt(n, -1), (0,)
        p = tuple(flat(self.range(eng, st, s, n))) + end
        self.fill(eng, st, d, p, addt(n, len(end)))
        return True

    def fill(self, eng, st, d, pieces, n):
        o = eng.obj(st, d, 'write')
        room = addt(o.size, mult(d[2], -1) if not isinstance(d[2], int) else -d[2]) if o.size is not None else None
        if room is not None:
            lo = lin_bounds(st, addt(room, mult(n, -1) if not isinstance(n, int) else -n))[0]
            if lo is None or lo < 0:
                eng.bad(st, 'out-of-bounds', 'characters are copied behind the end of the memory')
        o.sh[-2] = ('chars', tuple(pieces))
        o.fill = 'lazy'

    # C strings ----------------------------------------------------------------
    def strbuf(self, st, p):
        if is_ptr(p):
            o = st.mem.get(p[1])
            if o is not None and o.kind == 'strbuf':
                return o
        return None

    def cstr(self, eng, st, p):
        o = self.strbuf(st, p)
        if o is not None:
            if o.alive is not True:
                eng.bad(st, 'use-after-free', 'the characters of a destroyed string are used')
            v = self.get(eng, st, o.sh[-3][1])
            off = addt(p[2], mult(ORG, -1))
            s = self.split(eng, st, v, off, 'c string')
            if s is None or s == 'out':
                eng.bad(st, 'out-of-bounds', 'a C string starts outside the string')
            out = []
            for x in s[1]:
                if x == 0:
                    break
                if is_char(x) and not isinstance(x, int):
                    d = st.dom.get(x[1], ALL)
                    if d & 1:
                        raise Fork(self.zero_or_not(eng, st, x[1]))
                out.append(x if is_char(x) or x[0] == 'x' and x[1] in NUL_FREE or is_seq(x) and 'nulfree' in st.mon else ('x', 'cstr', 64, x))
            return tuple(out)
        return super().cstr(eng, st, p)

    def zero_or_not(self, eng, st, x):
        out = []
        for s, m in ((st.copy(), 1), (st, ALL & ~1)):
            try:
                if restrict(s, x, m):
                    out.append(s)
            except Stop:
                pass
        return out

    def range(self, eng, st, p, n):
        o = self.strbuf(st, p)
        if o is not None:
            v = self.get(eng, st, o.sh[-3][1])
            off = addt(p[2], mult(ORG, -1))
            size = self.length(eng, st, v)
            d = addt(size, mult(addt(off, n), -1)) if not isinstance(addt(off, n), int) else addt(size, -addt(off, n))
            lo = lin_bounds(st, d)[0]
            if lo is None or lo < 0:
                eng.bad(st, 'out-of-bounds', 'characters behind the end of a string are used')
            return self.part(eng, st, v, off, n)
        return super().range(eng, st, p, n)

    def iter_range(self, eng, st, b, e):
        if self.strbuf(st, b) is not None and is_ptr(e) and e[1] == b[1]:
            return self.range(eng, st, b, eng.binop(st, 'sub', 64, e, b))
        return super().iter_range(eng, st, b, e)

    def strlen(self, eng, st, c):
        if self.strbuf(st, c.a[0]) is None:
            v = super().cstr(eng, st, c.a[0])
            return self.length(eng, st, v)
        o = self.strbuf(st, c.a[0])
        v = self.get(eng, st, o.sh[-3][1])
        off = addt(c.a[0][2], mult(ORG, -1))
        s = self.split(eng, st, v, off, 'strlen')
        if s is None or s == 'out':
            eng.bad(st, 'out-of-bounds', 'strlen() starts outside the string')
        n = 0
        if 'nulfree' in st.mon:
            return self.length(eng, st, s[1])
        for x in s[1]:
            if is_char(x):
                if x == 0:
                    return n
                if not isinstance(x, int) and st.dom.get(x[1], ALL) & 1:
                    raise Fork(self.zero_or_not(eng, st, x[1]))
                n += 1
            else:
                w = st.mon.get('watch')
                if is_seq(x) and x[1] == 'seq' and n < 6 and (w is None or w[1] != x or not self.auto(eng, st).enough(w[3])):
                    self.reveal(eng, st, x)
                # stops at the end or at a null character of the rest
                l = ('x', 'strlen', 64, x)
                st.rng.setdefault(l, (0, BIG))
                return addt(n, l)
        return n

    def memcmp(self, eng, st, c):
        a, b, n = c.a[:3]
        if not isinstance(n, int) or n > 64:
            return st.fresh('memcmp', 32)
        h = getattr(eng.client, 'same_strings', None)
        if h and n and (self.unknown(st, a) or self.unknown(st, b)):
            r = h(eng, st, flat(self.range(eng, st, a, n)), flat(self.range(eng, st, b, n)))
            if r is not None:
                if r == 1:
                    return 0
                r = st.fresh('memcmp', 32)
                eng.assume(st, eng.eqt(st, r, 0, 32), 0)
                return r
        for i in range(n):
            x = self.byte_at(eng, st, a, i)
            y = self.byte_at(eng, st, b, i)
            if not eng.branch(st, eng.eqt(st, x, y, 8)):
                r = st.fresh('memcmp', 32)
                eng.assume(st, eng.eqt(st, r, 0, 32), 0)
                return r
        return 0

    def unknown(self, st, p):
        """p points to characters that are known as pieces only."""
        o = st.mem.get(p[1]) if is_ptr(p) else None
        return o is not None and -2 in o.sh and not all(is_char(x) for x in o.sh[-2][1])

    def byte_at(self, eng, st, p, i):
        return eng.load(st, eng.padd(st, p, i), 1)

    # loop heads -----------------------------------------------------------------
    def drop_strlen(self, st):
        """Facts about results of strlen() nobody holds any more."""
        def has(t):
            return isinstance(t, tuple) and len(t) > 1 and (t[0] == 'x' and t[1] == 'strlen' or any(has(e) for e in t))
        fs = [k for k in st.facts if has(k)]
        rs = [k for k in st.rng if has(k)]
        if not fs and not rs:
            return
        for fr in st.allframes():
            if any(has(v) for v in fr.regs.values()) or any(has(v) for v in fr.args):
                return
        for o in st.mem.values():
            if not o.const and any(has(v) for s, v in o.cells.values()):
                return
        for k in fs:
            del st.facts[k]
        for k in rs:
            del st.rng[k]

    def keep(self, eng, st):
        k = getattr(eng.client, 'keep', None)
        return k(eng, st) if k else self.KEEP

    def behind(self, eng):
        return 0 if hasattr(eng.client, 'keep') else self.KEEP

    def fold(self, eng, st, every=False):
        """Folds the characters that lie before the front of the watched rest."""
        self.drop_strlen(st)
        w = st.mon.get('watch')
        if w is None or not is_seq(w[1]) and not every:
            return
        R = w[1]
        if not is_seq(R):
            R = None
        seqs = []
        pin = st.mon.get('pin', (0, 0))[1]      # characters at the beginning that stay
        for o in st.mem.values():
            if o.const:
                continue
            for k, d in o.sh.items():
                if isinstance(d, tuple) and d and d[0] == 'str':
                    f = flat(d[1])
                    if R in f or R is None and f == flat(st.mem[st.mon['text'][1][1]].sh[st.mon['text'][1][2]][1]):
                        i = f.index(R) if R is not None else len(f)
                        j = i
                        while j > pin and is_char(f[j - 1]):
                            j -= 1
                        W = f[j - 1] if j > pin and is_seq(f[j - 1]) else None
                        seqs.append((o, k, f, j, i, W))
        if not seqs:
            return
        o, k, f, j, i, W = max(seqs, key=lambda s: s[4] - s[3])
        n = i - j - (0 if every else self.keep(eng, st))
        if n <= 0:
            return
        self.fold_seq(eng, st, W, f[j:i], n, R, [s[0] for s in seqs], f[:j - 1] if W is not None else (), every, pin if W is None else 0)

    def merge(self, eng, st):
        """Neighbouring unknown parts of the text become one where no position in
        the state distinguishes them."""
        while True:
            f = flat(self.get(eng, st, st.mon['text'][1]))
            for i, p in enumerate(f):
                if not is_seq(p) or p[1] != 'pre':
                    continue
                j = i + 1
                while j < len(f) and is_char(f[j]):
                    j += 1
                if j < len(f) and is_seq(f[j]) and f[j][1] == 'pre' and self.merge2(eng, st, f[i:j + 1]):
                    break
            else:
                return

    def merge2(self, eng, st, pat):
        p, q, k = pat[0], pat[-1], len(pat) - 2
        lp, lq = ('x', 'len', 64, p), ('x', 'len', 64, q)

        class Held(Exception):
            pass

        def look(t):
            if not isinstance(t, tuple) or not t:
                return
            if t == p or t == q:
                raise Held()
            if t[0] == 'x' and t[1] in ('len', 'add', 'mul'):
                d, c = lin(t)
                if d.get(lp) != d.get(lq):
                    raise Held()
                for e in d:
                    if e not in (lp, lq):
                        for x in e:
                            look(x)
                return
            for e in t:
                look(e)
        s = st.fresh('pre')
        ls = ('x', 'len', 64, s)

        def conv(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == 'x' and t[1] in ('len', 'add', 'mul'):
                d, c = lin(t)
                if lp in d:
                    n = d.pop(lp)
                    d.pop(lq)
                    r = addt(mult(ls, n), sgn(c & mask(64), 64) - n * k)
                    for e, m in d.items():
                        r = addt(r, mult(e, m))
                    return r
                return t
            ch = tuple(conv(e) if isinstance(e, tuple) else e for e in t)
            if ch == t:
                return t
            return resimplify(ch) if t[0] == 'x' else ch

        def rest(v):
            """A string without the pattern."""
            v = flat(v)
            for i in range(len(v) - k - 1):
                if v[i:i + k + 2] == pat:
                    return v[:i] + v[i + k + 2:]
            return v
        try:
            for fr in st.allframes():
                for v in list(fr.regs.values()) + list(fr.args):
                    look(v)
            for ob in st.mem.values():
                if not ob.const:
                    for n, v in ob.cells.values():
                        look(v)
                    for d in ob.sh.values():
                        look(rest(d[1]) if isinstance(d, tuple) and d and d[0] == 'str' else d)
                    look(ob.size)
            for v in st.mon.values():
                look(v)
            for v in st.facts:
                look(v)
            for v in st.rng:
                if v != lp and v != lq:
                    look(v)
        except Held:
            return False
        for fr in st.allframes():
            for x, v in list(fr.regs.items()):
                if isinstance(v, tuple):
                    fr.regs[x] = conv(v)
            fr.args = tuple(conv(a) for a in fr.args)
        for ob in st.mem.values():
            if ob.const:
                continue
            for x, (n, v) in list(ob.cells.items()):
                if isinstance(v, tuple):
                    ob.cells[x] = (n, conv(v))
            for x, d in list(ob.sh.items()):
                if isinstance(d, tuple) and d and d[0] == 'str':
                    v = flat(d[1])
                    for i in range(len(v) - k - 1):
                        if v[i:i + k + 2] == pat:
                            ob.sh[x] = ('str', v[:i] + (s,) + v[i + k + 2:])
                            break
                else:
                    ob.sh[x] = conv(d)
            ob.size = conv(ob.size)
        for x, v in list(st.mon.items()):
            st.mon[x] = conv(v)
        st.facts = {conv(x): v for x, v in st.facts.items()}
        lo = max(0, min(1, self.rng(st, p)[0] + self.rng(st, q)[0] + k))
        st.rng = {conv(x): v for x, v in st.rng.items() if x != lp and x != lq}
        st.rng[ls] = (lo, BIG)
        return True

    def fold_seq(self, eng, st, W, chars, n, R, owners, prefix=(), every=False, base=0):
        """[W] c0..c(n-1) become symbols; positions inside keep their meaning."""
        L = ('x', 'len', 64, W) if W is not None else None
        if L is None and st.mon.get('nofold0'):
            return
        ks = set()
        plens = {('x', 'len', 64, p) for p in prefix if not is_char(p)}
        cc = sum(1 for p in prefix if is_char(p))

        def rel(d, c):
            """Offset behind W of a position; None for other terms."""
            if d.get(L) == 1 and len(d) == len(plens) + 1 and all(d.get(p) == 1 for p in plens):
                return sgn(c & mask(64), 64) - cc

        def offs(t):
            """Constants of the positions of the form len(W) + k in a term."""
            if isinstance(t, tuple) and t:
                if L is not None and (t == L or t[0] == 'x' and t[1] in ('add', 'mul')):
                    d, c = lin(t)
                    if d.get(L) == 1:
                        ks.add(rel(d, c))
                        return
                for e in t:
                    if isinstance(e, tuple):
                        offs(e)
        for fr in st.allframes():
            for v in list(fr.regs.values()) + list(fr.args):
                offs(v)
        for ob in st.mem.values():
            if not ob.const:
                for s, v in ob.cells.values():
                    offs(v)
        code = {k for k in ks if k is not None}
        for v in st.mon.values():
            offs(v)
        zero = []          # places of constants that are positions
        if L is None:
            for ob in owners:
                for off, (s, v) in ob.cells.items():
                    if s == 8 and isinstance(v, int) and base <= v <= base + len(chars):
                        zero.append((ob, off))
                        ks.add(v - base)
                        code.add(v - base)
            for kk, v in st.mon.items():
                self.ints(v, len(chars), ks, base)
            for fr in st.allframes():
                for v in fr.regs.values():
                    if is_ptr(v) and isinstance(v[2], tuple):
                        d, c = lin(v[2])
                        if list(d.items()) == [(ORG, 1)] and base <= c <= base + len(chars):
                            ks.add(c - base)
                            code.add(c - base)
        # what the code has not passed yet stays visible
        if not every:
            n = min(n, max(code, default=0) - self.behind(eng))
        if n <= 0:
            return
        cuts = sorted({k for k in ks if k is not None and 0 <= k < n})
        # segments: before the first cut folds into W
        segs = []
        prev = 0
        for c in cuts + [n]:
            segs.append((prev, c))
            prev = c
        syms = []
        new = []
        for idx, (a, b) in enumerate(segs):
            if idx == 0 and W is not None:
                if a == b:
                    new.append(W)
                    syms.append(('keep', W, 0))
                else:
                    s = st.fresh('pre')
                    lo, hi = self.rng(st, W)
                    st.rng[('x', 'len', 64, s)] = (1, BIG)
                    new.append(s)
                    syms.append(('sym', s, b - a))
            elif a == b:
                syms.append(('none', None, 0))
            else:
                s = st.fresh('pre')
                st.rng[('x', 'len', 64, s)] = (1, BIG)
                new.append(s)
                syms.append(('sym', s, b - a))
        bound = [a for a, b in segs] + [n]

        def pos(k):
            """New expression of the position len(W) + k."""
            t = 0
            if W is not None and k < 0:
                kind, s, ln = syms[0]
                return addt(('x', 'len', 64, s), k - ln) if kind == 'sym' else addt(L, k)
            for (a, b), (kind, s, ln) in zip(segs, syms):
                first = (a, b) == segs[0] and W is not None
                if k < a or k == a and not (first):
                    break
                if first:
                    l = ('x', 'len', 64, s)
                    t = addt(t, l)
                    if k < b:
                        t = addt(t, k - b if kind == 'sym' else k)
                        return t
                    if kind == 'keep':
                        t = addt(t, b - a)
                    continue
                if kind == 'sym':
                    if k >= b:
                        t = addt(t, ('x', 'len', 64, s))
                    else:
                        return addt(t, k - a)
            if k > n:
                t = addt(t, k - n)
            return t

        def conv(t):
            if not isinstance(t, tuple) or not t:
                return t
            if L is not None and (t == L or t[0] == 'x' and t[1] in ('add', 'mul')):
                d, c = lin(t)
                if L in d:
                    k = rel(d, c)
                    c = sgn(c & mask(64), 64)
                    q = d.pop(L)
                    if k is not None:
                        r = addt(pos(k), cc)
                    elif q == 1:
                        r = pos(c)
                    elif q == -1:
                        r = mult(pos(-c), -1)
                    else:
                        r = addt(mult(pos(0), q), c)
                    for k2, n2 in d.items():
                        r = addt(r, mult(k2, n2))
                    return r
            if L is None and t[0] == 'x' and t[1] == 'add':
                d, c = lin(t)
                ls = [x for x in d if x[0] == 'x' and x[1] == 'len' and x[3] == R or x == ORG]
                if ls:
                    c = sgn(c & mask(64), 64)
                    if c < base:
                        return t
                    r = addt(pos(c - base), base)
                    for k2, n2 in d.items():
                        r = addt(r, mult(k2, n2))
                    return r
            if t[0] == 'p' and len(t) == 3:
                return ('p', t[1], conv(t[2]))
            ch = tuple(conv(e) if isinstance(e, tuple) else e for e in t)
            if ch == t:
                return t
            return resimplify(ch) if t[0] == 'x' else ch

        def sub(v):
            """Replaces the folded characters in a sequence of pieces."""
            pat = ((W,) if W is not None else ()) + tuple(chars[:n])
            m = len(pat)
            v = flat(v)
            for i in range(len(v) - m + 1):
                if v[i:i + m] == pat and (W is not None or i == base) and v[i + m:i + m + len(chars) - n + 1] == tuple(chars[n:]) + ((R,) if R is not None else ()):
                    return v[:i] + tuple(new) + v[i + m:]
            return v
        for fr in st.allframes():
            for k, v in list(fr.regs.items()):
                if isinstance(v, tuple):
                    fr.regs[k] = conv(v)
            fr.args = tuple(conv(a) if isinstance(a, tuple) else a for a in fr.args)
        for ob in st.mem.values():
            if ob.const:
                continue
            for k, (s, v) in list(ob.cells.items()):
                if isinstance(v, tuple):
                    ob.cells[k] = (s, conv(v))
            for k, v in list(ob.sh.items()):
                if isinstance(v, tuple) and v and v[0] == 'str':
                    ob.sh[k] = ('str', tuple(e if is_char(e) or is_seq(e) else conv(e) for e in sub(v[1])))
                else:
                    ob.sh[k] = conv(v)
            if isinstance(ob.size, tuple):
                ob.size = conv(ob.size)
        for ob, off in zero:
            s, v = ob.cells[off]
            ob.cells[off] = (s, addt(pos(v - base), base))
        for k, v in list(st.mon.items()):
            if isinstance(v, tuple):
                v = conv(v)
                st.mon[k] = self.conv_ints(v, len(chars), pos, base) if L is None else v
        nf = {}
        for k, v in st.facts.items():
            c = conv(k)
            if isinstance(c, int):
                continue
            nf[c] = v
        st.facts = nf
        if L is not None:
            keep = any(x == W for x in new)
            nr = {}
            for k, v in st.rng.items():
                if k == L and not keep:
                    continue
                c = conv(k)
                if isinstance(c, tuple):
                    nr[c] = v
            st.rng = nr
        eng.stats['widened'] += 1

    def ints(self, v, m, ks, base):
        """Constants marked as positions in a monitor: ('@', k)."""
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == '@' and isinstance(v[1], int):
                if base <= v[1] <= base + m:
                    ks.add(v[1] - base)
            else:
                for e in v:
                    self.ints(e, m, ks, base)

    def conv_ints(self, v, m, pos, base):
        if isinstance(v, tuple):
            if len(v) == 2 and v[0] == '@' and isinstance(v[1], int) and base <= v[1] <= base + m:
                return ('@', addt(pos(v[1] - base), base))
            return tuple(self.conv_ints(e, m, pos, base) for e in v)
        return v


def ir_broken(what):
    from . import ir
    return ir.AnalysisBroken(what + ' is not modelled')
