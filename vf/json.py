"""Json.h: lexer, escaping, traversal and conversions."""
from . import ir
from .absint import *
from .common import *
from .strmodel import *
from .lazystr import *

KW = (b'true', b'false', b'null')
SPECIAL = {ord(c): i for i, c in enumerate('[]{},:')}
WS = frozenset(b' \t\n\v\f\r')
NUM, IDENT, KEYW = 6, 7, 8


def single(b, k):
    return ('done', 1 << SPECIAL[b] if b in SPECIAL else 0, ('HERE', -k), ('HERE', -k), ('HERE', 1 - k))


class Tokens:
    """The tokens of a JSON text (specification).  States: ('ws',), ('str', escaped,
    start), ('num', dots, start), ('kw', word, letters), and the verdicts ('done',
    kinds, start, end, next) and ('fail', where the token starts)."""

    def enough(self, s):
        """Need no more characters be known?"""
        return s[0] in ('done', 'fail', 'off')

    def next(self, s, b):
        k = s[0]
        if k in ('done', 'fail', 'off'):
            return s
        if k == 'ws':
            if b is None:
                return ('fail', ('HERE', 0))
            if b in WS:
                return s
            if b == 34:
                return ('str', 0, ('HERE', 0))
            if 48 <= b < 58 or b in b'+-':
                return ('num', 0, ('HERE', 0))
            for i, w in enumerate(KW):
                if b == w[0]:
                    return ('kw', i, 1)
            return single(b, 0)
        if k == 'str':
            if b is None:
                return ('fail', s[2])
            if s[1]:
                return ('str', 0, s[2])
            if b == 92:
                return ('str', 1, s[2])
            if b == 34:
                return ('done', 1 << IDENT, s[2], ('HERE', 0), ('HERE', 1))
            return s
        if k == 'num':
            if b is not None and 48 <= b < 58:
                return s
            if b == 46 and not s[1]:
                return ('num', 1, s[2])
            return ('done', 1 << NUM | (1 << 9 if not s[1] else 1 << 10), s[2], ('HERE', -1), ('HERE', 0))
        if k == 'kw':
            w, n = KW[s[1]], s[2]
            if b == w[n]:
                if n + 1 == len(w):
                    return ('done', 1 << KEYW | 1 << (11 + s[1]), ('HERE', -n), ('HERE', 0), ('HERE', 1))
                return ('kw', s[1], n + 1)
            return single(w[0], n)
        raise KeyError(s)


def lexical(s):
    return {'done': 'a token', 'fail': 'the end of the text', 'str': 'a string', 'num': 'a number', 'kw': 'a keyword', 'ws': 'white space'}[s[0]]


class Json:
    nsw = True
    lin_order = True

    def __init__(self, eng):
        self.eng = eng
        self.automata = {'tokens': Tokens()}
        LazyStrings(eng)
        i, m = eng.intr, eng.models
        self.site = site = lambda w: eng.sites.setdefault('spec', set()).add(w)
        D = 'bcl::Diagnostic::'
        m[D + 'Diagnostic'] = lambda eng, st, c: eng.set_shadow(st, c.a[0], ('diag',))
        m[D + '~Diagnostic'] = lambda eng, st, c: eng.set_shadow(st, c.a[0], None)
        m[D + 'insert'] = self.error
        m[D + 'empty'] = lambda eng, st, c: int(len(st.mon.get('errors', ('errors',))) == 1)
        m[D + 'internal_size'] = lambda eng, st, c: 0

        def text(eng, st, c):
            R, P = st.fresh('seq'), st.fresh('pre')
            st.rng[('x', 'len', 64, P)] = (0, BIG)
            st.mon['text'] = ('text', c.a[0])
            eng.strings.put(eng, st, c.a[0], (P, R))
            st.mon['watch'] = ('watch', R, ('@', ('x', 'len', 64, P)), ('off',), 'tokens')
        i['spec_text'] = text
        i['spec_somewhere'] = lambda eng, st, c: st.mon['watch'][2][1]
        i['spec_forget'] = self.forget
        i['spec_start'] = self.start
        i['spec_token'] = self.token
        i['spec_settle'] = self.settled
        i['spec_errors'] = self.errors

    def normalise(self, eng, st):
        eng.strings.fold(eng, st)

    # errors -------------------------------------------------------------------
    def error(self, eng, st, c):
        e = st.mon.get('errors', ('errors',))
        st.mon['errors'] = e + ((c.a[1], ('@', c.a[3])),) if len(e) < 4 else e
        return 1

    def errors(self, eng, st, c):
        e = st.mon.pop('errors', ('errors',))[1:]
        n = sgn(c.a[0], 32) if isinstance(c.a[0], int) else int(eng.branch(st, c.a[0]))
        if n < 0:
            return
        eng.obl += 1
        self.site('errors')
        if len(e) != n:
            eng.bad(st, 'specification', '%d errors are reported instead of %d' % (len(e), n))
        for code, (_, pos) in e:
            if code != c.a[1] or eng.eqt(st, pos, c.a[2]) != 1:
                eng.bad(st, 'specification', 'error %s at %s is reported instead of error %s at %s' % (code, pretty(pos), c.a[1], pretty(c.a[2])))

    # tokens -------------------------------------------------------------------
    def text_pieces(self, eng, st):
        """The text and the rest being watched."""
        return eng.strings.get(eng, st, st.mon['text'][1])

    def forget(self, eng, st, c):
        """Generalises the state: any text before and after a position."""
        v = self.text_pieces(eng, st)
        pos = c.a[0]
        size = eng.strings.length(eng, st, v)
        if lin_bounds(st, pos)[0] is None or lin_bounds(st, pos)[0] < 0 or \
           lin_bounds(st, addt(size, mult(pos, -1)))[0] is None or lin_bounds(st, addt(size, mult(pos, -1)))[0] < 0:
            eng.bad(st, 'specification', 'next() may lie outside the text')
        R, P = st.fresh('seq'), st.fresh('pre')
        st.rng[('x', 'len', 64, P)] = (0, BIG)
        lp = ('x', 'len', 64, P)
        for o in st.mem.values():
            if o.const:
                continue
            for k, d in list(o.sh.items()):
                if isinstance(d, tuple) and d and d[0] == 'str' and flat(d[1]) == v:
                    o.sh[k] = ('str', (P, R))
            for k, (n, x) in list(o.cells.items()):
                if x == pos and n == 8:
                    o.cells[k] = (8, lp)
                elif is_sym(x) and 'len' in repr(x):
                    o.cells[k] = (n, st.fresh('old', 8 * n))
                elif n == 1 and is_ptr(c.a[1]) and o is st.mem.get(c.a[1][1]) and (isinstance(x, int) or is_sym(x)):
                    # kinds and flags of the previous token
                    o.cells[k] = (n, st.byte('old', 3 if x in (0, 1) else ALL))
        st.mon['watch'] = ('watch', R, ('@', lp), ('off',), 'tokens')
        return lp

    def start(self, eng, st, c):
        """Begins watching at a position at or before the front of the rest."""
        v = self.text_pieces(eng, st)
        pos = c.a[0]
        b = eng.strings.split(eng, st, v, pos, 'start')
        if b is None or b == 'out':
            eng.bad(st, 'specification', 'the position of the next token lies outside the text')
        s = ('ws',)
        R = None
        at = pos
        for x in b[1]:
            if is_char(x):
                s = self.feed(eng, st, s, x, at)
                at = addt(at, 1)
            else:
                R = x
        st.mon.pop('errors', None)
        st.mon['watch'] = ('watch', R or ('nil',), ('@', at), s, 'tokens')

    def feed(self, eng, st, s, x, at):
        a = self.automata['tokens']
        if isinstance(x, int):
            return eng.strings.place(a.next(s, x), at)
        d = st.dom[x[1]]
        g = {}
        for b in range(256):
            if d >> b & 1:
                k = a.next(s, b)
                g[k] = g.get(k, 0) | 1 << b
        if len(g) == 1:
            return eng.strings.place(list(g)[0], at)
        out = []
        for m in g.values():
            q = st.copy()
            restrict(q, x[1], m)
            out.append(q)
        raise Fork(out)

    def settle(self, eng, st, what):
        """Lets the specification read on until its token is complete."""
        w = st.mon['watch']
        s = w[3]
        if s[0] in ('done', 'fail'):
            return s
        if w[1] == ('nil',):
            s = eng.strings.place(self.automata[w[4]].next(s, None), w[2][1])
            st.mon['watch'] = w[:3] + (s,) + w[4:]
            return s
        n = st.mon.get('ahead', ('n', 0))[1]
        if n > 6:
            eng.bad(st, 'specification', '%s ends inside %s' % (what, lexical(s)))
        st.mon['ahead'] = ('n', n + 1)
        eng.strings.reveal(eng, st, w[1])

    def settled(self, eng, st, c):
        """The token is complete; what its characters were is forgotten."""
        self.settle(eng, st, 'the token')
        st.mon.pop('ahead', None)
        eng.strings.fold(eng, st, True)

    def token(self, eng, st, c):
        eng.obl += 1
        self.site('token')
        s = self.settle(eng, st, 'the token')
        st.mon.pop('ahead', None)
        ret, b, e, n, kinds, qb, qe = c.a
        if is_sym(kinds):
            d = dom_values(st, kinds)
            if d:
                if len(d[1]) > 1:
                    out = []
                    for m in d[1].values():
                        q = st.copy()
                        restrict(q, d[0], m)
                        out.append(q)
                    raise Fork(out)
                kinds = list(d[1])[0]
        if U in c.a:
            eng.bad(st, 'uninitialised', 'the state of the lexer is not initialised')
        size = eng.strings.length(eng, st, self.text_pieces(eng, st))
        if ret != 2:
            r = eng.branch(st, ret)
            if r != int(s[0] == 'done'):
                eng.bad(st, 'specification', 'goToNext() returns %s although the text %s' % (
                    ('false', 'true')[r], 'continues with a token' if s[0] == 'done' else 'has no further token'))
        errs = st.mon.get('errors', ('errors',))[1:]
        if s[0] == 'fail':
            self.site('end of text')
            if len(errs) != 1 or errs[0][0] != 1 or eng.eqt(st, errs[0][1][1], s[1][1]) != 1:
                eng.bad(st, 'specification', 'the unexpected end of the text is not reported with its position')
            want = (size, size, size, 0)
        else:
            self.site('token %d' % s[1])
            if errs:
                eng.bad(st, 'specification', 'an error is reported although the text continues with a token')
            want = (s[2][1], s[3][1], s[4][1], s[1])
        for what, v, x in zip(('start()', 'end()', 'next()'), (b, e, n), want):
            if eng.eqt(st, v, x) != 1:
                eng.bad(st, 'specification', '%s is %s instead of %s' % (what, pretty(v), pretty(x)))
        if kinds != want[3]:
            eng.bad(st, 'specification', 'the token is classified as %s instead of %s' % (names(kinds), names(want[3])))
        if s[0] == 'done' and s[1] & 1 << IDENT:
            b, e = addt(b, 1), addt(e, -1)
        if eng.eqt(st, qb, b) != 1 or eng.eqt(st, qe, e) != 1:
            eng.bad(st, 'specification', 'discardQuote() does not give the contents of the token')


NAMES = ['[', ']', '{', '}', ',', ':', 'number', 'string', 'keyword', 'integral', 'floating', 'true', 'false', 'null']


def names(k):
    if not isinstance(k, int):
        return pretty(k)
    return ' '.join(n for i, n in enumerate(NAMES) if k >> i & 1) or 'nothing known'


def run(m, entry):
    eng = Engine(m)
    install_vf(eng)
    eng.WIDEN_AFTER = 60 if entry == 'drv_store' else eng.WIDEN_AFTER
    eng.client = Json(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
