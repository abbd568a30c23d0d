"""Json.h: conversions of scalar values.  The token has any kind and its contents
are a keyword or an unknown text; the standard conversions of such a text are
modelled by classes of numbers."""
from .jsonesc import *

WORDS = (b'true', b'false', b'null')
I32, U32, I64, U64 = (-1 << 31, (1 << 31) - 1), (0, (1 << 32) - 1), (-1 << 63, (1 << 63) - 1), (0, (1 << 64) - 1)
# numbers and the types they belong to
CLASSES = [('none', None), ('negative', (-1 << 31, -1)), ('small', (0, (1 << 31) - 1)), ('unsigned', (1 << 31, (1 << 32) - 1)),
           ('long', (1 << 32, (1 << 63) - 1)), ('big negative', (-1 << 63, (-1 << 31) - 1)), ('unsigned long', (1 << 63, (1 << 64) - 1)), ('huge', None)]
TYPES = {'stoi': I32, 'stol': I64, 'stoll': I64, 'stoul': U64, 'stoull': U64}


class JsonValue(JsonEscape):
    nsw = False

    def __init__(self, eng):
        super().__init__(eng)
        i, m = eng.intr, eng.models

        def token(eng, st, c):
            k = self.choose(st, 3 + 3 + len(CLASSES) * 2 + 1)
            A, B = st.fresh('pre'), st.fresh('pre')
            for x in (A, B):
                st.rng[('x', 'len', 64, x)] = (0, BIG)
            if k < 3:
                kind, v, q = 'k', tuple(WORDS[k]), ()
            elif k < 6:
                kind, v, q = 'i', tuple(WORDS[k - 3]), (34,)
            elif k == 6 + 2 * len(CLASSES):
                kind, v, q = '{', (ord('{'),), ()
            else:
                k -= 6
                kind, q = ('n', ()) if k % 2 else ('i', (34,))
                cl, r = CLASSES[k // 2]
                n = st.fresh('contents')
                v = (('x', 'number', 64, n),)
                st.rng[('x', 'len', 64, v[0])] = (0 if kind == 'i' else 1, BIG)
                if cl in ('none', 'huge'):
                    st.mon['number'] = ('number', cl, None)
                else:
                    x = st.fresh('n')
                    st.mon['number'] = ('number', cl, x)
                    st.rng[x] = r if r[1] < 1 << 63 else (r[0] - (1 << 64), r[1] - (1 << 64))
            st.mon['kind'] = ('kind', kind)
            st.mon['value'] = ('value', v)
            eng.strings.put(eng, st, c.a[0], (A,) + q + v + q + (B,))
            st.mon['token'] = ('token', addt(('x', 'len', 64, A), len(q)), A)
        i['spec_token'] = token

        def contents(eng, st, c):
            a = st.mon['token'][1]
            n = eng.strings.length(eng, st, st.mon['value'][1])
            eng.store(st, c.a[0], 8, a)
            eng.store(st, c.a[1], 8, addt(addt(a, n), -1))
        i['spec_contents'] = contents
        i['spec_kind'] = lambda eng, st, c: ord(st.mon['kind'][1])
        i['spec_word'] = lambda eng, st, c: int(st.mon['kind'][1] == 'k' and st.mon['value'][1] == tuple(WORDS[c.a[0]]))
        i['spec_int'] = self.integral
        i['spec_float'] = self.floating
        i['spec_bool'] = self.boolean
        i['spec_maybe'] = self.maybe
        i['spec_written'] = self.written
        i['spec_number'] = lambda eng, st, c: eng.store(st, c.a[0], c.a[1] // 8, st.fresh('float', c.a[1]))
        i['spec_written_float'] = self.written_float
        for f in TYPES:
            for p in ('std::__cxx11::', 'std::'):
                m[p + f] = lambda eng, st, c, f=f: self.sto(eng, st, c, f)
        for f in ('stof', 'stod', 'stold'):
            for p in ('std::__cxx11::', 'std::'):
                m[p + f] = lambda eng, st, c, f=f: self.stof(eng, st, c, f)
        for p in ('std::__cxx11::', 'std::'):
            m[p + 'to_string'] = self.to_string

    choose = lambda self, st, n: choose(st, n)

    def normalise(self, eng, st):
        pass

    def same_strings(self, eng, st, a, b):
        """The unknown text is none of the keywords."""
        v = st.mon.get('value', ('', ()))[1]
        for x, y in ((a, b), (b, a)):
            if x == v and all(is_char(e) for e in y) and bytes(y) in WORDS:
                return 0

    # the standard conversions ------------------------------------------------------
    def number(self, eng, st, c):
        """(class, value) of a string."""
        v = flat(eng.strings.get(eng, st, c.a[-3] if len(c.a) > 3 else c.a[0]))
        if v and v == st.mon.get('value', ('', ()))[1] and not is_char(v[0]):
            return st.mon['number'][1:]
        if all(isinstance(x, int) for x in v):
            import re
            k = re.match(rb'[ \t\n\v\f\r]*([+-]?[0-9]+)', bytes(v))
            if not k:
                return 'none', None
            n = int(k.group(1))
            for cl, r in CLASSES:
                if r and r[0] <= n <= r[1]:
                    return cl, n & mask(64)
            return 'huge', None
        eng.bad(st, 'specification', 'the text of a number is %s' % show(v))

    def sto(self, eng, st, c, f):
        cl, n = self.number(eng, st, c)
        if cl == 'none':
            raise Raise('_ZTISt16invalid_argument')
        r = dict(CLASSES)[cl]
        t = TYPES[f]
        # the unsigned conversions accept negative numbers
        if r is None or not (t[0] <= r[0] and r[1] <= t[1]) and not (t == U64 and r[1] < 0):
            raise Raise('_ZTISt12out_of_range')
        if f == 'stoi':
            return n & mask(32) if isinstance(n, int) else trunc(st, n)
        return n

    def stof(self, eng, st, c, f):
        cl, n = self.number(eng, st, c)
        if cl == 'none':
            raise Raise('_ZTISt16invalid_argument')
        if cl == 'huge':
            raise Raise('_ZTISt12out_of_range')
        return ('x', f, {'stof': 32, 'stod': 64, 'stold': 80}[f], n)

    def to_string(self, eng, st, c):
        par = split_params(c.params())[-1].strip()
        v = c.a[1]
        eng.strings.put(eng, st, c.a[0], (decimal(st, v, par),))

    # results ------------------------------------------------------------------------
    def expected(self, st):
        k, v = st.mon['kind'][1], st.mon['value'][1]
        if v and all(is_char(x) for x in v):
            return k, bytes(v), ('none', None)
        return k, None, st.mon['number'][1:]

    def result(self, eng, st, r, ok, what):
        eng.obl += 1
        self.site(what)
        if r != ok:
            eng.bad(st, 'specification', 'the result is %s for %s' % (('false', 'true')[r], what))
        return r

    def integral(self, eng, st, c):
        k, word, (cl, n) = self.expected(st)
        r, v, bits, sign = c.a
        t = {(32, 1): I32, (64, 1): I64, (32, 0): U32, (64, 0): U64}[bits, sign]
        x = dict(CLASSES)[cl]
        if cl in ('negative', 'big negative') and not sign:
            return              # not specified
        ok = x is not None and t[0] <= x[0] and x[1] <= t[1]
        if self.result(eng, st, eng.branch(st, r), int(ok), 'a number of %d bits, the text is %s' % (bits, cl)):
            if eng.eqt(st, v, n) != 1 and not same_number(st, v, n, bits, sign):
                eng.bad(st, 'specification', 'the number is %s instead of %s' % (pretty(v), pretty(n)))

    def floating(self, eng, st, c):
        k, word, (cl, n) = self.expected(st)
        ok = int(cl not in ('none', 'huge'))
        if self.result(eng, st, eng.branch(st, c.a[0]), ok, 'a floating-point number of %d bits, the text is %s' % (c.a[2], cl)):
            v = eng.load(st, c.a[1], c.a[2] // 8)
            if v != ('x', {32: 'stof', 64: 'stod'}[c.a[2]], c.a[2], n):
                eng.bad(st, 'specification', 'the number is %s' % pretty(v))

    def boolean(self, eng, st, c):
        k, word, _ = self.expected(st)
        ok = int(word in WORDS[:2])
        if self.result(eng, st, eng.branch(st, c.a[0]), ok, 'a boolean value, the text is %s' % (word or b'other').decode()):
            if eng.eqt(st, c.a[1], int(word == b'true'), 32) != 1:
                eng.bad(st, 'specification', 'the value is %s for %s' % (pretty(c.a[1]), word.decode()))

    def maybe(self, eng, st, c):
        k, word, (cl, n) = self.expected(st)
        null = word == b'null'
        x = dict(CLASSES)[cl]
        ok = null or x is not None and I32[0] <= x[0] and x[1] <= I32[1]
        if self.result(eng, st, eng.branch(st, c.a[0]), int(ok), 'an optional number, the text is %s' % (word.decode() if word else cl)):
            if eng.branch(st, c.a[1]) != int(not null):
                eng.bad(st, 'specification', 'a value is %s although the text is %s' % (('there', 'missing')[not null], word.decode() if word else cl))
            if not null and not same_number(st, c.a[2], n, 32, 1):
                eng.bad(st, 'specification', 'the value is %s instead of %s' % (pretty(c.a[2]), pretty(n)))

    def written(self, eng, st, c):
        eng.obl += 1
        s, kind, v = c.a
        self.site('written %d' % kind)
        got = tuple(value(st, p) for p in flat(eng.strings.get(eng, st, s)))
        if kind == 2:
            want = tuple(WORDS[0 if eng.branch(st, v if not isinstance(v, int) else v & 1) else 1])
        elif kind == 3:
            want = tuple(b'null')
        else:
            want = (decimal(st, v, 'long' if kind else 'unsigned long'),)
        want = (st.mon['J'],) + want
        if got != want:
            eng.bad(st, 'specification', 'the text is %s instead of %s' % (show(got), show(want)))

    def written_float(self, eng, st, c):
        eng.obl += 1
        self.site('written %d bits' % c.a[2])
        got = tuple(value(st, p) for p in flat(eng.strings.get(eng, st, c.a[0])))
        want = (st.mon['J'], decimal(st, eng.load(st, c.a[1], c.a[2] // 8), {32: 'float', 64: 'double'}[c.a[2]]))
        if got != want:
            eng.bad(st, 'specification', 'the text is %s instead of %s' % (show(got), show(want)))


def same_number(st, v, n, bits, sign):
    """v is n, known to fit into so many bits."""
    if v == n:
        return True
    if isinstance(v, tuple) and v[0] == 'x' and v[1] == ('sext' if sign else 'zext') and bits == 32:
        v = v[3]
        return isinstance(v, tuple) and v[:2] == ('x', 'trunc') and v[3] == n
    return False


def decimal(st, v, par):
    """The decimal representation of a number of this type."""
    sign = not par.startswith('unsigned')
    w = 32 if par in ('int', 'unsigned int', 'unsigned') else 64
    if par in ('float', 'double', 'long double'):
        if par == 'float':
            v = ('x', 'fpext', 64, v)
        return ('x', 'decimal', 64, v, 'f')
    if isinstance(v, int):
        return ('x', 'decimal', 64, (sgn(v, w) if sign else v & mask(w)), '')
    if w == 32:
        v = ('x', 'sext' if sign else 'zext', 64, v)
    if v[0] == 'x' and v[1] == 'zext':
        sign = False
    return ('x', 'decimal', 64, v, 's' if sign else 'u')


def trunc(st, n):
    return ('x', 'trunc', 32, n)


def choose(st, n):
    c = st.mon.pop('choice', None)
    if c is not None:
        return c[1]
    out = []
    for i in range(n):
        q = st.copy()
        q.mon['choice'] = ('choice', i)
        out.append(q)
    raise Fork(out)


CONTRACTS = {'discardQuote': 'vf_discard', 'is': 'vf_is', 'isKeyword': 'vf_isKeyword'}


def modular(m, entry):
    """The lexer and unescape() are replaced by what J01 and J04 show of them."""
    import copy
    m = copy.copy(m)
    m.fns = dict(m.fns)
    for k, f in list(m.fns.items()):
        if f.short.startswith('json::Lexer::') and f.short[13:] in CONTRACTS:
            m.fns[k] = m.fns[CONTRACTS[f.short[13:]]]
        if f.short == 'json::Traits::unescape':
            m.fns[k] = m.fns['vf_unescape']
    return m


def run(m, entry):
    m = modular(m, entry)
    eng = Engine(m)
    install_vf(eng)
    eng.client = JsonValue(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
