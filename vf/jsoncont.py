"""Json.h: arrays and containers.  The text around the value is arbitrary; the
value has a few elements; conversions of keys and elements have any result."""
import itertools
import re
from .jsonesc import *
from .jsonval import choose, JsonValue

OLD = 1                  # the value of the element that is there before
KEY_OLD = 2


def arrays(values, most):
    """[(text, keys)]: arrays and objects with any keys."""
    out = []
    for n in range(most + 1):
        v = [b'%d' % i if values is None else values for i in range(n)]
        out.append((b'[' + b','.join(v) + b']', list(range(n))))
        for ks in itertools.product(range(most), repeat=n):
            if n:
                out.append((b'{' + b','.join(b'"%d":' % k + x for k, x in zip(ks, v)) + b'}', list(ks)))
    x = b'"a"' if values == b'?' else b'7'
    out += [(b'{}', []), (b'[ ]', []), (b'[ ' + x + b' ,\n' + x + b' ]', [0, 1]), (b'{ "1" : ' + x + b' , "0":\t' + x + b'}', [1, 0])]
    return out + [(b'{"%s":%s}' % (k, x), 'wrong') for k in (b'18446744073709551615', b'4294967295', b'a')]


class JsonContainer(JsonValue):
    def __init__(self, eng):
        super().__init__(eng)
        i, m = eng.intr, eng.models
        i['spec_text'] = self.text
        i['spec_old'] = self.old
        i['spec_value'] = self.element
        i['spec_key'] = self.key
        i['spec_array'] = self.array
        i['spec_size'] = self.size
        i['spec_has'] = self.has
        i['spec_end'] = self.end
        i['spec_length'] = lambda eng, st, c: -1 if self.case(st)[1] is None else len(self.case(st)[1])
        self.cases = {}

    def normalise(self, eng, st):
        pass

    # the text -----------------------------------------------------------------------
    def text(self, eng, st, c):
        kind = c.a[1]
        if kind not in self.cases:
            self.cases[kind] = getattr(self, 'kind%d' % kind)()
        k = choose(st, len(self.cases[kind]))
        st.mon['case'] = ('case', kind, k)
        t, keys = self.cases[kind][k][:2]
        A, B = st.fresh('pre'), st.fresh('pre')
        for x in (A, B):
            st.rng[('x', 'len', 64, x)] = (0, BIG)
        eng.strings.put(eng, st, c.a[0], (A,) + tuple(t) + (B,))
        st.mon['A'] = A
        st.mon['calls'] = ('calls',)
        return ('x', 'len', 64, A)

    def kind0(self):
        return arrays(b'7', 3) + [(b'{"0":7,"a":7}', 'wrong'), (b'7', None), (b'"7"', None)]

    def kind1(self):
        return arrays(b'7', 3) + [(b'{"0":7,"a":7}', 'wrong')]

    def kind2(self):
        return [(b'[' + b','.join([b'7'] * n) + b']', list(range(n))) for n in range(4)] + [(b'{"0":7}', 'wrong'), (b'{}', 'wrong')]

    def kind3(self):
        return [(b'{' + b','.join([b'"k":7'] * n) + b'}', list(range(n))) for n in range(3)]

    kind5 = kind3

    def kind4(self):
        out = []
        for t, ks in arrays(b'?', 2):
            n = t.count(b'?')
            for vs in itertools.product((b'"a"', b'7', b'"cd"'), repeat=n):
                s = t
                for v in vs:
                    s = s.replace(b'?', v, 1)
                out.append((s, ks, [v.strip(b'"') for v in vs]))
        return out

    def case(self, st):
        return self.cases[st.mon['case'][1]][st.mon['case'][2]]

    def at(self, eng, st, p):
        """Position in the value."""
        d = addt(p, mult(('x', 'len', 64, st.mon['A']), -1))
        if not isinstance(d, int):
            eng.bad(st, 'specification', 'the position %s is used' % pretty(p))
        return sgn(d, 64)

    def old(self, eng, st, c):
        k = choose(st, 2)
        st.mon['old'] = ('old', k)
        return k

    def marks(self, t, what):
        """Positions of values or keys."""
        ms = [(m.start(), m.group(2) is not None) for m in re.finditer(rb'("[^"]*"|[0-9]+)\s*(:)?', t)]
        return [p for p, k in ms if k == (what == 'key')]

    # conversions ----------------------------------------------------------------------
    def note(self, st, *x):
        st.mon['calls'] += (x,)

    def element(self, eng, st, c):
        kind = st.mon['case'][1]
        t = self.case(st)[0]
        p = self.at(eng, st, c.a[1])
        ms = self.marks(t, 'value')
        if p not in ms:
            eng.bad(st, 'specification', 'a value is converted at %d of %s' % (p, t.decode()))
        i = ms.index(p)
        r = choose(st, 3)
        if any(x[0] == 'value' and x[1] == i for x in st.mon['calls'][1:]):
            eng.bad(st, 'specification', 'a value of %s is converted twice' % t.decode())
        self.note(st, 'value', i, r)
        if r == 1:
            eng.store(st, c.a[0], 8, 1000 + i)
        return r

    def key(self, eng, st, c):
        kind = st.mon['case'][1]
        t = self.case(st)[0]
        p = self.at(eng, st, c.a[1])
        ms = self.marks(t, 'value' if kind == 2 else 'key')
        if p not in ms:
            eng.bad(st, 'specification', 'a key is converted at %d of %s' % (p, t.decode()))
        r = choose(st, 5)
        if r >= 2:
            eng.store(st, c.a[0], 8, r - 1)
        self.note(st, 'key', ms.index(p), r)
        return (0, 2, 1, 1, 1)[r]

    # results ---------------------------------------------------------------------------
    def expect(self, eng, st):
        """(success, contents or None, errors) for the conversions that were done."""
        kind = st.mon['case'][1]
        cs = self.case(st)
        t, keys = cs[:2]
        calls = st.mon['calls'][1:]
        vals = {x[1]: x[2] for x in calls if x[0] == 'value'}
        old = st.mon.get('old', (0, 0))[1]
        if keys == 'wrong':
            return 0, [(KEY_OLD, 0)] if old else [], None
        if kind in (0, 1, 4):
            if keys is None:
                return int(vals.get(0) == 1), {0: 1000}, ()
            n = len(keys)
            if n and n < max(keys) + 1:
                return 0, None, (7,)
            if n and n > max(keys) + 1:
                return 0, None, (8,)
            if kind == 4:
                ok = all(len(v) == 1 for v in cs[2])
                return int(ok), {k: v[0] for k, v in zip(keys, cs[2])}, None
            ok = all(vals.get(i) == 1 for i in range(n))
            if len(set(keys)) < n and not calls:
                return 0, None, (8,)
            return int(ok), {k: 1000 + i for i, k in enumerate(keys)}, ()
        ks = {x[1]: x[2] for x in calls if x[0] == 'key'}
        n = len(keys)
        got = [(KEY_OLD, 0 if kind == 2 else OLD)] if old else []
        for i in range(n):
            k = ks.get(i)
            if k in (None, 0, 1):
                return 0, got, ()
            k -= 1
            if kind != 5 and any(x[0] == k for x in got):
                return 0, got, (8,)
            if kind == 2:
                got.append((k, 0))
                continue
            if vals.get(i) != 1:
                return 0, got, ()
            got.append((k, 1000 + i))
        return 1, got, ()

    def done(self, eng, st, r, start):
        eng.obl += 1
        t, keys = self.case(st)[:2]
        ok, want, errs = self.expect(eng, st)
        r = eng.branch(st, r)
        calls = ' '.join('%s %d: %d' % x for x in st.mon['calls'][1:])
        what = '%s (%s)' % (t.decode(), calls)
        if r != ok:
            eng.bad(st, 'specification', 'the result is %s for %s' % (('false', 'true')[r], what))
        got = tuple(x[0] for x in st.mon.pop('errors', ('errors',))[1:])
        if errs is not None and got != errs:
            eng.bad(st, 'specification', 'the errors are %s instead of %s for %s' % (list(got), list(errs), what))
        self.site('%s %s' % (self.cname(st), ('failure', 'success')[ok] + ''.join(' %d' % e for e in errs or ())))
        if ok and keys is not None:
            p = self.at(eng, st, start)
            if p != len(t) - 1:
                eng.bad(st, 'specification', 'the lexer is at %d of %s' % (p, t.decode()))
        return r, want, what

    def cname(self, st):
        return {0: 'array', 1: 'vector', 2: 'set', 3: 'map', 4: 'characters', 5: 'multimap'}[st.mon['case'][1]]

    def array(self, eng, st, c):
        r, want, what = self.done(eng, st, c.a[0], c.a[3])
        if not r:
            return
        p, n = c.a[1:3]
        keys = self.case(st)[1]
        size = 1 if keys is None else len(keys)
        if size == 0:
            if p != 0:
                eng.bad(st, 'specification', 'an empty array is not a null pointer')
            return
        for i in range(size):
            v = eng.load(st, eng.padd(st, p, i * n), n)
            if i not in want:
                if v == U:
                    self.finding(eng, st)
                continue
            vs = [1000 + j for j, k in enumerate(keys or [0]) if k == i] if st.mon['case'][1] == 0 else \
                 [x[0] for k, x in zip(keys, self.case(st)[2]) if k == i]
            if v not in vs:
                eng.bad(st, 'specification', 'element %d is %s for %s' % (i, pretty(v), what))
        o = st.mem[p[1]]
        if o.size is not None and o.size != size * n:
            eng.bad(st, 'specification', 'the memory has %s bytes instead of %d' % (pretty(o.size), size * n))

    def finding(self, eng, st):
        eng.bad(st, 'specification', 'a repeated key leaves an element of the %s without a value' % self.cname(st))

    def size(self, eng, st, c):
        r, want, what = self.done(eng, st, c.a[0], c.a[2])
        st.mon['want'] = ('want', r, c.a[1])
        st.mon['got'] = ('got',)

    def has(self, eng, st, c):
        st.mon['got'] += ((c.a[0], c.a[1]),)

    def end(self, eng, st, c):
        if 'want' in st.mon:
            _, r, n = st.mon['want']
            kind = st.mon['case'][1]
            ok, want, errs = self.expect(eng, st)
            got = st.mon['got'][1:]
            t, keys = self.case(st)[:2]
            what = '%s (%s)' % (t.decode(), ' '.join('%s %d: %d' % x for x in st.mon['calls'][1:]))
            if kind == 1:
                if r:
                    if n != len(keys):
                        eng.bad(st, 'specification', 'the size is %s for %s' % (pretty(n), what))
                    for i, v in got:
                        vs = [1000 + j for j, k in enumerate(keys) if k == i]
                        if not vs:
                            self.finding(eng, st)
                        elif v not in vs:
                            eng.bad(st, 'specification', 'element %s is %s for %s' % (pretty(i), pretty(v), what))
            else:
                if n != len(got):
                    eng.bad(st, 'specification', 'the size is %s for %d elements' % (pretty(n), len(got)))
                key = lambda x: x[0]
                srt = sorted(want or (), key=key)
                if r and tuple(srt) != got or not r and any(x not in srt for x in got) and not any(x[2] == 2 and x[0] == 'value' for x in st.mon['calls'][1:]):
                    eng.bad(st, 'specification', 'the contents are %s instead of %s for %s' % (list(got), srt, what))
                if 'old' in st.mon and st.mon['old'][1] and (KEY_OLD, 0 if kind == 2 else OLD) not in got:
                    eng.bad(st, 'specification', 'the element that was there before is lost for %s' % what)
        for k in ('case', 'calls', 'A', 'old', 'want', 'got', 'errors'):
            st.mon.pop(k, None)


def run(m, entry):
    eng = Engine(m)
    install_vf(eng)
    eng.max_pieces = 64
    eng.client = JsonContainer(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
