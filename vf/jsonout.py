"""Json.h: the text of containers and objects.  The texts of elements and keys
are unknown, elements may have none."""
from .jsonesc import *
from .jsonval import choose, decimal


class JsonOut(JsonEscape):
    def __init__(self, eng):
        super().__init__(eng)
        i = eng.intr
        for p in ('std::__cxx11::', 'std::'):
            eng.models[p + 'to_string'] = self.to_string
        i['spec_before'] = self.before
        i['spec_value'] = self.value
        i['spec_key'] = self.key
        i['spec_written'] = self.written

    def normalise(self, eng, st):
        pass

    def piece(self, st, what):
        A = st.fresh(what)
        st.rng[('x', 'len', 64, A)] = (1, BIG)
        return A

    def to_string(self, eng, st, c):
        par = split_params(c.params())[-1].strip()
        d = decimal(st, c.a[1], par)
        eng.strings.put(eng, st, c.a[0], tuple(b'%d' % d[3]) if isinstance(d[3], int) else (d,))

    def before(self, eng, st, c):
        k = choose(st, 3)
        A = self.piece(st, 'pre')
        # texts that look like a list
        st.mon['J'] = ('J',) + ((), (A,), (A, ord(',')))[k]
        eng.strings.put(eng, st, c.a[0], st.mon['J'][1:])

    def append(self, eng, st, s, v):
        eng.strings.put(eng, st, s, flat(eng.strings.get(eng, st, s)) + v)

    def value(self, eng, st, c):
        n = 'value%d' % c.a[1]
        if n not in st.mon:
            # a JSON value: it ends with a bracket, a quote, a letter or a digit
            k = choose(st, 3)
            P = self.piece(st, 'value')
            b, e = ('[]', '{}', '""')[c.a[1] % 3]
            st.mon[n] = (n,) + ((), (ord(b), P, ord(e)), (P, ord('e')))[k]
        self.append(eng, st, c.a[0], st.mon[n][1:])

    def key(self, eng, st, c):
        n = 'key%d' % c.a[1]
        if n not in st.mon:
            # the first key has unusual texts, too
            k = choose(st, 3 if c.a[1] else 7)
            P = self.piece(st, 'key')
            st.mon[n] = (n,) + ((ord('7'),), (ord('1'), P, ord('2')), (34, P, 34), (34, P, 55), (55, P, 34), (34,), ())[k]
        self.append(eng, st, c.a[0], st.mon[n][1:])

    def written(self, eng, st, c):
        eng.obl += 1
        s, kind, n = c.a
        got = flat(eng.strings.get(eng, st, s))
        val = lambda i: st.mon['value%d' % i][1:]
        T = lambda t: tuple(t.encode())
        join = lambda xs: tuple(y for i, x in enumerate(xs) for y in (((44,) if i else ()) + x))
        pre = st.mon.get('J', ('J',))[1:]
        name = lambda i: (T('"a"'), T('"k\\"1"'), T('"c"'))[i]
        for i in range(n if kind not in (6, 7, 9) else 0):
            if 'value%d' % i not in st.mon:
                eng.bad(st, 'specification', 'element %d is not written' % i)
        def key(i):
            if 'key%d' % i not in st.mon:
                eng.bad(st, 'specification', 'key %d is not written' % i)
            k = st.mon['key%d' % i][1:]
            return k if len(k) > 1 and k[0] == k[-1] == 34 else (34,) + k + (34,)
        if kind == 0:
            want = val(0) if n else ()
        elif kind == 1:
            if all(val(i) for i in range(n)):
                want = T('[') + join([val(i) for i in range(n)]) + T(']')
            else:
                want = T('{') + join([T('"%d":' % i) + val(i) for i in range(n) if val(i)]) + T('}')
        elif kind == 2:
            want = T('[') + join([val(i) for i in range(n) if val(i)]) + T(']')
        elif kind == 3:
            want = T('{') + join([key(i) + T(':') + val(i) for i in range(n) if val(i)]) + T('}')
        elif kind == 9:
            want = key(0)
        elif kind in (4, 5, 6, 8):
            pairs = [name(i) + T(':') + val(i) for i in range(n) if val(i)] if kind != 6 else []
            if kind in (5, 6):
                pairs.insert(0, T('"id":"A"' if kind == 5 else '"id":"BB"'))
            want = T('{') + join(pairs) + T('}')
        else:
            want = ()
        want = pre + want
        if got != want:
            eng.bad(st, 'specification', 'the text is %s instead of %s' % (show(got), show(want)))
        self.site('written %d %s' % (kind, n))
        for k in list(st.mon):
            if k in ('J', 'choice') or k[:-1] in ('value', 'key'):
                del st.mon[k]


def run(m, entry):
    eng = Engine(m)
    install_vf(eng)
    eng.max_pieces = 64
    eng.client = JsonOut(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
