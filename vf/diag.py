"""Diagnostic: formatted messages, order, failure counter, buffers."""
from .absint import *
from .common import *
from .strmodel import *
from .libc import *


class Diag:
    nsw = True
    on_copy = staticmethod(copy_chars)

    def __init__(self, eng, bound):
        self.eng = eng
        StringModel(eng)
        Stdio(eng)
        Printf(eng)
        i = eng.intr
        site = lambda w: eng.sites.setdefault('spec', set()).add(w)

        def cstr(eng, st, c):
            p = st.alloc('extern', None, None, 'string')
            o = st.mem[p[1]]
            o.fill = 'lazy'
            o.sh[-2] = ('chars', (('x', 'text', 64, st.fresh(c_string(eng, st, c.a[0]))), 0))
            return p

        def D(st, k):
            return st.mon['diag%d' % k]

        def make(eng, st, c):
            st.mon['diag%d' % c.a[0]] = ('diag', (), 0)
            st.mon.pop('fmtfail', None)

        def room(eng, st, c):
            n = st.mon.get('ops', ('n', 0))[1]
            st.mon['ops'] = ('n', n + 1)
            return int(n < bound)

        def insert(eng, st, c):
            k, r, kind, code, fmt, pos, a, b = c.a
            site('insert')
            eng.obl += 1
            failed = st.mon.pop('fmtfail', None)
            d = D(st, k)
            if r == U:
                eng.bad(st, 'uninitialised', 'the result of insert() is uninitialised')
            r = eng.branch(st, r)
            if r == int(bool(failed)):
                eng.bad(st, 'specification', 'insert() returns %s although formatting %s' % (('false', 'true')[r], 'failed' if failed else 'succeeded'))
            if failed:
                st.mon['diag%d' % k] = ('diag', d[1], d[2] + 1)
            else:
                cs = eng.strings.cstr
                pf = eng.printf
                f = pf.format(st, fmt, () if b == 0 else (a, b), [['i', 32], 'p'])
                t = cs(eng, st, kind) + tuple(b' C') + (('x', 'dec', 64, 'u64', code),) + tuple(b'(') + (('x', 'dec', 64, 'u64', pos),) + tuple(b'): ') + f
                st.mon['diag%d' % k] = ('diag', d[1] + (t,), d[2])

        def clear(eng, st, c):
            site('clear')
            st.mon['diag%d' % c.a[0]] = ('diag', (), 0)

        def swap(eng, st, c):
            site('swap')
            a, b = st.mon['diag0'], st.mon['diag1']
            st.mon['diag0'], st.mon['diag1'] = b, a

        def size(eng, st, c):
            site('size')
            eng.obl += 3
            d = D(st, c.a[0])
            for v, w, n in zip(c.a[1:], (len(d[1]), int(not d[1]), d[2]), ('size()', 'empty()', 'internal_size()')):
                if v == U:
                    eng.bad(st, 'uninitialised', n + ' is uninitialised')
                if v != w:
                    eng.bad(st, 'specification', '%s is wrong (%s instead of %s)' % (n, pretty(v), w))

        def walk(eng, st, c):
            site('reverse iteration' if c.a[1] else 'iteration')
            if c.a[0] == 2:
                st.mon['walk'] = ('walk', None)
            else:
                l = D(st, c.a[0])[1]
                st.mon['walk'] = ('walk', l[::-1] if c.a[1] else l)

        def elem(eng, st, c):
            eng.obl += 1
            w = st.mon['walk'][1]
            v = eng.strings.cstr(eng, st, c.a[1])
            if w is None:
                st.mon['walk'] = ('walk', (v,))
                return
            if not w:
                eng.bad(st, 'specification', 'the container holds more elements than were inserted')
            if v != w[0]:
                eng.bad(st, 'specification', 'an element is "%s" instead of "%s"' % (show(v), show(w[0])))
            st.mon['walk'] = ('walk', w[1:])

        def end(eng, st, c):
            if st.mon.pop('walk')[1]:
                eng.bad(st, 'specification', 'an inserted element is missing')
        i['vf_cstr'] = cstr
        for n, f in dict(make=make, room=room, insert=insert, clear=clear, swap=swap, size=size, walk=walk, elem=elem, end=end).items():
            i['spec_' + n] = f


def run(m, entry, bound=3):
    eng = Engine(m)
    install_vf(eng)
    eng.client = Diag(eng, bound)
    eng.printf = Printf(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
