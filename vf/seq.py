"""Abstract sequences: model of std::queue / std::deque over an alphabet of
symbolic elements.  A sequence is a tuple of items; an item is a pointer to an
element object ('p', id, 0) or a blob ('blob', sym) that stands for one or more
unknown elements (its length is a symbolic word >= 1)."""
import re
from .absint import *


def is_blob(x):
    return isinstance(x, tuple) and x and x[0] == 'blob'


def new_elem(st, v, size=8):
    p = st.alloc('elem', None, None, 'queue element')
    st.mem[p[1]].cells[0] = (size, v)
    return p


def clone_elem(eng, st, it):
    o = eng.obj(st, it, 'copy')
    if o.sh.get(0, ('',))[0] == 'str':
        p = st.alloc('elem', None, None, 'queue element')
        st.mem[p[1]].sh[0] = o.sh[0]
        return p
    return new_elem(st, eng.load(st, it, 8))


def values(eng, st, items):
    out = []
    for it in items:
        out.append(it if is_blob(it) else eng.load(st, it, 8))
    return tuple(out)


def length(eng, st, seq):
    n = 0
    for it in seq:
        if is_blob(it):
            l = ('x', 'len', 64, it[1])
            st.rng.setdefault(l, (1, 1 << 40))
            n = addt(n, l)
        else:
            n = addt(n, 1)
    return n


def materialise(eng, st, blob, front=True):
    """Forks on blob == [t] or [t, B'] (or [B', t])."""
    out = []
    for more in (0, 1):
        s = st if more else st.copy()
        v = s.fresh('v')
        repl = [v]
        if more:
            nb = ('blob', s.fresh('B'))
            repl = [v, nb] if front else [nb, v]
        l = ('x', 'len', 64, blob[1])
        if not more:
            ok = eng.assume(s, eng.eqt(s, l, 1), 1) if True else True
        else:
            ok = True
            t = eng.eqt(s, l, 1)
            if t == 1:
                ok = False
            elif not isinstance(t, int):
                ok = eng.assume(s, t, 0)
            s.rng[('x', 'len', 64, nb[1])] = (1, 1 << 40)
            # len(B) = len(B') + 1 in all terms
        if not ok:
            continue

        def fix(seq, mk):
            r = []
            for it in seq:
                if it == blob:
                    for x in repl:
                        r.append(x if is_blob(x) else mk(x))
                else:
                    r.append(it)
            return tuple(r)
        for o in list(s.mem.values()):
            for k, d in list(o.sh.items()):
                if isinstance(d, tuple) and d and d[0] == 'deque':
                    o.sh[k] = ('deque', fix(d[1], lambda x: new_elem(s, x)))
                    if s.mem is not None:
                        pass
        for k, d in list(s.mon.items()):
            if isinstance(d, tuple) and d and d[0] == 'spec':
                s.mon[k] = ('spec', fix(d[1], lambda x: x))
        if more:
            nl = ('x', 'len', 64, nb[1])
            replace_term(s, l, addt(nl, 1))
            for d in (s.facts, s.rng):
                for k in [k for k in d if k != nl and syms_in(k) == {nb[1]}]:
                    del d[k]
        else:
            replace_term(s, l, 1)
        out.append(s)
    raise Fork(out)


def replace_term(st, x, y):
    subst(st, x, y)


class DequeModel:
    """std::queue and std::deque."""

    def __init__(self, eng):
        m = eng.models
        for C in ('queue', 'deque'):
            p = 'std::%s::' % C
            m[p + C] = self.ctor
            m[p + '~' + C] = self.dtor
            m[p + 'operator='] = self.assign
            m[p + 'push'] = m[p + 'push_back'] = m[p + 'emplace'] = m[p + 'emplace_back'] = self.push
            m[p + 'pop'] = m[p + 'pop_front'] = self.pop
            m[p + 'pop_back'] = self.pop_back
            m[p + 'front'] = self.front
            m[p + 'back'] = self.back
            m[p + 'empty'] = self.empty
            m[p + 'size'] = self.size
            m[p + 'swap'] = self.swap
        m['std::operator=='] = self.eq
        m['std::operator!='] = self.ne
        m['std::operator<'] = self.lt
        m['std::operator>'] = self.gt
        m['std::operator<='] = self.le
        m['std::operator>='] = self.ge

    def get(self, eng, st, p):
        return eng.shadow(st, p, 'deque')[1]

    def put(self, eng, st, p, items):
        eng.set_shadow(st, p, ('deque', tuple(items)))

    def copy_items(self, eng, st, items):
        return [it if is_blob(it) else clone_elem(eng, st, it) for it in items]

    def drop(self, st, items):
        for it in items:
            if not is_blob(it):
                o = st.mem.get(it[1])
                if o:
                    o.alive = False

    def ctor(self, eng, st, c):
        par = c.params()
        o = eng.obj(st, c.a[0], 'construction')
        if len(c.a) == 1 or par == '':
            self.put(eng, st, c.a[0], ())
            return None
        src = self.get(eng, st, c.a[1])
        if '&&' in par:
            self.put(eng, st, c.a[0], src)
            self.put(eng, st, c.a[1], ())
        else:
            self.put(eng, st, c.a[0], self.copy_items(eng, st, src))
        return None

    def dtor(self, eng, st, c):
        d = eng.shadow(st, c.a[0], 'deque', 'destruction')
        self.drop(st, d[1])
        eng.set_shadow(st, c.a[0], None)
        return None

    def assign(self, eng, st, c):
        src = self.get(eng, st, c.a[1])
        old = self.get(eng, st, c.a[0])
        if c.a[0] == c.a[1]:
            return c.a[0]
        self.drop(st, old)
        if '&&' in c.params():
            self.put(eng, st, c.a[0], src)
            self.put(eng, st, c.a[1], ())
        else:
            self.put(eng, st, c.a[0], self.copy_items(eng, st, src))
        return c.a[0]

    def push(self, eng, st, c):
        eng.site(st, 'queue-op')
        it = self.make(eng, st, c)
        self.put(eng, st, c.a[0], self.get(eng, st, c.a[0]) + (it,))
        if c.ins['ty'] != 'v':
            return it
        return None

    def make(self, eng, st, c):
        if re.match(r'[^(]*(queue|deque|vector|list)<std::__cxx11::basic_string', c.fn.dem):
            par = c.params()
            if len(c.a) == 3 and '__normal_iterator' in par:
                v = ('str', eng.strings.iter_range(eng, st, eng.load(st, c.a[1], 8), eng.load(st, c.a[2], 8)))
            elif len(c.a) == 4 and 'unsigned long' in par:
                t, x, n = eng.strings.get(eng, st, c.a[1]), eng.load(st, c.a[2], 8), eng.load(st, c.a[3], 8)
                q = eng.strings.part(eng, st, t, x, n)
                v = ('str', t[q[0]:q[1]] if q else (('x', 'substr', 64, t, x, n),))
            elif par.startswith('std::__cxx11::basic_string') or par.startswith('std::__cxx11::basic_string') is False and 'basic_string' in par:
                v = eng.shadow(st, c.a[1], 'str')
                if '&&' in par:
                    eng.set_shadow(st, c.a[1], ('str', ()))
            else:
                v = ('str', eng.strings.cstr(eng, st, c.a[1]))
            p = st.alloc('elem', None, None, 'queue element')
            st.mem[p[1]].sh[0] = v
            return p
        return new_elem(st, eng.load(st, c.a[1], 8))

    def head(self, eng, st, p, what, front=True):
        items = self.get(eng, st, p)
        if not items:
            eng.bad(st, 'container-misuse', '%s of an empty container' % what)
        it = items[0 if front else -1]
        if is_blob(it):
            materialise(eng, st, it, front)
        return items, it

    def pop(self, eng, st, c):
        eng.site(st, 'queue-op')
        items, it = self.head(eng, st, c.a[0], 'pop')
        self.put(eng, st, c.a[0], items[1:])
        self.drop(st, [it])
        return None

    def pop_back(self, eng, st, c):
        items, it = self.head(eng, st, c.a[0], 'pop_back', False)
        self.put(eng, st, c.a[0], items[:-1])
        self.drop(st, [it])
        return None

    def front(self, eng, st, c):
        eng.site(st, 'queue-op')
        return self.head(eng, st, c.a[0], 'front')[1]

    def back(self, eng, st, c):
        eng.site(st, 'queue-op')
        return self.head(eng, st, c.a[0], 'back', False)[1]

    def empty(self, eng, st, c):
        return int(not self.get(eng, st, c.a[0]))

    def size(self, eng, st, c):
        return length(eng, st, self.get(eng, st, c.a[0]))

    def swap(self, eng, st, c):
        a, b = self.get(eng, st, c.a[0]), self.get(eng, st, c.a[1])
        self.put(eng, st, c.a[0], b)
        self.put(eng, st, c.a[1], a)
        return None

    def two(self, eng, st, c):
        try:
            if not is_ptr(c.a[0]) or not is_ptr(c.a[1]):
                return None
            a = st.mem[c.a[0][1]].sh.get(c.a[0][2])
            b = st.mem[c.a[1][1]].sh.get(c.a[1][2])
        except KeyError:
            return None
        if 'queue<' not in c.fn.dem and 'deque<' not in c.fn.dem:
            return None
        return values(eng, st, self.get(eng, st, c.a[0])), values(eng, st, self.get(eng, st, c.a[1]))

    def eq(self, eng, st, c):
        t = self.two(eng, st, c)
        return PASS if t is None else seq_eq(eng, st, *t)

    def ne(self, eng, st, c):
        t = self.two(eng, st, c)
        return PASS if t is None else notb(seq_eq(eng, st, *t))

    def lt(self, eng, st, c):
        t = self.two(eng, st, c)
        return PASS if t is None else seq_lt(eng, st, *t)

    def gt(self, eng, st, c):
        t = self.two(eng, st, c)
        return PASS if t is None else seq_lt(eng, st, t[1], t[0])

    def le(self, eng, st, c):
        t = self.two(eng, st, c)
        return PASS if t is None else notb(seq_lt(eng, st, t[1], t[0]))

    def ge(self, eng, st, c):
        t = self.two(eng, st, c)
        return PASS if t is None else notb(seq_lt(eng, st, t[0], t[1]))


def fix_values(st, s):
    return s


def seq_eq(eng, st, a, b):
    la, lb = length(eng, st, a), length(eng, st, b)
    t = eng.eqt(st, la, lb)
    if not isinstance(t, int):
        t = eng.truth(st, t)
    if t == 0:
        return 0
    a, b = list(a), list(b)
    while a and b:
        if a[0] == b[0]:
            a.pop(0)
            b.pop(0)
            continue
        if a[-1] == b[-1]:
            a.pop()
            b.pop()
            continue
        done = True
        for i in (0, -1):
            if not is_blob(a[i]) and not is_blob(b[i]):
                e = eng.eqt(st, a[i], b[i])
                if not eng.branch(st, e):
                    return 0
                a.pop(i)
                b.pop(i)
                done = False
                break
        if not done:
            continue
        if is_blob(a[0]) and is_blob(b[0]) and is_blob(a[-1]) and is_blob(b[-1]) or len(a) > 1 and len(b) > 1 and False:
            return ('x', 'seqeq', 1) + tuple(sorted([tuple(a), tuple(b)], key=repr))
        x = a[0] if is_blob(a[0]) else (b[0] if is_blob(b[0]) else a[-1])
        materialise(eng, st, x)
    return int(not a and not b)


def seq_lt(eng, st, a, b):
    a, b = list(a), list(b)
    while a and b:
        if a[0] == b[0]:
            a.pop(0)
            b.pop(0)
            continue
        if is_blob(a[0]) and is_blob(b[0]):
            return ('x', 'seqlt', 1, tuple(a), tuple(b))
        if is_blob(a[0]):
            materialise(eng, st, a[0])
        if is_blob(b[0]):
            materialise(eng, st, b[0])
        e = eng.eqt(st, a[0], b[0])
        if eng.branch(st, e):
            a.pop(0)
            b.pop(0)
            continue
        return eng.icmp(st, 'ult', a[0], b[0], 64)
    return int(not a and bool(b))


def fold(eng, st, keep=1, limit=3):
    """Abstracts the middle of long sequences by a blob, in the specification
    and in every container that holds the same run of elements."""
    for k in sorted(st.mon):
        d = st.mon[k]
        if not (isinstance(d, tuple) and d and d[0] == 'spec'):
            continue
        q = d[1]
        lo = 0 if q and is_blob(q[0]) else keep
        hi = len(q) if q and is_blob(q[-1]) else len(q) - keep
        run = q[lo:hi]
        if len(run) < 2 or len(q) <= limit and not any(is_blob(x) for x in run):
            continue
        nb = ('blob', st.fresh('B'))
        st.rng[('x', 'len', 64, nb[1])] = (1, 1 << 40)
        cnt = 0
        for o in st.mem.values():
            for off, sd in list(o.sh.items()):
                if isinstance(sd, tuple) and sd and sd[0] == 'deque':
                    vals = tuple(it if is_blob(it) else st.mem[it[1]].cells[0][1] for it in sd[1])
                    r = find_run(vals, run)
                    if r is not None:
                        for it in sd[1][r:r + len(run)]:
                            if not is_blob(it):
                                st.mem[it[1]].alive = False
                        o.sh[off] = ('deque', sd[1][:r] + (nb,) + sd[1][r + len(run):])
                        cnt += 1
        if not cnt:
            continue
        for k2 in sorted(st.mon):
            d2 = st.mon[k2]
            if isinstance(d2, tuple) and d2 and d2[0] == 'spec':
                r = find_run(d2[1], run)
                if r is not None:
                    st.mon[k2] = ('spec', d2[1][:r] + (nb,) + d2[1][r + len(run):])


def find_run(seq, run):
    for i in range(len(seq) - len(run) + 1):
        if seq[i:i + len(run)] == run:
            return i
    return None
