"""TransparentQueue against an abstract FIFO."""
from . import ir
from .absint import *
from .common import *
from .seq import *


class TQ:
    def __init__(self, eng):
        self.eng = eng
        DequeModel(eng)
        i = eng.intr
        sp = lambda st, k: st.mon['s%d' % k][1]

        def put(st, k, v):
            st.mon['s%d' % k] = ('spec', tuple(v))

        def new(eng, st, c):
            put(st, c.a[0], ())

        def new1(eng, st, c):
            put(st, c.a[0], (c.a[1],))

        def push(eng, st, c):
            put(st, c.a[0], sp(st, c.a[0]) + (c.a[1],))

        def same(eng, st, got, want, what):
            if got == U:
                eng.bad(st, 'specification', '%s is uninitialised' % what)
            t = eng.eqt(st, got, want)
            if t != 1 and not (not isinstance(t, int) and eng.truth(st, t) == 1):
                eng.bad(st, 'specification', '%s is not the expected element' % what)

        def pop(eng, st, c):
            eng.obl += 1
            eng.sites.setdefault('spec', set()).add('pop')
            s = sp(st, c.a[0])
            if not s:
                same(eng, st, c.a[1], 0, 'pop() of an empty queue: the result')
                return None
            if is_blob(s[0]):
                materialise(eng, st, s[0])
            same(eng, st, c.a[1], s[0], 'the result of pop()')
            put(st, c.a[0], s[1:])

        def size(eng, st, c):
            eng.obl += 1
            eng.sites.setdefault('spec', set()).add('size')
            s = sp(st, c.a[0])
            n = length(eng, st, s)
            t = eng.eqt(st, n, c.a[1])
            if t != 1:
                eng.bad(st, 'specification', 'size() differs from the number of elements')
            e = c.a[2]
            if (e if isinstance(e, int) else None) != int(not s):
                eng.bad(st, 'specification', 'empty() is wrong')

        def endp(which):
            def f(eng, st, c):
                eng.obl += 1
                eng.sites.setdefault('spec', set()).add(which)
                s = sp(st, c.a[0])
                it = s[0 if which == 'front' else -1]
                if is_blob(it):
                    materialise(eng, st, it, which == 'front')
                same(eng, st, c.a[1], it, which + '()')
            return f

        def setend(eng, st, c):
            eng.obl += 1
            eng.sites.setdefault('spec', set()).add('write')
            k, v, front = c.a
            s = sp(st, k)
            it = s[0 if front else -1]
            if is_blob(it):
                materialise(eng, st, it, bool(front))
            put(st, k, (v,) + s[1:] if front else s[:-1] + (v,))
        i['spec_set'] = setend

        def nonempty(eng, st, c):
            return int(bool(sp(st, c.a[0])))

        def copy(eng, st, c):
            eng.obl += 1
            eng.sites.setdefault('spec', set()).add('copy')
            put(st, c.a[0], sp(st, c.a[1]))

        def move(eng, st, c):
            eng.obl += 1
            eng.sites.setdefault('spec', set()).add('move')
            put(st, c.a[0], sp(st, c.a[1]))
            put(st, c.a[1], ())

        def swap(eng, st, c):
            eng.obl += 1
            eng.sites.setdefault('spec', set()).add('swap')
            a, b = sp(st, c.a[0]), sp(st, c.a[1])
            put(st, c.a[0], b)
            put(st, c.a[1], a)

        def b(eng, st, v):
            if v == U:
                eng.bad(st, 'specification', 'a comparison result is uninitialised')
            return v

        def eq(eng, st, c):
            eng.obl += 1
            eng.sites.setdefault('spec', set()).add('==')
            w = seq_eq(eng, st, sp(st, c.a[2]), sp(st, c.a[3]))
            agree(eng, st, b(eng, st, c.a[0]), w, 'operator== disagrees with elementwise equality')
            agree(eng, st, notb(b(eng, st, c.a[1])), w, 'operator!= disagrees with elementwise equality')

        def lt(eng, st, c):
            eng.obl += 1
            eng.sites.setdefault('spec', set()).add('<')
            w = seq_lt(eng, st, sp(st, c.a[1]), sp(st, c.a[2]))
            agree(eng, st, b(eng, st, c.a[0]), w, 'an ordering operator disagrees with lexicographical order')

        def agree(eng, st, got, want, msg):
            w = eng.branch(st, want)
            g = eng.branch(st, got)
            if w != g:
                eng.bad(st, 'specification', msg)
        for n, f in dict(new=new, new1=new1, push=push, pop=pop, size=size, front=endp('front'), back=endp('back'),
                         nonempty=nonempty, copy=copy, move=move, swap=swap, eq=eq, lt=lt).items():
            i['spec_' + n] = f

    def normalise(self, eng, st):
        fold(eng, st)


def run(m, entry):
    eng = Engine(m)
    install_vf(eng)
    eng.client = TQ(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
