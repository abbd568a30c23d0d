"""Multidimensional arrays: the address of each element as a polynomial.

The address of the element with the indices i1..in of an array with the
dimensions d1..dn is computed in polynomial normal form.  It must be a mixed
radix representation (in any order of the dimensions) of the indices, and the
size of the allocation must be the product of the dimensions: then different
elements do not overlap and every element lies in the allocation, whatever the
dimensions are."""
import itertools
from .absint import *
from .common import install_vf


class MArray:
    def normalise(self, eng, st):
        pass


def run(m, entry):
    eng = Engine(m)
    install_vf(eng)
    eng.client = MArray()
    eng.WIDEN_AFTER = 100

    def elem(eng, st, c):
        p, es, n = c.a[:3]
        ix = [c.a[3 + 2 * k] for k in range(n)]
        dim = [c.a[4 + 2 * k] for k in range(n)]
        eng.obl += 2
        eng.sites.setdefault('element', set()).add('%d dimensions, %d bytes' % (n, es))
        if not is_ptr(p):
            eng.bad(st, 'out-of-bounds', 'the reference to an element does not point into an array')
        o = st.mem[p[1]]
        if o.kind != 'heap' or not o.alive:
            eng.bad(st, 'out-of-bounds', 'the reference to an element does not point into an allocated array')
        vol = es
        for d in dim:
            vol = eng.binop(st, 'mul', 64, vol, d)
        if o.size != vol:
            eng.bad(st, 'out-of-bounds', 'the allocation does not have the size of the product of the dimensions: %s' % (show(o.size),))
        for perm in itertools.permutations(range(n)):
            t = 0
            for k in perm:
                t = eng.binop(st, 'add', 64, eng.binop(st, 'mul', 64, t, dim[k]), ix[k])
            t = eng.binop(st, 'mul', 64, t, es)
            if eng.binop(st, 'sub', 64, t, p[2]) == 0:
                # all elements of an array use the same layout
                lay = st.mon.get(('layout', p[1]))
                if lay is not None and lay != perm:
                    eng.bad(st, 'specification', 'the elements of an array overlap (different layouts)')
                st.mon[('layout', p[1])] = perm
                return None
        eng.bad(st, 'specification', 'the address of an element is not a mixed radix number of its indices: %s' % (show(p[2]),))
    eng.intr['vf_elem'] = elem
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng


def show(t):
    if isinstance(t, tuple):
        if t[0] == 's':
            return t[1]
        if t[0] == 'x' and t[1] in ('prod', 'mul'):
            return show(t[3]) + '*' + show(t[4])
        if t[0] == 'x' and t[1] == 'add':
            return show(t[3]) + ' + ' + show(t[4])
        if t[0] == 'x':
            return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[3:]))
    return str(t)
