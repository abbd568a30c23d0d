"""IntrusiveConnection against the request/response protocol."""
import os
from . import ir
from .absint import *
from .common import *
from .seq import DequeModel
from .strmodel import *
from .concur import Concurrency


class StreamModel:
    """std::stringstream used as a source of delimited pieces."""

    def __init__(self, eng):
        m = eng.models
        for C in ('basic_stringstream', 'basic_istringstream'):
            p = 'std::__cxx11::%s::' % C
            m[p + C] = self.ctor
            m[p + '~' + C] = lambda e, st, c: e.obj(st, c.a[0], 'destruction').sh.pop(-20, None) and None
        m['std::getline'] = self.getline
        m['std::basic_ios::eof'] = lambda e, st, c: self.state(st, c.a[0])[1] & 1
        m['std::basic_ios::fail'] = m['std::basic_ios::operator!'] = lambda e, st, c: int(self.state(st, c.a[0])[1] & 2 != 0)
        m['std::basic_ios::operator bool'] = lambda e, st, c: int(self.state(st, c.a[0])[1] & 2 == 0)
        m['std::basic_ios::good'] = lambda e, st, c: int(self.state(st, c.a[0])[1] == 0)
        self.eng = eng

    def state(self, st, p):
        o = self.eng.obj(st, p, 'use of a stream')
        d = o.sh.get(-20)
        if d is None:
            self.eng.bad(st, 'uninitialised', 'use of a stream that was not constructed')
        return d[1], d[2]

    def ctor(self, eng, st, c):
        o = eng.obj(st, c.a[0], 'construction')
        par = c.params()
        v = eng.strings.get(eng, st, c.a[1]) if 'basic_string' in par else ()
        o.sh[-20] = ('stream', v, 0)
        vt = st.alloc('extern', None, None, 'stream vtable')
        vo = st.mem[vt[1]]
        vo.cells[0] = (8, 128)
        o.cells[c.a[0][2]] = (8, ('p', vt[1], 24))
        return None

    def getline(self, eng, st, c):
        p = c.a[0]
        v, fl = self.state(st, p)
        o = st.mem[p[1]]
        S = eng.strings
        if fl:
            o.sh[-20] = ('stream', v, fl | 2)
            return p
        d = charpiece(c.a[2]) if len(c.a) > 2 else 10
        out = ()
        i = 0
        while i < len(v):
            t = same_char(eng, st, v[i], d)
            if t == 1:
                break
            if t is None:
                eng.bad(st, 'specification', 'the text is split at a character other than the delimiter')
            out += (v[i],)
            i += 1
        if i < len(v):
            rest, nf = v[i + 1:], 0
        else:
            rest, nf = (), 1 | (2 if not v else 0)
        S.put(eng, st, c.a[1], out)
        o.sh[-20] = ('stream', rest, nf)
        return p


def same_char(eng, st, x, d):
    """1 / 0 / None: is the piece the character d; pieces that are symbols are
    free of delimiters."""
    if not is_char(x):
        return 0
    if x == d:
        return 1
    if isinstance(x, int) and isinstance(d, int):
        return 0
    a = x if isinstance(x, int) else x[1]
    b = d if isinstance(d, int) else d[1]
    t = eng.eqt(st, a, b, 8)
    t = eng.truth(st, t)
    if t is None:
        t = eng.branch(st, eng.eqt(st, a, b, 8))
    return t


class Conn:
    """Ghost state: pend = requests of the current message not yet responded to,
    handed = response the server owes, gone = the server gave up, closed."""
    PIECES = 3
    CHARS = 0       # 0: requests are texts of any length, else number of characters
    same_char = staticmethod(same_char)

    def text(self, s, d):
        if not self.CHARS:
            x = s.fresh('req')
            s.facts[('x', 'empty', 1, x)] = 0
            return (x,)
        v = ()
        for _ in range(self.CHARS):
            x = s.fresh('char', 8)
            self.eng.assume(s, self.eng.eqt(s, x, d if isinstance(d, int) else d[1], 8), 0)
            v += (('ch', x),)
        return v

    def __init__(self, eng):
        self.eng = eng
        DequeModel(eng)
        StringModel(eng)
        StreamModel(eng)
        Concurrency(eng, self)
        i = eng.intr
        sites = lambda w: eng.sites.setdefault('protocol', set()).add(w)
        S = eng.strings

        def g(st, c):
            return st.mon.get('c%d' % c.a[0], ('conn', (), None, 0, 0, None))

        def put(st, c, v):
            st.mon['c%d' % c.a[0]] = v

        def message(eng, st, c):
            d = charpiece(c.a[2])
            out = []
            for n in range(self.PIECES + 1):
                for tail in (0, 1):
                    for empty in range(1 << n) if n < 3 else (0, 2):
                        s = st.copy()
                        v = ()
                        reqs = ()
                        for k in range(n):
                            if not empty >> k & 1:
                                x = self.text(s, d)
                                v += x
                                reqs += (x,)
                            else:
                                reqs += ((),)
                            v += (d,)
                        if tail:
                            x = self.text(s, d)
                            v += x
                            reqs += (x,)
                        S.put(eng, s, c.a[1], v)
                        q = g(s, c)
                        put(s, c, ('conn', reqs, None, q[3], q[4], d))
                        out.append((s, None))
            eng.outcomes(out)

        def request(eng, st, c):
            _, pend, handed, gone, closed, d = g(st, c)
            eng.obl += 1
            sites('request reaches the server')
            got = S.get(eng, st, c.a[1])
            if not pend or handed is not None:
                eng.bad(st, 'specification', 'the server receives a request that is not pending')
            if gone:
                eng.bad(st, 'specification', 'a request is delivered after the server gave the connection up')
            if got != pend[0]:
                eng.bad(st, 'specification', 'the server receives something else than the oldest pending request')
            a = st.fresh('answer')
            S.put(eng, st, c.a[2], (a,))
            put(st, c, ('conn', pend, a, gone, closed, d))

        def send(eng, st, c):
            _, pend, handed, gone, closed, d = g(st, c)
            eng.obl += 1
            sites('response sent')
            v = S.get(eng, st, c.a[1])
            if closed:
                eng.bad(st, 'specification', 'something is sent after the socket was closed')
            if not pend:
                eng.bad(st, 'specification', 'a response without a pending request')
            if handed is not None:
                if v != (handed, d):
                    eng.bad(st, 'specification', 'the response differs from what the server answered followed by the delimiter: ' + show(v))
            else:
                if v != tuple(b'REJECT') + (d,):
                    eng.bad(st, 'specification', 'an unanswered request gets a response that is not REJECT and the delimiter: ' + show(v))
                if not gone:
                    eng.bad(st, 'specification', 'a request is rejected although the server did not give the connection up')
            put(st, c, ('conn', pend[1:], None, gone, closed, d))

        def delivered(eng, st, c):
            _, pend, handed, gone, closed, d = g(st, c)
            eng.obl += 1
            sites('message handled')
            if pend:
                eng.bad(st, 'specification', 'a request gets no response')

        def gone(eng, st, c):
            q = g(st, c)
            put(st, c, q[:3] + (1,) + q[4:])

        def closed(eng, st, c):
            q = g(st, c)
            put(st, c, q[:4] + (1,) + q[5:])

        def answer(eng, st, c):
            _, pend, handed, gone, closed, d = g(st, c)
            eng.obl += 1
            sites('answer() returns')
            r = c.a[1]
            if r == 0 and not closed:
                eng.bad(st, 'specification', 'answer() fails although the connection is open')
        for n, f in dict(message=message, request=request, send=send, delivered=delivered, gone=gone, closed=closed, answer=answer).items():
            i['spec_' + n] = f


def run(m, entry, pieces, coarse=False, chars=0):
    """Requests are texts of any length; code that looks at single characters is
    analysed with requests of one and two unknown characters."""
    eng = Engine(m)
    install_vf(eng)
    eng.client = Conn(eng)
    eng.client.PIECES = pieces
    eng.client.CHARS = chars
    if chars:
        eng.WIDEN_AFTER = 30
    eng.conc.coarse = coarse
    try:
        eng.run(entry)
    except NeedCharacters:
        if chars:
            raise
        return run(m, entry, pieces, coarse, 2)
    eng.stats['obligations'] = eng.obl
    return eng
