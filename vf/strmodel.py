"""Abstract std::string: a tuple of pieces.  A piece is a character code (int),
an unknown character ('ch', term) or a symbol/term standing for an unknown,
possibly empty, character sequence."""
from .absint import *

B = 'std::__cxx11::basic_string::'
MAXP = 24
NUL_FREE = ('cstr', 'dec', 'fmt', 'strerror', 'text', 'cut', 'ntoa')     # pieces without a null character


def norm(eng, st, pieces):
    pieces = tuple(pieces)
    if len(pieces) > eng.__dict__.get('max_pieces', MAXP):
        h = getattr(eng.client, 'widen_string', None)
        if h:
            return h(eng, st, pieces)
        return (st.fresh('str'),)
    return pieces


def charpiece(v):
    return v & 255 if isinstance(v, int) else ('ch', v)


def is_char(p):
    return isinstance(p, int) or isinstance(p, tuple) and p[0] == 'ch'


class NeedCharacters(Exception):
    """Characters of a text that is known as pieces are used."""


class StringModel:
    def __init__(self, eng):
        m = eng.models
        eng.strings = self
        m[B + 'basic_string'] = self.ctor
        m[B + '~basic_string'] = self.dtor
        m[B + 'operator='] = m[B + 'assign'] = self.assign
        m[B + 'operator+='] = m[B + 'append'] = self.append
        m[B + 'push_back'] = self.push_back
        m[B + 'clear'] = self.clear
        m[B + 'empty'] = self.empty
        m[B + 'size'] = m[B + 'length'] = self.size
        m[B + 'c_str'] = m[B + 'data'] = self.data
        m[B + 'reserve'] = lambda eng, st, c: None
        m[B + 'swap'] = self.swap
        m[B + 'find'] = m[B + 'find_first_of'] = self.find
        m[B + 'substr'] = self.m_substr
        m[B + 'erase'] = self.erase
        m[B + 'begin'] = m[B + 'cbegin'] = lambda eng, st, c: self.place(eng, st, c, 0)
        m[B + 'end'] = m[B + 'cend'] = lambda eng, st, c: self.place(eng, st, c, None)
        m[B + 'operator[]'] = m[B + 'at'] = lambda eng, st, c: self.place(eng, st, c, c.a[1])
        m[B + 'front'] = lambda eng, st, c: self.place(eng, st, c, 0)
        m[B + 'back'] = lambda eng, st, c: self.place(eng, st, c, -1)
        m['std::operator+'] = self.plus
        m['std::to_string'] = m['std::__cxx11::to_string'] = self.to_string
        self.chain = {k: m.get(k) for k in ('std::operator==', 'std::operator!=')}
        m['std::operator=='] = self.eq
        m['std::operator!='] = self.ne

    # access -------------------------------------------------------------
    def get(self, eng, st, p):
        return eng.shadow(st, p, 'str')[1]

    def put(self, eng, st, p, pieces):
        eng.set_shadow(st, p, ('str', norm(eng, st, pieces)))

    def view(self, eng, st, p, par):
        """Pieces denoted by an argument of type string or const char *."""
        if is_ptr(p):
            o = st.mem.get(p[1])
            if o is not None and isinstance(p[2], int):
                d = o.sh.get(p[2])
                if d and d[0] == 'str' and 'basic_string' in par:
                    if o.alive is not True:
                        eng.obj(st, p, 'use of a string')
                    return d[1]
        return self.cstr(eng, st, p)

    def cstr(self, eng, st, p):
        if p == 0:
            eng.bad(st, 'null-deref', 'a string is made from a null pointer')
        if is_ptr(p):
            o = eng.obj(st, p, 'read')
            d = o.sh.get(-2)
            if d and p[2] == 0:
                out = []
                for x in d[1]:
                    if x == 0:
                        break
                    out.append(x if is_char(x) or x[0] == 'x' and x[1] in NUL_FREE else ('x', 'cstr', 64, x))
                else:
                    if o.size is not None:
                        eng.bad(st, 'out-of-bounds', 'a text without a terminator is read')
                return tuple(out)
            s = c_string(eng, st, p)
            if s is not None:
                return tuple(s.encode('latin1'))
        return (('x', 'chars', 64, p),) if is_sym(p) else (st.fresh('chars'),)

    def range(self, eng, st, p, n):
        """Pieces of n bytes at p."""
        if isinstance(n, int) and is_ptr(p):
            s = c_string(eng, st, p)
            if s is not None and len(s) >= n:
                return tuple(s.encode('latin1')[:n])
            if n == 0:
                return ()
        if is_ptr(p):
            o = eng.obj(st, p, 'read')
            d = o.sh.get(-2)
            if d and p[2] == 0:
                l = self.length(eng, st, d[1])
                if eng.eqt(st, l, n) == 1 or isinstance(n, int) and st.rng.get(l) == (n, n):
                    return d[1]
                if len(d[1]) == 1:
                    return (('x', 'prefix', 64, d[1][0], n),)
                if isinstance(n, int) and all(is_char(x) for x in d[1][:n]) and len(d[1]) >= n:
                    return d[1][:n]
        h = getattr(eng.client, 'buffer_range', None)
        if h:
            r = h(eng, st, p, n)
            if r is not None:
                return r
        return (st.fresh('range'),)

    # operations -----------------------------------------------------------
    def ctor(self, eng, st, c):
        par = c.params()
        a = c.a
        eng.obj(st, a[0], 'construction')
        if par == '' or par.startswith('std::allocator<char> const&'):
            v = ()
        elif par.startswith('std::__cxx11::basic_string') and '&&' in par.split(',')[0:8][-1] + par:
            v = self.get(eng, st, a[1])
            self.put(eng, st, a[1], ())
        elif par.startswith('std::__cxx11::basic_string'):
            v = self.get(eng, st, a[1])
            if len(a) >= 4 and hasattr(eng.client, 'same_char') and 'unsigned long' in par:
                q = self.part(eng, st, v, a[2], a[3])
                v = v[q[0]:q[1]] if q else (('x', 'substr', 64, v, a[2], a[3]),)
            elif len(a) >= 4:
                v = self.substr(eng, st, v, a[2], a[3])
        elif par.startswith('char const*') and 'unsigned long' in par:
            v = self.range(eng, st, a[1], a[2])
        elif par.startswith('char const*, char const*') or par.startswith('char*, char*') or '__normal_iterator' in par:
            v = self.iter_range(eng, st, a[1], a[2])
        elif par.startswith('char const*'):
            v = self.cstr(eng, st, a[1])
        elif par.startswith('unsigned long, char'):
            if isinstance(a[1], int) and a[1] < 64:
                v = (charpiece(a[2]),) * a[1]
            else:
                v = (('x', 'rep', 64, a[1], a[2] if not isinstance(a[2], int) else a[2] & 255),)
        elif par.startswith('std::initializer_list<char>'):
            n = a[2]
            v = tuple(charpiece(eng.load(st, eng.padd(st, a[1], i), 1)) for i in range(n)) if isinstance(n, int) else (st.fresh('init'),)
        else:
            v = (st.fresh('string'),)
        self.put(eng, st, a[0], v)
        return None

    def iter_range(self, eng, st, b, e):
        if b == e:
            return ()
        if is_ptr(b) and is_ptr(e) and b[1] == e[1] and isinstance(b[2], int):
            d = eng.obj(st, b, 'read').sh.get(-2)
            if d and isinstance(e[2], int) and all(is_char(x) for x in d[1]) and 0 <= b[2] <= e[2] <= len(d[1]):
                return d[1][b[2]:e[2]]
            if d and b[2] == 0:
                return self.range(eng, st, b, e[2])
        h = getattr(eng.client, 'iter_range', None)
        if h:
            r = h(eng, st, b, e)
            if r is not None:
                return r
        return (st.fresh('range'),)

    def substr(self, eng, st, v, pos, n):
        if isinstance(pos, int) and all(is_char(x) for x in v) and isinstance(n, int):
            return v[pos:pos + n]
        return (('x', 'substr', 64, v, pos, n),)

    def dtor(self, eng, st, c):
        eng.shadow(st, c.a[0], 'str', 'destruction')
        eng.set_shadow(st, c.a[0], None)
        return None

    def arg(self, eng, st, c, k=1):
        par = c.params()
        a = c.a
        if par.startswith('std::__cxx11::basic_string'):
            return self.get(eng, st, a[k])
        if par.startswith('char const*'):
            if len(a) > k + 1 and 'unsigned long' in par:
                return self.range(eng, st, a[k], a[k + 1])
            return self.cstr(eng, st, a[k])
        if par.startswith('unsigned long, char'):
            if isinstance(a[k], int) and a[k] < 64:
                return (charpiece(a[k + 1]),) * a[k]
            return (('x', 'rep', 64, a[k], a[k + 1]),)
        if par == 'char':
            return (charpiece(a[k]),)
        if par == 'std::basic_string_view<char, std::char_traits<char> >' or par.startswith('std::basic_string_view<char') and ',' not in par.split('>', 2)[-1]:
            if len(a) == k + 2:
                return self.range(eng, st, a[k + 1], a[k])
            return self.range(eng, st, eng.load(st, eng.padd(st, a[k], 8), 8), eng.load(st, a[k], 8))
        if '__normal_iterator' in par or par.startswith('char*'):
            return self.iter_range(eng, st, a[k], a[k + 1])
        return (st.fresh('string'),)

    def assign(self, eng, st, c):
        eng.shadow(st, c.a[0], 'str', 'assignment')
        v = self.arg(eng, st, c)
        if '&&' in c.params() and c.a[0] != c.a[1]:
            self.put(eng, st, c.a[1], ())
        self.put(eng, st, c.a[0], v)
        return c.a[0]

    def append(self, eng, st, c):
        v = self.get(eng, st, c.a[0])
        self.put(eng, st, c.a[0], v + self.arg(eng, st, c))
        return c.a[0]

    def push_back(self, eng, st, c):
        self.put(eng, st, c.a[0], self.get(eng, st, c.a[0]) + (charpiece(c.a[1]),))
        return None

    def clear(self, eng, st, c):
        self.get(eng, st, c.a[0])
        self.put(eng, st, c.a[0], ())
        return None

    def is_empty(self, eng, st, v):
        if any(is_char(x) for x in v):
            return 0
        t = 1
        for x in v:
            e = ('x', 'empty', 1, x)
            e = st.facts.get(e, e)
            if e == 0:
                return 0
            if e != 1:
                t = e if t == 1 else ('x', 'and1', 1, t, e)
        return t

    def empty(self, eng, st, c):
        return self.is_empty(eng, st, self.get(eng, st, c.a[0]))

    def length(self, eng, st, v):
        n = 0
        for x in v:
            if is_char(x):
                n = addt(n, 1)
            elif x[0] == 'x' and x[1] == 'rep':
                n = addt(n, x[3])
            else:
                l = ('x', 'len', 64, x)
                if st.facts.get(('x', 'eq', 1, 0, l)) == 1:
                    continue
                if l not in st.rng:
                    st.rng[l] = (0, 1 << 40)
                if st.facts.get(('x', 'empty', 1, x)) == 0:
                    st.rng[l] = (max(1, st.rng[l][0]), st.rng[l][1])
                n = addt(n, l)
        return n

    def size(self, eng, st, c):
        return self.length(eng, st, self.get(eng, st, c.a[0]))

    def data(self, eng, st, c):
        return self.buffer(eng, st, self.get(eng, st, c.a[0]))

    def buffer(self, eng, st, v):
        p = st.alloc('extern', None, None, 'string contents')
        o = st.mem[p[1]]
        o.fill = 'lazy'
        o.sh[-2] = ('chars', v)
        i = 0
        for x in v:
            if not is_char(x):
                break
            o.cells[i] = (1, x if isinstance(x, int) else x[1])
            i += 1
        else:
            o.cells[i] = (1, 0)
        return p

    # positions -------------------------------------------------------------
    def split(self, eng, st, v, n):
        """The number of pieces in front of position n (None: unknown)."""
        for k in range(len(v) + 1):
            l = self.length(eng, st, v[:k])
            if l == n or eng.eqt(st, l, n) == 1:
                return k
        return None

    def find(self, eng, st, c):
        par = split_params(c.params())
        if par[0] != 'char' or not hasattr(eng.client, 'same_char'):
            return PASS
        v = self.get(eng, st, c.a[0])
        k = self.split(eng, st, v, c.a[2] if len(c.a) > 2 else 0)
        if k is None:
            eng.bad(st, 'analysis', 'find() from an unknown position')
        while k < len(v):
            t = eng.client.same_char(eng, st, v[k], charpiece(c.a[1]))
            if t == 1:
                n = self.length(eng, st, v[:k])
                if not isinstance(n, int):
                    st.rng.setdefault(n, (0, 1 << 44))
                return n
            if t is None:
                eng.bad(st, 'specification', 'the text is searched for a character other than the delimiter')
            k += 1
        return mask(64)

    def part(self, eng, st, v, pos, n):
        """Pieces of the n characters from pos on and where they are."""
        i = self.split(eng, st, v, pos)
        if i is None:
            return None
        j = self.split(eng, st, v, addt(pos, n))
        if j is not None and j >= i:
            return i, j
        e = addt(pos, n)
        if isinstance(n, int) and sgn(n & mask(64), 64) == -1 or isinstance(e, int) and sgn(e & mask(64), 64) == -1 or isinstance(n, int) and n > 1 << 40:
            return i, len(v)
        return None

    def m_substr(self, eng, st, c):
        if not hasattr(eng.client, 'same_char'):
            return PASS
        v = self.get(eng, st, c.a[1])
        q = self.part(eng, st, v, c.a[2], c.a[3])
        self.put(eng, st, c.a[0], v[q[0]:q[1]] if q else (('x', 'substr', 64, v, c.a[2], c.a[3]),))
        return None

    def erase(self, eng, st, c):
        if not hasattr(eng.client, 'same_char') or not c.params().startswith('unsigned long'):
            return PASS
        v = self.get(eng, st, c.a[0])
        q = self.part(eng, st, v, c.a[1], c.a[2])
        if q is None:
            eng.bad(st, 'analysis', 'erase() at an unknown position')
        self.put(eng, st, c.a[0], v[:q[0]] + v[q[1]:])
        return c.a[0]

    def place(self, eng, st, c, n):
        if not hasattr(eng.client, 'same_char'):
            return PASS
        p = c.a[0]
        v = self.get(eng, st, p)
        if not all(is_char(x) for x in v):
            raise NeedCharacters()
        if n is None or n == -1:
            n = len(v) + (n or 0)
        o = st.mem[p[1]]
        key = -1000 - p[2]
        d = o.sh.get(key)
        if not d or d[1] != v:
            d = o.sh[key] = ('buf', v, self.buffer(eng, st, v))
            st.mem[d[2][1]].size = len(v) + 1
        return eng.padd(st, d[2], n)

    def swap(self, eng, st, c):
        a, b = self.get(eng, st, c.a[0]), self.get(eng, st, c.a[1])
        self.put(eng, st, c.a[0], b)
        self.put(eng, st, c.a[1], a)
        return None

    def plus(self, eng, st, c):
        if 'basic_string<char' not in c.fn.dem:
            return PASS
        par = split_params(c.params())
        if len(par) != 2 or len(c.a) != 3:
            return PASS
        v = ()
        for q, a in zip(par, c.a[1:]):
            if q.startswith('char const*'):
                v += self.cstr(eng, st, a)
            elif q == 'char':
                v += (charpiece(a),)
            else:
                v += self.get(eng, st, a)
                if q.endswith('&&'):
                    self.put(eng, st, a, ())
        self.put(eng, st, c.a[0], v)
        return None

    def to_string(self, eng, st, c):
        self.put(eng, st, c.a[0], (('x', 'dec', 64, c.a[1]),))
        return None

    def eqv(self, eng, st, c):
        if 'basic_string<char' not in c.params():
            return None
        par = split_params(c.params())
        v = []
        for q, a in zip(par, c.a):
            v.append(self.get(eng, st, a) if 'basic_string' in q else self.cstr(eng, st, a))
        a, b = v
        if a == b:
            return 1
        if all(isinstance(x, int) for x in a + b):
            return 0
        if len(a) == 0 or len(b) == 0:
            return self.is_empty(eng, st, a or b)
        return ('x', 'streq', 1) + tuple(sorted([a, b], key=repr))

    def eq(self, eng, st, c):
        r = self.eqv(eng, st, c)
        if r is None:
            o = self.chain['std::operator==']
            return o(eng, st, c) if o else PASS
        return r

    def ne(self, eng, st, c):
        r = self.eqv(eng, st, c)
        if r is None:
            o = self.chain['std::operator!=']
            return o(eng, st, c) if o else PASS
        return notb(r)


def split_params(p):
    out, d, cur = [], 0, ''
    for ch in p:
        if ch in '<([':
            d += 1
        elif ch in '>)]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def show(v):
    out = ''
    for x in v:
        if isinstance(x, int):
            out += chr(x) if 32 <= x < 127 else '\\x%02x' % x
        else:
            out += '<%s>' % pretty(x)
    return out
