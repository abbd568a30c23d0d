"""Models of C library functions with errors: errno, stdio streams, C strings
and formatted output."""
import re
from .absint import *
from .strmodel import is_char, charpiece


def fork(eng, st, alts):
    """alts: functions state -> result; ends the call with one outcome each."""
    out = []
    for k, f in enumerate(alts):
        s = st if k == len(alts) - 1 else st.copy()
        out.append((s, f))
    res = []
    for s, f in out:
        try:
            res.append((s, f(s)))
        except Stop:
            pass
    eng.outcomes(res)


class Errno:
    def __init__(self, eng):
        eng.errno = self
        self.eng = eng
        eng.intr['__errno_location'] = self.loc

    def loc(self, eng, st, c):
        st.mem.setdefault('g:errno', Obj('global', 4, None, 'errno')).fill = 'lazy'
        return ('p', 'g:errno', 0)

    def fail(self, st, op):
        e = st.fresh('errno:' + op, 32)
        self.loc(self.eng, st, None)
        st.mem['g:errno'].cells = {0: (4, e)}
        st.mon['fail'] = tuple(x for x in st.mon.get('fail', ()) if x[0] != op) + ((op, e),)
        self.eng.sites.setdefault('failure', set()).add(op)
        return e


class Stdio:
    """FILE objects: o.sh[-30] = ('file', position, eof, error, mode)."""

    def __init__(self, eng):
        self.eng = eng
        eng.stdio = self
        if not hasattr(eng, 'errno'):
            Errno(eng)
        i = eng.intr
        i['fopen'] = i['fopen64'] = self.fopen
        i['fclose'] = self.fclose
        i['fileno'] = lambda e, st, c: self.file(st, c.a[0])[0] and ('x', 'fileno', 32, c.a[0])
        i['fflush'] = self.fflush
        i['ftell'] = self.ftell
        i['fseek'] = self.fseek
        i['rewind'] = lambda e, st, c: self.set(st, c.a[0], pos=0, eof=0, err=0)
        i['fgetc'] = i['getc'] = self.fgetc
        i['fgets'] = self.fgets
        i['fread'] = self.fread
        i['feof'] = lambda e, st, c: self.file(st, c.a[0])[1][2]
        i['ferror'] = lambda e, st, c: self.file(st, c.a[0])[1][3]
        i['clearerr'] = lambda e, st, c: self.set(st, c.a[0], eof=0, err=0)
        i['dup2'] = self.dup2
        i['strerror'] = self.strerror
        i['strlen'] = self.strlen
        i['strcpy'] = self.strcpy
        i['memchr'] = lambda e, st, c: st.fresh('memchr')
        i['tolower'] = lambda e, st, c: ('x', 'tolower', 32, c.a[0])
        i['toupper'] = lambda e, st, c: ('x', 'toupper', 32, c.a[0])

    def file(self, st, p, what='use of a file'):
        o = self.eng.obj(st, p, what)
        d = o.sh.get(-30)
        if d is None:
            self.eng.bad(st, 'invalid-file', '%s that is not an open file' % what)
        return o, d

    def set(self, st, p, pos=None, eof=None, err=None):
        o, d = self.file(st, p)
        o.sh[-30] = ('file', d[1] if pos is None else pos, d[2] if eof is None else eof, d[3] if err is None else err, d[4])

    def newpos(self, s, name='pos'):
        p = s.fresh(name)
        s.rng[p] = (0, 1 << 60)
        return p

    def fopen(self, eng, st, c):
        eng.site(st, 'file-op')
        mode = c_string(eng, st, c.a[1])

        def ok(s):
            p = s.alloc('heap', None, None, 'file opened at ' + site_text(eng, s))
            s.mem[p[1]].sh[-1] = 'fopen'
            s.mem[p[1]].sh[-30] = ('file', self.newpos(s), 0, 0, mode or '?')
            h = getattr(eng.client, 'on_fopen', None)
            if h:
                h(eng, s, p, c, mode)
            return p

        def bad(s):
            self.eng.errno.fail(s, 'fopen')
            return 0
        fork(eng, st, [ok, bad])

    def fclose(self, eng, st, c):
        eng.site(st, 'file-op')
        if c.a[0] == 0:
            eng.bad(st, 'null-deref', 'fclose of a null pointer')
        o, d = self.file(st, c.a[0], 'fclose')
        o.alive = False
        o.cells = {}
        o.sh = {}

        def bad(s):
            eng.errno.fail(s, 'fclose')
            return 0xffffffff
        fork(eng, st, [lambda s: 0, bad])

    def fflush(self, eng, st, c):
        eng.site(st, 'file-op')
        if c.a[0] != 0:
            self.file(st, c.a[0])
        elif getattr(eng.client, 'no_flush_all', False):
            eng.bad(st, 'redirection', 'fflush(NULL) flushes every open file of the program')

        def bad(s):
            eng.errno.fail(s, 'fflush')
            return 0xffffffff
        fork(eng, st, [lambda s: 0, bad])

    def ftell(self, eng, st, c):
        eng.site(st, 'file-op')
        o, d = self.file(st, c.a[0])

        def bad(s):
            eng.errno.fail(s, 'ftell')
            return mask(64)
        fork(eng, st, [lambda s: s.mem[c.a[0][1]].sh[-30][1], bad])

    def fseek(self, eng, st, c):
        eng.site(st, 'file-op')
        o, d = self.file(st, c.a[0])

        def ok(s):
            pos = c.a[1] if c.a[2] == 0 else ('x', 'end', 64, c.a[0]) if c.a[2] == 2 and c.a[1] == 0 else self.newpos(s)
            if isinstance(pos, tuple) and pos[:2] == ('x', 'end'):
                s.rng[pos] = (0, 1 << 60)
            self.set(s, c.a[0], pos=pos, eof=0)
            h = getattr(eng.client, 'on_seek', None)
            if h:
                h(eng, s, c.a[0], pos)
            return 0

        def bad(s):
            eng.errno.fail(s, 'fseek')
            return 0xffffffff
        fork(eng, st, [ok, bad])

    def ends(self, p, op):
        def eof(s):
            self.set(s, p, eof=1)
            h = getattr(self.eng.client, 'on_eof', None)
            if h:
                h(self.eng, s, p)

        def err(s):
            self.eng.errno.fail(s, op)
            self.set(s, p, err=1)
        return eof, err

    def fgetc(self, eng, st, c):
        eng.site(st, 'file-op')
        p = c.a[0]
        self.file(st, p)
        eof, err = self.ends(p, 'fgetc')

        def ok(s):
            self.set(s, p, pos=self.newpos(s))
            ch = s.fresh('char', 32)
            s.rng[ch] = (0, 255)
            return ch
        fork(eng, st, [ok, lambda s: (eof(s), 0xffffffff)[1], lambda s: (err(s), 0xffffffff)[1]])

    def chunk(self, s, p, buf, n, nul):
        ck = s.fresh('chunk')
        o = self.eng.obj(s, buf, 'write')
        if isinstance(o.size, int) and isinstance(n, int) and isinstance(buf[2], int) and buf[2] + n > o.size:
            self.eng.bad(s, 'out-of-bounds', 'reading up to %d bytes into a buffer of %d bytes' % (n, o.size))
        o.cells = {}
        o.fill = 'lazy'
        o.sh[-2] = ('chars', (ck, 0) if nul else (ck,))
        l = ('x', 'len', 64, ck)
        s.rng[l] = (1, 1 << 30)
        s.facts[('x', 'empty', 1, ck)] = 0
        self.set(s, p, pos=self.newpos(s))
        h = getattr(self.eng.client, 'on_read', None)
        if h:
            h(self.eng, s, p, ck)
        return ck, l

    def fgets(self, eng, st, c):
        eng.site(st, 'file-op')
        buf, n, p = c.a[:3]
        self.file(st, p)
        eof, err = self.ends(p, 'fgets')
        fork(eng, st, [lambda s: (self.chunk(s, p, buf, n, True), buf)[1],
                       lambda s: (eof(s), 0)[1], lambda s: (err(s), 0)[1]])

    def fread(self, eng, st, c):
        eng.site(st, 'file-op')
        buf, sz, n, p = c.a[:4]
        self.file(st, p)
        eof, err = self.ends(p, 'fread')
        if sz != 1:
            eng.bad(st, 'specification', 'fread of items of %s bytes' % (sz,))

        # The end of a file and errors persist.
        _, d = self.file(st, p)
        if d[2] == 1:
            return fork(eng, st, [lambda s: (eof(s), 0)[1]])
        if d[3] == 1:
            return fork(eng, st, [lambda s: (err(s), 0)[1]])

        def full(s):
            ck, l = self.chunk(s, p, buf, n, False)
            if isinstance(n, int):
                s.rng[l] = (n, n)
            return n

        def short(end):
            def f(s):
                ck, l = self.chunk(s, p, buf, n, False)
                if isinstance(n, int):
                    s.rng[l] = (1, n - 1)
                end(s)
                return l
            return f
        fork(eng, st, [full, short(eof), short(err), lambda s: (eof(s), 0)[1], lambda s: (err(s), 0)[1]])

    def dup2(self, eng, st, c):
        eng.site(st, 'file-op')
        h = getattr(eng.client, 'on_dup2', None)

        def ok(s):
            if h:
                h(eng, s, c)
            fd = c.a[1]
            if not isinstance(fd, int):
                s.rng[fd] = (0, (1 << 31) - 1)
            return fd

        def bad(s):
            eng.errno.fail(s, 'dup2')
            return 0xffffffff
        fork(eng, st, [ok, bad])

    def strerror(self, eng, st, c):
        p = st.alloc('extern', None, None, 'strerror text')
        o = st.mem[p[1]]
        o.fill = 'lazy'
        o.sh[-2] = ('chars', (('x', 'strerror', 64, c.a[0]),))
        return p

    def strlen(self, eng, st, c):
        v = eng.strings.cstr(eng, st, c.a[0])
        return eng.strings.length(eng, st, v)

    def strcpy(self, eng, st, c):
        v = eng.strings.cstr(eng, st, c.a[1])
        put_chars(eng, st, c.a[0], v + (0,), 'strcpy')
        return c.a[0]


def fits(eng, st, size, off, n):
    """Is off + n <= size certain."""
    t = addt(size, mult(addt(off, n), -1))
    if isinstance(t, int):
        return 0 <= sgn(t & mask(64), 64)
    lo = 0
    d, c = lin(t)
    for k, m in d.items():
        if m == -1:
            for f, v in st.facts.items():
                if v == 1 and f[1] == 'ule' and f[3] == k:
                    return fits(eng, st, addt(addt(size, k), mult(f[4], -1)), off, n)
    lo = sgn(c & mask(64), 64)
    for k, m in d.items():
        r = st.rng.get(k, (0, 1 << 40) if is_sym(k) and k[0] == 'x' and k[1] == 'len' else None)
        if r is None or m < 0:
            return False
        lo += m * r[0]
    return lo >= 0


def put_chars(eng, st, p, pieces, what):
    """Writes characters (the terminating 0 included) at p."""
    o = eng.obj(st, p, 'write')
    n = eng.strings.length(eng, st, pieces)
    if o.size is not None and not fits(eng, st, o.size, p[2], n):
        eng.bad(st, 'out-of-bounds', '%s may write beyond the end of %s' % (what, o.name or 'a buffer'))
    old = o.sh.get(-2)
    if p[2] != 0:
        if old is None or not p_len(eng, st, old[1], p[2]):
            o.sh.pop(-2, None)
            o.cells = {}
            o.fill = 'lazy'
            return
        pieces = strip0(old[1]) + pieces
    o.sh[-2] = ('chars', tuple(pieces))
    o.cells = {}
    o.fill = 'lazy'
    if pieces and isinstance(pieces[0], int):
        for k, x in enumerate(pieces):
            if not isinstance(x, int):
                break
            o.cells[k] = (1, x)


def strip0(v):
    return v[:-1] if v and v[-1] == 0 else v


def copy_chars(eng, st, d, s, n):
    """memcpy of n characters of an unknown text."""
    o, t = st.mem[d[1]], st.mem[s[1]]
    if o.size is not None and not fits(eng, st, o.size, d[2], n):
        eng.bad(st, 'out-of-bounds', 'memcpy may write beyond the end of %s' % (o.name or 'a buffer'))
    if t.size is not None and not fits(eng, st, t.size, s[2], n):
        eng.bad(st, 'out-of-bounds', 'memcpy may read beyond the end of %s' % (t.name or 'a buffer'))
    v = t.sh.get(-2)
    if not v or s[2] != 0:
        return False
    for k in range(len(v[1]) + 1):
        l = eng.strings.length(eng, st, v[1][:k])
        if l == n or eng.eqt(st, l, n) == 1:
            put_chars(eng, st, d, v[1][:k], 'memcpy')
            return True
    if t.size is None and eng.eqt(st, n, addt(eng.strings.length(eng, st, v[1]), 1)) != 1:
        eng.bad(st, 'out-of-bounds', 'memcpy may read beyond the end of a text')
    return False


def p_len(eng, st, v, off):
    return eng.eqt(st, eng.strings.length(eng, st, strip0(v)), off) == 1


CONV = {('', 'd'): 's32', ('', 'i'): 's32', ('', 'u'): 'u32', ('', 'x'): 'x32', ('', 'X'): 'X32', ('l', 'd'): 's64', ('l', 'u'): 'u64',
        ('z', 'u'): 'u64', ('j', 'u'): 'u64', ('ll', 'u'): 'u64', ('ll', 'd'): 's64', ('j', 'd'): 's64', ('z', 'd'): 's64', ('l', 'x'): 'x64'}


class Printf:
    def __init__(self, eng):
        self.eng = eng
        eng.intr['snprintf'] = self.snprintf

    def format(self, st, fmt, args, types):
        eng = self.eng
        s = c_string(eng, st, fmt)
        args = list(args)
        if s is None:
            return (('x', 'fmt', 64, eng.strings.cstr(eng, st, fmt), tuple(self.val(st, a) for a in args)),)
        out, i = [], 0
        while i < len(s):
            if s[i] != '%':
                out.append(ord(s[i]))
                i += 1
                continue
            m = re.match(r'%(\d*)(hh|h|ll|l|z|j|t)?([diuxXcs%])', s[i:])
            if not m or m.group(1):
                return (('x', 'fmt', 64, tuple(s.encode('latin1')), tuple(self.val(st, a) for a in args)),)
            i += m.end()
            k = m.group(3)
            if k == '%':
                out.append(37)
                continue
            if not args:
                eng.bad(st, 'format', 'the format "%s" needs more arguments than are passed' % s)
            a, ty = args.pop(0), types.pop(0)
            if k == 's':
                if ty != 'p':
                    eng.bad(st, 'format', 'an argument of the format "%s" is not a string' % s)
                out += eng.strings.cstr(eng, st, a)
                continue
            if k == 'c':
                out.append(charpiece(eng.cast(st, 'trunc', 32, 8, a)))
                continue
            cv = CONV.get((m.group(2) or '', k), 's32')
            w = ty[1] if isinstance(ty, list) else 64
            if w != int(cv[1:]):
                eng.bad(st, 'format', 'an argument of the format "%s" has the wrong size' % s)
            out.append(('x', 'dec', 64, cv, a) if not isinstance(a, int) else ('x', 'dec', 64, cv, a))
        return tuple(out)

    def val(self, st, a):
        if is_ptr(a):
            return self.eng.strings.cstr(self.eng, st, a)
        return a

    def snprintf(self, eng, st, c):
        eng.site(st, 'format')
        buf, n, fmt = c.a[:3]
        types = [t if isinstance(t, list) else 'p' for t in c.ins.get('at', [])][3:]
        v = self.format(st, fmt, c.a[3:], types)
        L = eng.strings.length(eng, st, v)

        def ok(s):
            if n != 0:
                L1 = addt(L, 1)
                o = eng.obj(s, buf, 'write')
                full = eng.eqt(s, n, L1) == 1 or fits(eng, s, n, 0, L1)
                if full:
                    put_chars(eng, s, buf, v + (0,), 'snprintf')
                else:
                    if o.size is not None and not fits(eng, s, o.size, buf[2], n) and not fits(eng, s, o.size, buf[2], L1):
                        eng.bad(s, 'out-of-bounds', 'snprintf may write beyond the end of %s' % (o.name or 'a buffer'))
                    put_chars(eng, s, buf, (('x', 'cut', 64, v, n), 0), 'snprintf') if o.size is None else self.cut(s, buf, v, n)
            if isinstance(L, int):
                return L
            r = ('x', 'trunc', 32, L)
            s.rng[r] = (0, (1 << 31) - 1)
            return r

        def bad(s):
            s.mon['fmtfail'] = ('fmtfail', 1)
            eng.sites.setdefault('failure', set()).add('snprintf')
            return 0xffffffff
        fork(eng, st, [ok, bad])

    def cut(self, s, buf, v, n):
        o = self.eng.obj(s, buf, 'write')
        piece = ('x', 'cut', 64, v, n)
        old = o.sh.get(-2)
        o.cells = {}
        o.fill = 'lazy'
        if buf[2] != 0:
            piece = ('x', 'cut', 64, strip0(old[1]) + (piece,) if old else piece, buf[2])
        o.sh[-2] = ('chars', (piece, 0))
