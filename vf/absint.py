"""Abstract interpreter over LLVM IR: a forward, disjunctive (powerset) dataflow
analysis.  An abstract state maps control (call stack and block) to a finite
abstract heap: constants, pointers to abstract objects, anonymous symbols for
every value that is not tracked, terms over them, and the typestate of modelled
library objects.  A branch on a value that is not tracked goes both ways; the
tested fact refines the state on each edge.  States that coincide up to renaming
of symbols and objects are merged; at loop heads values that keep changing are
widened to a fresh symbol.  The analysis ends when no new state appears, so its
verdict covers all paths and all input values; no path condition is ever handed
to a solver and no code of the analysed program is executed."""
import collections, hashlib, marshal, os, time
from . import ir

U = ('u',)                      # uninitialised


class Stop(Exception):
    """This abstract path ends here (violation already recorded or halt)."""


class Fork(Exception):
    """Re-execute the current instruction once in each of the given states."""

    def __init__(self, states):
        self.states = states


class Raise(Exception):
    def __init__(self, typ, payload=0):
        self.typ = typ
        self.payload = payload


def S(name, w=64, n=0):
    return ('s', name, w, n)


def is_sym(v):
    return isinstance(v, tuple) and v and v[0] in ('s', 'x')


def is_ptr(v):
    return isinstance(v, tuple) and v and v[0] == 'p'


class Obj:
    __slots__ = ('kind', 'size', 'cells', 'alive', 'site', 'sh', 'name', 'fill', 'const')

    def __init__(self, kind, size, site, name=''):
        self.kind = kind      # stack heap global extern
        self.size = size      # int, or a term
        self.cells = {}       # off -> (size, value)
        self.alive = True
        self.site = site
        self.sh = {}          # off -> model data of a library object
        self.name = name
        self.fill = U         # value of bytes not in cells ('lazy': symbol)
        self.const = False    # a constant with known contents

    def copy(self):
        o = Obj.__new__(Obj)
        if self.const:
            return self
        o.kind, o.size, o.alive, o.site, o.name, o.fill, o.const = self.kind, self.size, self.alive, self.site, self.name, self.fill, False
        o.cells = dict(self.cells)
        o.sh = dict(self.sh)
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'idx', 'regs', 'allocas', 'args', 'ret_id', 'native', 'cs')

    def __init__(self, fn, args, cs=None):
        self.fn = fn
        self.blk = 0
        self.idx = 0
        self.regs = {}
        self.allocas = ()
        self.args = tuple(args)
        self.cs = cs           # call site description (loc)
        self.native = None     # continuation called with (state, retval)

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.idx, f.allocas, f.args, f.cs, f.native = \
            self.fn, self.blk, self.idx, self.allocas, self.args, self.cs, self.native
        f.regs = dict(self.regs)
        return f


class State:
    __slots__ = ('frames', 'mem', 'facts', 'mon', 'n', 'exc', 'rng', 'dom', 'trace', 'thr', 'cur', 'status')

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.facts = {}    # boolean term -> 0/1
        self.rng = {}      # symbol/term -> (lo, hi) signed, inclusive
        self.dom = {}      # byte symbol -> bit set of its possible values
        self.mon = {}      # monitors: name -> hashable data
        self.n = 0
        self.exc = None
        self.trace = ()
        self.thr = {}      # other threads: id -> (frames, exc, status)
        self.cur = 0
        self.status = None

    def allframes(self):
        if not self.thr:
            return self.frames
        r = list(self.frames)
        for k in sorted(self.thr):
            r += self.thr[k][0]
        return r

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = {k: o.copy() for k, o in self.mem.items()}
        s.facts = dict(self.facts)
        s.rng = dict(self.rng)
        s.dom = dict(self.dom)
        s.mon = dict(self.mon)
        s.n = self.n
        s.exc = self.exc
        s.trace = self.trace
        s.thr = {k: ([f.copy() for f in fr], e, t) for k, (fr, e, t) in self.thr.items()} if self.thr else {}
        s.cur = self.cur
        s.status = self.status
        return s

    def fresh(self, name, w=64):
        self.n += 1
        return ('s', name, w, self.n)

    def byte(self, name, dom=(1 << 256) - 1):
        """An unknown character restricted to a set of values."""
        if dom & (dom - 1) == 0:
            return dom.bit_length() - 1
        v = self.fresh(name, 8)
        self.dom[v] = dom
        return v

    def alloc(self, kind, size, site, name=''):
        self.n += 1
        self.mem[self.n] = Obj(kind, size, site, name)
        return ('p', self.n, 0)


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


class Violation:
    def __init__(self, kind, msg, stack, trace=()):
        self.kind, self.msg, self.stack, self.trace = kind, msg, stack, trace

    def where(self):
        for loc, fn in self.stack:
            if loc and loc[0].startswith(ir.REPO + '/'):
                return '%s:%d' % (loc[0], loc[1]), fn
        for loc, fn in self.stack:
            if loc:
                return '%s:%d' % (loc[0], loc[1]), fn
        return '?', '?'

    def key(self):
        w, fn = self.where()
        return (self.kind, fn, self.msg)

    def text(self):
        w, fn = self.where()
        out = '%s: in %s: %s: %s' % (w, fn, self.kind, self.msg)
        return out

    def full(self):
        out = [self.text()]
        for loc, fn in self.stack:
            out.append('    at %s in %s' % ('%s:%d' % (loc[0], loc[1]) if loc else '?', fn))
        for t in self.trace:
            out.append('    history: %s' % (t,))
        return '\n'.join(out)


class Engine:
    MAX_STATES = 400000
    MAX_AFTER = 3000        # states explored once a violation is known
    MAX_TIME = 600
    WIDEN_AFTER = 4

    def __init__(self, module, client=None):
        self.m = module
        self.client = client
        self.models = {}        # short name -> function(engine, state, call)
        self.prefix = []        # (predicate, function)
        self.intr = {}          # exact (mangled/C) name -> function
        self.violations = {}
        self.seen = {}
        self.stats = {'states': 0, 'instructions': 0, 'merged': 0, 'forks': 0, 'widened': 0}
        self.fns_used = set()
        self.sites = {}         # rule -> set of sites
        self.unmodelled = set()
        self.visit = {}
        self.leakcheck = True
        self.traced = True
        self.ends = 0
        self.obl = 0            # specification clauses evaluated
        install_libc(self)

    # -- reporting ---------------------------------------------------------
    def stack(self, st):
        out = []
        for f in reversed(st.frames):
            loc = None
            if f.fn.blocks and f.blk < len(f.fn.blocks):
                ins = f.fn.blocks[f.blk]['ins']
                i = min(max(f.idx, 0), len(ins) - 1)
                loc = ins[i].get('loc')
            out.append((loc, f.fn.short))
        return [((os.path.normpath(l[0]), l[1]) if l else None, fn) for l, fn in out]

    def report(self, st, kind, msg):
        v = Violation(kind, msg, self.stack(st), st.trace)
        if self.client and hasattr(self.client, 'filter') and not self.client.filter(self, st, v):
            return
        self.violations.setdefault(v.key(), v)

    def bad(self, st, kind, msg):
        self.report(st, kind, msg)
        raise Stop()

    def site(self, st, rule):
        s = self.stack(st)
        for loc, fn in s:
            if loc and loc[0].startswith(ir.REPO + '/'):
                self.sites.setdefault(rule, set()).add('%s:%d %s' % (loc[0], loc[1], fn))
                return

    # -- operands ----------------------------------------------------------
    def gobj(self, st, name):
        key = 'g:' + name
        if key not in st.mem:
            g = self.m.globals.get(name)
            size = g.get('size') if g else None
            o = Obj('global', size, None, name)
            st.mem[key] = o
            if g is not None:
                if 'bytes' in g:
                    for i, b in enumerate(g['bytes']):
                        o.cells[i] = (1, b)
                elif 'init' in g:
                    self.init_global(st, o, 0, g['init'], g['type'])
                elif g.get('const'):
                    o.fill = 'lazy'
                else:
                    o.fill = 'lazy'
                o.const = bool(g.get('const')) and o.fill != 'lazy'
            else:
                o.fill = 'lazy'
        return ('p', key, 0)

    def init_global(self, st, o, off, v, ty):
        if v[0] == 'zero' or v[0] == 'undef':
            sz = tsize(ty)
            if sz <= 4096:
                o.cells[off] = (sz, 0)
            return
        if v[0] == 'agg':
            if ty[0] == 's':
                for (fo, ft), e in zip(ty[2], v[2]):
                    self.init_global(st, o, off + fo, e, ft)
            else:
                for i, e in enumerate(v[2]):
                    self.init_global(st, o, off + i * ty[2], e, ty[3])
            return
        o.cells[off] = (tsize(ty), self.operand(st, None, v))

    def operand(self, st, f, v):
        k = v[0]
        if k == 'i':
            return f.regs.get(v[1], U)
        if k == 'a':
            return f.args[v[1]]
        if k == 'c':
            return int(v[2])
        if k == 'null':
            return 0
        if k == 'f':
            return ('fn', v[1])
        if k == 'g':
            return self.gobj(st, v[1])
        if k == 'gep':
            return self.gep(st, f, v[1])
        if k == 'undef':
            return U if not isinstance(v[1], list) or v[1][0] not in ('s', 'a') else ('agg', ())
        if k == 'zero':
            return ('aggz',)
        if k == 'fp':
            return ('fp', v[1])
        if k == 'agg':
            return ('agg', tuple((i, self.operand(st, f, e)) for i, e in enumerate(v[2])))
        if k == 'ce':
            a = [self.operand(st, f, e) for e in v[3]]
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return a[0]
            if v[1] == 'sub' and len(a) == 2 and is_ptr(a[0]) and is_ptr(a[1]) and a[0][1] == a[1][1]:
                return (a[0][2] - a[1][2]) & mask(64)
            return ('x', v[1], 64) + tuple(a)
        return st.fresh('unk')

    def gep(self, st, f, g):
        base = self.operand(st, f, g[0])
        off = g[1]
        for idx, sc in g[2]:
            iv = self.operand(st, f, idx)
            if isinstance(iv, int):
                off += sgn(iv, 64) * sc
            else:
                off = addt(off, mult(iv, sc))
        return self.padd(st, base, off)

    def padd(self, st, base, off):
        if is_ptr(base):
            o = addt(base[2], off)
            return ('p', base[1], o)
        if isinstance(base, int) and isinstance(off, int):
            return (base + off) & mask(64)
        if base == U:
            return U
        if off == 0:
            return base
        return addt(base, off)

    # -- memory ------------------------------------------------------------
    def obj(self, st, p, what='access'):
        if p == U:
            self.bad(st, 'uninitialised', '%s through an uninitialised pointer' % what)
        if isinstance(p, int):
            if p == 0 or p < 4096:
                self.bad(st, 'null-deref', '%s through a null pointer' % what)
            self.bad(st, 'wild-pointer', '%s through a wild pointer' % what)
        if not is_ptr(p):
            return self.deref_sym(st, p, what)
        o = st.mem.get(p[1])
        if o is None:
            self.bad(st, 'dangling', '%s to a dead object' % what)
        if o.alive is not True:
            self.bad(st, 'use-after-free' if o.kind == 'heap' else 'use-after-scope',
                     '%s to %s %s' % (what, o.name or 'memory', 'already released' if o.kind == 'heap' else 'whose lifetime ended'))
        if o.kind == 'lock':
            pass
        return o

    def deref_sym(self, st, p, what):
        if self.client and hasattr(self.client, 'deref'):
            r = self.client.deref(self, st, p, what)
            if r is not None:
                return r
        b, off = split_base(p)
        # Materialise one external object per symbolic base.
        if b is not None and b[0] == 's':
            if self.known_null(st, b) is None:
                self.fork_null(st, b)
            np = st.alloc('extern', None, None, 'external ' + str(b[1]))
            st.mem[np[1]].fill = 'lazy'
            subst(st, b, np)
            raise Fork([st])
        self.bad(st, 'wild-pointer', '%s through an unknown pointer %s' % (what, pretty(p)))

    def known_null(self, st, b):
        t = ('x', 'eq', 1, 0, b)
        return st.facts.get(t)

    def fork_null(self, st, b):
        a = st
        c = st.copy()
        a.facts[('x', 'eq', 1, 0, b)] = 0
        subst(c, b, 0)
        self.stats['forks'] += 1
        raise Fork([a, c])

    def resolve(self, st, p, what):
        o = self.obj(st, p, what)
        return o, p[2]

    def load(self, st, p, size, ty=None, what='read'):
        o = self.obj(st, p, what)
        if o.kind == 'strbuf':
            return self.strings.buf_read(self, st, o, p, size, what)
        off = p[2]
        h = getattr(self.client, 'on_access', None)
        if h:
            h(self, st, p, size, False)
        if not isinstance(off, int):
            r = getattr(self.client, 'load_var', None)
            if r:
                v = r(self, st, o, p, size)
                if v is not None:
                    return v
            off = self.pick_offset(st, o, p, size, what)
            if off is None:
                return st.fresh('elem', size * 8)
        if isinstance(o.size, int) and (off < 0 or off + size > o.size):
            self.bad(st, 'out-of-bounds', '%s of %d bytes at offset %d of a %d byte object' % (what, size, off, o.size))
        c = o.cells.get(off)
        if c and c[0] == size:
            return c[1]
        return self.load_slow(st, o, off, size)

    def pick_offset(self, st, o, p, size, what):
        return None

    def load_slow(self, st, o, off, size):
        # Compose from overlapping cells when they are constants.
        if c := o.cells.get(off):
            if c[0] > size and isinstance(c[1], int):
                return c[1] & mask(size * 8)
        val = 0
        undef = 0
        pos = off
        ok = True
        while pos < off + size:
            hit = None
            for co, (cs, cv) in o.cells.items():
                if co <= pos < co + cs:
                    hit = (co, cs, cv)
                    break
            if hit is None:
                if o.fill == 'lazy':
                    if not any(co < off + size and co + cs > off for co, (cs, cv) in o.cells.items()):
                        v = st.fresh('mem', size * 8)
                        o.cells[off] = (size, v)
                        return v
                    ok = False
                    break
                if isinstance(o.fill, int):
                    val |= (o.fill & 255) << (8 * (pos - off))
                else:
                    undef |= 255 << (8 * (pos - off))
                pos += 1
                continue
            co, cs, cv = hit
            if isinstance(cv, int):
                b = (cv >> (8 * (pos - co))) & 255
                val |= b << (8 * (pos - off))
            elif cv == U:
                undef |= 255 << (8 * (pos - off))
            elif cv[0] == 'pu':
                sh = 8 * (pos - co)
                undef |= ((cv[2] >> sh) & 255) << (8 * (pos - off))
                val |= ((cv[3] >> sh) & 255) << (8 * (pos - off))
            else:
                ok = False
                break
            pos += 1
        if not ok:
            v = self.compose(st, o, off, size)
            if v is not None:
                return v
            fs = tuple(sorted((co - off, cs, cv) for co, (cs, cv) in o.cells.items() if co < off + size and co + cs > off))
            if o.fill == U and all(f[0] >= 0 and f[0] + f[1] <= size for f in fs):
                return ('pack', size * 8, fs)       # several members in one register
            return st.fresh('mix', size * 8)
        if undef == 0:
            return val
        if undef == mask(size * 8):
            return U
        return ('pu', size * 8, undef, val & ~undef)

    def store(self, st, p, size, v, what='write'):
        o = self.obj(st, p, what)
        if o.const:
            self.bad(st, 'write-to-constant', 'a constant is overwritten')
        if o.kind == 'strbuf':
            return self.strings.buf_write(self, st, o, p, size, v)
        off = p[2]
        h = getattr(self.client, 'on_access', None)
        if h:
            h(self, st, p, size, True)
        if not isinstance(off, int):
            r = getattr(self.client, 'store_var', None)
            if r and r(self, st, o, p, size, v):
                return
            # Weak update: forget the whole object.
            o.cells.clear()
            o.fill = 'lazy'
            return
        if isinstance(o.size, int) and (off < 0 or off + size > o.size):
            self.bad(st, 'out-of-bounds', '%s of %d bytes at offset %d of a %d byte object' % (what, size, off, o.size))
        self.clear_range(st, o, off, size)
        if isinstance(v, tuple) and v[0] == 'pack':
            o.cells.pop(off, None)
            for fo, fs, fv in v[2]:
                o.cells[off + fo] = (fs, fv)
            if o.fill != U:
                for b in range(size):
                    if not any(fo <= b < fo + fs for fo, fs, fv in v[2]):
                        o.cells[off + b] = (1, U)
            return
        o.cells[off] = (size, v)

    def part(self, st, v, cs, k, n):
        """The bytes [k, k + n) of a value of cs bytes."""
        if isinstance(v, int):
            return v >> 8 * k & mask(8 * n)
        if not isinstance(v, tuple) or v[0] in ('pack', 'pu'):
            return None
        if v[0] in ('s', 'x') and twidth(v) == 8 * cs and (v[0] == 's' or v[1] != 'part'):
            return self.cast(st, 'trunc', 8 * cs, 8 * n, self.binop(st, 'lshr', 8 * cs, v, 8 * k) if k else v)
        return ('x', 'part', 8 * n, v, k)

    def compose(self, st, o, off, size):
        """A value read from parts of others: a part of one value, or all parts of one value."""
        cells = [(co, cs, cv) for co, (cs, cv) in o.cells.items() if co < off + size and co + cs > off]
        if len(cells) == 1:
            co, cs, cv = cells[0]
            if co <= off and off + size <= co + cs:
                return self.part(st, cv, cs, off - co, size)
            return None
        if size > 8 or sum(cs for co, cs, cv in cells) != size or any(co < off or co + cs > off + size for co, cs, cv in cells):
            return None
        cand = []
        for co, cs, cv in cells:
            if isinstance(cv, tuple) and cv[0] == 'x':
                if cv[1] == 'part':
                    cand.append(cv[3])
                elif cv[1] == 'trunc':
                    cand.append(cv[3])
                    if isinstance(cv[3], tuple) and cv[3][0] == 'x' and cv[3][1] == 'lshr':
                        cand.append(cv[3][3])
        for c in dict.fromkeys(cand):
            if (not (isinstance(c, tuple) and c[0] in ('s', 'x')) and size == 8 or twidth(c) == 8 * size) and \
               all(self.part(st, c, size, co - off, cs) == cv for co, cs, cv in cells):
                return c
        return None

    def clear_range(self, st, o, off, size):
        if off in o.cells and o.cells[off][0] == size:
            return
        for co in [c for c, (cs, cv) in o.cells.items() if c < off + size and c + cs > off]:
            cs, cv = o.cells.pop(co)
            if co >= off and co + cs <= off + size:
                continue
            # Keep the uncovered bytes.
            for b in range(cs):
                a = co + b
                if off <= a < off + size:
                    continue
                if isinstance(cv, int):
                    o.cells[a] = (1, (cv >> (8 * b)) & 255)
                elif cv == U:
                    if o.fill != U:
                        o.cells[a] = (1, U)
                else:
                    v = self.part(st, cv, cs, b, 1)
                    o.cells[a] = (1, st.fresh('part', 8) if v is None else v)

    def copy_mem(self, st, d, s, n, what):
        if n == 0:
            return
        if not isinstance(n, int):
            do = self.obj(st, d, what)
            self.obj(st, s, what)
            h = getattr(self.client, 'on_copy', None)
            if h and h(self, st, d, s, n):
                return
            do.cells.clear()
            do.fill = 'lazy'
            return
        so = self.obj(st, s, what)
        do = self.obj(st, d, what)
        h = getattr(self.client, 'on_access', None)
        if h:
            h(self, st, s, n, False)
            h(self, st, d, n, True)
        if not isinstance(s[2], int) or not isinstance(d[2], int):
            h = getattr(self.client, 'on_copy', None)
            if h and h(self, st, d, s, n):
                return
            do.cells.clear()
            do.fill = 'lazy'
            return
        for o, p in ((so, s), (do, d)):
            if isinstance(o.size, int) and (p[2] < 0 or p[2] + n > o.size):
                self.bad(st, 'out-of-bounds', '%s of %d bytes at offset %d of a %d byte object' % (what, n, p[2], o.size))
        moved = []
        covered = set()
        for co, (cs, cv) in list(so.cells.items()):
            if co >= s[2] and co + cs <= s[2] + n:
                moved.append((co - s[2], cs, cv))
                covered.update(range(co - s[2], co - s[2] + cs))
        for b in range(n):
            if b not in covered:
                v = self.load_slow(st, so, s[2] + b, 1)
                moved.append((b, 1, v))
        sh = [(k - s[2], v) for k, v in so.sh.items() if s[2] <= k < s[2] + n]
        self.clear_range(st, do, d[2], n)
        for co in [c for c in do.cells if d[2] <= c < d[2] + n]:
            del do.cells[co]
        for o, cs, cv in moved:
            if cv == U and do.fill == U:
                continue
            do.cells[d[2] + o] = (cs, cv)

    # -- model data ----------------------------------------------------------
    def shadow(self, st, p, kind, what='use'):
        o = self.obj(st, p, what)
        d = o.sh.get(p[2])
        h = getattr(self.client, 'on_access', None)
        if h:
            h(self, st, p, 8, False)
        if d is None or (kind and d[0] != kind):
            if o.fill == 'lazy' and self.client and hasattr(self.client, 'lazy_shadow'):
                d = self.client.lazy_shadow(self, st, p, kind)
                if d is not None:
                    o.sh[p[2]] = d
                    return d
            self.bad(st, 'uninitialised', '%s of a %s object that was not constructed' % (what, kind))
        return d

    def set_shadow(self, st, p, data, what='update'):
        o = self.obj(st, p, what)
        h = getattr(self.client, 'on_access', None)
        if h:
            h(self, st, p, 8, True)
        if data is None:
            o.sh.pop(p[2], None)
        else:
            o.sh[p[2]] = data

    # -- facts ---------------------------------------------------------------
    def truth(self, st, v):
        """Constant 0/1 of a boolean value or None."""
        if isinstance(v, int):
            return v & 1
        if v in st.facts:
            return st.facts[v]
        if st.dom:
            d = dom_set(st, v)
            if d:
                x, m = d
                if not st.dom[x] & m:
                    return 0
                if not st.dom[x] & ~m:
                    return 1
                return None
        if v[0] == 'x':
            if v[1] == 'not':
                t = self.truth(st, v[3])
                return None if t is None else 1 - t
            if v[1] in ('and1', 'or1'):
                a, b = self.truth(st, v[3]), self.truth(st, v[4])
                z = 0 if v[1] == 'and1' else 1
                if a == z or b == z:
                    return z
                if a is not None and b is not None:
                    return 1 - z
        return None

    def branch(self, st, v, what='branch'):
        if isinstance(v, int):
            return v & 1
        if v == U or (isinstance(v, tuple) and v[0] == 'pu'):
            self.bad(st, 'uninitialised', 'a decision depends on an uninitialised value')
        t = self.truth(st, v)
        if t is not None:
            return t
        self.stats['forks'] += 1
        a, b = st, st.copy()
        out = []
        for s, t in ((a, 1), (b, 0)):
            if self.assume(s, v, t):
                out.append(s)
        if not out:
            raise Stop()
        raise Fork(out)

    def assume(self, st, v, t):
        """Refines st with boolean term v == t; False if contradictory."""
        if isinstance(v, int):
            return (v & 1) == t
        if v in st.facts:
            return st.facts[v] == t
        if st.dom:
            d = dom_set(st, v)
            if d:
                return restrict(st, d[0], d[1] if t else ~d[1])
        if v[0] == 'x':
            op, w = v[1], v[2]
            if op == 'not':
                return self.assume(st, v[3], 1 - t)
            if op == 'and1' and t == 1:
                return self.assume(st, v[3], 1) and self.assume(st, v[4], 1)
            if op == 'or1' and t == 0:
                return self.assume(st, v[3], 0) and self.assume(st, v[4], 0)
            if op == 'eq' and t == 1:
                a, b = v[3], v[4]
                if isinstance(b, tuple) and b and b[0] == 's' and not contains(a, b):
                    subst(st, b, a)
                    return True
                if isinstance(a, tuple) and a and a[0] == 's' and not contains(b, a):
                    subst(st, a, b)
                    return True
                if isinstance(a, int) and is_sym(b):
                    subst(st, b, a)
                    if b[0] == 'x' and b[1] == 'len':
                        st.facts[v] = 1         # the term may come up again
                    return True
            if op == 'zext' or op == 'trunc':
                pass
            if op in ('ult', 'slt', 'ule', 'sle') and not self.refine_range(st, op, v[3], v[4], t):
                return False
        if v[0] == 's':
            subst(st, v, t)
            return True
        st.facts[v] = t
        if getattr(self.client, 'on_assume', None):
            return self.client.on_assume(self, st, v, t) is not False
        return True

    def srange(self, st, v):
        """Signed 64-bit range of a value or None."""
        if isinstance(v, int):
            return None
        return st.rng.get(v)

    def refine_range(self, st, op, a, b, t):
        # Only comparisons of a symbol with a small constant are tracked, as
        # signed intervals; unsigned comparisons only when known nonnegative.
        if isinstance(b, int) and not isinstance(a, int):
            w = twidth(a)
            if op[0] == 's':
                c = sgn(b, w)
                lo, hi = st.rng.get(a, (-(1 << (w - 1)), (1 << (w - 1)) - 1))
                if op == 'slt':
                    lo, hi = (lo, min(hi, c - 1)) if t else (max(lo, c), hi)
                else:
                    lo, hi = (lo, min(hi, c)) if t else (max(lo, c + 1), hi)
                return self.set_range(st, a, lo, hi, w)
            if a in st.rng and st.rng[a][0] >= 0 or b < (1 << (w - 1)) and t:
                lo, hi = st.rng.get(a, (0, (1 << (w - 1)) - 1))
                lo = max(lo, 0)
                if op == 'ult':
                    lo, hi = (lo, min(hi, b - 1)) if t else (max(lo, b), hi)
                else:
                    lo, hi = (lo, min(hi, b)) if t else (max(lo, b + 1), hi)
                return self.set_range(st, a, lo, hi, w)
        elif isinstance(a, int) and not isinstance(b, int):
            # a < b  is  not (b <= a)
            return self.refine_range(st, {'slt': 'sle', 'sle': 'slt', 'ult': 'ule', 'ule': 'ult'}[op], b, a, 1 - t)
        return True

    def set_range(self, st, a, lo, hi, w):
        if lo > hi:
            return False
        if lo == hi:
            if a[0] == 's':
                subst(st, a, lo & mask(w))
                return True
        st.rng[a] = (lo, hi)
        return True

    # -- instructions ----------------------------------------------------------
    def icmp(self, st, pred, a, b, w):
        if a == U or b == U:
            return U
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = sgn(a, w), sgn(b, w)
            r = {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pred]
            return int(r)
        if pred == 'ne':
            return notb(self.icmp(st, 'eq', a, b, w))
        if pred in ('ugt', 'sgt'):
            return self.icmp(st, pred[0] + 'lt', b, a, w)
        if pred in ('uge', 'sge'):
            return notb(self.icmp(st, pred[0] + 'lt', a, b, w))
        if pred in ('ule', 'sle'):
            return notb(self.icmp(st, pred[0] + 'lt', b, a, w))
        if pred == 'eq':
            return self.eqt(st, a, b, w)
        if a == b:
            return 0
        if pred == 'ult':
            if b == 0:
                return 0
            if a == 0:
                return notb(self.eqt(st, a, b, w))
            if b == 1:
                return self.eqt(st, a, 0, w)
        if is_ptr(a) and is_ptr(b) and a[1] == b[1]:
            return self.icmp(st, 's' + pred[1:], a[2] & mask(64) if isinstance(a[2], int) else a[2],
                             b[2] & mask(64) if isinstance(b[2], int) else b[2], 64)
        r = self.cmp_range(st, pred, a, b, w)
        if r is not None:
            return r
        if w == 64 and getattr(self.client, 'lin_order', False):
            from .lazystr import lin_bounds, ORG
            if pred == 'slt':
                # sums that are not negative are compared without sign
                x, y = a, b
                if all(is_sym(v) and lin(v)[0].get(ORG) == 1 for v in (x, y)):
                    x, y = addt(x, mult(ORG, -1)), addt(y, mult(ORG, -1))
                o = [lin_bounds(st, v)[0] for v in (x, y)]
                if None not in o and min(o) >= 0:
                    return self.icmp(st, 'ult', x, y, w)
            if pred == 'ult':
                # values from 2^63 are greater than all lengths
                big = [isinstance(x, int) and x & mask(64) >= 1 << 63 for x in (a, b)]
                if any(big):
                    o = lin_bounds(st, b if big[0] else a)
                    if o[0] is not None and o[0] >= 0:
                        return int(big[1])
                    return ('x', 'ult', 1, a, b)
            d = addt(b, mult(a, -1)) if not isinstance(a, int) else addt(b, -sgn(a, 64))
            lo, hi = lin_bounds(st, d)
            if lo is not None:
                if lo > 0:
                    return 1
                if hi <= 0:
                    return 0
                if lo == 0 and pred == 'ult' and is_sym(d):
                    return notb(self.eqt(st, d, 0, w))
                # in terms of the difference only
                dd, dc = lin(d)
                t = unlin(dd, 0, 64)
                dc = sgn(dc & mask(64), 64)
                if (a, b) != (-dc & mask(64), t) and len(dd) == 1 and list(dd.values()) == [1]:
                    return self.icmp(st, pred, -dc & mask(64), t, w) if dc <= 0 else 1
                if len(dd) == 1 and list(dd.values()) == [-1] and (a, b) != (list(dd)[0], dc):
                    return self.icmp(st, pred, list(dd)[0], dc, w) if dc >= 0 else 0
        elif w == 64 and getattr(self.client, 'nsw', False) and is_sym(a) and is_sym(b):
            # Numbers do not wrap: compare the difference with zero.
            for x, y, sign in ((a, b, 1), (b, a, -1)):
                d = addt(y, mult(x, -1))
                if is_sym(d) and (d[0] == 's' or d[1] == 'len') and d not in (a, b) and st.rng.get(d, (-1,))[0] >= 0:
                    return notb(self.eqt(st, d, 0, w)) if sign > 0 else 0
        t = ('x', pred, 1, a, b)
        if t in st.facts:
            return st.facts[t]
        rt = ('x', pred, 1, b, a)
        if st.facts.get(rt) == 1:
            return 0
        return t

    def cmp_range(self, st, pred, a, b, w):
        def rg(v):
            if isinstance(v, int):
                if pred[0] == 's':
                    return (sgn(v, w),) * 2
                return (v, v)
            r = st.rng.get(v)
            if r is None and isinstance(v, tuple) and v[0] == 'x' and v[1] == 'zext':
                iw = twidth(v[3])
                r = st.rng.get(v[3]) or (0, mask(iw))
                if r[0] < 0:
                    r = (0, mask(iw))
            if r is not None and pred[0] == 'u' and r[1] < 0:
                return r[0] + (1 << w), r[1] + (1 << w)
            if r is None or (pred[0] == 'u' and r[0] < 0):
                return None
            return r
        ra, rb = rg(a), rg(b)
        if ra and rb:
            if ra[1] < rb[0]:
                return 1
            if ra[0] >= rb[1]:
                return 0
        elif ra and pred == 'ult' and isinstance(a, int) is False and rb is None:
            pass
        return None

    def eqt(self, st, a, b, w=64):
        if a == b:
            return 1
        if a == U or b == U:
            return U
        if is_ptr(a) and is_ptr(b):
            if a[1] != b[1]:
                return 0
            return self.eqt(st, a[2], b[2], 64) if not (isinstance(a[2], int) and isinstance(b[2], int)) else int(a[2] == b[2])
        if (is_ptr(a) or isinstance(a, tuple) and a[0] == 'fn') and isinstance(b, int):
            return 0
        if (is_ptr(b) or isinstance(b, tuple) and b[0] == 'fn') and isinstance(a, int):
            return 0
        if isinstance(a, int) and isinstance(b, int):
            return int(a == b)
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int) and isinstance(x, tuple) and x[0] == 'x':
                if x[1] == 'trunc' and isinstance(x[3], tuple) and x[3][0] == 'x' and x[3][1] == 'and' and x[3][4] == 1:
                    return self.eqt(st, x[3], y, twidth(x[3]))
                if x[1] == 'and' and x[4] == 1 and y != 0:
                    return notb(self.eqt(st, x, 0, w)) if y == 1 else 0
                if y == 0 and x[1] == 'srem' and isinstance(x[4], int) and x[4] > 1 and x[4] & x[4] - 1 == 0 and not x[4] >> w - 1:
                    return self.eqt(st, self.binop(st, 'and', w, x[3], x[4] - 1), 0, w)
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'tid' and b[0] == 'tid':
            return int(a == b)
        if isinstance(a, tuple) and a[0] == 'tid' and b == 0 or isinstance(b, tuple) and b[0] == 'tid' and a == 0:
            return 0
        for x, y in ((a, b), (b, a)):
            if is_sym(x) and is_ptr(y):
                o = st.mem.get(y[1])
                # A symbol that existed before the object was allocated cannot
                # point to it unless the client says so.
                h = getattr(self.client, 'sym_aliases', None)
                if not (h and h(x, y)):
                    return 0
            if isinstance(x, int) and is_sym(y):
                r = st.rng.get(y)
                if r and not (r[0] <= sgn(x, w) <= r[1]):
                    return 0
                if w == 64 and getattr(self.client, 'lin_order', False):
                    from .lazystr import lin_bounds
                    lo, hi = lin_bounds(st, y)
                    if lo is not None and not lo <= sgn(x & mask(64), 64) <= hi:
                        return 0
                if y[0] == 'x':
                    if y[1] == 'zext':
                        iw = twidth(y[3])
                        if x > mask(iw):
                            return 0
                        if iw == 1:
                            return y[3] if x == 1 else notb(y[3])
                        return self.eqt(st, x, y[3], iw)
                    if y[1] == 'sext':
                        iw = twidth(y[3])
                        t = x & mask(iw)
                        if (sgn(t, iw) & mask(w)) != x:
                            return 0
                        return self.eqt(st, t, y[3], iw)
                    if y[1] == 'add' and isinstance(y[4], int):
                        return self.eqt(st, (x - y[4]) & mask(w), y[3], w)
                    if y[1] == 'ite':
                        pass
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) and x[:2] == ('x', 'zext') and y in st.rng and w == 64:
                r = st.rng[y]
                if r[1] < 0 or r[0] > mask(twidth(x[3])):
                    return 0
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'x' and b[0] == 'x' and a[1] == b[1] and a[1] in ('zext', 'sext') \
                and twidth(a[3]) == twidth(b[3]):
            return self.eqt(st, a[3], b[3], twidth(a[3]))
        if isinstance(b, int):
            a, b = b, a
        if not isinstance(a, int) or is_lin(b) and any(n < 0 for n in lin(b)[0].values()):
            if is_lin(a) or is_lin(b):
                da, ca = lin(a)
                db, cb = lin(b)
                d = dict(da)
                for k, n in db.items():
                    d[k] = d.get(k, 0) - n
                d = {k: n for k, n in d.items() if n}
                if not d:
                    return int((ca - cb) & mask(w) == 0)
                ks = sorted(d, key=repr)
                if d[ks[0]] < 0:
                    d = {k: -n for k, n in d.items()}
                    ca, cb = cb, ca
                a2 = unlin({k: n for k, n in d.items() if n > 0}, 0, w)
                b2 = unlin({k: -n for k, n in d.items() if n < 0}, cb - ca, w)
                if (a2, b2) != (a, b) and (b2, a2) != (a, b):
                    return self.eqt(st, a2, b2, w)
            if repr(b) < repr(a):
                a, b = b, a
        t = ('x', 'eq', 1, a, b)
        if t in st.facts:
            return st.facts[t]
        if st.facts.get(('x', 'ult', 1, a, b)) == 1 or st.facts.get(('x', 'ult', 1, b, a)) == 1:
            return 0
        return t

    def binop(self, st, op, w, a, b):
        if a == U or b == U or isinstance(a, tuple) and a and a[0] == 'pu' or isinstance(b, tuple) and b and b[0] == 'pu':
            return bits_undef(op, w, a, b)
        if isinstance(a, int) and isinstance(b, int):
            m = mask(w)
            try:
                if op == 'add': return (a + b) & m
                if op == 'sub': return (a - b) & m
                if op == 'mul': return (a * b) & m
                if op == 'and': return a & b
                if op == 'or': return a | b
                if op == 'xor': return a ^ b
                if op == 'shl': return (a << b) & m if b < w else U
                if op == 'lshr': return a >> b if b < w else U
                if op == 'ashr': return (sgn(a, w) >> b) & m if b < w else U
                if op in ('udiv', 'sdiv', 'urem', 'srem') and b == 0:
                    self.bad(st, 'division-by-zero', 'division by zero')
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                sa, sb = sgn(a, w), sgn(b, w)
                q = abs(sa) // abs(sb) * (1 if (sa < 0) == (sb < 0) else -1)
                if op == 'sdiv': return q & m
                if op == 'srem': return (sa - q * sb) & m
            except (ValueError, OverflowError):
                return st.fresh(op, w)
        if isinstance(a, tuple) and a[0] == 'pack' or isinstance(b, tuple) and b[0] == 'pack':
            if isinstance(a, tuple) and a[0] == 'pack' and op == 'lshr' and isinstance(b, int) and b % 8 == 0:
                return self.cast(st, 'zext', w - b, w, self.unpack(st, a, b, w - b))
            return st.fresh('mix', w)
        if w == 1:
            if op == 'xor':
                if b == 1: return notb(a)
                if a == 1: return notb(b)
                if b == 0: return a
                if a == 0: return b
            if op == 'and':
                if 0 in (a, b) and (a == 0 or b == 0): return 0
                if a == 1: return b
                if b == 1: return a
                return ('x', 'and1', 1, a, b)
            if op == 'or':
                if a == 1 or b == 1: return 1
                if a == 0: return b
                if b == 0: return a
                return ('x', 'or1', 1, a, b)
        if op == 'add':
            if is_ptr(a) and not is_ptr(b): return self.padd(st, a, sgn(b, w) if isinstance(b, int) else b)
            if is_ptr(b): return self.padd(st, b, sgn(a, w) if isinstance(a, int) else a)
            return addt(a, b, w)
        if op == 'sub':
            if a == b: return 0
            if is_ptr(a) and is_ptr(b) and a[1] == b[1]:
                return addt(a[2], mult(b[2], -1), w) if not (isinstance(a[2], int) and isinstance(b[2], int)) else (a[2] - b[2]) & mask(w)
            if isinstance(b, int): return addt(a, (-b) & mask(w), w)
            return addt(a, mult(b, -1, w), w)
        if op == 'and':
            if a == 0 or b == 0: return 0
            if a == mask(w): return b
            if b == mask(w): return a
            if a == b: return a
            if b == 1 and w > 1:
                bit = one_bit(a, w)
                if bit == 0: return 0
                if bit is not None:
                    bw = twidth(bit[0])
                    return self.cast(st, 'zext' if w > bw else 'trunc', bw, w, self.binop(st, 'and', bw, self.binop(st, 'lshr', bw, *bit), 1)) if bw != w else \
                        self.binop(st, 'and', bw, self.binop(st, 'lshr', bw, *bit), 1)
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == 'x' and a[1] == 'zext':
                iw = twidth(a[3])
                if b & mask(iw) == mask(iw): return a
                if b & mask(iw) == 0: return 0
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == 'x' and a[1] == 'or':
                l, r = self.binop(st, 'and', w, a[3], b), self.binop(st, 'and', w, a[4], b)
                return self.binop(st, 'or', w, l, r)
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == 'x' and a[1] == 'and' and isinstance(a[4], int):
                return self.binop(st, 'and', w, a[3], a[4] & b)
            if isinstance(b, int) and isinstance(a, tuple) and a[0] == 'x' and a[1] == 'shl' and isinstance(a[4], int):
                return self.binop(st, 'shl', w, self.binop(st, 'and', w, a[3], b >> a[4]), a[4])
        if op in ('or', 'xor'):
            if a == 0: return b
            if b == 0: return a
            if op == 'or' and a == b: return a
        if op == 'mul':
            if a == 0 or b == 0: return 0
            if a == 1: return b
            if b == 1: return a
            if isinstance(b, int): return mult(a, sgn(b, w), w)
            if isinstance(a, int): return mult(b, sgn(a, w), w)
            if not is_ptr(a) and not is_ptr(b): return polymul(a, b, w)
        if op in ('shl', 'lshr', 'ashr') and b == 0: return a
        if op in ('shl',) and a == 0: return 0
        if op == 'lshr' and isinstance(b, int) and w == 64 and a in st.rng:
            lo, hi = st.rng[a]
            if hi < 0:
                lo, hi = lo + (1 << w), hi + (1 << w)
            if lo >= 0:
                if lo >> b == hi >> b:
                    return lo >> b
                st.rng.setdefault(('x', 'lshr', w, a, b), (lo >> b, hi >> b))
        if op == 'lshr' and isinstance(b, int) and isinstance(a, tuple) and a[0] == 'x':
            if a[1] == 'shl' and a[4] == b and twidth(a[3]) + b <= w or a[1] == 'shl' and a[4] == b and small(a[3], w - b):
                return a[3]
            if a[1] == 'or':
                return self.binop(st, 'or', w, self.binop(st, 'lshr', w, a[3], b), self.binop(st, 'lshr', w, a[4], b))
            if a[1] == 'zext' and twidth(a[3]) <= b:
                return 0
        if op == 'sdiv' and b == 1 or op == 'udiv' and b == 1: return a
        if op in ('sdiv', 'udiv') and isinstance(b, int) and isinstance(a, tuple) and a[0] == 'x' and a[1] == 'mul' and a[4] == b:
            return a[3]
        if op in ('sdiv',) and isinstance(b, int):
            q = div_lin(a, b, w)
            if q is not None: return q
        if op == 'urem' and isinstance(b, int) and b and b & b - 1 == 0 and not is_lin(a):
            return self.binop(st, 'and', w, a, b - 1)
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            h = getattr(self.client, 'on_div', None)
            if h:
                h(self, st, a, b)
        return ('x', op, w, a, b)

    def cast(self, st, op, fw, tw, v):
        if v == U:
            return U
        if isinstance(v, int):
            if op == 'trunc': return v & mask(tw)
            if op == 'sext': return sgn(v, fw) & mask(tw)
            return v
        if isinstance(v, tuple) and v[0] == 'pu':
            if op == 'trunc':
                u = v[2] & mask(tw)
                return v[3] & mask(tw) if u == 0 else (U if u == mask(tw) else ('pu', tw, u, v[3] & mask(tw)))
            return ('pu', tw, v[2], v[3]) if op == 'zext' else U
        if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
            return v
        if isinstance(v, tuple) and v[0] == 'pack':
            if op == 'zext':
                return ('pack', tw, v[2] + ((fw // 8, (tw - fw) // 8, 0),))
            return self.unpack(st, v, 0, tw) if op == 'trunc' else st.fresh('mix', tw)
        if op in ('zext', 'sext', 'trunc') and isinstance(v, tuple):
            if v[0] == 'x':
                if tw == 64 and fw == 32 and op == 'sext' and getattr(self.client, 'nsw', False):
                    u = untrunc(v)
                    if u is not None:
                        return u
                if op == 'trunc' and v[1] in ('zext', 'sext'):
                    iw = twidth(v[3])
                    if iw == tw: return v[3]
                    if iw < tw: return ('x', v[1], tw, v[3])
                    return self.cast(st, 'trunc', iw, tw, v[3])
                if op == 'trunc' and tw == 1 and v[1] == 'and' and isinstance(v[4], int):
                    return self.cast(st, 'trunc', fw, tw, v[3]) if v[4] & 1 else 0
                if op == 'trunc' and tw == 1 and v[1] == 'or':
                    return self.binop(st, 'or', 1, self.cast(st, 'trunc', fw, 1, v[3]), self.cast(st, 'trunc', fw, 1, v[4]))
                if op == 'trunc' and tw == 1 and v[1] == 'shl' and isinstance(v[4], int) and v[4] > 0:
                    return 0
                if op == 'zext' and v[1] == 'zext': return ('x', 'zext', tw, v[3])
                if v[1] == 'trunc' and twidth(v[3]) == tw and op in ('zext', 'sext'):
                    r = st.rng.get(v[3])
                    if r and (0 <= r[0] and r[1] <= mask(fw) if op == 'zext' else -1 << fw - 1 <= r[0] and r[1] < 1 << fw - 1):
                        return v[3]
            if op == 'sext' and st.rng.get(v, (-1,))[0] >= 0:
                r = ('x', 'zext', tw, v)
                return r
            if op == 'trunc' and tw == 1 and v[0] == 's' and v[2] == 1:
                return v
            if is_ptr(v):
                return ('x', op, tw, v)
            return ('x', op, tw, v)
        return ('x', op, tw, v)

    def unpack(self, st, v, bits, tw):
        """Bits [bits, bits + tw) of several members."""
        o = Obj('tmp', None, None)
        o.cells = {fo: (fs, fv) for fo, fs, fv in v[2]}
        if bits % 8:
            return st.fresh('mix', tw)
        r = self.load_slow(st, o, bits // 8, max(1, tw // 8)) if o.cells.get(bits // 8, (0,))[0] != max(1, tw // 8) else o.cells[bits // 8][1]
        if tw < 8:
            r = self.cast(st, 'trunc', 8, tw, r)
        return r

    # -- driver ----------------------------------------------------------------
    def run(self, fname, args=(), init=None):
        fn = self.m.fns.get(fname)
        if fn is None or fn.decl:
            raise ir.AnalysisBroken('entry point %s not found in the driver' % fname)
        st = State()
        if init:
            a = init(self, st)
            if a is not None:
                args = a
        self.push(st, fn, list(args))
        self.work = collections.deque([st])
        after = 0
        self.deadline = time.time() + self.MAX_TIME
        self.seen = {}
        self.visit = {}
        while self.work:
            st = self.work.popleft()
            self.stats['states'] += 1
            if self.violations:
                after += 1
                if after > self.MAX_AFTER:
                    break
            elif self.stats['states'] > self.MAX_STATES or self.stats['states'] % 256 == 0 and time.time() > self.deadline:
                raise ir.AnalysisBroken('state budget exhausted in %s' % fname)
            self.go(st)

    def push(self, st, fn, args, cs=None):
        f = Frame(fn, args, cs)
        st.frames.append(f)
        self.fns_used.add(fn.name)
        if len(st.frames) > 200:
            raise ir.AnalysisBroken('unbounded recursion at %s' % fn.dem)

    def go(self, st):
        while True:
            try:
                if self.step(st):
                    return
            except Fork as fk:
                self.work.extend(fk.states)
                return
            except Stop:
                return

    def jump(self, st, f, dst):
        src = f.blk
        b = f.fn.blocks[dst]
        upd = []
        n = 0
        for ins in b['ins']:
            if ins['op'] != 'phi':
                break
            n += 1
            for pb, v in ins['in']:
                if pb == src:
                    upd.append((ins['id'], self.operand(st, f, v)))
                    break
        for k, v in upd:
            f.regs[k] = v
        f.blk = dst
        f.idx = n
        if b['npred'] > 1 or b['hdr']:
            return self.merge(st, f, b)
        return False

    def merge(self, st, f, b):
        lv = ir.liveness(f.fn)[f.blk]
        for k in [k for k in f.regs if k not in lv]:
            del f.regs[k]
        for g in st.frames[:-1]:
            if g.native is None:
                lv = ir.live_at(g.fn, g.blk, g.idx)
                for k in [k for k in g.regs if k not in lv]:
                    del g.regs[k]
        if self.leakcheck:
            self.gc(st)
        if b['hdr']:
            st2 = self.widen(st, f)
        key = canon(st)
        if key in self.seen:
            self.stats['merged'] += 1
            return True
        self.seen[key] = 1
        return False

    def ctl(self, st):
        return tuple((g.fn.name, g.blk, g.idx) for g in st.frames)

    def widen(self, st, f):
        h = getattr(self.client, 'normalise', None)
        if h:
            h(self, st)
        c = (self.ctl(st), tuple(sorted((k, mon_shape(v)) for k, v in st.mon.items())))
        vs = self.visit.setdefault(c, [0, {}])
        vs[0] += 1
        # Registers of the loop (phis) whose integer value keeps changing.
        b = f.fn.blocks[f.blk]
        for ins in b['ins']:
            if ins['op'] != 'phi':
                break
            k = ins['id']
            if k not in f.regs:
                continue
            v = f.regs[k]
            vals = vs[1].setdefault(k, set())
            if len(vals) <= self.WIDEN_AFTER:
                vals.add(anon(v))
            if len(vals) > self.WIDEN_AFTER:
                if isinstance(v, int) and isinstance(ins['ty'], list):
                    f.regs[k] = st.fresh('w', ins['ty'][1])
                    self.stats['widened'] += 1
                elif isinstance(v, tuple) and v[0] == 'x':
                    f.regs[k] = st.fresh('w', twidth(v))
                    self.stats['widened'] += 1
                elif is_ptr(v) and not isinstance(v[2], int):
                    f.regs[k] = ('p', v[1], st.fresh('w'))
                    self.stats['widened'] += 1

    def gc(self, st):
        roots = []
        for k, (fr, e, t) in st.thr.items():
            roots.append(e or 0)
            roots.append(t or 0)
        for f in st.allframes():
            roots.extend(f.regs.values())
            roots.extend(f.args)
        for m in st.mon.values():
            roots.append(m)
        if st.exc:
            roots.append(st.exc)
        seen = set()
        work = []

        def scan(v):
            if isinstance(v, tuple):
                if v and v[0] == 'p' and len(v) == 3:
                    if v[1] not in seen:
                        seen.add(v[1])
                        work.append(v[1])
                    scan(v[2])
                else:
                    for x in v:
                        if isinstance(x, tuple):
                            scan(x)
        for r in roots:
            scan(r)
        for k, o in st.mem.items():
            if o.const:
                seen.add(k)
            elif o.kind in ('stack', 'global', 'extern') and o.alive is True:
                if k not in seen:
                    seen.add(k)
                    work.append(k)
        while work:
            k = work.pop()
            o = st.mem.get(k)
            if o is None or o.alive is not True or o.const:
                continue
            for sz, v in o.cells.values():
                scan(v)
            for v in o.sh.values():
                scan(v)
        for k in [k for k in st.mem if k not in seen]:
            o = st.mem[k]
            if o.kind == 'heap' and o.alive is True:
                self.leak(st, o)
            del st.mem[k]
        # Facts about symbols that are gone.
        return seen

    def leak(self, st, o):
        if self.client and hasattr(self.client, 'on_leak') and not self.client.on_leak(self, st, o):
            return
        self.report(st, 'leak', '%s is no longer reachable but was never released' % (o.name or 'memory'))

    def step(self, st):
        f = st.frames[-1]
        ins = f.fn.blocks[f.blk]['ins'][f.idx]
        self.stats['instructions'] += 1
        op = ins['op']
        if op == 'call' or op == 'invoke':
            return self.do_call(st, f, ins)
        if op == 'br':
            if 'cond' in ins:
                c = self.branch(st, self.operand(st, f, ins['cond']))
                return self.jump(st, f, ins['succ'][0 if c else 1])
            return self.jump(st, f, ins['succ'][0])
        if op == 'load':
            sz = tsize(ins['ty'])
            v = self.load(st, self.operand(st, f, ins['ops'][0]), sz, ins['ty'])
            f.regs[ins['id']] = v
        elif op == 'store':
            v = self.operand(st, f, ins['ops'][0])
            p = self.operand(st, f, ins['ops'][1])
            ty = ins['oty']
            if isinstance(ty, list) and ty[0] in ('s', 'a'):
                self.store_agg(st, p, v, ty)
            else:
                self.store(st, p, tsize(ty), v)
        elif op == 'alloca':
            n = self.operand(st, f, ins['n'])
            size = ins['size'] * n if isinstance(n, int) else None
            p = st.alloc('stack', size, ins.get('loc'), ins.get('name', ''))
            f.allocas += (p[1],)
            f.regs[ins['id']] = p
        elif op == 'getelementptr':
            f.regs[ins['id']] = self.gep(st, f, ins['gep'])
        elif op == 'icmp':
            a, b = (self.operand(st, f, o) for o in ins['ops'])
            w = ins['oty'][1] if isinstance(ins['oty'], list) else 64
            f.regs[ins['id']] = self.icmp(st, ins['pred'], a, b, w)
        elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = (self.operand(st, f, o) for o in ins['ops'])
            f.regs[ins['id']] = self.binop(st, op, ins['ty'][1], a, b)
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
            fw = ins['oty'][1] if isinstance(ins['oty'], list) else 64
            tw = ins['ty'][1] if isinstance(ins['ty'], list) else 64
            f.regs[ins['id']] = self.cast(st, op, fw, tw, self.operand(st, f, ins['ops'][0]))
        elif op == 'select':
            c = self.operand(st, f, ins['ops'][0])
            v = [self.operand(st, f, o) for o in ins['ops'][1:3]] if is_bit(c) else None
            if v in ([0, 1], [1, 0]) and isinstance(ins['ty'], list) and self.truth(st, c) is None:
                b = is_bit(c)       # the value of one bit
                if (c[1] == 'not') != (v == [1, 0]):
                    b = self.binop(st, 'xor', twidth(b), b, 1)
                w = ins['ty'][1]
                f.regs[ins['id']] = b if w == twidth(b) else self.cast(st, 'zext' if w > twidth(b) else 'trunc', twidth(b), w, b)
            else:
                c = self.branch(st, c)
                f.regs[ins['id']] = self.operand(st, f, ins['ops'][1 if c else 2])
        elif op == 'ret':
            v = self.operand(st, f, ins['ops'][0]) if ins['ops'] else None
            return self.do_ret(st, f, v)
        elif op == 'switch':
            v = self.operand(st, f, ins['cond'])
            if isinstance(v, int):
                d = ins['default']
                for c, b in ins['cases']:
                    if int(c) == v:
                        d = b
                return self.jump(st, f, d)
            if v == U:
                self.bad(st, 'uninitialised', 'a decision depends on an uninitialised value')
            out = []
            dflt = st.copy()
            okd = True
            for c, b in ins['cases']:
                t = self.eqt(st, int(c), v, ins['w'])
                if t == 0:
                    continue
                s2 = st.copy()
                if self.assume(s2, t, 1):
                    self.reset_frame(s2)
                    try:
                        if not self.jump(s2, s2.frames[-1], b):
                            out.append(s2)
                    except Stop:
                        pass
                okd = okd and self.assume(dflt, t, 0)
            if okd:
                if not self.jump(dflt, dflt.frames[-1], ins['default']):
                    out.append(dflt)
            self.stats['forks'] += 1
            self.work.extend(out)
            return True
        elif op == 'phi':
            pass
        elif op == 'unreachable':
            self.on_unreachable(st)
            return True
        elif op == 'extractvalue':
            v = self.operand(st, f, ins['ops'][0])
            f.regs[ins['id']] = agg_get(v, ins['idx'], st)
        elif op == 'insertvalue':
            v = self.operand(st, f, ins['ops'][0])
            e = self.operand(st, f, ins['ops'][1])
            f.regs[ins['id']] = agg_set(v, ins['idx'], e)
        elif op == 'landingpad':
            exc = st.exc
            st.exc = None
            sel = 0
            for k, c in ins['clauses']:
                if k == 'catch':
                    if c[0] == 'null':
                        sel = ('tid', None)
                        break
                    if exc_match(exc[0], c[1]):
                        sel = ('tid', c[1])
                        break
            f.regs[ins['id']] = ('agg', ((0, ('exc',) + tuple(exc)), (1, sel)))
        elif op == 'resume':
            v = self.operand(st, f, ins['ops'][0])
            e = agg_get(v, [0], st)
            return self.unwind(st, e[1], e[2])
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fcmp', 'fpext', 'fptrunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp'):
            a = tuple(self.operand(st, f, o) for o in ins['ops'])
            if U in a:
                f.regs[ins['id']] = U
            else:
                w = ins['ty'][1] if isinstance(ins['ty'], list) else 64
                f.regs[ins['id']] = ('x', op + (':' + ins['pred'] if 'pred' in ins else ''), w) + a
        elif op == 'freeze':
            v = self.operand(st, f, ins['ops'][0])
            f.regs[ins['id']] = v
        elif op == 'atomicrmw':
            p = self.operand(st, f, ins['ops'][0])
            sz = tsize(ins['ty'])
            f.regs[ins['id']] = self.load(st, p, sz)
            self.store(st, p, sz, st.fresh('atomic', sz * 8))
        elif op == 'cmpxchg':
            p = self.operand(st, f, ins['ops'][0])
            f.regs[ins['id']] = ('agg', ((0, st.fresh('old')), (1, st.fresh('ok', 1))))
        elif op == 'fence':
            pass
        elif op == 'insertelement' or op == 'shufflevector' or op == 'extractelement':
            f.regs[ins['id']] = st.fresh(op)
        else:
            raise ir.AnalysisBroken('instruction %s is not supported' % op)
        f.idx += 1
        return False

    def reset_frame(self, st):
        pass

    def store_agg(self, st, p, v, ty):
        if ty[0] == 's':
            for i, (off, ft) in enumerate(ty[2]):
                e = agg_get(v, [i], st)
                q = self.padd(st, p, off)
                if isinstance(ft, list) and ft[0] in ('s', 'a'):
                    self.store_agg(st, q, e, ft)
                else:
                    self.store(st, q, tsize(ft), e)
        else:
            for i in range(ty[1]):
                self.store(st, self.padd(st, p, i * ty[2]), tsize(ty[3]), agg_get(v, [i], st))

    def on_unreachable(self, st):
        f = st.frames[-1]
        # Directly after a noreturn call this is the normal end of the path,
        # which the call's model already took; what remains is code that runs
        # off the end of a value-returning function or into declared UB.
        self.report(st, 'falls-off-end', 'control runs off the end of %s without returning a value' % ir.strip_name(f.fn.dem))

    def do_ret(self, st, f, v):
        for a in f.allocas:
            o = st.mem.get(a)
            if o is not None:
                o.alive = False
                o.cells = {}
                o.sh = {}
        st.frames.pop()
        if f.native:
            nat = f.native
            if not st.frames:
                raise ir.AnalysisBroken('native return with an empty stack')
            r = nat(self, st, v)
            if r is NOADV:
                return False
            return self.finish_call(st, r)
        if not st.frames:
            if st.thr:
                return self.client.thread_end(self, st)
            self.ends += 1
            if self.leakcheck:
                self.gc_end(st)
            h = getattr(self.client, 'on_end', None)
            if h:
                try:
                    h(self, st, v)
                except Stop:
                    pass
            return True
        return self.finish_call(st, v)

    def gc_end(self, st):
        # Everything still on the heap and not held by a monitor has leaked.
        self.gc(st)

    def finish_call(self, st, v):
        """Completes the call instruction the top frame is stopped at."""
        f = st.frames[-1]
        ins = f.fn.blocks[f.blk]['ins'][f.idx]
        if v is not None:
            f.regs[ins['id']] = v
        if ins['op'] == 'invoke':
            return self.jump(st, f, ins['normal'])
        f.idx += 1
        return False

    def unwind(self, st, typ, payload):
        while st.frames:
            f = st.frames[-1]
            ins = f.fn.blocks[f.blk]['ins'][f.idx]
            if ins['op'] == 'invoke':
                # Does the landing pad do anything with this exception?
                lp = None
                for i in f.fn.blocks[ins['unwind']]['ins']:
                    if i['op'] == 'landingpad':
                        lp = i
                        break
                hit = lp and (lp['cleanup'] or any(k == 'catch' and (c[0] == 'null' or exc_match(typ, c[1])) for k, c in lp['clauses']))
                if hit:
                    st.exc = (typ, payload)
                    return self.jump(st, f, ins['unwind'])
            if f.fn.nounwind:
                self.report(st, 'terminate', 'exception %s leaves a noexcept function %s' % (tname(typ), ir.strip_name(f.fn.dem)))
                return True
            for a in f.allocas:
                o = st.mem.get(a)
                if o is not None:
                    o.alive = False
            st.frames.pop()
        h = getattr(self.client, 'on_uncaught', None)
        if h:
            h(self, st, typ)
        return True

    def outcomes(self, pairs):
        """Ends the current call with several alternative (state, result)s."""
        out = []
        for s, r in pairs:
            if isinstance(r, Raise):
                if not self.unwind(s, r.typ, r.payload):
                    out.append(s)
            elif not self.finish_call(s, r):
                out.append(s)
        if len(out) > 1:
            self.stats['forks'] += 1
        raise Fork(out)

    def do_call(self, st, f, ins):
        cal = self.operand(st, f, ins['callee'])
        args = [self.operand(st, f, o) for o in ins['ops']] if not (ins['callee'][0] == 'f' and ins['callee'][1].startswith('llvm.')) \
            else [self.operand(st, f, o) if o[0] != 'unk' else None for o in ins['ops']]
        return self.call(st, cal, args, ins)

    def call(self, st, cal, args, ins):
        if not (isinstance(cal, tuple) and cal[0] == 'fn'):
            h = getattr(self.client, 'indirect', None)
            if h:
                r = h(self, st, cal, args, ins)
                if r is not None:
                    return self.finish_model(st, r, ins)
            if cal == 0:
                self.bad(st, 'null-deref', 'call through a null function pointer')
            if cal == U:
                self.bad(st, 'uninitialised', 'call through an uninitialised function pointer')
            self.unmodelled.add('indirect call')
            return self.finish_model(st, self.fresh_ret(st, ins), ins)
        name = cal[1]
        fn = self.m.fns.get(name)
        m = self.intr.get(name)
        if m is None and fn is not None:
            m = self.models.get(fn.short)
            if m is None:
                for pred, mm in self.prefix:
                    if pred(fn):
                        m = mm
                        break
        c = Call(fn, name, args, ins)
        if m is not None:
            try:
                r = m(self, st, c)
            except Raise as e:
                return self.unwind(st, e.typ, e.payload)
            if r is not PASS:
                return self.finish_model(st, r, ins)
        if fn is not None and not fn.decl:
            a = list(args)
            for i, (ty, sret, byval, bsz) in enumerate(fn.args):
                if byval:
                    p = st.alloc('stack', bsz, None, 'byval')
                    self.copy_mem(st, p, a[i], bsz, 'read')
                    a[i] = p
            self.push(st, fn, a, ins.get('loc'))
            return False
        if name.startswith('llvm.'):
            return self.finish_model(st, self.intrinsic(st, name, args, ins), ins)
        h = getattr(self.client, 'unknown', None)
        if h:
            r = h(self, st, c)
            if r is not PASS:
                return self.finish_model(st, r, ins)
        self.unmodelled.add(fn.dem if fn else name)
        if ins.get('noreturn') or (fn and fn.noreturn):
            raise Stop()
        return self.finish_model(st, self.fresh_ret(st, ins), ins)

    def finish_model(self, st, r, ins):
        if r is PUSHED:
            return False
        return self.finish_call(st, r)

    def fresh_ret(self, st, ins):
        t = ins['ty']
        if t == 'v':
            return None
        if isinstance(t, list) and t[0] == 'i':
            return st.fresh('ret', t[1])
        if isinstance(t, list) and t[0] == 's':
            return ('agg', tuple((i, st.fresh('ret')) for i in range(len(t[2]))))
        return st.fresh('ret')

    def intrinsic(self, st, name, a, ins):
        if name.startswith('llvm.lifetime.start'):
            p = a[1]
            if is_ptr(p):
                o = st.mem.get(p[1])
                if o is not None and o.kind == 'stack':
                    o.alive = True
                    o.cells = {}
                    o.sh = {}
            return None
        if name.startswith('llvm.lifetime.end'):
            p = a[1]
            if is_ptr(p):
                o = st.mem.get(p[1])
                if o is not None and o.kind == 'stack':
                    o.alive = False
                    o.cells = {}
                    o.sh = {}
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            self.copy_mem(st, a[0], a[1], a[2], 'copy')
            return None
        if name.startswith('llvm.memset'):
            return model_memset(self, st, a[0], a[1], a[2])
        if name.startswith('llvm.eh.typeid.for'):
            return ('tid', a[0][1][2:]) if is_ptr(a[0]) else ('tid', None)
        if name.startswith('llvm.expect'):
            return a[0]
        if name.startswith(('llvm.assume', 'llvm.dbg', 'llvm.va_', 'llvm.stackrestore', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.invariant')):
            return None
        if name.startswith('llvm.stacksave'):
            return st.fresh('sp')
        if name == 'llvm.trap':
            self.on_unreachable(st)
            raise Stop()
        if name.startswith('llvm.is.constant'):
            return 0
        if name.startswith('llvm.objectsize'):
            return mask(64)
        if name.startswith(('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow', 'llvm.smul.with', 'llvm.sadd.with', 'llvm.ssub.with')):
            w = ins['ty'][2][0][1][1]
            op = {'mul': 'mul', 'add': 'add', 'sub': 'sub'}[name[6:9]]
            r = self.binop(st, op, w, a[0], a[1])
            if isinstance(a[0], int) and isinstance(a[1], int):
                full = {'mul': a[0] * a[1], 'add': a[0] + a[1], 'sub': a[0] - a[1]}[op] if name[5] == 'u' else 0
                ov = int(full != r) if name[5] == 'u' else 0
            else:
                ov = 0
            return ('agg', ((0, r), (1, ov)))
        if name.startswith(('llvm.umax', 'llvm.smax', 'llvm.umin', 'llvm.smin')):
            w = ins['ty'][1]
            c = self.icmp(st, name[5] + ('gt' if 'max' in name else 'lt'), a[0], a[1], w)
            return a[0] if self.branch(st, c) else a[1]
        self.unmodelled.add(name)
        return self.fresh_ret(st, ins)


class Call:
    __slots__ = ('fn', 'name', 'a', 'ins')

    def __init__(self, fn, name, a, ins):
        self.fn, self.name, self.a, self.ins = fn, name, a, ins

    def params(self):
        return ir.params(self.fn.dem) if self.fn else ''


PUSHED = object()   # the model pushed a frame; the call ends when it returns
PASS = object()     # the model declines
NOADV = object()


def call_into(eng, st, cal, args, cont):
    """Starts a call of a function value from within a model; cont(eng, st, ret)
    gives the model's own result once it returns."""
    if isinstance(cal, tuple) and cal[0] == 'fn':
        fn = eng.m.fns.get(cal[1])
        if fn and not fn.decl:
            eng.push(st, fn, args)
            st.frames[-1].native = cont
            return PUSHED
    raise ir.AnalysisBroken('call_into: no body for %s' % (cal,))


# -- terms ----------------------------------------------------------------------
def twidth(v):
    if isinstance(v, tuple) and v and v[0] in ('s', 'x'):
        return v[2]
    return 64


def is_bit(c):
    """The bit that a comparison `bit == 0` or its negation tests."""
    if isinstance(c, tuple) and c[0] == 'x' and c[1] == 'not':
        c = c[3]
    if isinstance(c, tuple) and c[0] == 'x' and c[1] == 'eq' and c[3] == 0 and isinstance(c[4], tuple) and c[4][0] == 'x' and c[4][1] == 'and' and c[4][4] == 1:
        return c[4]
    return None


def one_bit(v, w):
    """The lowest bit of v as bit i of another term, if v is made of casts and shifts (0 if it is clear); None if v is in normal form."""
    i, n, x = 0, 0, v
    while isinstance(x, tuple) and x[0] == 'x':
        if x[1] in ('zext', 'sext', 'trunc'):
            if not (isinstance(x[3], tuple) and x[3][0] in ('s', 'x')):
                return None
            fw = twidth(x[3])
            if x[1] == 'zext' and i >= fw: return 0
            if x[1] == 'sext' and i >= fw: i = fw - 1
        elif x[1] in ('lshr', 'ashr') and isinstance(x[4], int) and x[4] < x[2]:
            i += x[4]
            if i >= x[2]:
                if x[1] == 'lshr': return 0
                i = x[2] - 1
        else:
            break
        x, n = x[3], n + 1
    if not (isinstance(x, tuple) and x[0] in ('s', 'x')) or n == 0 or (n == 1 and v[1] == 'lshr'):
        return None
    return x, i


def small(v, w):
    return isinstance(v, tuple) and v[0] == 'x' and v[1] == 'zext' and twidth(v[3]) <= w


def notb(t):
    if isinstance(t, int):
        return 1 - (t & 1)
    if t == U:
        return U
    if isinstance(t, tuple) and t[0] == 'x' and t[1] == 'not':
        return t[3]
    return ('x', 'not', 1, t)


def lin(v):
    """Linear view: (dict term->coef, const)."""
    if isinstance(v, int):
        return {}, v
    if isinstance(v, tuple) and v[0] == 'x':
        if v[1] == 'add':
            d, c = lin(v[3])
            d2, c2 = lin(v[4])
            d = dict(d)
            for k, n in d2.items():
                d[k] = d.get(k, 0) + n
            return d, c + c2
        if v[1] == 'mul' and isinstance(v[4], int):
            d, c = lin(v[3])
            return {k: n * v[4] for k, n in d.items()}, c * v[4]
    return {v: 1}, 0


def untrunc(v):
    """The 64-bit value of a signed 32-bit sum of lengths (no overflow)."""
    d, c = lin(v)
    r = c
    for k, n in d.items():
        if not (k[0] == 'x' and k[1] == 'trunc' and twidth(k[3]) == 64):
            return None
        r = addt(r, mult(k[3], n))
    return r


def is_lin(v):
    return isinstance(v, tuple) and v[0] == 'x' and v[1] in ('add', 'mul')


def unlin(d, c, w):
    t = None
    for k in sorted((k for k in d if d[k]), key=repr):
        n = d[k]
        e = k if n == 1 else ('x', 'mul', w, k, n)
        t = e if t is None else ('x', 'add', w, t, e)
    if t is None:
        return c & mask(w)
    c = sgn(c & mask(w), w)
    return t if c == 0 else ('x', 'add', w, t, c)


def addt(a, b, w=64):
    """Sum.  Offsets of pointers (Python ints, signed) and machine words."""
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    d, c = lin(a)
    d2, c2 = lin(b)
    if isinstance(b, int):
        c2 = sgn(b & mask(w), w)
    d = dict(d)
    for k, n in d2.items():
        d[k] = d.get(k, 0) + n
    r = unlin(d, sgn(c & mask(w), w) + c2, w)
    return r


def mult(a, n, w=64):
    if isinstance(a, int):
        return a * n
    d, c = lin(a)
    return unlin({k: v * n for k, v in d.items()}, c * n, w)


def monomial(v):
    if v[0] == 'x' and v[1] == 'prod':
        return monomial(v[3]) + monomial(v[4])
    return [v]


def polymul(a, b, w):
    """Product of two polynomials modulo 2^w, in the normal form: a sum of
    products of sorted factors."""
    da, ca = lin(a)
    db, cb = lin(b)
    d = {}
    for ka, na in list(da.items()) + [(None, ca)]:
        for kb, nb in list(db.items()) + [(None, cb)]:
            if not na * nb:
                continue
            f = sorted((monomial(ka) if ka else []) + (monomial(kb) if kb else []), key=repr)
            k = f[0] if f else None
            for t in f[1:]:
                k = ('x', 'prod', w, k, t)
            d[k] = d.get(k, 0) + na * nb
    c = d.pop(None, 0)
    return unlin(d, c, w)


def div_lin(a, b, w):
    if not (isinstance(a, tuple) and a[0] == 'x'):
        return None
    d, c = lin(a)
    if not b or c % b or any(n % b for n in d.values()):
        return None
    return unlin({k: n // b for k, n in d.items()}, c // b, w)


def split_base(p):
    if isinstance(p, tuple) and p[0] == 's':
        return p, 0
    if isinstance(p, tuple) and p[0] == 'x' and p[1] == 'add':
        d, c = lin(p)
        if len(d) == 1 and list(d.values()) == [1]:
            return list(d)[0], c
    return None, 0


def bits_undef(op, w, a, b):
    def parts(v):
        if v == U:
            return mask(w), 0
        if isinstance(v, tuple) and v[0] == 'pu':
            return v[2], v[3]
        if isinstance(v, int):
            return 0, v
        return None
    pa, pb = parts(a), parts(b)
    if pa is None or pb is None:
        # Half-defined mixed with a term: e.g. bit-field insertion of a symbolic
        # bit.  Keep the term when the other part is undefined only elsewhere.
        return ('x', op, w, a, b) if op in ('or', 'and') else U
    (ua, va), (ub, vb) = pa, pb
    if op == 'and':
        zero = (~ua & ~va) | (~ub & ~vb)
        u = (ua | ub) & ~zero & mask(w)
        v = va & vb & ~u
    elif op == 'or':
        one = (~ua & va) | (~ub & vb)
        u = (ua | ub) & ~one & mask(w)
        v = (va | vb) & ~u & mask(w)
    elif op in ('shl', 'lshr') and ub == 0:
        if op == 'shl':
            u, v = (ua << vb) & mask(w), (va << vb) & mask(w)
        else:
            u, v = ua >> vb, va >> vb
    elif op == 'ashr' and ub == 0:
        u, v = mask(w), 0
        if not (ua >> (w - 1)) & 1:
            u = ua >> vb
            v = (sgn(va, w) >> vb) & mask(w) & ~u
        else:
            u = ((ua >> vb) | (mask(w) & ~(mask(w) >> vb))) & mask(w)
            v = (va >> vb) & ~u
    elif op == 'xor':
        u = ua | ub
        v = (va ^ vb) & ~u
    else:
        return U
    if u == 0:
        return v
    if u == mask(w):
        return U
    return ('pu', w, u, v)


def tsize(ty):
    if isinstance(ty, str):
        return 8
    if ty[0] == 'i':
        return max(1, (ty[1] + 7) // 8)
    if ty[0] == 'f':
        return 16 if ty[1] == 80 else ty[1] // 8
    if ty[0] == 's':
        return ty[1]
    if ty[0] == 'a':
        return ty[1] * ty[2]
    return 8


def agg_get(v, idx, st):
    for i in idx:
        if isinstance(v, tuple) and v and v[0] == 'agg':
            v = dict(v[1]).get(i, U)
        elif v == ('aggz',):
            v = 0
        elif v == U:
            return U
        else:
            v = ('x', 'field%d' % i, 64, v)
    return v


def agg_set(v, idx, e):
    d = dict(v[1]) if isinstance(v, tuple) and v and v[0] == 'agg' else {}
    if len(idx) == 1:
        d[idx[0]] = e
    else:
        d[idx[0]] = agg_set(d.get(idx[0], ('agg', ())), idx[1:], e)
    return ('agg', tuple(sorted(d.items())))


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, tuple):
        return any(contains(e, x) for e in t if isinstance(e, tuple))
    return False


def tname(t):
    return t[1] if isinstance(t, tuple) and len(t) > 1 else str(t)


EXC_BASES = {
    '_ZTISt16invalid_argument': ['_ZTISt11logic_error'],
    '_ZTISt12out_of_range': ['_ZTISt11logic_error'],
    '_ZTISt12length_error': ['_ZTISt11logic_error'],
    '_ZTISt12domain_error': ['_ZTISt11logic_error'],
    '_ZTISt11logic_error': ['_ZTISt9exception'],
    '_ZTISt13runtime_error': ['_ZTISt9exception'],
    '_ZTISt12system_error': ['_ZTISt13runtime_error'],
    '_ZTISt9bad_alloc': ['_ZTISt9exception'],
    '_ZTISt12future_error': ['_ZTISt11logic_error'],
}


def exc_match(t, c):
    if t == c:
        return True
    return any(exc_match(b, c) for b in EXC_BASES.get(t, ()))


# -- substitution and canonical form ------------------------------------------------
def restrict(st, x, m):
    d = st.dom[x] & m
    if not d:
        return False
    if d & (d - 1) == 0:
        st.dom[x] = d
        subst(st, x, d.bit_length() - 1)
    else:
        st.dom[x] = d
    return True


TABLES = {}      # name of a character function -> value for each int argument in -128..255
_C8 = ('s', 'byte', 8, 0)
_domc = {}


def one_sym(v, s=None):
    """The only symbol of a term; None if it has none, False if several."""
    if isinstance(v, tuple) and v:
        if v[0] == 's' and len(v) == 4:
            return v if s is None or s == v else False
        for e in v:
            if isinstance(e, tuple):
                s = one_sym(e, s)
                if s is False:
                    return False
    return s


def dom_set(st, v):
    """(x, set of the values of the byte x for which the term holds)."""
    x = one_sym(v)
    if not x or x not in st.dom:
        return None
    k = sub_raw(v, x)
    m = _domc.get(k)
    if m is None:
        m = 0
        try:
            for b in range(256):
                if dom_eval(k, b) & 1:
                    m |= 1 << b
        except KeyError:
            m = -1
        _domc[k] = m
    return None if m == -1 else (x, m)


def dom_values(st, v):
    """The possible values of a term over one byte, with the sets of the byte."""
    x = one_sym(v)
    if not x or x not in st.dom:
        return None
    k = sub_raw(v, x)
    out = {}
    try:
        for b in range(256):
            if st.dom[x] >> b & 1:
                r = dom_eval(k, b)
                out[r] = out.get(r, 0) | 1 << b
    except KeyError:
        return None
    return x, out


def sub_raw(v, x):
    if v == x:
        return _C8
    return tuple(sub_raw(e, x) if isinstance(e, tuple) else e for e in v)


def dom_eval(v, b):
    if isinstance(v, int):
        return v
    if v == _C8:
        return b
    if v[0] != 'x':
        raise KeyError(v)
    op, w = v[1], v[2]
    if op == 'tbl':
        return TABLES[v[4]][sgn(dom_eval(v[3], b) & mask(32), 32)]
    a = [dom_eval(e, b) for e in v[3:]]
    if op == 'zext':
        return a[0]
    if op == 'sext':
        return sgn(a[0], twidth(v[3])) & mask(w)
    if op == 'trunc':
        return a[0] & mask(w)
    if op == 'not':
        return 1 - (a[0] & 1)
    if op == 'and1':
        return a[0] & a[1]
    if op == 'or1':
        return a[0] | a[1]
    ww = w
    if op in ('eq', 'ult', 'ule', 'slt', 'sle'):
        ww = max([twidth(e) for e in v[3:] if not isinstance(e, int)] or [64])
        a = [e & mask(ww) for e in a]
        if op == 'eq':
            return int(a[0] == a[1])
        if op[0] == 's':
            a = [sgn(e, ww) for e in a]
        return int(a[0] < a[1] if op[1:] == 'lt' else a[0] <= a[1])
    a = [e & mask(w) for e in a]
    if op == 'add':
        return (a[0] + a[1]) & mask(w)
    if op == 'mul':
        return a[0] * a[1] & mask(w)
    if op == 'and':
        return a[0] & a[1]
    if op == 'or':
        return a[0] | a[1]
    if op == 'xor':
        return a[0] ^ a[1]
    if op == 'shl' and a[1] < w:
        return a[0] << a[1] & mask(w)
    if op == 'lshr' and a[1] < w:
        return a[0] >> a[1]
    raise KeyError(op)


def sub_val(v, x, y, cache):
    if v == x:
        return y
    if not isinstance(v, tuple) or not v:
        return v
    k = id(v)
    r = []
    ch = False
    for e in v:
        if isinstance(e, tuple):
            n = y if e == x else sub_val(e, x, y, cache)
            if n is not e:
                ch = True
            r.append(n)
        else:
            r.append(e)
    if not ch:
        return v
    if v[0] == 'x' and v[1] == 'sext' and isinstance(r[3], int):
        return sgn(r[3], twidth(v[3])) & mask(v[2])
    if v[0] == 'x' and v[1] == 'tbl' and isinstance(r[3], int):
        return TABLES[v[4]][sgn(r[3] & mask(32), 32)] & mask(v[2])
    return resimplify(tuple(r))


_simp = None


def resimplify(v):
    global _simp
    if v and v[0] == 'x':
        if _simp is None:
            _simp = Engine.__new__(Engine)
            _simp.client = None
            _simp.stats = {'forks': 0}
        st = _EMPTY
        op, w = v[1], v[2]
        try:
            if op == 'eq':
                return _simp.eqt(st, v[3], v[4], 64)
            if op == 'len':
                if isinstance(v[3], tuple) and v[3] and v[3][0] in ('cat', 'nil'):
                    from .lazystr import simp_len
                    return simp_len(v)
                return v
            if op in ('ult', 'slt', 'ule', 'sle'):
                ww = 64
                for e in v[3:]:
                    if is_sym(e):
                        ww = twidth(e)
                return _simp.icmp(st, op, v[3], v[4], ww)
            if op == 'not':
                return notb(v[3])
            if op in ('and1', 'or1'):
                return _simp.binop(st, op[:-1], 1, v[3], v[4])
            if op in ('zext', 'sext', 'trunc'):
                if isinstance(v[3], int):
                    # the source width is unknown for constants; kept small
                    return v[3] if op == 'zext' else (v[3] & mask(w) if op == 'trunc' else v[3] & mask(w))
                return _simp.cast(st, op, twidth(v[3]), w, v[3])
            if op in ('add', 'mul'):
                a, b = v[3], v[4]
                if op == 'add':
                    if is_ptr(a): return _simp.padd(st, a, b)
                    if is_ptr(b): return _simp.padd(st, b, a)
                    if isinstance(a, int) and isinstance(b, int): return (a + b) & mask(w)
                    return addt(a, b, w)
                if isinstance(a, int) and isinstance(b, int): return (a * b) & mask(w)
                return mult(a, b, w) if isinstance(b, int) else v
            if op in ('sub', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                return _simp.binop(st, op, w, v[3], v[4])
        except (Stop, Raise):
            return v
    elif v and v[0] == 'p' and len(v) == 3 and isinstance(v[2], tuple):
        pass
    return v


_EMPTY = State()


def anon(v):
    """A value without the numbers of its symbols."""
    if isinstance(v, tuple):
        return v[:3] if len(v) == 4 and v[0] == 's' else tuple(anon(e) for e in v)
    return v


def subst(st, x, y):
    """Replaces symbol x by y everywhere in the state."""
    c = {}
    if x in st.dom:
        d = st.dom.pop(x)
        if isinstance(y, int):
            if not d >> (y & 255) & 1:
                raise Stop()
        elif y in st.dom:
            if not st.dom[y] & d:
                raise Stop()
            st.dom[y] &= d
        elif is_sym(y) and y[0] == 's' and y[2] == 8:
            st.dom[y] = d
    for f in st.allframes():
        for k, v in f.regs.items():
            if isinstance(v, tuple):
                f.regs[k] = sub_val(v, x, y, c)
        f.args = tuple(sub_val(a, x, y, c) if isinstance(a, tuple) else a for a in f.args)
    for o in st.mem.values():
        if o.const:
            continue
        for k, (s, v) in o.cells.items():
            if isinstance(v, tuple):
                o.cells[k] = (s, sub_val(v, x, y, c))
        for k, v in o.sh.items():
            o.sh[k] = sub_val(v, x, y, c)
        if isinstance(o.size, tuple):
            o.size = sub_val(o.size, x, y, c)
    for k, v in list(st.mon.items()):
        if isinstance(v, tuple):
            st.mon[k] = sub_val(v, x, y, c)
    nf = {}
    for k, v in st.facts.items():
        n = sub_val(k, x, y, c)
        if isinstance(n, int):
            if (n & 1) != v:
                raise Stop()
            continue
        if n in nf and nf[n] != v:
            raise Stop()
        if isinstance(n, tuple) and n[0] == 'x' and n[1] == 'not':
            n, v = n[3], 1 - v
        nf[n] = v
    st.facts = nf
    nr = {}
    for k, v in st.rng.items():
        n = sub_val(k, x, y, c)
        if isinstance(n, int):
            w = twidth(k)
            s = sgn(n & mask(w), w)
            if not v[0] <= s <= v[1]:
                raise Stop()
            continue
        if n in nr:
            v = (max(v[0], nr[n][0]), min(v[1], nr[n][1]))
            if v[0] > v[1]:
                raise Stop()
        nr[n] = v
    st.rng = nr
    if st.exc:
        st.exc = sub_val(st.exc, x, y, c)


def mon_shape(v):
    if isinstance(v, tuple):
        return tuple(mon_shape(e) for e in v if not (isinstance(e, tuple) and e and e[0] in ('s', 'x', 'p'))) + (len(v),)
    return v


def canon(st):
    ren = {}
    onum = {}
    order = []

    def r(v):
        if isinstance(v, tuple):
            if not v:
                return v
            k = v[0]
            if k == 's' and len(v) == 4:
                n = ren.get(v)
                if n is None:
                    n = ren[v] = len(ren)
                return ('s', n, v[2])
            if k == 'p' and len(v) == 3:
                n = onum.get(v[1])
                if n is None:
                    n = onum[v[1]] = len(onum)
                    order.append(v[1])
                return ('p', n, r(v[2]))
            return tuple(r(e) for e in v)
        return v
    out = []
    out.append((st.cur, r(st.status) if st.status else None, tuple((k, len(t[0]), r(t[2]) if t[2] else None, r(t[1]) if t[1] else None) for k, t in sorted(st.thr.items()))))
    for f in st.allframes():
        out.append((f.fn.name, f.blk, f.idx, tuple(r(a) for a in f.args),
                    tuple((k, r(f.regs[k])) for k in sorted(f.regs)), id(f.native) if f.native else 0))
    for k in sorted(st.mon):
        out.append((k, r(st.mon[k])))
    out.append(r(st.exc) if st.exc else None)
    i = 0
    gl = sorted((k for k, o in st.mem.items() if isinstance(k, str) and not o.const))
    for k in gl:
        r(('p', k, 0))
    while i < len(order):
        o = st.mem.get(order[i])
        i += 1
        if o is None:
            out.append(None)
            continue
        if o.alive is not True:
            out.append(('dead', o.kind))
            continue
        if o.const:
            out.append(o.name)
            continue
        out.append((o.kind, r(o.size) if isinstance(o.size, tuple) else o.size, o.name if o.kind == 'global' else '', o.fill,
                    tuple((k, o.cells[k][0], r(o.cells[k][1])) for k in sorted(o.cells)),
                    tuple((k, r(o.sh[k])) for k in sorted(o.sh))))
    # Facts and ranges over symbols that are still in the state.
    fs = []
    dead = []
    for k, v in st.facts.items():
        if syms_in(k) <= ren.keys():
            fs.append((r(k), v))
        elif not (syms_in(k) & ren.keys()):
            dead.append(k)
    for k in dead:
        del st.facts[k]
    fs.sort(key=repr)
    rs = sorted(((r(k), v) for k, v in st.rng.items() if syms_in(k) <= ren.keys()), key=repr)
    out.append(tuple(fs))
    out.append(tuple(rs))
    if st.dom:
        for k in [k for k in st.dom if k not in ren]:
            del st.dom[k]
        out.append(tuple(sorted((ren[k], hex(v)) for k, v in st.dom.items())))
    return hash_key(tuple(out))


def hash_key(t):
    try:
        b = marshal.dumps(t, 2)
    except ValueError:
        b = repr(t).encode()
    return hashlib.blake2b(b, digest_size=16).digest()


def syms_in(v, acc=None):
    if acc is None:
        acc = set()
    if isinstance(v, tuple) and v:
        if v[0] == 's' and len(v) == 4:
            acc.add(v)
        else:
            for e in v:
                if isinstance(e, tuple):
                    syms_in(e, acc)
    return acc


def pretty(v):
    if isinstance(v, tuple) and v:
        if v[0] == 's':
            return str(v[1])
        if v[0] == 'x':
            return '%s(%s)' % (v[1], ', '.join(pretty(e) for e in v[3:]))
        if v[0] == 'p':
            return '&obj+%s' % pretty(v[2])
        if v[0] == 'u':
            return 'uninitialised'
        return '(' + ' '.join(pretty(e) for e in v) + ')'
    return str(v)


# -- libc / runtime models ---------------------------------------------------------
def model_memset(eng, st, p, v, n):
    if n == 0:
        return None
    o = eng.obj(st, p, 'write')
    if isinstance(n, int) and isinstance(p[2], int):
        if isinstance(o.size, int) and (p[2] < 0 or p[2] + n > o.size):
            eng.bad(st, 'out-of-bounds', 'memset of %d bytes at offset %d of a %d byte object' % (n, p[2], o.size))
        if isinstance(v, int):
            eng.clear_range(st, o, p[2], n)
            for co in [c for c in o.cells if p[2] <= c < p[2] + n]:
                del o.cells[co]
            b = v & 255
            o.cells[p[2]] = (n, int.from_bytes(bytes([b]) * n, 'little'))
            return None
    o.cells.clear()
    o.fill = 'lazy'
    return None


def heap_alloc(how):
    def m(eng, st, c):
        size = c.a[0]
        p = st.alloc('heap', size, None, how + ' memory allocated at ' + site_text(eng, st))
        st.mem[p[1]].sh[-1] = how
        eng.site(st, 'allocation')
        h = getattr(eng.client, 'on_alloc', None)
        if h:
            h(eng, st, p, how)
        return p
    return m


def site_text(eng, st):
    for loc, fn in eng.stack(st):
        if loc and loc[0].startswith(ir.REPO + '/'):
            return '%s (%s)' % (os.path.relpath(loc[0], ir.REPO), fn)
    for loc, fn in eng.stack(st):
        if loc:
            return fn
    return '?'


def heap_free(how):
    def m(eng, st, c):
        p = c.a[0]
        if p == 0:
            return None
        if p == U:
            eng.bad(st, 'uninitialised', 'release of an uninitialised pointer')
        if isinstance(p, tuple) and is_sym(p):
            if eng.known_null(st, p) is None and p[0] == 's':
                eng.fork_null(st, p)
            h = getattr(eng.client, 'free_sym', None)
            if h:
                return h(eng, st, p, how)
            return None
        if not is_ptr(p):
            eng.bad(st, 'invalid-free', 'release of a value that is not a heap pointer')
        o = st.mem.get(p[1])
        eng.site(st, 'release')
        if o is None or o.alive is not True:
            eng.bad(st, 'double-free', 'release of %s that was already released' % (o.name if o else 'memory'))
        if o.kind not in ('heap', 'extern') or p[2] != 0:
            eng.bad(st, 'invalid-free', 'release of memory that was not allocated by the matching function')
        if o.kind == 'heap' and o.sh.get(-1) != how:
            eng.bad(st, 'mismatched-free', '%s released with %s' % (o.name, {'new': 'delete', 'new[]': 'delete[]', 'malloc': 'free()'}[how]))
        h = getattr(eng.client, 'on_free', None)
        if h:
            h(eng, st, p, how)
        o.alive = False
        o.cells = {}
        o.sh = {}
        return None
    return m


def m_assert_fail(eng, st, c):
    msg = c_string(eng, st, c.a[0])
    eng.report(st, 'assertion', 'assertion can fail: %s' % (msg or '?'))
    raise Stop()


def c_string(eng, st, p):
    if not is_ptr(p):
        return None
    o = st.mem.get(p[1])
    if o is None or not isinstance(p[2], int):
        return None
    out = bytearray()
    i = p[2]
    while True:
        v = eng.load_slow(st, o, i, 1) if o.fill != 'lazy' or any(c <= i < c + s for c, (s, _) in o.cells.items()) else None
        if not isinstance(v, int):
            return None
        if v == 0:
            return out.decode('latin1')
        out.append(v)
        i += 1
        if len(out) > 4000:
            return None


def tables():
    import string
    for n, f in {'isspace': lambda c: c in (9, 10, 11, 12, 13, 32), 'isdigit': lambda c: 48 <= c < 58,
                 'isalpha': lambda c: 65 <= c < 91 or 97 <= c < 123, 'isupper': lambda c: 65 <= c < 91,
                 'islower': lambda c: 97 <= c < 123, 'isprint': lambda c: 32 <= c < 127, 'iscntrl': lambda c: 0 <= c < 32 or c == 127,
                 'isgraph': lambda c: 32 < c < 127, 'isblank': lambda c: c in (9, 32),
                 'isalnum': lambda c: 48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123,
                 'isxdigit': lambda c: 48 <= c < 58 or 65 <= c < 71 or 97 <= c < 103,
                 'ispunct': lambda c: 32 < c < 127 and not chr(c).isalnum()}.items():
        TABLES[n] = {c: int(bool(f(c))) for c in range(-128, 256)}
    TABLES['tolower'] = {c: c + 32 if 65 <= c < 91 else c for c in range(-128, 256)}
    TABLES['toupper'] = {c: c - 32 if 97 <= c < 123 else c for c in range(-128, 256)}


tables()


def char_function(name):
    def m(eng, st, c):
        v = c.a[0]
        if isinstance(v, int):
            return TABLES[name].get(sgn(v & mask(32), 32), 0) & mask(32)
        if v == U:
            eng.bad(st, 'uninitialised', 'an uninitialised character is classified')
        return ('x', 'tbl', 32, v, name)
    return m


def install_libc(e):
    for n in TABLES:
        e.intr[n] = char_function(n)
    i = e.intr
    i['_Znwm'] = heap_alloc('new')
    i['_Znam'] = heap_alloc('new[]')
    i['_ZnwmRKSt9nothrow_t'] = heap_alloc('new')
    i['_ZnamRKSt9nothrow_t'] = heap_alloc('new[]')
    i['malloc'] = heap_alloc('malloc')
    for n in ('_ZdlPv', '_ZdlPvm', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t'):
        i[n] = heap_free('new')
    for n in ('_ZdaPv', '_ZdaPvm', '_ZdaPvRKSt9nothrow_t'):
        i[n] = heap_free('new[]')
    i['free'] = heap_free('malloc')
    i['__assert_fail'] = m_assert_fail

    def cp(eng, st, c):
        eng.copy_mem(st, c.a[0], c.a[1], c.a[2], 'copy')
        return c.a[0]
    i['memcpy'] = i['memmove'] = cp

    def ms(eng, st, c):
        model_memset(eng, st, *c.a[:3])
        return c.a[0]
    i['memset'] = ms

    def term(eng, st, c):
        eng.report(st, 'terminate', '%s is reachable' % c.name)
        raise Stop()
    i['__clang_call_terminate'] = i['_ZSt9terminatev'] = i['abort'] = term

    def exc_alloc(eng, st, c):
        p = st.alloc('exc', c.a[0], None, 'exception')
        return p
    i['__cxa_allocate_exception'] = exc_alloc
    i['__cxa_free_exception'] = lambda eng, st, c: None

    def throw(eng, st, c):
        t = c.a[1]
        raise Raise(t[1][2:] if is_ptr(t) else None, 0)
    i['__cxa_throw'] = throw

    def begin(eng, st, c):
        return st.fresh('exc')
    i['__cxa_begin_catch'] = begin
    i['__cxa_end_catch'] = lambda eng, st, c: None

    def rethrow(eng, st, c):
        raise Raise('rethrown', 0)
    i['__cxa_rethrow'] = rethrow
    i['__cxa_guard_acquire'] = lambda eng, st, c: 1
    i['__cxa_guard_release'] = lambda eng, st, c: None
    i['__cxa_guard_abort'] = lambda eng, st, c: None
    i['__cxa_atexit'] = lambda eng, st, c: 0
    i['__cxa_pure_virtual'] = term

    for k in ('__throw_logic_error', '__throw_length_error', '__throw_out_of_range_fmt', '__throw_bad_alloc',
              '__throw_bad_function_call', '__throw_system_error', '__throw_out_of_range', '__throw_invalid_argument',
              '__throw_bad_array_new_length', '__throw_bad_optional_access'):
        pass


def term_bytes(v, w):
    """The bytes of a value, lowest first: constants or (term, index)."""
    n = max(1, w // 8)
    if isinstance(v, int):
        return [(v >> (8 * i)) & 255 for i in range(n)]
    t = [(v, i) for i in range(n)]
    if not (isinstance(v, tuple) and v[0] == 'x'):
        return t
    op = v[1]
    if op in ('zext', 'trunc', 'sext'):
        iw = twidth(v[3])
        if iw < 8:
            return t
        b = term_bytes(v[3], iw)
        if op == 'sext' and iw < w:
            if b[-1] != 0:
                return t
        return (b + [0] * n)[:n]
    if op == 'bswap':
        return term_bytes(v[3], w)[::-1]
    if op == 'and' and isinstance(v[4], int):
        b = term_bytes(v[3], w)
        for i in range(n):
            m = (v[4] >> (8 * i)) & 255
            if m == 0:
                b[i] = 0
            elif m != 255:
                return t
        return b
    if op in ('or', 'add', 'xor'):
        b, c = term_bytes(v[3], w), term_bytes(v[4], w)
        if all(x == 0 or y == 0 for x, y in zip(b, c)):
            return [y if x == 0 else x for x, y in zip(b, c)]
        return t
    if op in ('shl', 'lshr', 'ashr') and isinstance(v[4], int) and v[4] % 8 == 0:
        b = term_bytes(v[3], w)
        k = v[4] // 8
        if op == 'shl':
            return ([0] * k + b)[:n]
        if op == 'ashr' and b[-1] != 0:
            return t
        return (b[k:] + [0] * k)[:n]
    if op == 'mul' and v[4] == 256:
        return ([0] + term_bytes(v[3], w))[:n]
    return t
