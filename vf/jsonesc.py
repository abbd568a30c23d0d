"""Json.h: escape sequences.  A specification automaton turns the characters of
the text, in order, into the characters of the result; at loop heads the
characters that the code has converted as well become part of a symbol P, and
their conversion part of a symbol E (the conversion of P)."""
from .json import *

ESC = {10: b'n', 9: b't', 11: b'v', 12: b'f', 13: b'r', 34: b'"', 92: b'\\'}
UNESC = {v[0]: k for k, v in ESC.items()}


class Escape:
    """Specification of escape(): no memory."""
    def __init__(self, nul=True):
        self.nul = nul

    def enough(self, s):
        return True

    def next(self, s, b):
        if b == 0 and not self.nul:
            return ('never',)
        return ('c', b if b in ESC else 0)

    def convert(self, chars, end):
        """-> [number of characters read, what they become], ..."""
        return [(i + 1, (92,) + tuple(ESC[c]) if c in ESC else (c,)) for i, c in enumerate(chars)]


class Unescape:
    """Specification of unescape(): states are whether a backslash was read."""
    def enough(self, s):
        return True

    def next(self, s, b):
        if s[0] == 'bs':
            return ('e', b if b in UNESC else 0)
        return ('bs',) if b == 92 else ('c', 0)

    def convert(self, chars, end):
        out = []
        i = 0
        while i < len(chars):
            if chars[i] == 92:
                if i + 1 < len(chars):
                    i += 2
                    out.append((i, (UNESC.get(chars[i - 1], chars[i - 1]),)))
                    continue
                if not end:
                    break
            i += 1
            out.append((i, (chars[i - 1],)))
        return out


def is_out(p):
    return isinstance(p, tuple) and p and p[0] == 's' and p[1] == 'pre'


class JsonEscape(Json):
    def __init__(self, eng):
        super().__init__(eng)
        self.automata.update({'escape': Escape(), 'cescape': Escape(False), 'unescape': Unescape()})
        self.seen = {}
        i = eng.intr

        def text(eng, st, c):
            R = st.fresh('seq')
            kind = ('escape', 'cescape', 'unescape', 'escape', 'unescape', 'unescape')[c.a[1]]
            st.mon['text'] = ('text', c.a[0])
            st.mon['P'] = st.mon['E'] = ('nil',)
            eng.strings.put(eng, st, c.a[0], (R,))
            st.mon['watch'] = ('watch', R, ('@', 0), ('c', 0), kind)
            if c.a[1] == 1:
                st.mon['nulfree'] = ('nulfree',)
            if c.a[1] == 5:
                st.mon['least'] = ('least', 2)
            if c.a[1] == 3:
                eng.strings.put(eng, st, c.a[0], ())
                st.mon['watch'] = ('watch', ('nil',), ('@', 0), ('c', 0), kind)
        i['spec_text'] = text

        def out(eng, st, c):
            J = st.fresh('pre')
            st.rng[('x', 'len', 64, J)] = (0, BIG)
            st.mon['J'] = J
            eng.strings.put(eng, st, c.a[0], (J,))
        i['spec_out'] = out
        i['spec_is'] = self.check
        i['spec_is_c'] = self.check_c
        i['spec_is_char'] = self.check_char

        def token(eng, st, c):
            A, B = st.fresh('pre'), st.fresh('pre')
            for x in (A, B):
                st.rng[('x', 'len', 64, x)] = (0, BIG)
            v = flat(eng.strings.get(eng, st, st.mon['text'][1]))
            eng.strings.put(eng, st, c.a[0], (A, 34) + v + (34, B))
            st.mon['token'] = ('token', addt(('x', 'len', 64, A), 1), A)
        i['spec_token'] = token

        def contents(eng, st, c):
            a = st.mon['token'][1]
            n = eng.strings.length(eng, st, eng.strings.get(eng, st, st.mon['text'][1]))
            eng.store(st, c.a[0], 8, a)
            eng.store(st, c.a[1], 8, addt(addt(a, n), -1))
        i['spec_contents'] = contents

    def watched(self, eng, st):
        if st.mon['watch'][3][0] == 'never':
            raise Stop()

    # what is known -----------------------------------------------------------------
    def chars(self, st, v):
        """Characters that were read since P was folded, and whether they are all."""
        v = flat(v)
        P = st.mon['P']
        if P != ('nil',):
            v = v[v.index(P) + 1:]
        out = []
        for p in v:
            if not is_char(p):
                return out, False
            out.append(value(st, p))
        return out, True

    def prefix(self, st, quote):
        return ((st.mon['J'],) if 'J' in st.mon else ()) + ((34,) if quote else ())

    def check(self, eng, st, c):
        want = self.wanted(eng, st, c.a[1])
        got = tuple(value(st, p) for p in flat(eng.strings.get(eng, st, c.a[0])))
        if got != want:
            eng.bad(st, 'specification', 'the result is %s instead of %s' % (show(got), show(want)))

    def check_c(self, eng, st, c):
        want = self.wanted(eng, st, 0) + (0,)
        o = eng.obj(st, c.a[0], 'read')
        d = o.sh.get(-2)
        got = tuple(value(st, p) for p in flat(d[1])) if d else ()
        while o.cells.get(len(got), (0,))[0] == 1:
            got += (value(st, charpiece(o.cells[len(got)][1])),)
        if c.a[0][2] != 0 or got != want:
            eng.bad(st, 'specification', 'the result is %s instead of %s' % (show(got), show(want)))

    def check_char(self, eng, st, c):
        want = self.wanted(eng, st, 0)
        r = eng.branch(st, c.a[0])
        ok = len(want) == 1 and is_char(want[0])
        if r != ok:
            eng.bad(st, 'specification', 'the result is %s although the token is %s' % (('false', 'true')[r], show(want)))
        if ok and value(st, charpiece(c.a[1])) != want[0]:
            eng.bad(st, 'specification', 'the character is %s instead of %s' % (show([value(st, charpiece(c.a[1]))]), show(want)))

    def wanted(self, eng, st, quote):
        eng.obl += 1
        auto = self.automata[st.mon['watch'][4]]
        text = flat(eng.strings.get(eng, st, st.mon['text'][1]))
        chars, all = self.chars(st, text)
        if not all:
            eng.strings.reveal(eng, st, st.mon['watch'][1])
        self.site('result')
        E = st.mon['E']
        want = self.prefix(st, quote == 1) + ((E,) if E != ('nil',) else ())
        for n, o in auto.convert(chars, True):
            want += tuple(o)
        if quote == 1:
            want += (34,)
        self.site('folded' if E != ('nil',) else 'short')
        for ch in chars:
            self.site('char %s' % ch if isinstance(ch, int) else 'char other')
        return want

    def on_copy(self, eng, st, d, s, n):
        return eng.strings.copied(eng, st, d, s, n)

    def store_var(self, eng, st, o, p, size, v):
        """A character is stored behind those copied to a buffer."""
        lo = lin_bounds(st, addt(addt(o.size, mult(p[2], -1)), -size))[0] if o.size is not None else None
        if lo is None or lo < 0:
            eng.bad(st, 'out-of-bounds', 'a write at a position that may lie behind the end of the memory')
        d = o.sh.get(-2)
        if size != 1 or not d or eng.eqt(st, eng.strings.length(eng, st, d[1]), p[2]) != 1:
            return False
        o.sh[-2] = ('chars', d[1] + (charpiece(v),))
        return True

    # abstraction ----------------------------------------------------------------------
    def normalise(self, eng, st):
        eng.strings.drop_strlen(st)
        if 'watch' not in st.mon:
            return
        S = eng.strings
        auto = self.automata[st.mon['watch'][4]]
        text = flat(S.get(eng, st, st.mon['text'][1]))
        P, E = st.mon['P'], st.mon['E']
        first = P == ('nil',)
        chars, all = self.chars(st, text)
        if not chars:
            return
        conv = auto.convert(chars, all)
        start = 0 if first else text.index(P) + 1
        pre = self.prefix(st, 'J' in st.mon)
        # which strings hold the text, which the result?
        ins, outs = [], []
        known = {p for p in text[start:start + len(chars)] if not isinstance(p, int)} | {P, E} - {('nil',)}
        steps = len(conv)
        for o in st.mem.values():
            if o.const or o.alive is not True:
                continue
            for k, d in o.sh.items():
                if not (isinstance(d, tuple) and d and d[0] == 'str'):
                    continue
                f = flat(d[1])
                if first:
                    at = len(pre) if f[:len(pre)] == pre and len(f) > len(pre) else None
                else:
                    at = f.index(E) + 1 if E in f else None
                if contains(f, text) is not None and (at is None or not pre):
                    ins.append((o, k))
                    continue
                if at is None:
                    if known & set(f):
                        return          # not understood
                    continue
                got = tuple(value(st, p) for p in f[at:])
                n, m = 0, 0
                for i, (_, w) in enumerate(conv):
                    if got[m:m + len(w)] != tuple(w):
                        break
                    n, m = i + 1, m + len(w)
                if first and not pre and not n and not known & set(f):
                    continue            # another string
                steps = min(steps, n)
                outs.append((o, k, at))
        if not outs or not steps:
            return
        # what the code has not passed yet stays
        if 'J' in st.mon:
            b = addt(('x', 'len', 64, st.mon['J']), len(pre) - 1)
            if not first:
                b = addt(b, ('x', 'len', 64, E))
            at = self.positions(st, b)
            while steps and any(0 <= a < sum(len(w) for _, w in conv[:steps]) for a in at):
                steps -= 1
            if not steps:
                return
        k = conv[steps - 1][0]
        m = sum(len(w) for _, w in conv[:steps])
        if first and m < st.mon.get('least', (0, 1))[1]:
            return
        self.fold(eng, st, k, m, ins, outs, first, text)

    def positions(self, st, b):
        """Distances of the positions of the code from position b."""
        out = set()

        def look(v):
            if is_ptr(v):
                v = addt(v[2], mult(ORG, -1)) if isinstance(v[2], tuple) else 0
            if is_sym(v):
                d = addt(v, mult(b, -1))
                if isinstance(d, int):
                    out.add(sgn(d & mask(64), 64))
        for fr in st.allframes():
            for v in fr.regs.values():
                look(v)
        for o in st.mem.values():
            if not o.const:
                for n, v in o.cells.values():
                    look(v)
        return out

    def fold(self, eng, st, k, m, ins, outs, first, text):
        """k characters of the text and m characters of the result."""
        S = eng.strings
        P, E = st.mon['P'], st.mon['E']
        P2, E2 = st.fresh('pre'), st.fresh('pre')
        p, e, p2, e2 = (('x', 'len', 64, x) for x in (P, E, P2, E2))
        R = [x for x in text if is_seq(x) and x != P]
        r = ('x', 'len', 64, R[0]) if R else None
        j = ('x', 'len', 64, st.mon['J']) if 'J' in st.mon else None
        pre = len(self.prefix(st, 'J' in st.mon)) - (j is not None)
        objs = {id(o): 'in' for o, _ in ins}
        objs.update({id(o): 'out' for o, _, _ in outs})
        where = {}
        for a, o in st.mem.items():
            d = o.sh.get(-3)
            if d and d[0] == 'chars of':
                o = st.mem.get(d[1][1])
            if id(o) in objs:
                where[a] = objs[id(o)]

        def term(d, c, kind=None):
            """Which additions does a sum that is a position need?"""
            c = sgn(c & mask(64), 64)
            end = d.get(r) == 1         # relative to the end
            if kind == 'out' or d.get(j) == 1:
                return addt(e2, -m) if end or c >= pre + m else 0
            if kind == 'in' or end:
                return addt(p2, -k) if end or c >= k else 0
            return 0

        def conv(t):
            if not isinstance(t, tuple) or not t:
                return t
            if t[0] == 'p' and len(t) == 3:
                if first and isinstance(t[2], tuple):
                    d, c = lin(t[2])
                    if ORG in d:
                        return ('p', t[1], addt(t[2], term(d, c, where.get(t[1]))))
                    return t
                return ('p', t[1], conv(t[2]))
            if t[0] == 'x' and t[1] in ('len', 'add', 'mul'):
                d, c = lin(t)
                if first:
                    return addt(t, term(d, c))
                out = sgn(c & mask(64), 64)
                for x, n in d.items():
                    y = addt(p2, -k) if x == p else addt(e2, -m) if x == e else x
                    out = addt(out, mult(y, n))
                return out
            ch = tuple(conv(x) if isinstance(x, tuple) else x for x in t)
            if ch == t:
                return t
            return resimplify(ch) if t[0] == 'x' else ch

        for fr in st.allframes():
            for x, v in list(fr.regs.items()):
                if isinstance(v, tuple):
                    fr.regs[x] = conv(v)
            fr.args = tuple(conv(a) if isinstance(a, tuple) else a for a in fr.args)
        ins = {(id(o), x) for o, x in ins}
        outs = {(id(o), x): at for o, x, at in outs}
        for o in st.mem.values():
            if o.const:
                continue
            for x, (n, v) in list(o.cells.items()):
                if isinstance(v, tuple):
                    o.cells[x] = (n, conv(v))
            for x, d in list(o.sh.items()):
                if isinstance(d, tuple) and d and d[0] == 'str':
                    f = flat(d[1])
                    if (id(o), x) in ins:
                        i = contains(f, text) if first else f.index(P)
                        f = f[:i] + (P2,) + f[i + k + (not first):]
                    elif (id(o), x) in outs:
                        i = outs[id(o), x] - (not first)
                        f = f[:i] + (E2,) + f[i + m + (not first):]
                    o.sh[x] = ('str', f)
                else:
                    o.sh[x] = conv(d)
            if isinstance(o.size, tuple):
                o.size = conv(o.size)
        if first:
            self.constants(st, k, p2)
        for x, v in list(st.mon.items()):
            st.mon[x] = conv(v)
        st.mon['P'], st.mon['E'] = P2, E2
        w = st.mon['watch']
        st.mon['watch'] = w[:2] + (('@', 0),) + ((('c', 0),) if w[3][0] != 'bs' else w[3:4]) + w[4:]
        facts = {}
        for x, v in st.facts.items():
            y = conv(x)
            if not isinstance(y, int):
                facts[y] = v
        st.facts = facts
        st.rng = {conv(x): v for x, v in st.rng.items() if x not in (p, e)}
        st.rng = {x: v for x, v in st.rng.items() if isinstance(x, tuple)}
        for x in (p2, e2):
            st.rng[x] = (1, BIG)
        if 'least' in st.mon:
            st.rng[e2] = (st.mon['least'][1], BIG)
        eng.stats['widened'] += 1

    def constants(self, st, k, p2):
        """Indices of the text that the loop counts."""
        f = st.frames[-1]
        for i in f.fn.blocks[f.blk]['ins']:
            if i['op'] != 'phi':
                break
            v = f.regs.get(i['id'])
            if isinstance(v, int) and v == k and i['ty'] == ['i', 64]:
                f.regs[i['id']] = p2


def contains(f, text):
    for i in range(len(f) - len(text) + 1):
        if f[i:i + len(text)] == text:
            return i
    return None


def value(st, p):
    """A character with one possible value is that value."""
    if is_char(p) and not isinstance(p, int):
        v = p[1]
        if is_sym(v) and v[0] == 's' and v[1] in st.dom:
            d = st.dom[v[1]]
            if d & d - 1 == 0:
                return d.bit_length() - 1
    return p


def show(v):
    return ' '.join(repr(chr(p)) if isinstance(p, int) else pretty(p) for p in v) or 'empty'


def lemma():
    """Specification only: what escape() makes of a character is read back as this
    character and does not end the token of the lexer."""
    tokens = Tokens()
    n = 0
    for c in range(256):
        o = Escape().convert([c], True)[0][1]
        s = ('str', 0, ('@', 0))
        for b in o:
            s = tokens.next(s, b)
        n += s[:2] == ('str', 0) and Unescape().convert(list(o), False) == [(len(o), (c,))]
    return n


def modular(m, entry):
    """discardQuote() is replaced by what J01 shows of it."""
    if not entry.startswith('drv_parse'):
        return m
    import copy
    m = copy.copy(m)
    m.fns = dict(m.fns)
    for k, f in list(m.fns.items()):
        if f.short == 'json::Lexer::discardQuote':
            m.fns[k] = m.fns['vf_discard']
    return m


def run(m, entry):
    m = modular(m, entry)
    eng = Engine(m)
    install_vf(eng)
    eng.WIDEN_AFTER = 40
    eng.client = JsonEscape(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
