"""Json.h on the level of tokens: a text is a sequence of tokens that are revealed
one by one; each kind of token has one representative spelling (that the lexer
finds the tokens of any text is property J01)."""
from .json import *
from . import json as _json

# spelling and length of the token in it
ALPHABET = [(b'[', 1), (b']', 1), (b'{', 1), (b'}', 1), (b',', 1), (b':', 1), (b'"k"', 3), (b'1 ', 1), (b'?', 1), (b'true   ', 4), (b'"kk"', 4)]
LB, RB, LC, RC, COMMA, COLON, ID, NUMB, BAD, KEY, ID2 = range(11)
OPEN, CLOSE, VALUE = (LB, LC), (RB, RC), (ID, ID2, NUMB, KEY)
IDS = {ID: 2, ID2: 0}


# words of a text that is searched for a name
WORDS = [(b'{', 1), (b'}', 1), (b',', 1), (b':', 1), (b'"n"', 3), (b'"A"', 3), (b'"ru"', 4), (b'"nn"', 4), (b'1 ', 1), (b'?', 1),
         (b'[]', 2), (b'{"n":"A"}', 9), (b'[{"n":1]]', 9), (b'[}', 2), (b'[', 1), (b'true ', 4)]
W_OPEN = 14
W_NAME, W_COMPOUND, W_BROKEN = (4, 5, 6, 7), (10, 11, 12), (9, 13)
LIMIT = 3


class Text:
    def __init__(self, alphabet=ALPHABET, limit=None, skip=None):
        self.words = alphabet
        self.skip = skip
        self.alphabet = [w for w, n in alphabet]
        self.limit = limit

    def enough(self, s):
        return True

    def next(self, s, i):
        n = min(s[-1] + 1, self.limit) if self.limit else 0
        if self.skip is not None and i == self.skip:
            return None
        if self.limit and s[-1] == 9:
            if i is not None:
                return None
        elif i == W_OPEN and self.limit:
            n = 9               # the text ends inside this value
        if i is None:
            return ('eof', ('HERE', 0), n)
        if self.limit and (i in W_COMPOUND and n <= 2 or i == 0 and n > 1):
            return None         # covered by other words
        return ('tok', i, ('HERE', 0), n)


COUNTERS = {}


def counters(fn):
    """Loop variables changed by constants: id -> (increased, decreased)."""
    if fn not in COUNTERS:
        d = {i['id']: i for b in fn.blocks for i in b['ins'] if i['op'] in ('phi', 'add', 'sub', 'select', 'trunc', 'zext', 'sext', 'freeze')}
        r = COUNTERS[fn] = {}
        for k in d:
            seen, todo, up, down = set(), [k], False, False
            while todo:
                i = d.get(todo.pop())
                if not i or i['id'] in seen:
                    continue
                seen.add(i['id'])
                ops = [o for _, o in i['in']] if i['op'] == 'phi' else i['ops']
                for o in ops:
                    if o[0] == 'i':
                        todo.append(o[1])
                    elif o[0] == 'c' and i['op'] in ('add', 'sub') and int(o[2]):
                        n = sgn(int(o[2]), o[1]) * (-1 if i['op'] == 'sub' else 1)
                        up, down = up or n > 0, down or n < 0
            if up or down:
                r[k] = (up, down)
    return COUNTERS[fn]


class JsonTokens(Json):
    folding = True

    follows = property(lambda self: self.__dict__.setdefault('_f', {}))

    def __init__(self, eng):
        super().__init__(eng)
        self.automata['text'] = Text(ALPHABET[:10])
        self.automata['keys'] = Text(ALPHABET, skip=NUMB)
        self.automata['words'] = self.words_ = Text(WORDS, LIMIT)
        i = eng.intr

        def text(eng, st, c):
            P, R = st.fresh('pre'), st.fresh('seq')
            st.rng[('x', 'len', 64, P)] = (0, BIG)
            st.mon['text'] = ('text', c.a[0])
            eng.strings.put(eng, st, c.a[0], (P, R))
            st.mon['watch'] = ('watch', R, ('@', ('x', 'len', 64, P)), ('run',), 'text')
            st.mon['spec'] = ('spec', ('skip', 'trav', 'count', 'name', 'known', 'map')[c.a[1]], 'open')
            st.mon['level'] = ('level', 0)
            st.mon['index'] = ('index', 0)
            st.mon['max'] = ('max', 0)
            if c.a[1] == 5:
                st.mon['watch'] = st.mon['watch'][:4] + ('keys',)
            if c.a[1] in (3, 4):
                st.mon['watch'] = ('watch', R, ('@', 0), ('run', 0), 'words')
                eng.strings.put(eng, st, c.a[0], (R,))
                st.mon['pin'] = ('pin', 1)
        i['spec_text'] = text
        i['spec_begin'] = self.begin
        i['spec_result'] = self.result
        i['spec_call'] = self.call
        i['spec_called'] = self.called
        i['spec_inside'] = self.inside
        i['spec_count'] = self.counted
        i['spec_object'] = self.object
        i['spec_parsed'] = self.parsed
        eng.models['std::__cxx11::stoull'] = eng.models['std::stoull'] = self.stoull

    # abstraction -----------------------------------------------------------------
    def normalise(self, eng, st):
        if 'watch' not in st.mon:
            return
        eng.strings.fold(eng, st)
        eng.strings.merge(eng, st)
        if st.mon['watch'][3][0] != 'eof':
            self.relate(eng, st, 'level', 32, (True, True), 1)
        self.relate(eng, st, 'index', 64, (True, False), 2)
        for k in [k for k in st.facts if k[0] == 'x' and k[1] == 'ult' and is_sym(k[4]) and k[4][1] == 'number']:
            del st.facts[k]

    def keep(self, eng, st):
        """The last token stays visible."""
        t = st.mon.get('key') or st.mon.get('last')
        if t is None:
            return 0
        n = addt(st.mon['watch'][2][1], mult(t[1][1], -1) if not isinstance(t[1][1], int) else -t[1][1])
        return n if isinstance(n, int) else 10 ** 6

    def variables(self, st, f, ids, kind):
        """Variables of the loop that may be counters: (key, width, value)."""
        for ins in f.fn.blocks[f.blk]['ins']:
            if ins['op'] != 'phi':
                break
            v = f.regs.get(ins['id'])
            if ids.get(ins['id']) == kind and isinstance(ins['ty'], list) and ins['ty'][0] == 'i' and ins['ty'][1] in (32, 64) and v is not None:
                yield ins['id'], ins['ty'][1], v
        if kind == (True, True):
            return
        for i, v in f.regs.items():
            # those in memory
            if is_ptr(v) and v[2] == 0 and v[1] in st.mem:
                o = st.mem[v[1]]
                c = o.cells.get(0)
                if o.kind == 'stack' and c is not None and c[0] in (4, 8) and o.size == c[0] and (isinstance(c[1], int) or is_sym(c[1])):
                    yield (i, c[0]), 8 * c[0], c[1]

    def relate(self, eng, st, name, w0, kind, least):
        """Counters of the code that follow a counter of the specification are expressed by it."""
        d = st.mon[name][1]
        f = st.frames[-1]
        done = []
        ids = counters(f.fn)
        for key, w, v in self.variables(st, f, ids, kind):
            if isinstance(v, int) and isinstance(d, int):
                k = sgn(v & mask(w), w) - d
            elif is_sym(v):
                x, k = v, 0
                if w != w0:
                    dd, k = lin(v)
                    if w < w0 or len(dd) != 1:
                        continue
                    x = list(dd)[0]
                    if x[0] != 'x' or x[1] not in ('zext', 'sext'):
                        continue
                    x = x[3]
                e = addt(x, mult(d, -1, w0), w0) if not isinstance(d, int) else addt(x, -d, w0)
                if not isinstance(e, int):
                    continue
                k += sgn(e & mask(w0), w0)
            else:
                continue
            # does it follow the counter at all?
            h = self.follows.setdefault((f.fn, f.blk, key, name, st.mon['spec'][2:4]), (set(), set()))
            h[0].add(k if kind != (True, True) else max(-2, min(2, k)))
            h[1].add(d)
            if len(h[0]) > (1 if kind != (True, True) else 4) or len(h[1]) < 2:
                continue
            done.append((key, w, k, (v if isinstance(v, int) else lin_bounds(st, v)[0])))
        if not done or isinstance(d, int) and d < least or is_sym(d) and d[0] == 's':
            return
        D = st.fresh(name, w0)
        st.rng[D] = (0, 1 << 30)
        # the least of them is the base, it is not negative
        b = min([0] + [k for _, _, k, lo in done if lo is not None and lo >= 0])
        for i, w, k, _ in done:
            v = addt(D, k - b, w) if w == w0 else addt(('x', 'zext', 64, D), k - b)
            if isinstance(i, tuple):
                st.mem[f.regs[i[0]][1]].cells[0] = (i[1], v)
            else:
                f.regs[i] = v
        st.mon[name] = ('' + name, addt(D, -b, w0))

    # the specification -----------------------------------------------------------
    def watched(self, eng, st):
        s = st.mon['watch'][3]
        if s[0] == 'tok':
            i, pos = s[1], s[2][1]
            w = st.mon['watch']
            st.mon['watch'] = w[:3] + (('run',) + s[3:],) + w[4:]
            st.mon['last'] = ('last', ('@', pos))
            out = (self.token_read if w[4] != 'words' else self.word_read)(eng, st, i, pos)
        elif s[0] == 'eof':
            out = self.phase(st, 'eof')
        else:
            return
        if len(out) != 1 or out[0] is not st:
            raise Fork(out)

    def phase(self, st, p, *rest):
        st.mon['spec'] = st.mon['spec'][:2] + (p,) + rest
        return [st]

    def zero(self, eng, st, name, w):
        """The states where a counter is zero and where it is not."""
        d = st.mon[name][1]
        if isinstance(d, int):
            return [(st, d == 0)]
        z = eng.eqt(st, d, 0, w)
        if isinstance(z, int):
            return [(st, z == 1)]
        out = []
        for t in (0, 1):
            q = st.copy()
            try:
                if not eng.assume(q, z, t):
                    continue
            except Stop:
                continue
            if t:
                q.mon[name] = (name, 0)
            out.append((q, t == 1))
        return out

    def count(self, st, name, n, w):
        d = st.mon[name][1]
        st.mon[name] = (name, addt(d, n, w))

    def token_read(self, eng, st, i, pos):
        kind, ph = st.mon['spec'][1:3]
        par = st.mon['spec'][3:]
        end = addt(pos, ALPHABET[i][1] - 1)
        if ph in ('closed', 'fail', 'eof', 'stop', 'beyond'):
            return self.phase(st, 'beyond')
        if ph == 'open':
            st.mon['array'] = ('array', i == LB)
            st.mon['next'] = ('next', ('@', addt(end, 1)))
            if i not in OPEN or kind == 'map' and i != LC:
                return self.phase(st, 'fail', ('@', pos))
            st.mon['opened'] = ('opened', ('@', pos))
            return self.phase(st, 'in' if kind == 'skip' else 'first', i + 1)
        if ph == 'in':
            if i in OPEN:
                self.count(st, 'level', 1, 32)
                return [st]
            if i not in CLOSE:
                return [st]
            out = []
            for q, z in self.zero(eng, st, 'level', 32):
                if z:
                    out += self.phase(q, 'closed' if i == par[0] else 'fail', ('@', pos))
                else:
                    self.count(q, 'level', -1, 32)
                    out.append(q)
            return out
        last = par[0]
        if ph == 'sep':
            st.mon.pop('key', None)
        if ph in ('owed', 'compound'):
            eng.bad(st, 'specification', 'an element of the text is skipped')
        if ph in ('first', 'sep') and i == last:
            return self.phase(st, 'closed', ('@', pos))
        if ph == 'sep':
            return self.phase(st, 'next', last) if i == COMMA else self.phase(st, 'fail', ('@', pos))
        if ph in ('first', 'next') and last == RC:
            if kind == 'map':
                st.mon['key'] = ('key', ('@', pos))
                return self.phase(st, 'colon', last, 0, ('key', IDS[i])) if i in IDS else self.phase(st, 'fail', ('@', pos))
            return self.phase(st, 'colon', last, ('@', pos), ('@', end)) if i in IDS else self.phase(st, 'fail', ('@', pos))
        if ph == 'colon':
            return self.phase(st, 'value', *par) if i == COLON else self.phase(st, 'fail', ('@', pos))
        # a value
        if i not in VALUE and i not in OPEN:
            return self.phase(st, 'fail', ('@', pos))
        if last == RB:
            par = (last, ('@', 0), ('index',))          # its number is index - 1
        self.count(st, 'index', 1, 64)
        if kind == 'count' or kind == 'map' and not par[2][1]:
            return self.phase(st, 'compound', last, i + 1) if i in OPEN else self.phase(st, 'sep', last)
        return self.phase(st, 'owed', last, par[1], par[2], ('@', pos), i)

    def ended(self, eng, st):
        """The code knows that the text ends here."""
        R = st.mon['watch'][1]
        if is_seq(R) and eng.strings.rng(st, R)[1] == 0 and st.mon['spec'][2] not in ('closed', 'fail', 'stop'):
            self.phase(st, 'eof')

    def begin(self, eng, st, c):
        """The first token has been read."""
        st.mon.pop('errors', None)
        self.ended(eng, st)
        if st.mon['spec'][2] == 'eof':
            raise Stop()

    def call(self, eng, st, c):
        """An element is handed over: (key, position of the value)."""
        eng.obl += 1
        self.site('element')
        k1, k2, pos = c.a
        sp = st.mon['spec']
        if sp[2] != 'owed':
            eng.bad(st, 'specification', 'a value is parsed where the text has none')
        last, e1, e2, (_, p), i = sp[3:]
        e1 = e1[1] if e1 else 0
        e2 = addt(st.mon['index'][1], -1) if last == RB else e2[1]
        if eng.eqt(st, pos, p) != 1:
            eng.bad(st, 'specification', 'the value is parsed at the wrong position')
        if eng.eqt(st, k1, e1) != 1 or eng.eqt(st, k2, e2) != 1:
            eng.bad(st, 'specification', 'the value is parsed for key (%s, %s) instead of (%s, %s)' % tuple(map(pretty, (k1, k2, e1, e2))))
        if i in OPEN:
            self.phase(st, 'compound', last, i + 1)
        else:
            self.phase(st, 'sep', last)

    def inside(self, eng, st, c):
        """The value that begins with the last token: it ends somewhere or it is
        broken."""
        sp = st.mon['spec']
        if sp[2] not in ('compound', 'named'):
            eng.bad(st, 'specification', 'a value is skipped where the text has none')
        w = st.mon['watch']
        R = w[1]
        if R == ('nil',) or eng.strings.rng(st, R)[1] == 0 or not self.choose(st, 2):
            self.phase(st, 'stop')
            return 0
        if w[4] != 'words':
            st.mon.pop('last', None)
            st.mon.pop('choice', None)
            eng.strings.fold(eng, st)
            w = st.mon['watch']
        W, R2 = st.fresh('pre'), st.fresh('seq')
        eng.strings.drop_len(st, R)
        st.rng[('x', 'len', 64, W)] = (0, BIG)
        st.rng[('x', 'len', 64, R2)] = (0, BIG)
        last = (WORDS, 1) if w[4] == 'words' else (ALPHABET, sp[4])
        subst(st, R, ('cat', W) + tuple(last[0][last[1]][0]) + (R2,))
        at = addt(w[2][1], ('x', 'len', 64, W))
        st.mon['watch'] = ('watch', R2, ('@', addt(at, 1))) + w[3:]
        st.mon['last'] = ('last', ('@', at))
        if w[4] == 'words':
            self.phase(st, 'converted')
        else:
            self.phase(st, 'sep', sp[3])
        eng.store(st, c.a[0], 8, at)
        return 1

    def choose(self, st, n):
        c = st.mon.pop('choice', None)
        if c is not None:
            return c[1]
        out = []
        for i in range(n):
            q = st.copy()
            q.mon['choice'] = ('choice', i)
            out.append(q)
        raise Fork(out)

    def called(self, eng, st, c):
        if not eng.branch(st, c.a[0]):
            if st.mon['spec'][2] in ('sep',):
                self.phase(st, 'stop')

    def result(self, eng, st, c):
        """The result and the position where the lexer stays."""
        eng.obl += 1
        ret, b, e = c.a
        self.ended(eng, st)
        sp = st.mon['spec']
        kind, ph = sp[1:3]
        self.site('%s %s' % (kind, ph))
        errs = st.mon.pop('errors', ('errors',))[1:]
        ok = int(ph == 'closed')
        if ph not in ('closed', 'fail', 'eof', 'stop'):
            eng.bad(st, 'specification', 'the result is known before the text is complete (%s)' % ph if ph != 'beyond' else 'text behind the closing bracket is read')
        r = eng.branch(st, ret)
        if r != ok:
            eng.bad(st, 'specification', 'the result is %s although the text is %s' % (('false', 'true')[r], {
                'closed': 'correct', 'fail': 'wrong', 'eof': 'incomplete', 'stop': 'not converted'}[ph]))
        if ph == 'stop':
            n = (0, 1)          # the conversion may report one
        else:
            n = (int(ph in ('fail', 'eof')),)
        if len(errs) not in n:
            eng.bad(st, 'specification', '%d errors are reported' % len(errs))
        if ok and (eng.eqt(st, b, sp[3][1]) != 1 or eng.eqt(st, e, sp[3][1]) != 1):
            eng.bad(st, 'specification', 'the lexer does not stay at the closing bracket')

    # counting --------------------------------------------------------------------
    def stoull(self, eng, st, c):
        """Any value or no number at all; the greatest one is kept."""
        k = self.choose(st, 4)
        if k == 2:
            self.phase(st, 'stop')
            raise Raise('std::invalid_argument')
        v = st.fresh('number', 64)
        m = st.mon['max'][1]
        if k == 3:
            return m
        if not (eng.assume(st, ('x', 'ult', 1, m, v), 1) if k else m != 0 and eng.assume(st, ('x', 'ult', 1, v, m), 1)):
            raise Stop()
        if k:
            st.mon['max'] = ('max', v)
        return v

    def counted(self, eng, st, c):
        eng.obl += 1
        ret, n, mx, b, e, nx = c.a
        self.ended(eng, st)
        sp = st.mon['spec']
        ph = sp[2]
        self.site('count %s' % ph)
        if ph not in ('closed', 'fail', 'eof', 'stop'):
            eng.bad(st, 'specification', 'the number of elements is known before the text is complete (%s)' % ph)
        r = eng.branch(st, ret)
        if r != int(ph == 'closed'):
            eng.bad(st, 'specification', 'the result is %s although the text is %s' % (('false', 'true')[r], {
                'closed': 'correct', 'fail': 'wrong', 'eof': 'incomplete', 'stop': 'not an array'}[ph]))
        if not r:
            return
        k = st.mon['index'][1]
        if eng.eqt(st, n, k) != 1:
            eng.bad(st, 'specification', '%s elements are counted instead of %s' % (pretty(n), pretty(k)))
        if eng.eqt(st, k, 0) != 1:
            want = addt(k, -1) if st.mon['array'][1] else st.mon['max'][1]
            if eng.eqt(st, mx, want) != 1:
                eng.bad(st, 'specification', 'the greatest index is %s instead of %s' % (pretty(mx), pretty(want)))
        o = st.mon['opened'][1][1]
        if eng.eqt(st, b, o) != 1 or eng.eqt(st, e, o) != 1 or eng.eqt(st, nx, st.mon['next'][1][1]) != 1:
            eng.bad(st, 'specification', 'the lexer does not return to the beginning (%s)' % ' '.join(map(pretty, (o, b, e, nx))))

    # the name of an object ---------------------------------------------------------
    def word_read(self, eng, st, i, pos):
        ph = st.mon['spec'][2]
        par = st.mon['spec'][3:]
        if ph == 'converted':
            return self.phase(st, 'more')
        if st.mon['spec'][1] == 'known':
            return self.phase(st, 'begun') if ph == 'open' else [st]
        if ph == 'open':
            return self.phase(st, 'key') if i == 0 else self.phase(st, 'fail')
        if ph == 'key':
            return self.phase(st, 'colon', i == 4) if i in W_NAME else self.phase(st, 'fail')
        if ph == 'colon':
            return self.phase(st, 'value', *par) if i == 3 else self.phase(st, 'fail')
        if ph == 'value' and par[0]:
            return self.phase(st, 'named', {5: 1, 6: 2}.get(i, 0)) if i in W_NAME else self.phase(st, 'fail')
        if ph == 'value':
            return self.phase(st, 'sep') if i in W_NAME + W_COMPOUND + (8, 15) else self.phase(st, 'fail')
        if ph == 'sep':
            return self.phase(st, 'key') if i == 2 else self.phase(st, 'fail')
        return [st]

    def object(self, eng, st, c):
        eng.obl += 1
        ph = st.mon['spec'][2:]
        if st.mon['spec'][1] == 'known':
            self.phase(st, 'named', 1)
        elif ph[0] != 'named' or ph[1] != c.a[0]:
            eng.bad(st, 'specification', 'an object of type %s is created, the text says %s' % (c.a[0], ph))
        if eng.eqt(st, c.a[1], 0) != 1:
            eng.bad(st, 'specification', 'the conversion does not begin at the first token')
        st.mon['object'] = ('object', c.a[0])

    def parsed(self, eng, st, c):
        eng.obl += 1
        if st.mon['spec'][2] not in ('named', 'converted', 'more'):
            self.ended(eng, st)
        ph = st.mon['spec'][2:]
        self.site('parse %s' % ph[0])
        ok = 0
        if ph[0] == 'converted':
            R = st.mon['watch'][1]
            ok = R == ('nil',) or eng.branch(st, eng.strings.is_empty(eng, st, (R,)))
        if ph[0] in ('open', 'key', 'colon', 'value', 'sep', 'begun'):
            eng.bad(st, 'specification', 'the search ends although the text is correct so far (%s)' % ph[0])
        if ph[0] == 'named' and ph[1]:
            eng.bad(st, 'specification', 'the object is not created')
        if bool(c.a[0]) != bool(ok):
            eng.bad(st, 'specification', 'an object is %screated although the text %s' % (('not ', '')[bool(c.a[0])], ph[0]))
        if ok and st.mon.get('object') is not None and c.a[0] != st.mon['object'][1]:
            eng.bad(st, 'specification', 'the object has the wrong type')


def modular(m, entry):
    """skipInternal() is replaced by what drv_skip shows of it."""
    if entry not in ('drv_traverse', 'drv_count', 'drv_map'):
        return m
    import copy
    m = copy.copy(m)
    m.fns = dict(m.fns)
    for k, f in list(m.fns.items()):
        if f.short == 'json::Lexer::skipInternal':
            m.fns[k] = m.fns['vf_skip']
    return m


def run(m, entry):
    m = modular(m, entry)
    eng = Engine(m)
    install_vf(eng)
    eng.WIDEN_AFTER = 60
    eng.client = JsonTokens(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
