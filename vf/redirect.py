"""RedirectIO: ownership of the target file, error reporting, diff()."""
from . import ir
from .absint import *
from .common import *
from .strmodel import *
from .libc import *


class Redirect:
    no_flush_all = True

    def __init__(self, eng):
        self.eng = eng
        StringModel(eng)
        Stdio(eng)
        m, i = eng.models, eng.intr
        D = 'bcl::Diagnostic::'
        m[D + 'insert'] = self.insert
        m[D + 'empty'] = self.empty
        m[D + 'size'] = lambda e, st, c: 0 if self.flags(st, c.a[0])[1] == 0 else e.bad(st, 'analysis', 'size')
        m[D + 'internal_size'] = self.internal
        site = lambda w: eng.sites.setdefault('spec', set()).add(w)
        self.site = site

        def begin(eng, st, c):
            st.mon.pop('fail', None)
            st.mon.pop('failed', None)
            st.mon['read'] = ('read', None, (), 0)
            if eng.traced:
                st.trace = (st.trace + (c_string(eng, st, c.a[0]),))[-12:]

        def clean(st):
            st.mon.pop('fail', None)
            st.mon.pop('failed', None)
            st.mon['read'] = ('read', None, (), 0)

        def fileof(st):
            fs = [k for k, o in st.mem.items() if o.alive is True and -30 in o.sh]
            return fs[0] if fs else None

        def reported(st, had, has, what):
            """A failure must be reported, success must not."""
            eng.obl += 1
            f = st.mon.get('fail', ()) + st.mon.get('failed', ())
            for v in (had, has):
                if v == U:
                    eng.bad(st, 'uninitialised', 'hasErrors() is uninitialised')
            had = eng.branch(st, had)
            has = eng.branch(st, has)
            if f and not has:
                eng.bad(st, 'error-reporting', '%s: a failed %s leaves no error' % (what, f[0][0]))
            if st.mon.get('fail'):
                eng.bad(st, 'error-reporting', '%s: a failed %s is not reported' % (what, st.mon['fail'][0][0]))
            if not f and has and not had:
                eng.bad(st, 'error-reporting', '%s: an error is reported although nothing failed' % what)
            return bool(f)

        def constructed(eng, st, c):
            site('constructor')
            if not eng.branch(st, c.a[1]):
                eng.bad(st, 'error-reporting', 'mayRedirected() is false although a redirection was requested')
            failed = reported(st, 0, c.a[2], 'constructor')
            k = fileof(st)
            if failed:
                if k is not None:
                    eng.bad(st, 'redirection', 'the target file stays open after a failed redirection')
                st.mon['mark'] = ('mark', None, None)
            else:
                if k is None:
                    eng.bad(st, 'redirection', 'no file is open although nothing failed')
                d = st.mon.get('dup')
                if d is None or d[1] != ('p', k, 0):
                    eng.bad(st, 'redirection', 'the descriptor is not redirected to the target file')
                if eng.eqt(st, d[2], st.mon['fd'][1], 32) != 1:
                    eng.bad(st, 'redirection', 'another descriptor than the requested one is redirected')
                pos = st.mem[k].sh[-30][1]
                if st.mem[k].sh[-30][4][0] == 'a' and not st.mem[k].sh[-30][2] and not (isinstance(pos, tuple) and pos[:2] == ('x', 'end')):
                    eng.bad(st, 'changes', 'the mark of an appended file is not its end')
                st.mon['mark'] = ('mark', pos, pos)
            clean(st)

        def closed(eng, st, c):
            site('closed')
            if fileof(st) is not None:
                eng.bad(st, 'redirection', 'the target file stays open without an owner')

        def fd(eng, st, c):
            st.mon['fd'] = ('fd', c.a[0], c.a[1])

        def isdiff(eng, st, c):
            site('isDiff')
            failed = reported(st, c.a[2], c.a[3], 'isDiff()') if fileof(st) is not None else False
            r = c.a[1]
            if r == U:
                eng.bad(st, 'uninitialised', 'the result of isDiff() is uninitialised')
            k = fileof(st)
            if failed or k is None:
                if eng.branch(st, r):
                    eng.bad(st, 'error-reporting', 'isDiff() reports changes although it failed')
                if k is None and not eng.branch(st, c.a[3]):
                    eng.bad(st, 'error-reporting', 'isDiff() on a failed redirection leaves no error')
            else:
                w = notb(eng.eqt(st, st.mem[k].sh[-30][1], st.mon['mark'][1]))
                if eng.branch(st, w) != eng.branch(st, r):
                    eng.bad(st, 'changes', 'isDiff() does not tell whether the position moved since the mark')
            clean(st)

        def diff(eng, st, c):
            site('diff')
            failed = reported(st, c.a[2], c.a[3], 'diff()')
            v = eng.strings.get(eng, st, c.a[1])
            k = fileof(st)
            rd = st.mon['read']
            if failed:
                if v != ():
                    eng.bad(st, 'error-reporting', 'diff() returns something although it failed')
            elif rd[1] is None:
                # nothing was read: there must be no change
                w = eng.eqt(st, st.mem[k].sh[-30][1], st.mon['mark'][1])
                if not eng.branch(st, w):
                    eng.bad(st, 'changes', 'diff() does not return the data written since the mark')
                if v != ():
                    eng.bad(st, 'changes', 'diff() returns something although nothing was written')
            else:
                if eng.eqt(st, rd[1], st.mon['mark'][1]) != 1:
                    eng.bad(st, 'changes', 'diff() does not start at the mark')
                if not rd[3]:
                    eng.bad(st, 'changes', 'diff() stops before the end of the file')
                if v != rd[2]:
                    eng.bad(st, 'changes', 'diff() returns something else than the data after the mark: ' + show(v))
            clean(st)

        def mark(eng, st, c):
            site('setDiffPos')
            failed = reported(st, c.a[2], c.a[3], 'setDiffPos()')
            k = fileof(st)
            if eng.branch(st, c.a[1]) == int(failed):
                eng.bad(st, 'error-reporting', 'setDiffPos() returns the wrong status')
            m = st.mon['mark']
            if failed:
                raise Stop()      # the mark is lost; documented only through the result
            st.mon['mark'] = ('mark', st.mem[k].sh[-30][1], m[2])
            clean(st)

        def reset(eng, st, c):
            site('resetDiffPos')
            m = st.mon['mark']
            st.mon['mark'] = ('mark', m[2], m[2])
            clean(st)

        def output(eng, st, c):
            k = fileof(st)
            if k is not None:
                d = st.mem[k].sh[-30]
                st.mem[k].sh[-30] = ('file', eng.stdio.newpos(st), 0, d[3], d[4])

        for n, f in dict(fd=fd, begin=begin, constructed=constructed, isdiff=isdiff, diff=diff, mark=mark, reset=reset, output=output,
                         closed=closed, moved=lambda e, st, c: None, open=lambda e, st, c: int(fileof(st) is not None)).items():
            i['spec_' + n] = f

    # -- Diagnostic ------------------------------------------------------------
    def flags(self, st, p):
        o = self.eng.obj(st, p, 'use of the diagnostics')
        return o.sh.get(p[2] - 1000, ('diag', 0, 0))

    def insert(self, eng, st, c):
        p = c.a[0]
        self.flags(st, p)
        code = cast32(c.a[1])
        fs = st.mon.get('fail', ())
        if fs:
            hit = [x for x in fs if eng.eqt(st, code, x[1], 32) == 1]
            if not hit:
                eng.bad(st, 'error-reporting', 'the recorded error code is not that of a failed ' + fs[-1][0])
            st.mon['fail'] = tuple(x for x in fs if x != hit[0])
            st.mon['failed'] = st.mon.get('failed', ()) + ((hit[0][0], 0),)
        elif st.mon.get('failed'):
            eng.bad(st, 'error-reporting', 'an error is recorded twice')
        out = []
        for k, v in ((1, ('diag', 1, self.flags(st, p)[2])), (0, ('diag', self.flags(st, p)[1], 1))):
            s = st.copy() if k else st
            s.mem[p[1]].sh[p[2] - 1000] = v
            out.append((s, k))
        eng.outcomes(out)

    def empty(self, eng, st, c):
        return int(self.flags(st, c.a[0])[1] == 0)

    def internal(self, eng, st, c):
        return self.flags(st, c.a[0])[2]

    # -- file events ---------------------------------------------------------------
    def on_dup2(self, eng, st, c):
        a = c.a[0]
        if isinstance(a, tuple) and a[0] == 'x' and a[1] == 'fileno':
            st.mon['dup'] = ('dup', a[3], c.a[1])

    def on_fopen(self, eng, st, p, c, mode):
        want = st.mon.get('fd')
        if want and mode != chr(want[2]) + '+':
            eng.bad(st, 'redirection', 'the target file is opened in mode "%s" instead of "%c+"' % (mode, want[2]))
        if eng.strings.cstr(eng, st, c.a[0]) != tuple(b'name'):
            eng.bad(st, 'redirection', 'another file than the target is opened')

    def on_seek(self, eng, st, p, pos):
        st.mon['read'] = ('read', pos, (), 0)

    def on_read(self, eng, st, p, ck):
        r = st.mon.get('read', ('read', None, (), 0))
        st.mon['read'] = ('read', r[1], r[2] + (ck,), 0)

    def on_eof(self, eng, st, p):
        r = st.mon.get('read', ('read', None, (), 0))
        st.mon['read'] = r[:3] + (1,)

    def normalise(self, eng, st):
        r = st.mon.get('read')
        if not r or len(r[2]) < 2:
            return
        run = r[2]
        hit = False
        nb = st.fresh('chunks')
        for o in st.mem.values():
            for k, d in list(o.sh.items()):
                if isinstance(d, tuple) and d and d[0] == 'str':
                    v = d[1]
                    for j in range(len(v) - len(run) + 1):
                        if v[j:j + len(run)] == run:
                            o.sh[k] = ('str', v[:j] + (nb,) + v[j + len(run):])
                            hit = True
                            break
        if hit:
            st.facts[('x', 'empty', 1, nb)] = 0
            st.mon['read'] = ('read', r[1], (nb,), r[3])


def cast32(v):
    while isinstance(v, tuple) and v[0] == 'x' and v[1] in ('sext', 'zext'):
        v = v[3]
    return v & mask(32) if isinstance(v, int) else v


def run(m, entry):
    eng = Engine(m)
    install_vf(eng)
    eng.client = Redirect(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
