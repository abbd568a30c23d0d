"""startServer() of CSocket.cpp: descriptors, events, data, limits."""
from . import ir
from .absint import *
from .common import *
from .strmodel import *
from .libc import *

STATUS = ['UnknownError', 'InitializeError', 'HostnameError', 'ServerAddressError', 'CreateError', 'OptionError', 'BindError', 'ListenError',
          'AcceptError', 'ReceiveError', 'SendError', 'CloseError', 'Listen', 'Accept', 'Receive', 'Send', 'Close']
ALWAYS = None


def thread_end(eng, st, ret):
    eng.client.thread_done(st)
    raise Stop()


class CSock:
    """Monitors:  lfd / cfd  = (kind, fd, state)    listening and connection descriptor
    ev   = events still to be reported, in order: (status, expected connection)
    addr = what is known about addresses
    io   = data of the running connection."""
    nsw = True

    def __init__(self, eng):
        self.eng = eng
        StringModel(eng)
        Errno(eng)
        i, m = eng.intr, eng.models
        for n in ('socket', 'setsockopt', 'bind', 'getsockname', 'listen', 'accept', 'recv', 'send', 'close', 'gethostbyname', 'inet_ntoa', 'shutdown'):
            i[n] = getattr(self, 's_' + n)
        i['accept4'] = self.s_accept
        i['read'] = self.s_recv
        for w in (16, 32):
            for n in ('htons', 'ntohs') if w == 16 else ('htonl', 'ntohl'):
                i[n] = lambda e, st, c, w=w: self.bswap(st, c.a[0], w)
            i['llvm.bswap.i%d' % w] = lambda e, st, c, w=w: self.bswap(st, c.a[0], w)
        i['signal'] = self.s_signal
        i['__cxa_guard_acquire'] = lambda e, st, c: self.locked(1)(e, st, c) or 1
        i['__cxa_guard_release'] = i['__cxa_guard_abort'] = self.locked(-1)
        for n, k in (('pthread_mutex_lock', 1), ('pthread_mutex_unlock', -1), ('__gthread_mutex_lock', 1), ('__gthread_mutex_unlock', -1)):
            i[n] = self.locked(k)
            eng.prefix.append((lambda f, n=n: f.short == n, self.locked(k)))
        i['strlen'] = lambda e, st, c: e.strings.length(e, st, e.strings.cstr(e, st, c.a[0]))
        i['nanosleep'] = lambda e, st, c: 0
        eng.prefix.append((lambda f: f.short.startswith('std::this_thread::'), lambda e, st, c: None))
        F = 'std::future::'
        for b in (F, 'std::__basic_future::'):
            m[b + 'valid'] = lambda e, st, c: int(self.fut(st, c.a[0]) != 'none')
            m[b + 'wait_for'] = m[b + 'wait_until'] = self.wait_for
            m[b + 'wait'] = self.wait
        m[F + 'get'] = lambda e, st, c: self.wait(e, st, c) or st.fresh('result', 32)
        m[F + 'future'] = self.fut_ctor
        m[F + '~future'] = m['std::__basic_future::~__basic_future'] = self.fut_dtor
        m[F + 'operator='] = self.fut_assign
        m['std::async'] = self.s_async
        U_ = 'std::unordered_map::'
        m[U_ + 'unordered_map'] = self.map_ctor
        m[U_ + '~unordered_map'] = lambda e, st, c: None
        m[U_ + 'size'] = self.map_size
        m[U_ + 'max_size'] = lambda e, st, c: ('x', 'max_size', 64)
        m[U_ + 'begin'] = m[U_ + 'cbegin'] = self.map_next
        m[U_ + 'end'] = m[U_ + 'cend'] = lambda e, st, c: 0
        m[U_ + 'empty'] = lambda e, st, c: e.eqt(st, self.map_size(e, st, c), 0)
        m[U_ + 'erase'] = self.map_erase
        m[U_ + 'emplace'] = m[U_ + 'try_emplace'] = self.map_emplace
        m[U_ + 'operator[]'] = self.map_index
        m[U_ + 'reserve'] = lambda e, st, c: None
        m['std::__detail::_Node_iterator_base::_M_incr'] = self.map_incr
        for n in ('address', 'on', 'server', 'listen_data', 'listen_close', 'data', 'closed', 'may_register', 'message', 'send', 'sent', 'returned'):
            i['spec_' + n] = getattr(self, 'p_' + n)

    def site(self, w):
        self.eng.obl += 1
        self.eng.sites.setdefault('spec', set()).add(w)

    # -- sharing ---------------------------------------------------------------
    def on_access(self, eng, st, p, size, write):
        if write and st.mon.get('io') and not st.mon.get('locks') and self.shared(st, p[1]):
            eng.bad(st, 'data-race', 'the thread of a connection modifies what it shares with other threads')

    def shared(self, st, k):
        if k == 'g:errno':
            return False
        o = st.mem.get(k)
        return o is not None and (o.kind == 'global' or -77 in o.sh) and not o.const

    def published(self, st, k):
        """Can other threads reach the object?"""
        seen, work = set(), [x for x in st.mem if self.shared(st, x)]
        while work:
            x = work.pop()
            if x in seen:
                continue
            seen.add(x)
            o = st.mem.get(x)
            if o is None or o.const:
                continue
            for _, v in o.cells.values():
                if is_ptr(v):
                    work.append(v[1])
        return k in seen

    def locked(self, n):
        def f(eng, st, c):
            st.mon['locks'] = st.mon.get('locks', 0) + n
            if st.mon['locks'] <= 0:
                st.mon.pop('locks')
            return 0
        return f

    # -- addresses -----------------------------------------------------------
    def bswap(self, st, v, w):
        if v == U:
            return U
        if isinstance(v, int):
            return int.from_bytes((v & mask(w)).to_bytes(w // 8, 'little'), 'big')
        if is_sym(v) and twidth(v) != w:
            v = self.eng.cast(st, 'trunc', twidth(v), w, v)
        if v[0] == 'x' and v[1] == 'bswap':
            return v[3]
        return ('x', 'bswap', w, v)

    def p_address(self, eng, st, c):
        out = []
        for k in (0, 1):
            s = st.copy()
            v = ()
            if k:
                x = ('x', 'text', 64, s.fresh('address'))
                s.facts[('x', 'empty', 1, x)] = 0
                v = (x,)
            eng.strings.put(eng, s, c.a[0], v)
            s.rng[c.a[3]] = (1, 1 << 40)
            s.mon['want'] = ('want', v, eng.cast(s, 'trunc', 64, 32, c.a[1]), c.a[2])
            s.mon['ev'] = ('ev',)
            out.append((s, None))
        eng.outcomes(out)

    def s_gethostbyname(self, eng, st, c):
        eng.site(st, 'system call')
        if eng.strings.cstr(eng, st, c.a[0]) != st.mon['want'][1]:
            eng.bad(st, 'setup', 'another host than the requested one is looked up')

        def ok(s):
            h = s.fresh('host address', 32)
            s.mon['host'] = ('host', h)
            a = s.alloc('extern', 4, None, 'address')
            s.mem[a[1]].cells[0] = (4, h)
            l = s.alloc('extern', 16, None, 'address list')
            s.mem[l[1]].cells = {0: (8, a), 8: (8, 0)}
            e = s.alloc('extern', 32, None, 'host entry')
            o = s.mem[e[1]]
            o.fill = 'lazy'
            o.cells = {16: (4, 2), 20: (4, 4), 24: (8, l)}
            return e

        def bad(s):
            self.expect(s, 'HostnameError', 'pre')
            return 0
        fork(eng, st, [ok, bad])

    def sockaddr(self, s, p, lp, what):
        l = self.eng.load(s, lp, 4)
        if l == U:
            self.eng.bad(s, 'uninitialised', 'the length of an address buffer is uninitialised')
        if not isinstance(l, int) or l < 16:
            self.eng.bad(s, 'setup', 'the address buffer is too small')
        port, addr = s.fresh(what + ' port', 16), s.fresh(what + ' address', 32)
        o = self.eng.obj(s, p, 'write')
        for off, sz, v in ((0, 2, 2), (2, 2, port), (4, 4, addr), (8, 8, 0)):
            self.eng.store(s, self.eng.padd(s, p, off), sz, v)
        self.eng.store(s, lp, 4, 16)
        return (('x', 'ntoa', 64, addr),), ('x', 'bswap', 16, port)

    def s_inet_ntoa(self, eng, st, c):
        a = c.a[0]
        if a == U:
            eng.bad(st, 'uninitialised', 'an address is uninitialised')
        p = st.alloc('extern', None, None, 'address text')
        o = st.mem[p[1]]
        o.fill = 'lazy'
        o.sh[-2] = ('chars', (('x', 'ntoa', 64, a), 0))
        return p

    # -- events ---------------------------------------------------------------
    def expect(self, st, status, conn):
        st.mon['ev'] = st.mon['ev'] + ((status, conn),)
        if status in ('HostnameError', 'CreateError', 'OptionError', 'BindError', 'ListenError') or status == 'ServerAddressError' and conn == 'pre':
            st.mon['failed'] = 1

    def drained(self, st, what):
        if len(st.mon['ev']) > 1:
            self.eng.bad(st, 'event', '%s is not reported before %s' % (st.mon['ev'][1][0], what))

    def p_on(self, eng, st, c):
        self.site('event')
        s = c.a[0]
        if not isinstance(s, int):
            eng.bad(st, 'event', 'an unknown status is reported')
        name = STATUS[s] if s < len(STATUS) else '?'
        ev = st.mon['ev']
        if eng.traced:
            st.trace = (st.trace + ('event ' + name,))[-12:]
        snd = st.mon.get('send')
        if name in ('Send', 'SendError') and snd:
            if st.mon.get('reported_send'):
                eng.bad(st, 'event', 'the outcome of send() is reported twice')
            st.mon['reported_send'] = name
            ev = ('ev', (name, 'conn')) + ev[1:]
        if len(ev) == 1:
            eng.bad(st, 'event', '%s is reported although nothing like this happened' % name)
        if ev[1][0] != name:
            eng.bad(st, 'event', '%s is reported instead of %s' % (name, ev[1][0]))
        sa, ca = eng.strings.get(eng, st, c.a[1]), eng.strings.get(eng, st, c.a[3])
        sp, cp = c.a[2], c.a[4]
        want = st.mon.get('want')
        pre = want and (want[1], want[2], (), 0)
        lis = st.mon.get('listen')
        con = st.mon.get('conn')
        w = {'pre': pre, 'listen': lis and (lis[1], lis[2], (), 0), 'conn': con and con[1:5]}[ev[1][1]]
        if w is None:
            w = pre
        if sa != w[0] or ca != w[2] or self.neq(st, sp, w[1]) or self.neq(st, cp, w[3]):
            eng.bad(st, 'event', '%s is reported with the addresses of another connection: %s %s %s %s' % (name, show(sa), pretty(sp), show(ca), pretty(cp)))
        st.mon['ev'] = ev[:1] + ev[2:]

    def neq(self, st, a, b):
        if isinstance(b, tuple) and b[0] == 'x' and b[1] == 'bswap':
            b = ('x', 'zext', 32, b)
        return self.eng.eqt(st, a, b, 32) != 1 and term_bytes(a, 32) != term_bytes(b, 32)

    # -- system calls -----------------------------------------------------------
    def fdnew(self, s, name):
        f = s.fresh(name, 32)
        s.rng[f] = (0, (1 << 31) - 1)
        return f

    def fd(self, st, v, what):
        for k in ('lfd', 'cfd'):
            d = st.mon.get(k)
            if d and v == d[1]:
                if d[2] != 'open':
                    self.eng.bad(st, 'descriptor', '%s of a descriptor that was already closed' % what)
                return k
        for t in st.mon.get('threads', ('t',))[1:]:
            if t[1] == v:
                self.eng.bad(st, 'descriptor', '%s of a descriptor that belongs to another thread' % what)
        self.eng.bad(st, 'descriptor', '%s of something that is not an open descriptor' % what)

    def s_socket(self, eng, st, c):
        eng.site(st, 'system call')
        if c.a[0] != 2 or not isinstance(c.a[1], int) or c.a[1] & 15 != 1 or c.a[2] not in (0, 6):
            eng.bad(st, 'setup', 'the socket is not an IPv4 stream socket')
        if st.mon.get('lfd'):
            eng.bad(st, 'setup', 'a second listening socket is created')

        def ok(s):
            f = self.fdnew(s, 'listening socket')
            s.mon['lfd'] = ('fd', f, 'open', ())
            return f
        fork(eng, st, [ok, lambda s: (self.expect(s, 'CreateError', 'pre'), 0xffffffff)[1]])

    def step(self, st, what, done):
        d = st.mon['lfd']
        st.mon['lfd'] = d[:3] + (d[3] + (done,),)

    def s_setsockopt(self, eng, st, c):
        eng.site(st, 'system call')
        self.fd(st, c.a[0], 'setsockopt()')
        self.drained(st, 'setsockopt()')
        o = eng.load(st, c.a[3], 4)
        if c.a[1] == 1 and c.a[2] == 2 and (not isinstance(o, int) or o == 0):
            eng.bad(st, 'setup', 'address reuse is not enabled')

        def ok(s):
            if c.a[1] == 1 and c.a[2] == 2:
                self.step(s, 'setsockopt', 'reuse')
            return 0
        fork(eng, st, [ok, lambda s: (self.expect(s, 'OptionError', 'pre'), 0xffffffff)[1]])

    def s_bind(self, eng, st, c):
        eng.site(st, 'system call')
        self.fd(st, c.a[0], 'bind()')
        self.drained(st, 'bind()')
        self.site('bind')
        fam, port, addr = (eng.load(st, eng.padd(st, c.a[1], o), n) for o, n in ((0, 2), (2, 2), (4, 4)))
        want = st.mon['want']
        wp = self.bswap(st, eng.cast(st, 'trunc', 32, 16, want[2]), 16)
        wa = 0 if not want[1] else st.mon.get('host', (0, None))[1]
        if fam != 2 or c.a[2] != 16:
            eng.bad(st, 'setup', 'the address to bind is not an IPv4 address')
        if term_bytes(port, 16) != term_bytes(wp, 16):
            eng.bad(st, 'setup', 'another port than the requested one is bound: %s instead of %s' % (port, wp))
        if wa is None or term_bytes(addr, 32) != term_bytes(wa, 32):
            eng.bad(st, 'setup', 'another address than the requested one is bound')
        if 'reuse' not in st.mon['lfd'][3]:
            eng.bad(st, 'setup', 'the address is bound without enabling its reuse')

        def ok(s):
            self.step(s, 'bind', 'bound')
            return 0
        fork(eng, st, [ok, lambda s: (self.expect(s, 'BindError', 'pre'), 0xffffffff)[1]])

    def s_getsockname(self, eng, st, c):
        eng.site(st, 'system call')
        k = self.fd(st, c.a[0], 'getsockname()')
        self.drained(st, 'getsockname()')

        def ok(s):
            a, p = self.sockaddr(s, c.a[1], c.a[2], 'server')
            if k == 'lfd':
                s.mon['listen'] = ('listen', a, p)
            else:
                d = s.mon['conn']
                s.mon['conn'] = ('conn', a, p) + d[3:]
                self.expect(s, 'Accept', 'conn')
            return 0

        def bad(s):
            self.expect(s, 'ServerAddressError', 'pre' if k == 'lfd' else 'listen')
            if k == 'cfd':
                s.mon['conn'] = s.mon['conn'][:1] + ((), 0) + s.mon['conn'][3:]
                s.mon['cfd'] = s.mon['cfd'][:3] + ('failed',)
            return 0xffffffff
        fork(eng, st, [ok, bad])

    def s_listen(self, eng, st, c):
        eng.site(st, 'system call')
        self.fd(st, c.a[0], 'listen()')
        self.drained(st, 'listen()')
        if 'bound' not in st.mon['lfd'][3]:
            eng.bad(st, 'setup', 'a socket is listening without an address')

        def ok(s):
            self.step(s, 'listen', 'listening')
            self.expect(s, 'Listen', 'listen')
            return 0
        fork(eng, st, [ok, lambda s: (self.expect(s, 'ListenError', 'listen'), 0xffffffff)[1]])

    def s_close(self, eng, st, c):
        eng.site(st, 'system call')
        k = self.fd(st, c.a[0], 'close()')
        self.drained(st, 'close()')
        d = st.mon[k]
        inthread = bool(st.mon.get('io'))
        if inthread:
            self.delivered(st)

            if st.mon['io'][2] == 'open' and not st.mon['io'][7]:
                eng.bad(st, 'callback', 'a connection is closed although neither the client nor an error ended it')

        def done(s, status):
            s.mon[k] = d[:2] + ('closed',) + d[3:]
            failed = k == 'cfd' and d[3] == 'failed'
            self.expect(s, status, ('listen' if failed else 'conn') if k == 'cfd' else 'listen' if s.mon.get('listen') else 'pre')
            if inthread:
                io = s.mon['io']
                ok = int(status == 'Close' and io[2] == 'eof' and not io[7])
                self.upd(s, phase='closed', ctodo=io[6], out=ok)
            return 0 if status == 'Close' else 0xffffffff
        fork(eng, st, [lambda s: done(s, 'Close'), lambda s: done(s, 'CloseError')])

    def s_shutdown(self, eng, st, c):
        self.fd(st, c.a[0], 'shutdown()')
        return 0

    def s_signal(self, eng, st, c):
        if c.a[0] == 13 and c.a[1] == 1:
            st.mon['sigpipe'] = 1
        return 0

    def s_accept(self, eng, st, c):
        eng.site(st, 'system call')
        self.fd(st, c.a[0], 'accept()')
        self.drained(st, 'accept()')
        self.site('accept')
        if 'listening' not in st.mon['lfd'][3]:
            eng.bad(st, 'setup', 'accept() on a socket that does not listen')
        d = st.mon.get('cfd')
        if d and d[2] == 'open':
            eng.bad(st, 'descriptor', 'the descriptor of an accepted connection is neither served nor closed')
        # the limit
        o = [o for o in st.mem.values() if o.alive is True and -40 in o.sh]
        if len(o) == 1:
            self.collapse(st, o[0])
            g = o[0].sh[-40][2]
            if not isinstance(g, int) and st.rng.get(g, (0, 0))[0] < 1 or g == 0:
                eng.bad(st, 'limit', 'a connection is accepted although the maximum number of connections may be active')
        for k in ('cfd', 'conn', 'io'):
            st.mon.pop(k, None)
        t = st.mon.pop('thread', None)

        def run(s):
            _, fd, conn, fn, fnobj, args = t
            s.mon['cfd'] = ('fd', fd, 'open', '')
            s.mon['conn'] = conn
            s.mon['io'] = self.io0()
            # the thread does not see the rest of the server
            for k in ('want', 'host', 'listen', 'lfd', 'failed'):
                s.mon.pop(k, None)
            for o in s.mem.values():
                if not o.const and o.kind != 'extern' and o.alive is True:
                    o.sh[-77] = ('shared',)
            s.frames = s.frames[:1]
            s.frames[0].regs = {}
            eng.push(s, eng.m.fns[fn], list(args))
            s.frames[-1].native = thread_end
            return PUSHED

        def ok(s):
            f = self.fdnew(s, 'connection')
            a, p = self.sockaddr(s, c.a[1], c.a[2], 'client')
            s.mon['cfd'] = ('fd', f, 'open', '')
            s.mon['conn'] = ('conn', (), 0, a, p)
            return f

        def bad(s):
            self.expect(s, 'AcceptError', 'listen')
            return 0xffffffff
        if t:
            s = st.copy()
            run(s)
            eng.work.append(s)
        fork(eng, st, [ok, bad])

    # -- threads ------------------------------------------------------------------
    def s_async(self, eng, st, c):
        self.site('thread')
        par = split_params(c.params())
        if not par or not par[0].startswith('std::launch') or c.a[1] != 1:
            eng.bad(st, 'blocking', 'the connection may not get a thread of its own')
        d = st.mon.get('cfd')
        mt = re.search(r'std::async<(.*)>\(', c.fn.dem, re.S)
        ty = split_params(mt.group(1))[0].rstrip('&').strip().removesuffix(' const').strip()
        fn = next((f for f in eng.m.fns.values() if not f.decl and f.dem.startswith(ty + '::operator()(')), None)
        if fn is None:
            raise ir.AnalysisBroken('no call operator for ' + ty)
        # the functor and the arguments are copied into the thread
        cp = st.alloc('extern', None, None, 'state of the thread')
        so = eng.obj(st, c.a[2], 'read')
        do = st.mem[cp[1]]
        do.cells = {k - c.a[2][2]: v for k, v in so.cells.items() if k >= c.a[2][2]}
        do.sh = {k - c.a[2][2]: v for k, v in so.sh.items() if k >= c.a[2][2]}
        args = [cp]
        fds = []
        q = split_params(c.params())[2:]
        for (ty_, sret, byval, bsz), a, pt in zip(fn.args[1:], c.a[3:], q):
            if isinstance(ty_, list) and ty_[0] == 'i':
                v = eng.load(st, a, tsize(ty_))
                args.append(v)
                fds.append(v)
            else:
                p = st.alloc('extern', None, None, 'argument of the thread')
                ao = eng.obj(st, a, 'read')
                po = st.mem[p[1]]
                po.cells = {k - a[2]: v for k, v in ao.cells.items() if k >= a[2]}
                po.sh = {k - a[2]: v for k, v in ao.sh.items() if k >= a[2]}
                po.fill = ao.fill
                if pt.endswith('&&'):
                    for k, v in list(ao.sh.items()):
                        if v[0] == 'str':
                            ao.sh[k] = ('str', ())
                args.append(p)
        self.drained(st, 'the thread starts')
        if d is None or d[1] not in fds or d[2] != 'open':
            eng.bad(st, 'descriptor', 'the thread gets something else than the accepted descriptor')
        st.mon['thread'] = ('thread', d[1], st.mon['conn'], fn.name, cp, tuple(args))
        st.mon['cfd'] = ('fd', d[1], 'handed over', '')
        eng.obj(st, c.a[0], 'result').sh[c.a[0][2]] = ('future', 'run')
        return None

    def thread_done(self, st):
        self.site('thread ends')
        d = st.mon['cfd']
        if d[2] == 'open':
            self.eng.bad(st, 'descriptor', 'the descriptor of a connection stays open when its thread ends')
        self.drained(st, 'the thread ends')
        io = st.mon['io']
        if not io[8]:
            self.eng.bad(st, 'callback', 'createServer() is not called for a connection')
        if io[5]:
            self.eng.bad(st, 'callback', 'a closed listener is not called')

    def io0(self):
        # 1 receive listeners  2 phase  3 data  4 receive listeners still to call  5 closed listeners still to call
        # 6 closed listeners  7 outcome / failed send  8 server created
        return ('io', (), 'open', None, (), (), (), False, 0)

    def upd(self, st, **kw):
        ix = dict(recv=1, phase=2, data=3, todo=4, ctodo=5, closed=6, out=7, server=8)
        l = list(st.mon['io'])
        for k, v in kw.items():
            l[ix[k]] = v
        st.mon['io'] = tuple(l)

    def io(self, st, what):
        d = st.mon.get('io')
        if d is None:
            self.eng.bad(st, 'callback', what + ' outside the thread of a connection')
        return d

    # -- futures and the table of connections ------------------------------------------
    def fut(self, st, p):
        o = self.eng.obj(st, p, 'use of a future')
        d = o.sh.get(p[2])
        if d is None or d[0] != 'future':
            self.eng.bad(st, 'uninitialised', 'use of a future that was not constructed')
        return d[1]

    def setfut(self, st, p, v):
        self.eng.obj(st, p, 'use of a future').sh[p[2]] = ('future', v)

    def fut_ctor(self, eng, st, c):
        v = 'none'
        if len(c.a) > 1 and is_ptr(c.a[1]):
            v = self.fut(st, c.a[1])
            self.setfut(st, c.a[1], 'none')
        self.setfut(st, c.a[0], v)

    def fut_dtor(self, eng, st, c):
        self.block(st, self.fut(st, c.a[0]))
        eng.obj(st, c.a[0], 'destruction').sh.pop(c.a[0][2], None)

    def block(self, st, v):
        if v in ('run', 'any'):
            self.eng.bad(st, 'blocking', 'the server waits for the end of a connection that may be active')

    def fut_assign(self, eng, st, c):
        self.block(st, self.fut(st, c.a[0]))
        self.setfut(st, c.a[0], self.fut(st, c.a[1]))
        self.setfut(st, c.a[1], 'none')
        return c.a[0]

    def wait(self, eng, st, c):
        v = self.fut(st, c.a[0])
        if v == 'none':
            eng.bad(st, 'specification', 'waiting for an empty future')
        self.block(st, v)
        self.setfut(st, c.a[0], 'ready')

    def wait_for(self, eng, st, c):
        v = self.fut(st, c.a[0])
        if v == 'none':
            eng.bad(st, 'specification', 'waiting for an empty future')
        if v == 'ready':
            return 0
        if v in ('run', 'any') and eng.load(st, c.a[1], 8) != 0:
            self.block(st, v)

        def rdy(s):
            self.setfut(s, c.a[0], 'ready')
            return 0
        fork(eng, st, [rdy, lambda s: 1])

    def mapobj(self, st, p):
        o = self.eng.obj(st, p, 'use of the table of connections')
        d = o.sh.get(-40)
        if d is None:
            self.eng.bad(st, 'uninitialised', 'use of a table that was not constructed')
        return o, d

    def map_ctor(self, eng, st, c):
        g = st.fresh('gap')
        st.rng[g] = (1, 1 << 40)     # maximum - 0
        eng.obj(st, c.a[0], 'construction').sh[-40] = ('umap', None, g)

    def limit(self, st):
        """The effective maximum: the requested one, or max_size() if that is 0
        or larger."""
        m = st.mon['want'][3]
        if m == 0 or isinstance(m, tuple) and (st.facts.get(('x', 'ult', 1, ('x', 'max_size', 64), m)) == 1):
            return ('x', 'max_size', 64)
        return m

    def map_size(self, eng, st, c):
        o, d = self.mapobj(st, c.a[0])
        if d[1] is None and not isinstance(d[2], int) and not st.mon.get('limited'):
            pass
        return addt(self.limit(st), mult(d[2], -1))

    def grow(self, st, o):
        """One element less."""
        d = o.sh[-40]
        e = st.fresh('removed')
        st.rng[e] = (1, 1 << 40)
        b, c = lin(d[2])
        base = [k for k in b if k[0] == 's' and k[1] == 'gap']
        o.sh[-40] = ('umap', None, addt(base[0], e) if base else e)

    def collapse(self, st, o):
        d = o.sh[-40]
        v = d[2]
        if isinstance(v, tuple) and v[0] == 'x':
            g = st.fresh('gap')
            st.rng[g] = (1, 1 << 40)
            o.sh[-40] = ('umap', None, g)
        elif is_sym(v):
            if v[1] != 'gap':
                o.sh[-40] = ('umap', None, st.fresh('gap'))
                st.rng[o.sh[-40][2]] = st.rng.get(v, (0, 1 << 40))
                v = o.sh[-40][2]
            lo = min(1, st.rng.get(v, (0, 0))[0])
            if lo == 0 and self.eng.truth(st, self.eng.eqt(st, v, 0)) == 0:
                lo = 1
            st.rng[v] = (lo, 1 << 40)

    def node(self, st, key, fut):
        p = st.alloc('extern', None, None, 'entry of the table of connections')
        o = st.mem[p[1]]
        o.fill = 'lazy'
        o.cells = {0: (8, st.fresh('next')), 8: (4, key)}
        o.sh[16] = ('future', fut)
        return p

    def map_next(self, eng, st, c):
        def some(s):
            return self.node(s, self.fdnew(s, 'other connection'), 'any')
        fork(eng, st, [some, lambda s: 0])

    def map_incr(self, eng, st, c):
        def some(s):
            eng.store(s, c.a[0], 8, self.node(s, self.fdnew(s, 'other connection'), 'any'))

        def none(s):
            eng.store(s, c.a[0], 8, 0)
        fork(eng, st, [some, none])

    def map_erase(self, eng, st, c):
        o, d = self.mapobj(st, c.a[0])
        p = c.a[1]
        if not is_ptr(p):
            eng.bad(st, 'container-misuse', 'erase() of no entry')
        n = eng.obj(st, p, 'erase')
        if 16 not in n.sh:
            raise ir.AnalysisBroken('erase() by key is not modelled')
        self.block(st, n.sh[16][1])
        n.alive = False
        self.grow(st, o)
        return self.map_next(eng, st, c)

    def entry(self, eng, st, mp, key, cont):
        """cont(state, node, inserted)"""
        o, d = self.mapobj(st, mp)
        self.site('table entry')

        def new(s):
            o, d = self.mapobj(s, mp)
            g = d[2]
            lo = 0 if isinstance(g, int) else s.rng.get(g, (0, 0))[0]
            if lo < 1:
                eng.bad(s, 'limit', 'more connections than the maximum may be active')
            ng = s.fresh('gap')
            s.rng[ng] = (0, 1 << 40)
            o.sh[-40] = ('umap', None, ng)
            return cont(s, self.node(s, key, 'none'), 1)

        def reused(s):
            return cont(s, self.node(s, key, 'fin'), 0)
        fork(eng, st, [new, reused])

    def map_emplace(self, eng, st, c):
        k = c.a[1]
        par = split_params(c.params())
        if par[0].startswith('std::piecewise_construct'):
            k = eng.load(st, c.a[2], 8)
        key = eng.load(st, k, 4)
        self.entry(eng, st, c.a[0], key, lambda s, n, ins: ('agg', ((0, n), (1, ins))))

    def map_index(self, eng, st, c):
        key = eng.load(st, c.a[1], 4)
        self.entry(eng, st, c.a[0], key, lambda s, n, ins: eng.padd(s, n, 16))

    # -- data ------------------------------------------------------------------------
    def s_recv(self, eng, st, c):
        eng.site(st, 'system call')
        self.fd(st, c.a[0], 'recv()')
        self.drained(st, 'recv()')
        io = self.io(st, 'recv()')
        self.site('receive')
        self.delivered(st)
        if io[7]:
            eng.bad(st, 'callback', 'the connection stays open although a message could not be sent')
        if io[2] != 'open':
            eng.bad(st, 'data', 'recv() after the end of the connection')
        buf, n = c.a[1], c.a[2]
        if len(c.a) > 3 and c.a[3] not in (0, 0x4000):
            eng.bad(st, 'data', 'recv() with flags that change its meaning')
        o = eng.obj(st, buf, 'write')
        if o.size is not None and not fits(eng, st, o.size, buf[2], n):
            eng.bad(st, 'out-of-bounds', 'recv() may write beyond the end of its buffer')
        if self.published(st, buf[1]):
            eng.bad(st, 'data-race', 'data is received into a buffer that other threads use')
        if buf[2] != 0:
            eng.bad(st, 'data', 'received data does not start at the beginning of the buffer')

        def data(s):
            ck = s.fresh('data')
            l = ('x', 'len', 64, ck)
            s.rng[l] = (1, 1 << 40)
            s.facts[('x', 'empty', 1, ck)] = 0
            s.facts[('x', 'ule', 1, l, n)] = 1
            ob = s.mem[buf[1]]
            ob.cells = {}
            ob.fill = 'lazy'
            ob.sh[-2] = ('chars', (ck, ('x', 'rest', 64, s.fresh('rest'))))
            self.upd(s, data=ck, todo=s.mon['io'][1])
            self.expect(s, 'Receive', 'conn')
            return l

        def eof(s):
            self.upd(s, phase='eof')
            return 0

        def err(s):
            self.upd(s, phase='err')
            self.expect(s, 'ReceiveError', 'conn')
            return mask(64)
        fork(eng, st, [data, eof, err])

    def store_var(self, eng, st, o, p, size, v):
        d = o.sh.get(-2)
        if d is None:
            return False
        if o.size is not None and not fits(eng, st, o.size, p[2], size):
            eng.bad(st, 'out-of-bounds', 'write beyond the end of a buffer')
        ck = d[1][0]
        if v == 0 and size == 1 and p[2] == ('x', 'len', 64, ck):
            o.sh[-2] = ('chars', (ck, 0))
            return True
        return False

    def buffer_range(self, eng, st, p, n):
        if is_ptr(p) and p[2] == 0:
            d = eng.obj(st, p, 'read').sh.get(-2)
            if d and n == ('x', 'len', 64, d[1][0]):
                return (d[1][0],)
        return None

    def delivered(self, st):
        io = st.mon['io']
        if io[4]:
            self.eng.bad(st, 'callback', 'a receive listener is not called')

    def p_server(self, eng, st, c):
        io = self.io(st, 'createServer()')
        self.site('createServer')
        if io[8]:
            eng.bad(st, 'callback', 'createServer() is called twice for a connection')
        self.upd(st, server=1)

    def p_listen_data(self, eng, st, c):
        io = self.io(st, '')
        self.upd(st, recv=io[1] + (c.a[0],))

    def p_listen_close(self, eng, st, c):
        io = self.io(st, '')
        self.upd(st, closed=io[6] + (c.a[0],))

    def p_may_register(self, eng, st, c):
        io = st.mon['io']
        return int(2 not in io[1] and 2 not in io[6])

    def p_data(self, eng, st, c):
        self.site('receive listener')
        io = self.io(st, 'a receive listener')
        v = eng.strings.get(eng, st, c.a[1])
        if v != (io[3],):
            eng.bad(st, 'data', 'a receive listener gets something else than the received data: ' + show(v))
        if st.mon.get('incb') == c.a[0] + 1:
            st.mon.pop('incb')
            return          # the message is still intact at the end of the listener
        st.mon['incb'] = c.a[0] + 1
        if any(e[0] == 'Receive' for e in st.mon['ev'][1:]):
            eng.bad(st, 'event', 'Receive is not reported before the listeners are called')
        if io[4] and io[4][0] == c.a[0]:
            self.upd(st, todo=io[4][1:])
        elif not io[4] and c.a[0] == 2 and io[1][-1:] == (2,):
            pass            # registered meanwhile
        else:
            eng.bad(st, 'callback', 'receive listeners are not called once each in the order of registration')

    def p_closed(self, eng, st, c):
        self.site('closed listener')
        io = self.io(st, 'a closed listener')
        if io[2] != 'closed':
            eng.bad(st, 'callback', 'a closed listener is called before the socket is closed')
        if not io[5] or io[5][0] != c.a[0]:
            eng.bad(st, 'callback', 'closed listeners are not called once each in the order of registration')
        if c.a[1] == U:
            eng.bad(st, 'uninitialised', 'the argument of a closed listener is uninitialised')
        ok = eng.branch(st, c.a[1])
        if io[7] is not None and ok != int(io[7]):
            eng.bad(st, 'callback', 'a closed listener gets %s although the connection was closed %s' % (('false', 'true')[ok], 'orderly' if io[7] else 'because of an error'))
        self.upd(st, ctodo=io[5][1:])

    def p_message(self, eng, st, c):
        eng.strings.put(eng, st, c.a[0], (st.fresh('message'),))

    def p_send(self, eng, st, c):
        st.mon['send'] = ('send', eng.strings.get(eng, st, c.a[0]), 0, 0)

    def p_sent(self, eng, st, c):
        self.site('send')
        _, v, n, failed = st.mon.pop('send')
        ev = st.mon['ev'][1:]
        if len(ev):
            eng.bad(st, 'event', '%s is not reported' % ev[0][0])
        if not failed and eng.truth(st, eng.eqt(st, n, eng.strings.length(eng, st, v))) != 1:
            eng.bad(st, 'data', 'a message is not sent completely')
        r = st.mon.pop('reported_send', None)
        if not failed and r != 'Send' or failed and r != 'SendError':
            eng.bad(st, 'event', 'the outcome of send() is not reported')
        if failed:
            self.upd(st, out=True)

    def s_send(self, eng, st, c):
        eng.site(st, 'system call')
        self.fd(st, c.a[0], 'send()')
        d = st.mon.get('send')
        if d is None:
            eng.bad(st, 'data', 'something is sent that the server did not ask for')
        if d[3]:
            eng.bad(st, 'data', 'the message is continued after a failed send()')
        fl = c.a[3] if len(c.a) > 3 else 0
        if not (isinstance(fl, int) and fl & 0x4000) and not st.mon.get('sigpipe'):
            eng.bad(st, 'signal', 'send() to a client that is gone raises SIGPIPE, which terminates the server')
        p, n = c.a[1], c.a[2]
        L = eng.strings.length(eng, st, d[1])
        o = eng.obj(st, p, 'read')
        ch = o.sh.get(-2)
        if ch is None or strip0(ch[1]) != d[1] or eng.eqt(st, p[2], d[2]) != 1:
            eng.bad(st, 'data', 'something else than the rest of the message is sent')
        if eng.eqt(st, addt(p[2], n), L) != 1:
            eng.bad(st, 'data', 'the length of the data to send is not the rest of the message')

        def ok(s):
            s.mon['send'] = d[:2] + (L, 0)
            if is_sym(n):
                s.rng[n] = (max(0, s.rng.get(n, (0, 0))[0]), 1 << 40)
            return n

        def part(s):
            k = s.fresh('sent')
            s.rng[k] = (1, 1 << 40)
            s.facts[('x', 'ult', 1, k, L)] = 1
            s.mon['send'] = d[:2] + (k, 0)
            r = addt(k, mult(d[2], -1))
            if r != k:
                s.rng[r] = (1, 1 << 40)
            return r

        def err(s):
            s.mon['send'] = d[:3] + (1,)
            return mask(64)
        fork(eng, st, [ok, part, err])

    def p_returned(self, eng, st, c):
        self.site('startServer returns')
        self.drained(st, 'startServer() returns')
        d = st.mon.get('lfd')
        if d and d[2] == 'open':
            eng.bad(st, 'descriptor', 'the listening socket stays open when startServer() returns')
        if not st.mon.get('failed'):
            eng.bad(st, 'setup', 'startServer() returns although nothing failed')


def run(m, entry):
    eng = Engine(m)
    install_vf(eng)
    eng.client = CSock(eng)
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
