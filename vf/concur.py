"""Threads, mutexes and condition variables: every interleaving at
synchronisation operations, deadlocks, and data races by a happens-before
dataflow (each access records which threads and mutexes already know of it)."""
from . import ir
from .absint import *


class Concurrency:
    coarse = False      # switch threads only where one may block; no spurious wakeups

    def __init__(self, eng, client):
        self.eng = eng
        eng.conc = self
        m, i = eng.models, eng.intr
        m['std::mutex::mutex'] = lambda e, st, c: None
        m['std::mutex::~mutex'] = lambda e, st, c: None
        m['std::mutex::lock'] = self.lock
        m['std::mutex::unlock'] = self.unlock
        m['std::mutex::try_lock'] = self.try_lock
        for n in ('condition_variable', '_V2::condition_variable_any'):
            m['std::%s::condition_variable' % n] = lambda e, st, c: None
        m['std::condition_variable::condition_variable'] = self.cv_ctor
        m['std::condition_variable::~condition_variable'] = self.cv_dtor
        m['std::condition_variable::wait'] = self.wait
        m['std::condition_variable::notify_one'] = lambda e, st, c: self.notify(st, c, False)
        m['std::condition_variable::notify_all'] = lambda e, st, c: self.notify(st, c, True)
        m['std::thread::_M_start_thread'] = self.start
        m['std::thread::detach'] = self.detach
        m['std::thread::join'] = self.join
        client.thread_end = self.thread_end
        prev = getattr(client, 'on_access', None)
        client.on_access = self.access
        prevf = getattr(client, 'on_free', None)

        def on_free(eng, st, p, how):
            self.access(eng, st, ('p', p[1], 0), 1 << 30, True, 'released')
            if prevf:
                prevf(eng, st, p, how)
        client.on_free = on_free

    # -- happens-before -----------------------------------------------------
    # o.sh[-10] = ('hb', ((lo, size, tid, write, known), ...)); known is a tuple
    # of thread numbers and mutex pointers.
    def access(self, eng, st, p, size, write, what='accessed'):
        if self.coarse or not is_ptr(p):
            return
        o = st.mem.get(p[1])
        if o is None or o.kind != 'heap' or not isinstance(p[2], int):
            return
        h = o.sh.get(-10)
        if h is None and not st.thr and not st.mon.get('mt'):
            return
        recs = h[1] if h else ()
        t = st.cur
        keep = []
        for r in recs:
            lo, sz, tid, w, known = r
            ov = lo < p[2] + size and p[2] < lo + sz
            if ov and tid != t and (w or write) and t not in known:
                eng.report(st, 'data-race', '%s is %s without synchronisation with the access of another thread' % (o.name or 'memory', what))
                o.sh.pop(-10, None)
                raise Stop()
            if (lo, sz, tid, w) == (p[2], size, t, write):
                continue
            keep.append(r)
        keep.append((p[2], size, t, write, (t,)))
        o.sh[-10] = ('hb', tuple(sorted(keep, key=lambda r: r[:4])))
        self.eng.obl += 1
        self.eng.site(st, 'shared access')

    def learn(self, st, src, dst):
        """Everything src knows becomes known to dst."""
        for o in st.mem.values():
            h = o.sh.get(-10)
            if not h:
                continue
            n = []
            for lo, sz, tid, w, known in h[1]:
                if src in known and dst not in known:
                    known = tuple(sorted(known + (dst,), key=lambda k: (isinstance(k, tuple), k[2] if isinstance(k, tuple) else k)))
                n.append((lo, sz, tid, w, known))
            o.sh[-10] = ('hb', tuple(n))

    # -- mutexes -------------------------------------------------------------
    def mtx(self, st, p, what):
        o = self.eng.obj(st, p, what)
        return o, o.sh.get(p[2], ('mutex', -1))[1]

    def acquire(self, st, p):
        o, own = self.mtx(st, p, 'lock')
        o.sh[p[2]] = ('mutex', st.cur)
        self.learn(st, p, st.cur)

    def release(self, st, p, what='unlock'):
        o, own = self.mtx(st, p, what)
        if own != st.cur:
            self.eng.bad(st, 'lock-misuse', 'a mutex is released by a thread that does not hold it')
        o.sh[p[2]] = ('mutex', -1)
        self.learn(st, st.cur, p)

    def lock(self, eng, st, c):
        p = c.a[0]
        eng.site(st, 'lock')
        o, own = self.mtx(st, p, 'lock')
        if own == st.cur:
            eng.bad(st, 'deadlock', 'a thread locks a mutex it already holds')
        st.status = ('lock', p)
        self.schedule(st)

    def try_lock(self, eng, st, c):
        o, own = self.mtx(st, c.a[0], 'lock')
        if own != -1:
            return 0
        self.acquire(st, c.a[0])
        return 1

    def unlock(self, eng, st, c):
        self.release(st, c.a[0])
        self.pause(st)

    # -- condition variables ---------------------------------------------------
    def cv_ctor(self, eng, st, c):
        eng.obj(st, c.a[0], 'construction').sh[c.a[0][2]] = ('cv',)

    def cv_dtor(self, eng, st, c):
        p = c.a[0]
        eng.obj(st, p, 'destruction')
        for k, (fr, e, s) in st.thr.items():
            if s and s[0] == 'wait' and s[1] == p:
                eng.bad(st, 'deadlock', 'a condition variable is destroyed while a thread waits for it')

    def wait(self, eng, st, c):
        cv, ul = c.a[0], c.a[1]
        if 'Predicate' in c.fn.dem or len(c.a) > 2:
            return PASS
        eng.site(st, 'wait')
        eng.obj(st, cv, 'wait')
        m = eng.load(st, ul, 8)
        if m == 0 or eng.load(st, eng.padd(st, ul, 8), 1) != 1:
            eng.bad(st, 'lock-misuse', 'waiting without holding the lock')
        self.release(st, m, 'wait')
        st.status = ('wait', cv, m)
        self.schedule(st)

    def notify(self, st, c, every):
        cv = c.a[0]
        eng = self.eng
        eng.site(st, 'notify')
        eng.obj(st, cv, 'notification')
        w = [k for k, (fr, e, s) in sorted(st.thr.items()) if s and s[0] == 'wait' and s[1] == cv]
        if every or len(w) <= 1:
            for k in w:
                fr, e, s = st.thr[k]
                st.thr[k] = (fr, e, ('lock', s[2]))
            return self.pause(st)
        out = []
        for k in w:
            s2 = st.copy()
            fr, e, s = s2.thr[k]
            s2.thr[k] = (fr, e, ('lock', s[2]))
            out.append((s2, None))
        eng.outcomes(out)

    # -- threads ---------------------------------------------------------------
    def start(self, eng, st, c):
        # start_thread(this, unique_ptr<_State>, void (*)())
        th, up = c.a[0], c.a[1]
        p = eng.load(st, up, 8)
        eng.store(st, up, 8, 0)
        eng.store(st, th, 8, 1)
        eng.site(st, 'thread')
        n = max([st.cur] + list(st.thr)) + 1
        fn = eng.m.fns['vf_thread_main']
        saved = st.frames
        st.frames = []
        eng.push(st, fn, [p])
        st.thr[n] = (st.frames, None, None)
        st.frames = saved
        st.mon['mt'] = ('mt', 1)
        self.learn(st, st.cur, n)
        self.pause(st)

    def detach(self, eng, st, c):
        eng.store(st, c.a[0], 8, 0)

    def join(self, eng, st, c):
        eng.bad(st, 'deadlock', 'the caller waits for the server to finish')

    def pause(self, st):
        """The current call is complete; any thread may run next."""
        if self.eng.finish_call(st, None):
            raise Fork([])
        st.status = None
        if self.coarse:
            raise Fork([st])
        self.schedule(st)

    def enabled(self, st, s, tid):
        if s is None:
            return True
        if s[0] == 'lock':
            o = st.mem.get(s[1][1])
            if o is None or o.alive is not True:
                return True       # will be reported as use after free
            return o.sh.get(s[1][2], ('mutex', -1))[1] == -1
        return False

    def schedule(self, st):
        """Current thread has a status; forks into every continuation."""
        eng = self.eng
        cur, status = st.cur, st.status
        opts = []
        if cur is not None and self.enabled(st, status, cur):
            opts.append(cur)
        for k in sorted(st.thr):
            if self.enabled(st, st.thr[k][2], k):
                opts.append(k)
        if not opts:
            if cur is None:
                k = sorted(st.thr)[0]
                st.frames, st.exc, st.status = st.thr.pop(k)
                st.cur = k
            eng.report(st, 'deadlock', 'no thread can make progress: every thread waits for a lock or a notification nobody will give')
        out = []
        spurious = [k for k in st.thr if st.thr[k][2] and st.thr[k][2][0] == 'wait']
        if status and status[0] == 'wait' and cur is not None:
            spurious.append(cur)
        if not opts or self.coarse:
            spurious = []
        for k in opts:
            out.append(self.switch(st.copy(), k))
        for k in spurious:
            s2 = st.copy()
            if k == s2.cur:
                s2.status = ('lock', s2.status[2])
            else:
                fr, e, s = s2.thr[k]
                s2.thr[k] = (fr, e, ('lock', s[2]))
            # only taken at once when the mutex is free
            x = s2.status if k == s2.cur else s2.thr[k][2]
            if self.enabled(s2, x, k):
                out.append(self.switch(s2, k))
        res = []
        for s in out:
            eng.stats['interleavings'] = eng.stats.get('interleavings', 0) + 1
            eng.gc(s)
            key = canon(s)
            if key in eng.seen:
                eng.stats['merged'] += 1
                continue
            eng.seen[key] = 1
            t = s.status
            if t and t[0] == 'lock':
                s.status = None
                try:
                    self.acquire(s, t[1])
                    if eng.finish_call(s, None):
                        continue
                except Stop:
                    continue
            res.append(s)
        eng.stats['forks'] += 1
        raise Fork(res)

    def switch(self, st, k):
        if k != st.cur:
            if st.cur is not None:
                st.thr[st.cur] = (st.frames, st.exc, st.status)
            st.frames, st.exc, st.status = st.thr.pop(k)
            st.cur = k
        return st

    def thread_end(self, eng, st):
        st.cur = None
        st.status = None
        st.frames = []
        self.schedule(st)
