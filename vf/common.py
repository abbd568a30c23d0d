"""Intrinsics shared by the clients, and the verdict/evidence plumbing."""
import json, os, sys, time, traceback
from . import ir
from .absint import *


def install_vf(e):
    i = e.intr

    def nondet(eng, st, c):
        n = c.a[0]
        eng.outcomes([(st.copy() if k < n - 1 else st, k) for k in range(n)][::-1])
    i['vf_nondet'] = nondet
    i['vf_token'] = lambda eng, st, c: st.fresh(c_string(eng, st, c.a[0]) or 'tok')
    i['vf_any'] = i['vf_token']
    i['vf_bool'] = lambda eng, st, c: st.fresh(c_string(eng, st, c.a[0]) or 'b', 1)

    def check(eng, st, c):
        msg = c_string(eng, st, c.a[1])
        v = c.a[0]
        if v == U:
            eng.bad(st, 'uninitialised', 'uninitialised result: ' + msg)
        t = eng.branch(st, v)
        eng.sites.setdefault('check', set()).add(msg)
        eng.obl += 1
        if not t:
            eng.bad(st, 'specification', msg)
        return None
    i['vf_check'] = check

    def event(eng, st, c):
        s = c_string(eng, st, c.a[0])
        if eng.traced:
            st.trace = (st.trace + (s,))[-12:]
        h = getattr(eng.client, 'on_event', None)
        if h:
            h(eng, st, s, c.a[1:])
        return None
    i['vf_event'] = event

    def halt(eng, st, c):
        raise Stop()
    i['vf_halt'] = halt
