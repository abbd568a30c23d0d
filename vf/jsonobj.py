"""Json.h: objects described with the macros.  Their cells are decided by the
type checker (static_assert in the driver), their names by interpretation."""
from .jsonesc import *


class JsonObj(JsonEscape):
    def __init__(self, eng):
        super().__init__(eng)
        i = eng.intr
        i['spec_text'] = self.text
        i['spec_name'] = self.name
        i['spec_same'] = self.same

    def normalise(self, eng, st):
        pass

    def text(self, eng, st, c):
        eng.obl += 1
        want = c_string(eng, st, c.a[1])
        got = flat(eng.strings.get(eng, st, c.a[0]))
        eng.sites.setdefault('name', set()).add(want)
        if got != tuple(want.encode()):
            eng.bad(st, 'specification', 'the name of a cell or object is the one it was described with')

    def name(self, eng, st, c):
        A = st.fresh('name')
        st.rng[('x', 'len', 64, A)] = (0, BIG)
        eng.strings.put(eng, st, c.a[0], (A,))

    def same(self, eng, st, c):
        a, b = (flat(eng.strings.get(eng, st, x)) for x in c.a[:2])
        return int(bool(eng.branch(st, eng.strings.same(eng, st, a, b))))


def run(m, entry):
    eng = Engine(m)
    install_vf(eng)
    eng.client = JsonObj(eng)
    eng.WIDEN_AFTER = 100
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
