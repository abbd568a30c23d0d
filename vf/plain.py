"""Units whose drivers state the specification themselves (vf_check)."""
from .absint import *
from .common import install_vf


class Plain:
    def normalise(self, eng, st):
        pass


def run(m, entry, client=None, widen=100):
    eng = Engine(m)
    install_vf(eng)
    eng.client = client or Plain()
    eng.WIDEN_AFTER = widen
    eng.run(entry)
    eng.stats['obligations'] = eng.obl
    return eng
