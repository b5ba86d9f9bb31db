from pyvc.core import World
from . import petri, log


ASSUMPTIONS = []
TRUSTED = ['pyvc: the VC generator in /verif/pyvc (semantics of the Python subset, models of builtins and containers)',
           'z3 (SMT solver)', 'CPython implements the language as modelled']


def world(mod=None):
    w = World()
    w.facts = lambda ip: []
    petri.schema(w)
    log.schema(w)
    for f in [getattr(mod, "setup", None)]:
        if f:
            f(w)
    return w


def extra_contracts(mod):
    return getattr(mod, 'USES', lambda: [])()
