from enum import Enum
from gen import *
from pm4py.util import exec_utils
import pm4py
from pm4py.algo.discovery.dfg import algorithm as dfg_algo
from pm4py.algo.conformance.tokenreplay import algorithm as tbr_algo
from pm4py.algo.simulation.playout.petri_net import algorithm as po_algo
from pm4py.algo.conformance.alignments.petri_net import algorithm as ali_algo
from pm4py.algo.discovery.footprints import algorithm as fp_algo

BOUNDS = 'dictionaries of up to 6 entries over two enumerations sharing names, their string names and other strings; 14 stored values incl. None, 0, False, empty containers, enumeration members'


class P1(Enum):
    A = 'alpha'
    B = 'beta'
    C = 'gamma'


class P2(Enum):
    A2 = 'alpha'
    B2 = 'beta'
    Z = 'zeta'


class W(Enum):
    ONE = 1
    EMPTY = ''


MISSING = object()
VALUES = [None, 0, 0.0, False, True, '', 'x', [], {}, (), W.ONE, W.EMPTY, P1.A, [1, 2]]
KEYS = list(P1) + list(P2) + ['alpha', 'beta', 'gamma', 'zeta', 'other']


def un(x):
    return x.value if isinstance(x, Enum) else x


def same(a, b):
    return a is b or (type(a) is type(b) and a == b)


def lookup(rng, k):
    ks = rng.sample(KEYS, rng.randint(0, 6))
    d = {x: rng.choice(VALUES) for x in ks}
    before = dict(d)
    dflt = rng.choice(VALUES + [MISSING])
    for p in KEYS:
        got = exec_utils.get_param_value(p, d, dflt)
        if p in d:
            need(same(got, un(d[p])), 'key', 'parameter %r of %r: %r' % (p, d, got))
        else:
            c = [un(d[x]) for x in d if un(x) == un(p)]
            if c:
                need(any(same(got, x) for x in c), 'name', 'parameter %r of %r: %r' % (p, d, got))
            else:
                need(same(got, un(dflt)), 'default', 'parameter %r of %r, default %r: %r' % (p, d, dflt, got))
        need(list(d.items()) == list(before.items()), 'frame', 'parameters modified')
        for e in (None, {}):
            need(same(exec_utils.get_param_value(p, e, dflt), un(dflt)), 'empty', 'parameter %r of %r, default %r' % (p, e, dflt))
    return len(KEYS) * 3


def variants(rng, k):
    for mod in (dfg_algo, tbr_algo, po_algo, ali_algo, fp_algo):
        for v in mod.Variants:
            need(exec_utils.get_variant(v) is v.value, 'variant', 'variant %s' % v)
            need(exec_utils.get_variant(v.value) is v.value, 'variant', 'implementation %s' % v)
    for x in VALUES:
        need(same(exec_utils.get_variant(x), un(x)), 'variant', 'variant %r' % (x,))
        need(same(exec_utils.unroll(x), un(x)), 'unroll', 'unroll %r' % (x,))
    return 40


CASES = [('lookup', lookup, 1500), ('variants', variants, 1, 1)]
