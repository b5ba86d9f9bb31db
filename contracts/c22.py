"""C22 Dependency measures follow their definitions."""
import z3
from pyvc.types import *
from pyvc.core import And, Or, Not
from pyvc.contract import Contract, LoopInv
from .petri import fa

A = 'pm4py.algo.discovery.causal.variants.'
ACT = TU('Act')
PAIR = TTuple(ACT, ACT)
DFG = TDict(PAIR, TInt)
CA = TDict(PAIR, TInt)
CH = TDict(PAIR, TReal)


def pv():
    return z3.FreshConst(PAIR.sort(), 'q')


def swap(q):
    return PAIR.mk(PAIR.get(q, 1), PAIR.get(q, 0))


def n(d, q):
    return z3.If(sel(DFG.dom(d), q), sel(DFG.val(d), q), z3.IntVal(0))


def alpha(s):
    q = pv()
    return CA, CA.mk(lam(q, And(n(s.dfg, q) > 0, n(s.dfg, swap(q)) == 0)), lam(q, z3.IntVal(1)))


def dep(d, q):
    x, y = z3.ToReal(n(d, q)), z3.ToReal(n(d, swap(q)))
    return (x - y) / (x + y + 1)


def heur(s):
    q = pv()
    return CH, CH.mk(lam(q, Or(sel(DFG.dom(s.dfg), q), sel(DFG.dom(s.dfg), swap(q)))), lam(q, dep(s.dfg, q)))


def counts(s):
    q = pv()
    return [('frequencies are not negative', fa([q], sel(DFG.val(s.dfg), q) >= 0, sel(DFG.val(s.dfg), q)))]


def inv(l):
    c, d = l.v('causal_heur'), l.old('dfg')
    q, q1 = pv(), pv()
    return [('entries are those of the visited pairs', z3.ForAll([q], sel(CH.dom(c), q) == Or(sel(l.done, q), sel(l.done, swap(q))))),
            ('entries are the dependency measure', fa([q1], z3.Implies(sel(CH.dom(c), q1), sel(CH.val(c), q1) == dep(d, q1)), sel(CH.val(c), q1)))]


def CONTRACTS():
    return [
        Contract(A + 'alpha:apply', dict(dfg=DFG), pre=counts, value=alpha),
        Contract(A + 'heuristic:apply', dict(dfg=DFG), pre=counts, value=heur, loops={0: LoopInv(inv)}),
    ]


def LEMMAS():
    d = z3.Const('d', DFG.sort())
    q = z3.Const('q', PAIR.sort())
    x, y = z3.Reals('x y')
    h = lambda x, y: (x - y) / (x + y + 1)
    return [('the dependency measure lies strictly between -1 and 1', [x >= 0, y >= 0], z3.And(-1 < h(x, y), h(x, y) < 1)),
            ('the dependency measure is antisymmetric', [x >= 0, y >= 0], h(x, y) == -h(y, x)),
            ('swapping twice is the identity', [], swap(swap(q)) == q)]


BOUNDED = 'random directly-follows graphs with self-loops, zero frequencies and one- or two-directional pairs'


NOTE = ('Proved for all directly-follows graphs with non-negative counts: the heuristic dependency of (a, b) is (|ab| - |ba|) / (|ab| + |ba| + 1) for exactly the pairs of the graph and their inverses; the alpha causality is the pairs that occur in one direction only. '
        'Lemmas: the measure is antisymmetric and within (-1, 1).')
