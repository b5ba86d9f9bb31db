"""C06 Directly-follows, start and end counts are exact."""
from .log import *
from pyvc import syms

DN = 'pm4py.algo.discovery.dfg.variants.native'
FT = 'pm4py.algo.discovery.dfg.variants.freq_triples'
SA = 'pm4py.statistics.start_activities.log.get'
EA = 'pm4py.statistics.end_activities.log.get'
ACT = lambda: prm('pm4py:param:activity_key', TStr, 'concept:name')


def one(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def counts(t, n):
    """a counting dictionary: entries with their positive count, absent otherwise"""
    q = z3.FreshConst(t.k.sort(), 'q')
    e = z3.simplify(n(q))
    pos = syms.POS(e)
    return t, t.mk(lam(q, e > 0 if pos is None else pos), lam(q, e))


def starts(end):
    def value(s):
        L = Log(s)
        key = ACT()

        def n(a):
            i = iv()
            tr = L.trace(s.log, i)
            e = L.event(tr, L.len(tr) - 1 if end else z3.IntVal(0))
            return syms.SUM(i, one(And(L.in_log(s.log, i), L.len(tr) > 0, L.has(e, key), L.val(e, key) == a)))
        return counts(COUNTS, n)
    return value


P3 = TTuple(VAL, VAL, VAL)


def named(s):
    return [('every event has the activity attribute', all_have(s, s.log, ACT())), ('window', prm('window', TInt, 1) >= 1)]


def native(s):
    L = Log(s)
    w, once, key = prm('window', TInt, 1), prm('keep_once_per_case', TBool, False), ACT()
    t = TDict(PAIR, TInt, counter=True)

    def n(q):
        i, j = iv(), iv('j')

        def at(i, j):
            return And(L.in_trace(s.log, i, j), j >= w, L.act(s.log, i, j - w, key) == PAIR.get(q, 0), L.act(s.log, i, j, key) == PAIR.get(q, 1))
        return z3.If(once, syms.SUM(i, one(And(L.in_log(s.log, i), z3.Exists([j], at(i, j))))), syms.SUM(i, syms.SUM(j, one(at(i, j)))))
    return counts(t, n)


def triples(s):
    L = Log(s)
    key = ACT()

    def n(q):
        i, j = iv(), iv('j')
        return syms.SUM(i, syms.SUM(j, one(And(L.in_trace(s.log, i, j), j >= 2, *[L.act(s.log, i, j - 2 + k, key) == P3.get(q, k) for k in range(3)]))))
    return counts(TDict(P3, TInt), n)


def CONTRACTS():
    me = dict(log=LOG, parameters=params)
    return [
        Contract(DN + ':native', me, pre=named, value=native),
        Contract('pm4py.algo.discovery.dfg.algorithm:apply', me, pre=named, value=native),
        Contract(FT + ':freq_triples', me, pre=named, value=triples),
        Contract(SA + ':get_start_activities', me, value=starts(False)),
        Contract(EA + ':get_end_activities', me, value=starts(True)),
    ]


BOUNDED = 'the table variants (pandas grouping) are covered by the oracle only: logs of at most 9 traces'


NOTE = ('Proved for all logs and parameters: directly-follows, triple, start and end counts are the sums over all traces of the number of positions at which the window occurs; tables are bounded.')
