"""C07 Variants partition the traces of a log."""
from .log import *
from .c06 import one, counts
from pyvc import syms

VG = 'pm4py.statistics.variants.log.get'
VU = 'pm4py.util.variants_util'
ACT = lambda: prm('pm4py:param:activity_key', TStr, 'concept:name')
SEQ = TSeq(TList(VAL))
IDX = TDict(SEQ, TList(TInt))
OBJ = TDict(SEQ, TList(TRACE))


def seq(n, f):
    """the tuple (f(0), ..., f(n-1))"""
    j = iv('j')
    return SEQ.tl.mk(n, lam(j, z3.If(And(j >= 0, j < n), f(j), default(VAL))))


def variant_of(s, tr, key):
    L = Log(s)
    return seq(L.len(tr), lambda j: L.val(L.event(tr, j), key))


def named(s):
    return [('every event has the activity attribute', all_have(s, s.log, ACT()))]


def named_trace(s):
    L = Log(s)
    j = iv('j')
    e = L.event(s.trace, j)
    return [('every event has the activity attribute', z3.ForAll([j], z3.Implies(And(j >= 0, j < L.len(s.trace)), L.has(e, ACT())), patterns=[e]))]


def where(t, cond, elem):
    """per key q, in order, elem(i) for the positions i of the log with cond(i, q)"""
    q, j = z3.FreshConst(t.k.sort(), 'q'), iv('j')
    i = iv()
    g = z3.simplify(cond(i, q))
    n = syms.SUM(i, one(g))
    fs = syms.define('fsel', [i], [g, n], z3.ArraySort(z3.IntSort(), z3.IntSort()))
    return t, t.mk(lam(q, z3.Exists([i], g)), lam(q, t.v.mk(n, lam(j, z3.If(And(j >= 0, j < n), elem(sel(fs, j)), default(t.v.t))))))


def idx(s):
    L = Log(s)
    key = ACT()
    return where(IDX, lambda i, q: And(L.in_log(s.log, i), variant_of(s, L.trace(s.log, i), key) == q), lambda i: i)


def obj(s):
    L = Log(s)
    key = ACT()
    return where(OBJ, lambda i, q: And(L.in_log(s.log, i), variant_of(s, L.trace(s.log, i), key) == q), lambda i: L.trace(s.log, i))


def language(s):
    L = Log(s)
    key = ACT()
    t = TDict(SEQ, TReal)
    i, q = iv(), z3.FreshConst(SEQ.sort(), 'q')
    c = lambda i, q: And(L.in_log(s.log, i), variant_of(s, L.trace(s.log, i), key) == q)
    n = L.ntr(s.log)
    return t, t.mk(lam(q, z3.Exists([i], c(i, q))), lam(q, z3.ToReal(syms.SUM(i, one(c(i, q)))) / z3.ToReal(n)))


def CONTRACTS():
    me = dict(log=LOG, parameters=params)
    return [
        Contract(VU + ':get_variant_from_trace', dict(trace=TRACE, parameters=params), pre=named_trace, value=lambda s: (SEQ, variant_of(s, s.trace, ACT()))),
        Contract(VG + ':get_variants_from_log_trace_idx', me, pre=named, value=idx),
        Contract(VG + ':get_variants', me, pre=named, value=obj),
        Contract(VG + ':get_language', me, pre=named, value=language),
    ]


def LEMMAS():
    """the number of traces over all variants is the number of traces of the log"""
    from .base import world
    from .c01 import _Free
    s = _Free(world())
    s.log = z3.Const('log', REF)
    s.given = None
    t, e = obj(s)
    q = z3.FreshConst(SEQ.sort(), 'q')
    n = Log(s).ntr(s.log)
    i = iv()
    own = variant_of(s, Log(s).trace(s.log, i), ACT())
    inl = Log(s).in_log(s.log, i)
    return [('variant counts sum to the number of traces', [n >= 0], syms.SUM(q, z3.If(sel(t.dom(e), q), t.v.len(sel(t.val(e), q)), z3.IntVal(0))) == n),
            ('a variant has a trace', [sel(t.dom(e), q)], z3.Exists([i], And(inl, own == q)))]


BOUNDED = ['get_variants_along_with_case_durations, get_variants_sorted_by_count, variant_to_trace', 'every variant statistic over an event table (pandas/numpy)', 'pm4py.split_by_process_variant, pm4py.get_variants_paths_duration']
NOTE = 'variant key, grouping by variant, stochastic language and the sum of counts of logs proved; table variants bounded'
