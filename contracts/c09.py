"""C09 A noise-free log skeleton describes the log it came from."""
from .log import *
from .c06 import one, counts
from .c07 import SEQ
from pyvc import syms

DS = 'pm4py.algo.discovery.log_skeleton.variants.classic'
TS = 'pm4py.algo.discovery.log_skeleton.trace_skel'
SEQS = SEQ.tl
WEIGHTS = TDict(SEQ, TInt, counter=True)
PAIRS = TSet(PAIR)
PC = TDict(PAIR, TInt, counter=True)
FREQ = TDict(VAL, TInt, counter=True)


def occ(t, i):
    return And(i >= 0, i < SEQS.len(t))


def at(t, i):
    return sel(SEQS.arr(t), i)


def followed(t, q, later=True):
    """occurrences of the first activity of q with an occurrence of the second after (before) it"""
    i, j = iv(), iv('j')
    return syms.SUM(i, one(And(occ(t, i), at(t, i) == PAIR.get(q, 0), z3.Exists([j], And(j - i >= 1, j < SEQS.len(t), at(t, j) == PAIR.get(q, 1)) if later else And(j >= 0, j < i, at(t, j) == PAIR.get(q, 1))))))


def times(t, a):
    i = iv()
    return syms.SUM(i, one(And(occ(t, i), at(t, i) == a)))


def next_to(t, q):
    i = iv()
    return syms.SUM(i, one(And(i >= 0, i + 1 < SEQS.len(t), at(t, i) == PAIR.get(q, 0), at(t, i + 1) == PAIR.get(q, 1))))


def total(s, f):
    """f summed over the variants, weighted by their number of traces"""
    t = z3.FreshConst(SEQ.sort(), 't')
    w = sel(WEIGHTS.val(s.logs_traces), t)
    return syms.SUM(t, z3.If(sel(WEIGHTS.dom(s.logs_traces), t), f(t) * w, z3.IntVal(0)))


def freq(s, a):
    d = s.all_activs
    return z3.If(sel(FREQ.dom(d), a), sel(FREQ.val(d), a), z3.IntVal(0))


def enough(s, n):
    """the pairs that occur, in at least the required share of the occurrences of their first activity"""
    q = z3.FreshConst(PAIR.sort(), 'q')
    e = n(q)
    return PAIRS, lam(q, And(e > 0, z3.ToReal(e) >= z3.ToReal(freq(s, PAIR.get(q, 0))) * (1 - s.noise_threshold)))


def as_often(t, q):
    """occurrences of the first activity of q when both occur, equally often"""
    a, b = PAIR.get(q, 0), PAIR.get(q, 1)
    return z3.If(And(a != b, times(t, a) == times(t, b), times(t, a) > 0), times(t, a), z3.IntVal(0))


def inside(t, a):
    i = iv()
    return z3.Exists([i], And(occ(t, i), at(t, i) == a))


def together(t, q):
    a, b = PAIR.get(q, 0), PAIR.get(q, 1)
    return one(And(inside(t, a), inside(t, b), a != b))


def apart(s):
    """the pairs of different activities of the log with few enough common traces"""
    q = z3.FreshConst(PAIR.sort(), 'q')
    a, b = PAIR.get(q, 0), PAIR.get(q, 1)
    d = FREQ.dom(s.all_activs)
    n = freq(s, a) - total(s, lambda t: together(t, q))
    return PAIRS, lam(q, And(sel(d, a), sel(d, b), a != b, n > 0, z3.ToReal(n) >= z3.ToReal(freq(s, a)) * (1 - s.noise_threshold)))


def weights(s):
    t = z3.FreshConst(SEQ.sort(), 't')
    return [('every variant has a trace', fa([t], z3.Implies(sel(WEIGHTS.dom(s.logs_traces), t), sel(WEIGHTS.val(s.logs_traces), t) > 0), sel(WEIGHTS.val(s.logs_traces), t)))]


def positive(s):
    a = z3.FreshConst(VAL.sort(), 'a')
    return [('activities of the log occur', fa([a], z3.Implies(sel(FREQ.dom(s.all_activs), a), sel(FREQ.val(s.all_activs), a) > 0), sel(FREQ.val(s.all_activs), a)))]


def CONTRACTS():
    tr = dict(trace=SEQS)
    me = dict(logs_traces=WEIGHTS, all_activs=FREQ, noise_threshold=TReal)
    return [
        Contract(TS + ':activ_freq', tr, value=lambda s: counts(FREQ, lambda a: times(s.trace, a))),
        Contract(DS + ':always_after', me, pre=weights, value=lambda s: enough(s, lambda q: total(s, lambda t: followed(t, q)))),
        Contract(DS + ':always_before', me, pre=weights, value=lambda s: enough(s, lambda q: total(s, lambda t: followed(t, q, False)))),
        Contract(DS + ':never_together', dict(me, len_log=TInt), pre=lambda s: weights(s) + positive(s), value=apart),
        Contract(DS + ':directly_follows', me, pre=weights, value=lambda s: enough(s, lambda q: total(s, lambda t: next_to(t, q)))),
    ]


def LEMMAS():
    """without noise the relations found are those that hold in every trace"""
    t, x = z3.Const('t', SEQ.sort()), z3.Const('x', SEQ.sort())
    F, G, W = [z3.Function(n, SEQ.sort(), z3.IntSort()) for n in ('lem!F', 'lem!G', 'lem!W')]
    inl = z3.Function('lem!in', SEQ.sort(), z3.BoolSort())
    zero = z3.IntVal(0)
    tot = lambda f: syms.SUM(t, z3.If(inl(t), f(t) * W(t), zero))
    mixed = syms.SUM(t, z3.If(inl(t), z3.If(t == x, F(t), G(t)) * W(t), zero))
    hyp = [fa([t], z3.Implies(inl(t), And(F(t) >= 0, F(t) <= G(t), W(t) > 0)), inl(t))]
    a = tot(F) <= mixed
    b = z3.Implies(inl(x), mixed - F(x) * W(x) == tot(G) - G(x) * W(x))
    out = [('a total of smaller counts is smaller (all but one)', hyp, a),
           ('a total changed at one trace', hyp, b),
           ('a trace with a smaller count makes the total smaller', hyp + [a, b, inl(x), F(x) < G(x)], tot(F) < tot(G)),
           ('equal counts have equal totals', [fa([t], z3.Implies(inl(t), F(t) == G(t)), inl(t))], tot(F) == tot(G)),
           ('a total is positive when a count is', hyp + [inl(x), F(x) > 0], tot(F) > 0)]
    q = z3.Const('q', PAIR.sort())
    i, j = z3.Const('i', z3.IntSort()), z3.Const('j', z3.IntSort())
    A, B = PAIR.get(q, 0), PAIR.get(q, 1)
    k = iv('k')
    for name, f, cond in (('followed by', followed(t, q), z3.Exists([k], And(k - i >= 1, k < SEQS.len(t), at(t, k) == B))),
                          ('preceded by', followed(t, q, False), z3.Exists([k], And(k >= 0, k < i, at(t, k) == B))),
                          ('directly followed by', next_to(t, q), And(i + 1 < SEQS.len(t), at(t, i + 1) == B))):
        occurs = And(occ(t, i), at(t, i) == A)
        out.append(('no more occurrences are %s b than there are' % name, [], And(f >= 0, f <= times(t, A))))
        out.append(('occurrences that are all %s b' % name, [fa([i], z3.Implies(occurs, cond), at(t, i))], f == times(t, A)))
        g = syms.SUM(i, one(And(occurs, Or(cond, i == j))))
        more = z3.substitute(And(occurs, Not(cond)), (i, j))
        up = z3.Implies(more, g == f + 1)
        below = g <= times(t, A)
        out += [('an occurrence counted in addition (%s)' % name, [], up), ('at most all are counted (%s)' % name, [], below),
                ('an occurrence that is not %s b' % name, [up, below, more], f < times(t, A))]
    out.append(('no more common occurrences than occurrences', [], And(as_often(t, q) >= 0, as_often(t, q) <= times(t, A))))
    out.append(('an activity occurs when it is inside', [], inside(t, A) == (times(t, A) > 0)))
    return out


BOUNDED = ['equivalence, activity frequencies (log_skeleton.variants.classic.equivalence, activ_freq)', 'log_skeleton conformance (apply_actlist and callers)', 'tabular representation']
NOTE = ('Proved for all multisets of variants and all noise thresholds: always-after, always-before, directly-follows and never-together relations are the pairs whose weighted number of occurrences reaches the threshold; '
        'lemmas: with noise 0 that is the case exactly when every occurrence in every trace satisfies the relation. Equivalence, activity frequencies and conformance are bounded.')
ASSUMPTIONS = ['all_activs is the number of occurrences of every activity in the log and every variant has a positive number of traces (established by apply, bounded)']
