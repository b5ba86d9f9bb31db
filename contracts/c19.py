"""C19 Performance aggregates are the statistics of the observed time differences."""
import sys
from .log import *
from .c06 import one, ACT, named, params
from .c10 import exist, At
from pyvc import syms

PF = 'pm4py.algo.discovery.dfg.variants.performance'
DELTA = TU('TimeDelta')
VALUES = TList(TReal)
epoch = z3.Function('epoch', VAL.sort(), z3.RealSort())
length = z3.Function('duration', DELTA.sort(), z3.RealSort())
minus = z3.Function('time_difference', VAL.sort(), VAL.sort(), DELTA.sort())
MEDIAN = z3.Function('median', VALUES.sort(), z3.RealSort())
STDEV = z3.Function('stdev', VALUES.sort(), z3.RealSort())
I = z3.IntSort()
BEFORE = z3.Function('before', I, I, PAIR.sort(), I)      # observations of a pair before a position


def setup(w):
    m = w.models
    m[(VAL.name, 'Sub')] = lambda ip, a, b: SV(DELTA, minus(a.e, b.e))
    m['.total_seconds'] = lambda ip, v, args, kw, n: SV(TReal, length(v.e))
    m['.timestamp'] = lambda ip, v, args, kw, n: SV(TReal, epoch(v.e))

    def stat(f):
        def g(ip, args, kw, n):
            l = ip.read(args[0]) if isinstance(args[0], Loc) else ip.term(args[0], VALUES)
            return SV(TReal, f(l))
        return g
    m['statistics.median'] = stat(MEDIAN)
    m['statistics.stdev'] = stat(STDEV)
    m['statistics.mean'] = stat(mean)


def total(l):
    i = iv()
    return syms.SUM(i, z3.If(And(i >= 0, i < VALUES.len(l)), sel(VALUES.arr(l), i), z3.RealVal(0)))


def mean(l):
    return total(l) / z3.ToReal(VALUES.len(l))


TS = lambda: prm('pm4py:param:timestamp_key', TStr, 'time:timestamp')
START = lambda: prm('pm4py:param:start_timestamp_key', TStr, TS())


def pair(L, log, i, j):
    """the activities of event j of trace i and of the event before it"""
    return PAIR.mk(L.act(log, i, j - 1, ACT()), L.act(log, i, j, ACT()))


def wait(L, log, i, j):
    d = length(minus(L.act(log, i, j, START()), L.act(log, i, j - 1, TS())))
    return z3.If(d > 0, d, z3.RealVal(0))


DICT = TDict(PAIR, VALUES)
HERE = z3.Function('here', I, I, I, z3.BoolSort())
OBS = z3.Function('observed', I, I, DICT.sort(), z3.BoolSort())


def at(v, c):
    return sel(DICT.val(v), c)


def collected(s, i, j, R):
    """R lists the waiting times of the pairs before position j of trace i, in order"""
    L = Log(s)
    c = z3.FreshConst(PAIR.sort(), 'c')
    a, b = iv('a'), iv('b')
    q = pair(L, s.log, a, b)
    r = BEFORE(a, b, q)
    earlier = And(L.in_trace(s.log, a, b), b >= 1, Or(a < i, And(a == i, b < j)))
    return And(z3.ForAll([c], And(BEFORE(i, j, c) >= 0, sel(DICT.dom(R), c) == (BEFORE(i, j, c) > 0), z3.Implies(sel(DICT.dom(R), c), VALUES.len(at(R, c)) == BEFORE(i, j, c))), patterns=[BEFORE(i, j, c), sel(DICT.dom(R), c)]),
               fa([a, b], z3.Implies(earlier, And(r >= 0, r < BEFORE(i, j, q), sel(VALUES.arr(at(R, q)), r) == wait(L, s.log, a, b))), L.event(L.trace(s.log, a), b)))


def definition(s):
    """before(i, j, c): how many of the pairs before the j-th of the i-th trace are c; observed(i, j, R): R lists the waiting times up to there"""
    L = Log(s)
    i, j, k, c, R = iv(), iv('j'), iv('k'), z3.FreshConst(PAIR.sort(), 'c'), z3.FreshConst(DICT.sort(), 'R')
    n = L.len(L.trace(s.log, i))
    one_ = z3.IntVal(1)
    return [exist(s, s.log), ('definition: before', And(
        z3.ForAll([c], BEFORE(0, 1, c) == 0, patterns=[BEFORE(0, 1, c)]),
        z3.ForAll([i, j, k, c], z3.Implies(And(L.in_log(s.log, i), j >= 1, j < n, k == j + 1), BEFORE(i, k, c) == BEFORE(i, j, c) + one(pair(L, s.log, i, j) == c)),
                  patterns=[z3.MultiPattern(BEFORE(i, j, c), HERE(i, j, k)), z3.MultiPattern(BEFORE(i, k, c), HERE(i, j, k))]),
        z3.ForAll([i, c], z3.Implies(L.in_log(s.log, i), BEFORE(i + 1, 1, c) == BEFORE(i, z3.If(n >= 1, n, one_), c)), patterns=[z3.MultiPattern(BEFORE(i + 1, 1, c), HERE(i, 0, 0))]))),
        ('definition: observed', z3.ForAll([i, j, R], OBS(i, j, R) == collected(s, i, j, R), patterns=[OBS(i, j, R)]))]


def plain(name):
    def pre(s):
        return named(s) + [('every event has the timestamps', And(all_have(s, s.log, TS()), all_have(s, s.log, START())))] + definition(s) + [('measure', prm('aggregationMeasure', TStr, 'mean') == strlit(name))] + [('no business hours', Not(prm('business_hours', TBool, False)))]
    return pre


def outer(l):
    return [('waiting times so far', OBS(l.done, 1, l.at('ret0', DICT)))]


def inner(l):
    return [('waiting times so far', OBS(l.outer, l.done + 1, l.at('ret0', DICT)))]


def unfold(l):
    return [HERE(l.done, 0, 0)]


def unfold_in(l):
    return [HERE(l.outer, l.done + 1, l.done + 2)]


RES = TDict(PAIR, TReal, counter=True)


def aggregated(name, f):
    def post(s):
        L = Log(s)
        R, c = z3.FreshConst(DICT.sort(), 'R'), z3.FreshConst(PAIR.sort(), 'c')
        r = s.result(RES)
        n = L.ntr(s.log)
        return [('the %s of the waiting times of every pair' % name, z3.Exists([R], And(OBS(n, 1, R), z3.ForAll([c], And(sel(RES.dom(r), c) == sel(DICT.dom(R), c), z3.Implies(sel(RES.dom(r), c), sel(RES.val(r), c) == f(at(R, c)))))), patterns=[OBS(n, 1, R)]))]
    return post


def least(l, big=False):
    i = iv()
    return (syms.MAXV if big else syms.MINV)(i, And(i >= 0, i < VALUES.len(l)), sel(VALUES.arr(l), i))


MEASURES = {'mean': mean, 'median': MEDIAN, 'min': least, 'max': lambda l: least(l, True), 'sum': total, 'stdev': lambda l: z3.If(VALUES.len(l) > 1, STDEV(l), z3.RealVal(0))}


def CONTRACTS():
    me = dict(log=LOG, parameters=params)
    return [Contract(PF + ':performance', me, tag=k, pre=plain(k), post=aggregated(k, f), loops={0: LoopInv(outer, unfold=unfold), 1: LoopInv(inner, unfold=unfold_in)}) for k, f in MEASURES.items()]


TPD = 'pm4py.algo.discovery.temporal_profile.variants.log'
TPC = 'pm4py.algo.conformance.temporal_profile.variants.log'
SO_FAR = z3.Function('so_far', I, I, I, PAIR.sort(), I)     # observations of a pair before a triple (trace, earlier event, later event)
NOW = z3.Function('now', I, I, I, I, z3.BoolSort())
PROF = z3.Function('profiled', I, I, I, DICT.sort(), z3.BoolSort())


def seen(L, log, i, a, b):
    """event b of trace i does not start before event a completes"""
    return epoch(L.act(log, i, b, START())) >= epoch(L.act(log, i, a, TS()))


def lag(L, log, i, a, b):
    return epoch(L.act(log, i, b, START())) - epoch(L.act(log, i, a, TS()))


def both(L, log, i, a, b):
    return PAIR.mk(L.act(log, i, a, ACT()), L.act(log, i, b, ACT()))


def gathered(s, i, x, y, R):
    """R lists the time differences of the pairs of events before (x, y) of trace i"""
    L = Log(s)
    c = z3.FreshConst(PAIR.sort(), 'c')
    t, a, b = iv('t'), iv('a'), iv('b')
    q = both(L, s.log, t, a, b)
    r = SO_FAR(t, a, b, q)
    n = SO_FAR(i, x, y, c)
    earlier = And(L.in_trace(s.log, t, b), a >= 0, a < b, seen(L, s.log, t, a, b), Or(t < i, And(t == i, Or(a < x, And(a == x, b < y)))))
    ea, eb = L.event(L.trace(s.log, t), a), L.event(L.trace(s.log, t), b)
    return And(z3.ForAll([c], And(n >= 0, sel(DICT.dom(R), c) == (n > 0), z3.Implies(sel(DICT.dom(R), c), VALUES.len(at(R, c)) == n)), patterns=[n, sel(DICT.dom(R), c)]),
               z3.ForAll([t, a, b], z3.Implies(earlier, And(r >= 0, r < SO_FAR(i, x, y, q), sel(VALUES.arr(at(R, q)), r) == lag(L, s.log, t, a, b))), patterns=[z3.MultiPattern(ea, eb)]))


def profile_definition(s):
    L = Log(s)
    i, x, y, z, c, R = iv(), iv('x'), iv('y'), iv('z'), z3.FreshConst(PAIR.sort(), 'c'), z3.FreshConst(DICT.sort(), 'R')
    n = L.len(L.trace(s.log, i))
    m = z3.If(n >= 1, n - 1, z3.IntVal(0))
    step = one(And(seen(L, s.log, i, x, y), both(L, s.log, i, x, y) == c))
    return [exist(s, s.log), ('definition: so_far', And(
        z3.ForAll([c], SO_FAR(0, 0, 1, c) == 0, patterns=[SO_FAR(0, 0, 1, c)]),
        z3.ForAll([i, x, y, z, c], z3.Implies(And(L.in_log(s.log, i), x >= 0, x < y, y < n, z == y + 1), SO_FAR(i, x, z, c) == SO_FAR(i, x, y, c) + step),
                  patterns=[z3.MultiPattern(SO_FAR(i, x, y, c), NOW(i, x, y, z)), z3.MultiPattern(SO_FAR(i, x, z, c), NOW(i, x, y, z))]),
        z3.ForAll([i, x, y, z, c], z3.Implies(And(L.in_log(s.log, i), x >= 0, y == x + 1, z == x + 2, y < n), SO_FAR(i, y, z, c) == SO_FAR(i, x, n, c)),
                  patterns=[z3.MultiPattern(SO_FAR(i, y, z, c), NOW(i, x, y, z))]),
        z3.ForAll([i, y, c], z3.Implies(And(L.in_log(s.log, i), y == i + 1), SO_FAR(y, 0, 1, c) == SO_FAR(i, m, m + 1, c)), patterns=[z3.MultiPattern(SO_FAR(y, 0, 1, c), NOW(i, y, 0, 0))]))),
        ('definition: profiled', z3.ForAll([i, x, y, R], PROF(i, x, y, R) == gathered(s, i, x, y, R), patterns=[PROF(i, x, y, R)]))]


def usual(s):
    return [named(s)[0], ('every event has the timestamps', And(all_have(s, s.log, TS()), all_have(s, s.log, START()))), ('no business hours', Not(prm('business_hours', TBool, False)))]


def prof_inv(where):
    return lambda l: [('time differences so far', PROF(*where(l), l.at('diff_time_recordings', DICT)))]


STATS = TTuple(TReal, TReal)
PROFILE = TDict(PAIR, STATS)


def profile(s):
    L = Log(s)
    R, c = z3.FreshConst(DICT.sort(), 'R'), z3.FreshConst(PAIR.sort(), 'c')
    r = s.result(PROFILE)
    n = L.ntr(s.log)
    l = at(R, c)
    st = sel(PROFILE.val(r), c)
    several = VALUES.len(l) > 1
    want = And(STATS.get(st, 0) == z3.If(several, mean(l), sel(VALUES.arr(l), 0)), STATS.get(st, 1) == z3.If(several, STDEV(l), z3.RealVal(0)))
    return [('mean and deviation of the time differences of every pair', z3.Exists([R], And(PROF(n, 0, 1, R), z3.ForAll([c], And(sel(PROFILE.dom(r), c) == sel(DICT.dom(R), c), z3.Implies(sel(DICT.dom(R), c), want)))), patterns=[PROF(n, 0, 1, R)]))]


PERF = CONTRACTS


def CONTRACTS():
    return PERF() + [
        Contract(TPD + ':apply', dict(log=LOG, parameters=params), pre=lambda s: usual(s) + profile_definition(s), post=profile, loops={
            0: LoopInv(prof_inv(lambda l: (l.done, 0, 1)), unfold=lambda l: [NOW(l.done, l.done + 1, 0, 0)]),
            1: LoopInv(prof_inv(lambda l: (l.outer, l.done, l.done + 1)), unfold=lambda l: [NOW(l.outer, l.done, l.done + 1, l.done + 2)]),
            2: LoopInv(prof_inv(lambda l: (l.outers[-2], l.outer, l.outer + 1 + l.done)), unfold=lambda l: [NOW(l.outers[-2], l.outer, l.outer + 1 + l.done, l.outer + 2 + l.done)])})]


DEVIATION = TTuple(VAL, VAL, TReal, TReal)
DEVS = TList(DEVIATION)
ALL = TList(DEVS)
NDEV = z3.Function('deviating', I, I, I, I)             # deviations of a trace before a pair of its events
THESE = z3.Function('deviations', I, I, I, DEVS.sort(), z3.BoolSort())


def outlier(s, t, a, b):
    """the pair of events deviates from the profile; its deviation"""
    L = Log(s)
    q = both(L, s.log, t, a, b)
    st = sel(PROFILE.val(s.temporal_profile), q)
    mu, sd, d = STATS.get(st, 0), STATS.get(st, 1), lag(L, s.log, t, a, b)
    z = prm('zeta', TReal, 6.0)
    return And(seen(L, s.log, t, a, b), sel(PROFILE.dom(s.temporal_profile), q), Or(d < mu - z * sd, d > mu + z * sd)), \
        DEVIATION.mk(PAIR.get(q, 0), PAIR.get(q, 1), d, z3.If(sd > 0, z3.If(d - mu >= 0, d - mu, mu - d) / sd, z3.RealVal(sys.maxsize)))


def listed(s, i, x, y, D):
    """D lists the deviations of trace i before (x, y)"""
    L = Log(s)
    a, b = iv('a'), iv('b')
    dev, e = outlier(s, i, a, b)
    r = NDEV(i, a, b)
    earlier = And(L.in_trace(s.log, i, b), a >= 0, a < b, dev, Or(a < x, And(a == x, b < y)))
    ea, eb = L.event(L.trace(s.log, i), a), L.event(L.trace(s.log, i), b)
    return And(DEVS.len(D) == NDEV(i, x, y), NDEV(i, x, y) >= 0, z3.ForAll([a, b], z3.Implies(earlier, And(r >= 0, r < NDEV(i, x, y), sel(DEVS.arr(D), r) == e)), patterns=[z3.MultiPattern(ea, eb)]))


def last(n):
    """the position after the last pair of events of a trace"""
    m = z3.If(n >= 1, n - 1, z3.IntVal(0))
    return m, m + 1


def deviation_definition(s):
    L = Log(s)
    i, x, y, z, D = iv(), iv('x'), iv('y'), iv('z'), z3.FreshConst(DEVS.sort(), 'D')
    n = L.len(L.trace(s.log, i))
    return [exist(s, s.log), ('definition: deviating', And(
        z3.ForAll([i], NDEV(i, 0, 1) == 0, patterns=[NDEV(i, 0, 1)]),
        z3.ForAll([i, x, y, z], z3.Implies(And(L.in_log(s.log, i), x >= 0, x < y, y < n, z == y + 1), NDEV(i, x, z) == NDEV(i, x, y) + one(outlier(s, i, x, y)[0])), patterns=[NOW(i, x, y, z)]),
        z3.ForAll([i, x, y, z], z3.Implies(And(L.in_log(s.log, i), x >= 0, y == x + 1, z == x + 2, y < n), NDEV(i, y, z) == NDEV(i, x, n)), patterns=[NOW(i, x, y, z)]))),
        ('definition: deviations', z3.ForAll([i, x, y, D], THESE(i, x, y, D) == listed(s, i, x, y, D), patterns=[THESE(i, x, y, D)]))]


def reported(s, D, n):
    L = Log(s)
    i = iv()
    m, m1 = last(L.len(L.trace(s.log, i)))
    e = sel(ALL.arr(D), i)
    return And(ALL.len(D) == n, fa([i], z3.Implies(And(i >= 0, i < n), THESE(i, m, m1, e)), e))


def deviations(s):
    return [('the deviating pairs of events of every trace, in order', reported(s, s.result(ALL), Log(s).ntr(s.log)))]


def ret_inv(l):
    return [('deviations of the traces so far', reported(At(l), l.at('ret', ALL), l.done))]


def dev_inv(where):
    return lambda l: [('deviations so far', THESE(*where(l), l.at('deviations', DEVS)))]


MORE = CONTRACTS


def CONTRACTS():
    return MORE() + [
        Contract(TPC + ':apply', dict(log=LOG, temporal_profile=PROFILE, parameters=params), pre=lambda s: usual(s) + deviation_definition(s), post=deviations, loops={
            0: LoopInv(ret_inv),
            1: LoopInv(dev_inv(lambda l: (l.outer, l.done, l.done + 1)), unfold=lambda l: [NOW(l.outer, l.done, l.done + 1, l.done + 2)]),
            2: LoopInv(dev_inv(lambda l: (l.outers[-2], l.outer, l.outer + 1 + l.done)), unfold=lambda l: [NOW(l.outers[-2], l.outer, l.outer + 1 + l.done, l.outer + 2 + l.done)])})]


ASSUMPTIONS = ['the log passed is an event log (the conversion to an event log returns it unchanged), and every event has the activity and the timestamps',
               'statistics.median and statistics.stdev are those statistics (Python standard library); statistics.mean is the sum over the number of values; floating-point numbers are treated as real numbers',
               'the difference of two timestamps in seconds and the epoch time of a timestamp are uninterpreted functions of the timestamps',
               'business hours are switched off', 'the logs that a trace position count refers to are counted by recursion over positions (definitional axioms of before, so_far, deviating)']
BOUNDED = ['raw_values and all as aggregation measure', 'performance graph, temporal profile and conformance of tables', 'calls through the simplified interface']
NOTE = ('Proved for all logs, parameters, profiles and values of zeta: the performance graph of a log (mean, median, min, max, sum, stdev) has exactly the directly-following pairs, each with that statistic of the list of all its waiting times (in order, negative ones counted as zero); '
        'temporal profile discovery has exactly the eventually-following pairs with the mean and standard deviation of all their time differences; temporal profile conformance lists, per trace and in order, exactly the pairs of events outside mean ± zeta · deviation, with the deviation in standard deviations.')
