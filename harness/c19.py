from gen import *
import copy, math, statistics, sys, warnings, pm4py
warnings.simplefilter('ignore')
from pm4py.algo.discovery.dfg import algorithm as dfg_alg
from pm4py.algo.discovery.dfg.variants import performance as perf
from pm4py.algo.discovery.dfg.adapters.pandas import df_statistics
from pm4py.algo.discovery.temporal_profile import algorithm as tp_disc
from pm4py.algo.conformance.temporal_profile import algorithm as tp_conf
from pm4py.algo.discovery.temporal_profile.variants import log as tl, dataframe as td

BOUNDS = 'logs and tables of at most 9 traces of at most 7 events over at most 6 activities (ties, start timestamps before and after the previous completion, other attribute names, zero to three standard deviations, profiles of other logs); without business hours'
STATS = {'mean': statistics.mean, 'median': statistics.median, 'min': min, 'max': max, 'sum': sum, 'stdev': lambda x: statistics.stdev(x) if len(x) > 1 else 0}


def case(rng, empty=True):
    acts = rng.sample(ACTS, rng.randint(1, 3)) + rng.choice([[], ['1', '11'], ['a,b', 'b'], ['A', 'é', '']])
    traces = rand_traces(rng, acts=acts, maxlen=rng.choice([2, 4, 7]), empty=empty) or [(acts[0],)]
    key, ts = rng.choice([('concept:name', 'time:timestamp'), ('concept:name', 'time:timestamp'), ('act', 't2')])
    log = mk_log(traces, rng=rng, key=key, ts=ts, names=names_for(traces, rng))
    st = rng.choice([None, 'start_timestamp', 'begin'])
    mono = rng.random() < 0.6
    if st:
        for t in log:
            prev = None
            for e in t:
                s = e[ts] - datetime.timedelta(seconds=rng.choice([0, 0, 1, 20, 61, 4000]))
                if mono and prev is not None and s < prev:
                    s = prev
                prev = s
                e[st] = s
    if rng.random() < 0.3:
        for t in log:
            for e in t:
                for x in ('time:timestamp', 'concept:name'):
                    if x not in (key, ts):
                        e[x] = T0 if x[0] == 't' else rng.choice(['other', 'a', 'b'])
    return traces, log, key, ts, st, mono


def close(a, b):
    return a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))


def secs(a, b):
    return (b - a).total_seconds()


def waits(log, key, ts, st):
    out = {}
    for t in log:
        for x, y in zip(list(t), list(t)[1:]):
            out.setdefault((x[key], y[key]), []).append(max(0, secs(x[ts], y[st or ts])))
    return out


def lags(log, key, ts, st):
    """per trace: the pairs of events such that the later one does not start before the earlier one completes"""
    return [[((x[key], y[key]), secs(x[ts], y[st or ts])) for i, x in enumerate(list(t)) for y in list(t)[i + 1:] if y[st or ts] >= x[ts]] for t in log]


def aggregated(got, want, how, k, single=False):
    need(set(got) == set(want), k, '%s: pairs %r, expected %r' % (how, sorted(got), sorted(want)))
    for p, v in want.items():
        if how == 'raw_values':
            need(len(got[p]) == len(v) and all(close(a, b) for a, b in zip(got[p], v)), k, 'raw values of %r are %r, expected %r' % (p, got[p], v))
        elif how == 'all':
            need(set(got[p]) == set(STATS), k, 'measures %r' % (sorted(got[p]),))
            for n, f in STATS.items():
                need(close(got[p][n], f(v)) or (single and n == 'stdev' and len(v) == 1), k, '%s of %r is %r, expected %r' % (n, p, got[p][n], f(v)))
        else:
            need(close(got[p], STATS[how](v)), k, '%s of %r is %r, expected %r' % (how, p, got[p], STATS[how](v)))


def params(key, ts, st, **kw):
    P = perf.Parameters
    d = {P.ACTIVITY_KEY: key, P.TIMESTAMP_KEY: ts}
    d[P.START_TIMESTAMP_KEY] = st or ts
    return d


def graph(rng, k):
    traces, log, key, ts, st, mono = case(rng)
    before = copy.deepcopy(log)
    want = waits(log, key, ts, st)
    for how in list(STATS) + ['raw_values', 'all']:
        d = params(key, ts, st)
        d[perf.Parameters.AGGREGATION_MEASURE] = how
        aggregated(perf.apply(log, parameters=d), want, how, 'c19:perf')
    d = {k.value: v for k, v in params(key, ts, st).items()}
    aggregated(dfg_alg.apply(log, parameters=d, variant=dfg_alg.Variants.PERFORMANCE), want, 'mean', 'c19:perf')
    got, sa, ea = pm4py.discover_performance_dfg(log, activity_key=key, timestamp_key=ts)
    aggregated(got, waits(log, key, ts, None), 'all', 'c19:perf')
    need(dict(sa) == dict(Counter(t[0] for t in traces if t)) and dict(ea) == dict(Counter(t[-1] for t in traces if t)), 'c19:perf', 'start and end activities')
    need([[dict(e) for e in t] for t in log] == [[dict(e) for e in t] for t in before], 'c19:frame', 'the log was changed')
    return 10


def grouped(df, keys, st):
    """the cases of a table, in order of first appearance"""
    out = {}
    for r in df.to_dict('records'):
        out.setdefault(r[keys[0]], []).append({k: r[k] for k in keys[1:] + ((st,) if st else ())})
    return out


def table(rng, k):
    traces, log, key, ts, st, mono = case(rng, empty=False)
    while not mono:
        traces, log, key, ts, st, mono = case(rng, empty=False)
    keys = rng.choice([('case:concept:name', 'concept:name', 'time:timestamp'), ('cid', 'activity', 'when')])
    df = mk_table(log, rng, keys=keys, orig=(key, ts))
    cases = grouped(df, keys, st)
    used = st or ('start_timestamp' if 'start_timestamp' in df.columns else None)
    tr = list(cases.values())
    kw = dict(activity_key=keys[1], timestamp_key=keys[2], case_id_glue=keys[0])
    want = waits(tr, keys[1], keys[2], used)
    if not used or st == 'start_timestamp':
        got, sa, ea = pm4py.discover_performance_dfg(df.copy(), activity_key=keys[1], timestamp_key=keys[2], case_id_key=keys[0])
        aggregated(got, want, 'all', 'c19:table', True)
        need(dict(sa) == dict(Counter(t[0][keys[1]] for t in tr)) and dict(ea) == dict(Counter(t[-1][keys[1]] for t in tr)), 'c19:table', 'start and end activities')
    for how in ('mean', 'median', 'min', 'max', 'sum', 'all'):
        aggregated(df_statistics.get_dfg_graph(df.copy(), measure='performance', perf_aggregation_key=how, start_timestamp_key=st, **kw), want, how, 'c19:table', True)
    raw = df_statistics.get_dfg_graph(df.copy(), measure='performance', perf_aggregation_key='raw_values', start_timestamp_key=st, **kw)
    aggregated({p: sorted(v) for p, v in raw.items()}, {p: sorted(v) for p, v in want.items()}, 'raw_values', 'c19:table')
    freq, pf = df_statistics.get_dfg_graph(df.copy(), measure='both', start_timestamp_key=st, **kw)
    need(dict(freq) == {p: len(v) for p, v in want.items()}, 'c19:table', 'frequencies %r, expected %r' % (freq, {p: len(v) for p, v in want.items()}))
    aggregated(pf, want, 'mean', 'c19:table')
    # temporal profile of the table
    obs = lags(tr, keys[1], keys[2], used)
    prof = tp_disc.apply(df.copy(), parameters=tpar(keys[1], keys[2], st, keys[0]))
    profiled(prof, obs, 'c19:profile:table')
    z = rng.choice([0, 0.5, 1, 2, 6])
    model = rng.choice([prof, other(rng, tr, keys[1])])
    if model:
        d = tpar(keys[1], keys[2], st, keys[0])
        d['zeta'] = z
        conformed(tp_conf.apply(df.copy(), model, parameters=d), obs, model, z, 'c19:check:table', tr, True)
        if not used or st == 'start_timestamp':
            conformed(pm4py.conformance_temporal_profile(df.copy(), model, zeta=z, activity_key=keys[1], timestamp_key=keys[2], case_id_key=keys[0]), obs, model, z, 'c19:check:table', tr, True)
            profiled(pm4py.discover_temporal_profile(df.copy(), activity_key=keys[1], timestamp_key=keys[2], case_id_key=keys[0]), obs, 'c19:profile:table')
    return 11


def tpar(key, ts, st, cid=None):
    P = tl.Parameters
    d = {P.ACTIVITY_KEY: key, P.TIMESTAMP_KEY: ts}
    if st:
        d[P.START_TIMESTAMP_KEY] = st
    elif not cid:
        d[P.START_TIMESTAMP_KEY] = ts
    if cid:
        d[td.Parameters.CASE_ID_KEY] = cid
    return {k.value: v for k, v in d.items()}


def profiled(got, obs, k):
    want = {}
    for t in obs:
        for p, x in t:
            want.setdefault(p, []).append(x)
    need(set(got) == set(want), k, 'pairs %r, expected %r' % (sorted(got), sorted(want)))
    for p, v in want.items():
        need(close(got[p][0], STATS['mean'](v)) and (close(got[p][1], STATS['stdev'](v)) or abs(got[p][1] - STATS['stdev'](v)) < 1e-3), k, 'profile of %r is %r, expected mean %r and deviation %r of %r' % (p, got[p], STATS['mean'](v), STATS['stdev'](v), v))


def other(rng, traces, key):
    acts = sorted({e[key] for t in traces for e in t} | {'z'})
    return {(a, b): (rng.choice([0, 1.0, 60, 3600, 5e4]), rng.choice([0, 0.0, 0.5, 60, 1e5])) for a in acts for b in acts if rng.random() < 0.6}


def conformed(got, obs, model, z, k, traces, table=False):
    need(len(got) == len(obs), k, '%d results for %d traces' % (len(got), len(obs)))
    for r, t in zip(got, obs):
        sure, may = [], []
        for p, x in t:
            if p in model:
                mu, sd = model[p]
                gap = abs(x - mu) - z * sd
                e = (p[0], p[1], x, abs(x - mu) / sd if sd > 0 else sys.maxsize)
                if abs(gap) <= 1e-9 * max(1, abs(x), abs(mu)) and gap != 0:
                    may.append(e)            # on the border of the interval up to rounding
                elif x < mu - z * sd or x > mu + z * sd:
                    sure.append(e)
        key = lambda e: (e[0], e[1], e[2])
        g = sorted([tuple(e) for e in r], key=key)
        rest = list(may)
        kept = []
        for e in g:
            m = [x for x in rest if x[:2] == e[:2] and close(x[2], e[2])]
            if m and not any(x[:2] == e[:2] and close(x[2], e[2]) for x in sure):
                rest.remove(m[0])
            else:
                kept.append(e)
        s = sorted(sure, key=key)
        need(len(kept) == len(s) and all(a[:2] == b[:2] and close(a[2], b[2]) and close(a[3], b[3]) for a, b in zip(kept, s)), k, 'zeta %r, profile %r: deviations %r, expected %r' % (z, model, kept, s))


def profile(rng, k):
    traces, log, key, ts, st, mono = case(rng)
    before = copy.deepcopy(log)
    obs = lags(log, key, ts, st)
    got = tp_disc.apply(log, parameters=tpar(key, ts, st))
    profiled(got, obs, 'c19:profile')
    if ts == 'time:timestamp':
        profiled(pm4py.discover_temporal_profile(log, activity_key=key, timestamp_key=ts), lags(log, key, ts, None), 'c19:profile')
    for z in (0, rng.choice([0.5, 1, 2]), 6):
        model = rng.choice([got, other(rng, log, key)])
        d = tpar(key, ts, st)
        d['zeta'] = z
        conformed(tp_conf.apply(log, model, parameters=d), obs, model, z, 'c19:check', log)
    d = tpar(key, ts, st)
    conformed(tp_conf.apply(log, got, parameters=d), obs, got, 6.0, 'c19:check', log)
    need([[dict(e) for e in t] for t in log] == [[dict(e) for e in t] for t in before], 'c19:frame', 'the log was changed')
    return 6


def history(rng, k):
    '''the measures for one timestamp column do not depend on the questions asked before'''
    traces, log, key, ts, st, mono = case(rng, empty=False)
    keys = ('case:concept:name', 'concept:name', 'time:timestamp')
    df = mk_table(log, rng, keys=keys, orig=(key, ts))
    df = df[[c for c in df.columns if c not in ('start_timestamp', 'begin')]]
    df['second'] = df[keys[2]] + df.groupby(keys[0]).cumcount() * datetime.timedelta(seconds=rng.choice([1, 7]))
    cols = list(df.columns)
    ask = [x for _ in range(2) for x in (keys[2], 'second')]
    rng.shuffle(ask)
    for x in ask:
        tr = list(grouped(df, (keys[0], keys[1], x), None).values())
        what = rng.choice(['dfg', 'profile', 'both'])
        if what != 'profile':
            got, sa, ea = pm4py.discover_performance_dfg(df, activity_key=keys[1], timestamp_key=x, case_id_key=keys[0])
            aggregated(got, waits(tr, keys[1], x, None), 'all', 'c19:history', True)
        if what != 'dfg':
            profiled(pm4py.discover_temporal_profile(df, activity_key=keys[1], timestamp_key=x, case_id_key=keys[0]), lags(tr, keys[1], x, None), 'c19:history')
    need(list(df.columns) == cols, 'c19:history:columns', 'columns %r were added to the table' % ([c for c in df.columns if c not in cols],))
    return 2


CASES = [('questions', history, 60), ('performance graph', graph, 700), ('temporal profile', profile, 700), ('tables', table, 160)]
