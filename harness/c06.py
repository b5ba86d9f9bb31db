from gen import *
import pm4py
from pm4py.algo.discovery.dfg import algorithm as dfga
from pm4py.algo.discovery.dfg.variants import native, freq_triples, clean
from pm4py.algo.discovery.dfg.adapters.pandas import df_statistics, freq_triples as ptriples
from pm4py.statistics.start_activities.log import get as sl
from pm4py.statistics.end_activities.log import get as el
from pm4py.statistics.start_activities.pandas import get as sp
from pm4py.statistics.end_activities.pandas import get as ep

BOUNDS = 'logs of at most 9 traces of at most 7 events over at most 6 activities (with empty traces, equal timestamps, other attribute names); tables with interleaved cases and arbitrary index'


def ref(traces, w=1, once=False):
    c = Counter()
    for t in traces:
        ps = [(t[i], t[i + w]) for i in range(len(t) - w)]
        c.update(set(ps) if once else ps)
    return dict(c)


def case(rng):
    acts = rng.sample(ACTS, rng.randint(1, 5)) + rng.choice([[], ['', 'a,b'], ['A', 'é']])
    traces = rand_traces(rng, acts=acts, maxlen=7)
    key, ts = rng.choice([('concept:name', 'time:timestamp'), ('concept:name', 'time:timestamp'), ('act', 't2')])
    log = mk_log(traces, rng=rng, key=key, ts=ts, names=names_for(traces, rng))
    if rng.random() < 0.3:
        for t in log:
            for e in t:
                if key != 'concept:name':
                    e['concept:name'] = 'other'
    return traces, log, key, ts


def eq(got, want, key, what, data):
    need(dict(got) == want, key, '%s: %r, expected %r, traces %r' % (what, dict(got), want, data))


def logs(rng, k):
    traces, log, key, ts = case(rng)
    import copy
    before = copy.deepcopy(log)
    ps = None if key == 'concept:name' and rng.random() < 0.5 else {native.Parameters.ACTIVITY_KEY: key}
    d = ref(traces)
    eq(native.native(log, ps), d, 'dfg', 'native', traces)
    eq(native.apply(log, ps), d, 'dfg', 'native.apply', traces)
    for v in (None, dfga.Variants.NATIVE, dfga.Variants.FREQUENCY, dfga.Variants.FREQUENCY_GREEDY):
        eq(dfga.apply(log, parameters=ps, **({} if v is None else {'variant': v})), d, 'dfg:algorithm', 'algorithm %s' % v, traces)
    for w in (1, 2, 3):
        for once in (False, True):
            eq(native.native(log, {'pm4py:param:activity_key': key, 'window': w, 'keep_once_per_case': once}), ref(traces, w, once), 'dfg:window', 'window %d once %s' % (w, once), traces)
    tri = Counter()
    for t in traces:
        tri.update((t[i], t[i + 1], t[i + 2]) for i in range(len(t) - 2))
    eq(freq_triples.apply(log, ps), dict(tri), 'triples', 'triples', traces)
    st = dict(Counter(t[0] for t in traces if t))
    en = dict(Counter(t[-1] for t in traces if t))
    eq(sl.get_start_activities(log, ps), st, 'start', 'start activities', traces)
    eq(el.get_end_activities(log, ps), en, 'end', 'end activities', traces)
    a, b, c = pm4py.discover_dfg(log, activity_key=key, timestamp_key=ts)
    eq(a, d, 'discover', 'discover_dfg', traces)
    eq(b, st, 'discover:start', 'discover_dfg start', traces)
    eq(c, en, 'discover:end', 'discover_dfg end', traces)
    eq(pm4py.get_start_activities(log, activity_key=key, timestamp_key=ts), st, 'start', 'pm4py start', traces)
    eq(pm4py.get_end_activities(log, activity_key=key, timestamp_key=ts), en, 'end', 'pm4py end', traces)
    need(log == before, 'frame', 'log modified')
    # events without an activity are not counted as start or end
    if any(traces):
        i = rng.choice([i for i, t in enumerate(traces) if t])
        del log[i][0][key]
        st2 = dict(Counter(t[0] for j, t in enumerate(traces) if t and j != i))
        eq(sl.get_start_activities(log, {'pm4py:param:activity_key': key}), st2, 'start:missing', 'start activities without value', traces)
    return 14


def tables(rng, k):
    traces, log, key, ts = case(rng)
    if not any(traces):
        return 0
    cid = 'case:concept:name' if key == 'concept:name' else 'cid'
    df = mk_table(log, rng, keys=(cid, key, ts), orig=(key, ts))
    before = df.copy(deep=True)
    d = ref(traces)
    st = dict(Counter(t[0] for t in traces if t))
    en = dict(Counter(t[-1] for t in traces if t))
    a, b, c = pm4py.discover_dfg(df, activity_key=key, timestamp_key=ts, case_id_key=cid)
    eq(a, d, 'table:dfg', 'discover_dfg table', traces)
    eq(b, st, 'table:start', 'discover_dfg table start', traces)
    eq(c, en, 'table:end', 'discover_dfg table end', traces)
    t = pm4py.discover_dfg_typed(df, case_id_key=cid, activity_key=key, timestamp_key=ts)
    eq({k: v for k, v in t.graph.items()}, d, 'typed:dfg', 'typed', traces)
    eq(t.start_activities, st, 'typed:start', 'typed start', traces)
    eq(t.end_activities, en, 'typed:end', 'typed end', traces)
    ps = {'pm4py:param:activity_key': key, 'pm4py:param:timestamp_key': ts, 'pm4py:param:case_id_key': cid}
    eq(dfga.apply(df, parameters=ps), d, 'table:algorithm', 'algorithm on table', traces)
    eq(sp.get_start_activities(df, ps), st, 'table:start', 'table start', traces)
    eq(ep.get_end_activities(df, ps), en, 'table:end', 'table end', traces)
    for w in (1, 2, 3):
        for once in (False, True):
            eq(df_statistics.get_dfg_graph(df, activity_key=key, timestamp_key=ts, case_id_glue=cid, window=w, keep_once_per_case=once), ref(traces, w, once),
               'table:window', 'table window %d once %s' % (w, once), traces)
    need(df[list(before.columns)].equals(before), 'frame', 'table modified')
    return 10


CASES = [('logs', logs, 350), ('tables', tables, 160)]
