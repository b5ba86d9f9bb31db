from gen import *
import copy, pm4py
from pm4py.statistics.variants.log import get as vl
from pm4py.statistics.variants.pandas import get as vp
from pm4py.util import variants_util as vu
from pm4py.objects.log.util import pandas_numpy_variants as pnv

BOUNDS = 'logs of at most 9 traces of at most 7 events over at most 7 activities (empty traces, repeated traces, clashing strings, other attribute names); tables with interleaved or reordered cases and arbitrary index'


def case(rng):
    acts = rng.sample(ACTS, rng.randint(1, 3)) + rng.choice([[], ['1', '11', '1,1'], ['a,b', 'b'], ['A', 'é', '']])
    traces = rand_traces(rng, acts=acts, maxlen=rng.choice([2, 4, 7]))
    key, ts = rng.choice([('concept:name', 'time:timestamp'), ('concept:name', 'time:timestamp'), ('act', 't2')])
    log = mk_log(traces, rng=rng, key=key, ts=ts, names=names_for(traces, rng))
    if key != 'concept:name' and rng.random() < 0.6:
        for t in log:
            for e in t:
                e['concept:name'] = rng.choice(['other', 'a', 'b'])
                e['time:timestamp'] = T0
    return traces, log, key, ts


def groups(traces):
    g = {}
    for i, t in enumerate(traces):
        g.setdefault(tuple(t), []).append(i)
    return g


def logs(rng, k):
    traces, log, key, ts = case(rng)
    if rng.random() < 0.05:
        traces, log = [], EventLog()
    before = copy.deepcopy(log)
    ps = None if key == 'concept:name' and rng.random() < 0.5 else {'pm4py:param:activity_key': key, 'pm4py:param:timestamp_key': ts}
    g = groups(traces)
    need(vl.get_variants_from_log_trace_idx(log, ps) == g, 'index', 'trace indexes per variant', traces)
    for what, v in (('get_variants', vl.get_variants(log, ps)), ('pm4py.get_variants', pm4py.get_variants(log, activity_key=key, timestamp_key=ts)),
                    ('pm4py.get_variants_as_tuples', pm4py.get_variants_as_tuples(log, activity_key=key, timestamp_key=ts)),
                    ('along', vl.get_variants_along_with_case_durations(log, ps)[0])):
        need(list(v) == list(g) or set(v) == set(g), 'variants', '%s: keys %r, expected %r' % (what, list(v), list(g)))
        for q in g:
            need(len(v[q]) == len(g[q]) and all(a is log[i] for a, i in zip(v[q], g[q])), 'variants', '%s: traces of %r' % (what, q))
        need(sum(len(x) for x in v.values()) == len(log), 'sum', what)
    for i, t in enumerate(log):
        need(vu.get_variant_from_trace(t, ps) == tuple(traces[i]), 'key', 'variant of trace')
    _, d = vl.get_variants_along_with_case_durations(log, ps)
    for q, ixs in g.items():
        w = [(log[i][-1][ts] - log[i][0][ts]).total_seconds() if len(log[i]) else 0 for i in ixs]
        need([float(x) for x in d[q]] == w, 'durations', '%r: %r, expected %r' % (q, list(d[q]), w))
    if traces:
        lang = vl.get_language(log, ps)
        need({q: round(p, 12) for q, p in lang.items()} == {q: round(len(x) / len(traces), 12) for q, x in g.items()}, 'language', '%r of %r' % (lang, traces))
        if key == 'concept:name':
            lang = pm4py.get_stochastic_language(log)
            need({q: round(p, 12) for q, p in lang.items()} == {q: round(len(x) / len(traces), 12) for q, x in g.items()}, 'language', 'pm4py: %r of %r' % (lang, traces))
        s = vl.get_variants_sorted_by_count(vl.get_variants(log, ps))
        need(s == sorted(([q, len(x)] for q, x in g.items()), key=lambda y: (y[1], y[0]), reverse=True), 'sorted', '%r' % (s,))
        for q in g:
            t = vu.variant_to_trace(q, parameters=ps)
            need([e[key] for e in t] == list(q), 'variant_to_trace', '%r' % (q,))
    need(log == before, 'frame', 'log modified')
    return 12


def tables(rng, k):
    traces, log, key, ts = case(rng)
    if not any(traces):
        return 0
    cid = 'case:concept:name' if key == 'concept:name' else 'cid'
    df = mk_table(log, rng, keys=(cid, key, ts), orig=(key, ts))
    ps = {'pm4py:param:activity_key': key, 'pm4py:param:timestamp_key': ts, 'pm4py:param:case_id_key': cid}
    ne = [(t, l.attributes['concept:name']) for t, l in zip(traces, log) if t]
    w = dict(Counter(tuple(t) for t, _ in ne))
    of = {c: tuple(t) for t, c in ne}
    kw = dict(activity_key=key, timestamp_key=ts, case_id_key=cid)
    before = df.copy()
    q = ps if key != 'concept:name' or rng.random() < 0.7 else None
    for what, got in (('get_variants_count', vp.get_variants_count(df, q)), ('pm4py.get_variants', pm4py.get_variants(df, **kw)),
                      ('pm4py.get_variants_as_tuples', pm4py.get_variants_as_tuples(df, **kw))):
        need({tuple(x): int(y) for x, y in got.items()} == w, 'table', '%s: %r, expected %r, table %s' % (what, got, w, df.to_dict('records')))
    need(vp.get_variants_set(df, q) == set(w), 'table:set', 'variants of a table')
    c, m = pnv.apply(df, q)
    need(dict(c) == w and dict(m) == of, 'table:map', 'variant per case %r, expected %r' % (m, of))
    need(df.equals(before) and list(df.columns) == list(before.columns), 'table:frame', 'table modified')
    need({x: len(y) for x, y in vl.get_variants(df, ps).items()} == w, 'table:log', 'log statistics on a table')
    seen = {}
    for v, sub in pm4py.split_by_process_variant(df, **kw):
        need(tuple(v) not in seen, 'split', 'variant reported twice')
        seen[tuple(v)] = set(sub[cid])
        for x in set(sub[cid]):
            r = sub[sub[cid] == x]
            need(sorted(r['extra']) == sorted(df[df[cid] == x]['extra']) and tuple(r.sort_values('@@index_in_trace')[key]) == of[x], 'split', 'rows of case %r' % x)
    need(seen == {v: {x for x in of if of[x] == v} for v in w}, 'split', '%r, expected %r' % (seen, of))
    if any(len(v) > 1 for v in w) and all(isinstance(a, str) for v in w for a in v):
        order = [c for i, c in enumerate(df[cid]) if i == 0 or df[cid].iloc[i - 1] != c]        # this one expects the rows of a case together
        times = {l.attributes['concept:name']: [e[ts] for e in l] for l in log}
        if all(len(set(x)) == len(x) for x in times.values()) and len(order) == len(set(order)) and list(df.index) == list(range(len(df))):
            for agg in ('mean', 'max'):
                r = pm4py.get_variants_paths_duration(df, times_agg=agg, **kw)
                rows = {(tuple(x['@@variant_column']), int(x['@@index_in_trace'])): (x[key], x[key + '_2'], int(x['@@variant_count']), float(x['@@flow_time']), int(x['@@cumulative_occ_path_column'])) for x in r.to_dict('records')}
                want = {}
                for v, n in w.items():
                    for i in range(len(v) - 1):
                        ds = [(times[x][i + 1] - times[x][i]).total_seconds() for x in of if of[x] == v]
                        want[(v, i)] = (v[i], v[i + 1], n, sum(ds) / len(ds) if agg == 'mean' else max(ds), sum(1 for j in range(i) if (v[j], v[j + 1]) == (v[i], v[i + 1])))
                need(set(rows) == set(want) and all(rows[z][:3] == want[z][:3] and abs(rows[z][3] - want[z][3]) < 1e-6 and rows[z][4] == want[z][4] for z in want), 'paths', '%s: %r, expected %r' % (agg, rows, want))
    return 8


CASES = [('logs', logs, 400), ('tables', tables, 160)]
