from gen import *
import copy, warnings, pm4py
warnings.simplefilter('ignore')
from pm4py.algo.filtering.log.attributes import attributes_filter as la
from pm4py.algo.filtering.log.cases import case_filter as lc
from pm4py.algo.filtering.log.timestamp import timestamp_filter as lt
from pm4py.algo.filtering.log.rework import rework_filter as lr
from pm4py.algo.filtering.pandas.rework import rework_filter as pr

BOUNDS = 'logs of at most 9 traces of at most 7 events over at most 7 activities (empty and repeated traces, clashing strings, other attribute names, missing attributes); tables with interleaved or reordered cases and arbitrary index'


def case(rng):
    acts = rng.sample(ACTS, rng.randint(1, 3)) + rng.choice([[], ['1', '11', '1,1'], ['a,b', 'b'], ['A', 'é', '']])
    traces = rand_traces(rng, acts=acts, maxlen=rng.choice([2, 4, 7]))
    key, ts = rng.choice([('concept:name', 'time:timestamp'), ('concept:name', 'time:timestamp'), ('act', 't2')])
    log = mk_log(traces, rng=rng, key=key, ts=ts, names=names_for(traces, rng), attrs={'res': lambda i, j: rng.choice(['x', 'y', 'z', None]), 'num': lambda i, j: rng.choice([None, 0, 1, 2.5, 7])})
    if key != 'concept:name' and rng.random() < 0.6:
        for t in log:
            for e in t:
                e['concept:name'] = rng.choice(['other', 'a', 'b'])
                e['time:timestamp'] = T0
    for t in log:
        if rng.random() < 0.8:
            t.attributes['kind'] = rng.choice(['g', 'h', 'i'])
    log.attributes['origin'] = 'o'
    return traces, log, key, ts, acts + ['none']


def some(rng, xs, n=3):
    r = rng.sample(xs, rng.randint(0, min(n, len(xs))))
    return rng.choice([list, set, tuple])(r) if False else (set(r) if rng.random() < 0.5 else list(r))


def pairs(t):
    return list(zip(t, t[1:]))


def secs(t, ts):
    return [(b[ts] - a[ts]).total_seconds() for a, b in zip(t, t[1:])]


def follows(t, p):
    """the activities of p occur in t in that order"""
    it = iter(t)
    return all(any(a == b for b in it) for a in p)


def is_part(got, log, want, key, what, same=True):
    """got consists of exactly the cases want (indexes), in order, with unchanged content"""
    got = list(got)
    w = [log[i] for i in want]
    need(len(got) == len(w) and all((a is b) if same else (list(a) == list(b) and a.attributes == b.attributes) for a, b in zip(got, w)), key,
         '%s: kept %r, expected %r' % (what, [t.attributes['concept:name'] for t in got], [t.attributes['concept:name'] for t in w]))


def logs(rng, k):
    traces, log, key, ts, acts = case(rng)
    before = copy.deepcopy(log)
    kw = dict(activity_key=key, timestamp_key=ts)
    full = [i for i, t in enumerate(traces) if t]
    n = range(len(traces))
    S = some(rng, acts)
    P = [(rng.choice(acts), rng.choice(acts)) for _ in range(rng.randint(0, 3))]
    for t in traces:
        if len(t) > 1 and rng.random() < 0.4:
            P.append(rng.choice(pairs(t)))
    P = P if rng.random() < 0.5 else set(P)
    V = [tuple(t) for t in traces if rng.random() < 0.4] + [('q',)]
    act = rng.choice(acts)
    m = rng.randint(1, 3)
    lo, hi = rng.randint(0, 4), rng.choice([None, rng.randint(0, 6)])
    cases = [('start', pm4py.filter_start_activities(log, S, **kw), pm4py.filter_start_activities(log, S, retain=False, **kw), lambda i: traces[i][0] in S, full),
             ('end', pm4py.filter_end_activities(log, S, **kw), pm4py.filter_end_activities(log, S, retain=False, **kw), lambda i: traces[i][-1] in S, full),
             ('paths', pm4py.filter_directly_follows_relation(log, P, **kw), pm4py.filter_directly_follows_relation(log, P, retain=False, **kw), lambda i: any(p in P for p in pairs(traces[i])), n),
             ('values', pm4py.filter_event_attribute_values(log, key, S, level='case'), pm4py.filter_event_attribute_values(log, key, S, level='case', retain=False), lambda i: any(a in S for a in traces[i]), full),
             ('res', pm4py.filter_event_attribute_values(log, 'res', {'x', 'y'}, level='case'), pm4py.filter_event_attribute_values(log, 'res', {'x', 'y'}, level='case', retain=False), lambda i: any(e.get('res') in ('x', 'y') if 'res' in e else False for e in log[i]), full),
             ('kind', pm4py.filter_trace_attribute_values(log, 'kind', ['g', 'h']), pm4py.filter_trace_attribute_values(log, 'kind', ['g', 'h'], retain=False), lambda i: 'kind' in log[i].attributes and log[i].attributes['kind'] in ('g', 'h'), n),
             ('follows', pm4py.filter_eventually_follows_relation(log, P, **kw), pm4py.filter_eventually_follows_relation(log, P, retain=False, **kw), lambda i: any(follows(traces[i], p) for p in P), n)]
    for what, keep, drop, cond, dom in cases:
        is_part(keep, log, [i for i in dom if cond(i)], what, what + ' keep ' + repr((S, P)))
        is_part(drop, log, [i for i in dom if not cond(i)], what + ':remove', what + ' remove ' + repr((S, P)))
    for what, keep in (('keep', True), ('remove', False)):       # grouped by variant, in the order of the variants
        got = list(pm4py.filter_variants(log, V, retain=keep, **kw))
        want = [i for i in n if (tuple(traces[i]) in V) == keep]
        need(sorted(id(t) for t in got) == sorted(id(log[i]) for i in want), 'variants', '%s: %r, expected %r' % (what, [acts_of(t, key) for t in got], [traces[i] for i in want]))
        for v in set(tuple(traces[i]) for i in want):
            need([id(t) for t in got if acts_of(t, key) == v] == [id(log[i]) for i in want if tuple(traces[i]) == v], 'variants', 'order')
    is_part(pm4py.filter_case_size(log, lo, hi if hi is not None else 10 ** 6), log, [i for i in n if lo <= len(traces[i]) <= (hi if hi is not None else 10 ** 6)], 'size', 'size %r %r' % (lo, hi))
    is_part(lc.filter_on_case_size(log, lo, hi), log, [i for i in n if lo <= len(traces[i]) and (hi is None or len(traces[i]) <= hi)], 'size', 'size %r %r' % (lo, hi))
    is_part(lc.filter_on_ncases(log, lo), log, list(n)[:lo], 'ncases', 'first %r' % lo)
    is_part(pm4py.filter_activities_rework(log, act, m, **kw), log, [i for i in n if traces[i].count(act) >= m], 'rework', 'rework %r %r' % (act, m))
    for pos in (True, False):
        is_part(lr.apply(log, act, parameters={lr.Parameters.ACTIVITY_KEY: key, lr.Parameters.MIN_OCCURRENCES: m, lr.Parameters.POSITIVE: pos}), log, [i for i in n if (traces[i].count(act) >= m) == pos], 'rework:positive', 'rework %r %r %r' % (act, m, pos))
    d1, d2 = sorted(rng.choice([0, 1, 60, 90, 3600, 10 ** 5]) for _ in range(2))
    pth = rng.choice([p for t in traces for p in pairs(t)] or [('q', 'q')])
    for keep in (True, False):
        is_part(pm4py.filter_paths_performance(log, pth, d1, d2, keep=keep, **kw), log,
                [i for i in n if any(p == pth and d1 <= x <= d2 for p, x in zip(pairs(traces[i]), secs(log[i], ts))) == keep], 'paths:performance', 'path %r %r %r' % (pth, d1, d2))
    is_part(pm4py.filter_case_performance(log, d1, d2, timestamp_key=ts), log, [i for i in full if d1 <= (log[i][-1][ts] - log[i][0][ts]).total_seconds() <= d2], 'performance', 'duration %r %r' % (d1, d2))
    if full:
        c = Counter(tuple(t) for t in traces)
        q = rng.randint(1, 4)
        got = Counter(acts_of(t, key) for t in pm4py.filter_variants_top_k(log, q, **kw))
        need(all(got[v] == c[v] for v in got) and len(got) == min(q, len(c)) and all(c[v] >= c[u] for v in got for u in c if u not in got), 'top', 'top %d: %r of %r' % (q, got, c))
        x = rng.choice([0, 0.2, 0.34, 0.5, 1])
        for what, f, cond in (('cover', pm4py.filter_variants_by_coverage_percentage, lambda y: y >= x * len(traces)), ('cover:max', pm4py.filter_variants_by_maximum_coverage_percentage, lambda y: y <= x * len(traces))):
            got = Counter(acts_of(t, key) for t in f(log, x, **kw))
            need(got == Counter({v: y for v, y in c.items() if cond(y)}), what, '%r: %r of %r' % (x, got, c))
    a, b = T0 + datetime.timedelta(hours=rng.randint(0, 5)), T0 + datetime.timedelta(hours=rng.randint(5, 100))
    A, B = [x.replace(tzinfo=None).strftime('%Y-%m-%d %H:%M:%S') for x in (a, b)]
    ends = {i: (log[i][0][ts], log[i][-1][ts]) for i in full}
    is_part(pm4py.filter_time_range(log, A, B, mode='traces_contained', timestamp_key=ts), log, [i for i in full if a <= ends[i][0] and ends[i][1] <= b], 'time:contained', '%r %r' % (A, B))
    is_part(pm4py.filter_time_range(log, A, B, mode='traces_intersecting', timestamp_key=ts), log, [i for i in full if a <= ends[i][1] and ends[i][0] <= b], 'time:intersecting', '%r %r' % (A, B))
    need(log == before and log.attributes == before.attributes and all(x.attributes == y.attributes for x, y in zip(log, before)), 'frame', 'log modified')
    return 28


def plain(t, drop=('case:',)):
    return [{k: v for k, v in e.items() if not k.startswith('case:')} for e in t]


def events(rng, k):
    """filters that keep a part of the events of a case"""
    traces, log, key, ts, acts = case(rng)
    kw = dict(activity_key=key, timestamp_key=ts)
    S = some(rng, acts)
    full = [i for i, t in enumerate(traces) if t]
    act, bct = rng.choice(acts), rng.choice(acts)
    before = copy.deepcopy(log)
    for strict in (True, False):
        for which in ('first', 'last'):
            pre, suf = [], []
            for i in full:
                t = traces[i]
                if act in t:
                    j = t.index(act) if which == 'first' else len(t) - 1 - t[::-1].index(act)
                    pre.append((i, list(log[i])[:j if strict else j + 1]))
                    suf.append((i, list(log[i])[j + 1 if strict else j:]))
            for what, f, want in (('prefix', pm4py.filter_prefixes, pre), ('suffix', pm4py.filter_suffixes, suf)):
                got = list(f(log, act, strict=strict, first_or_last=which, **kw))
                need(len(got) == len(want) and all(list(t) == w and t.attributes == log[i].attributes for t, (i, w) in zip(got, want)), what, '%s %r strict %r %s of %r: %r' % (what, act, strict, which, traces, [acts_of(t, key) for t in got]))
    want = []
    for i in full:
        t, s, c = list(log[i]), None, 0
        for j, e in enumerate(t):
            if s is not None and e[key] == bct:
                want.append((i, c, t[s:j + 1]))
                c += 1
                s = j if act == bct else None
            elif s is None and e[key] == act:
                s = j
    got = list(pm4py.filter_between(log, act, bct, **kw))
    need(len(got) == len(want) and all(list(t) == w and all(t.attributes[x] == y for x, y in log[i].attributes.items() if x != 'concept:name') for t, (i, c, w) in zip(got, want)), 'between', 'between %r and %r of %r: %r, expected %r' % (act, bct, traces, [acts_of(t, key) for t in got], [[e[key] for e in w] for _, _, w in want]))
    # event level: the events with (without) the values; through the stream, so cases without remaining events disappear
    for keep in (True, False):
        got = pm4py.filter_event_attribute_values(log, key, S, level='event', retain=keep)
        want = [(log[i].attributes['concept:name'], [e for e in before[i] if (e[key] in S) == keep]) for i in full]
        want = sorted((a, plain(b)) for a, b in want if b)
        have = sorted((t.attributes['concept:name'], plain(t)) for t in got)
        need([x[0] for x in have] == [x[0] for x in want] and all(x[1] == y[1] for x, y in zip(have, want)), 'events', 'events %r %r: %r, expected %r' % (S, keep, have, want))
    a, b = T0 + datetime.timedelta(hours=rng.randint(0, 5)), T0 + datetime.timedelta(hours=rng.randint(5, 100))
    got = pm4py.filter_time_range(log, *[x.replace(tzinfo=None).strftime('%Y-%m-%d %H:%M:%S') for x in (a, b)], mode='events', timestamp_key=ts)
    want = [(log[i].attributes['concept:name'], plain([e for e in before[i] if a <= e[ts] <= b])) for i in full]
    want = sorted(((x, y) for x, y in want if y), key=lambda z: z[0])
    have = sorted(((t.attributes['concept:name'], plain(t)) for t in got), key=lambda z: z[0])
    need(have == want, 'time:events', '%r, expected %r' % (have, want))
    need([plain(t) for t in log] == [plain(t) for t in before], 'frame', 'log modified')
    return 12


def tables(rng, k):
    traces, log, key, ts, acts = case(rng)
    if not any(traces):
        return 0
    cid = 'case:concept:name' if key == 'concept:name' else 'cid'
    df = mk_table(log, rng, keys=(cid, key, ts), orig=(key, ts))
    df['row'] = range(len(df))
    kinds = {t.attributes['concept:name']: t.attributes.get('kind') for t in log}
    df['case:kind'] = [kinds[c] for c in df[cid]]
    before = df.copy(deep=True)
    of = {l.attributes['concept:name']: t for l, t in zip(log, traces) if t}
    le = {l.attributes['concept:name']: l for l in log}
    S = some(rng, acts)
    P = [(rng.choice(acts), rng.choice(acts)) for _ in range(rng.randint(0, 3))]
    for t in traces:
        if len(t) > 1 and rng.random() < 0.4:
            P.append(rng.choice(pairs(t)))
    V = [tuple(t) for t in traces if rng.random() < 0.4] + [('q',)]
    V = V if rng.random() < 0.5 else set(V)
    act, m = rng.choice(acts), rng.randint(1, 3)
    lo, hi = rng.randint(0, 4), rng.randint(0, 6)
    kw = dict(activity_key=key, timestamp_key=ts, case_id_key=cid)
    ck = dict(case_id_key=cid)

    def rows(got, want, what, bycase=False):
        need(list(got.columns) == list(before.columns), 'table:columns', '%s: %r' % (what, list(got.columns)))
        w = before[want]
        g = got
        if bycase:
            need(all(list(got[got[cid] == c]['row']) == list(before[before[cid] == c]['row']) for c in set(got[cid])), 'table:order', what)
            g = got.sort_values('row')
        need(list(g['row']) == list(w['row']) and g.equals(w), 'table:' + what, '%s: rows %r, expected %r of %r' % (what, list(g['row']), list(w['row']), before[[cid, key, 'row']].to_dict('records')))

    def by(cond):
        good = {c for c in of if cond(c)}
        return [c in good for c in before[cid]]
    for keep in (True, False):
        rows(pm4py.filter_start_activities(df, S, retain=keep, **kw), by(lambda c: (of[c][0] in S) == keep), 'start')
        rows(pm4py.filter_end_activities(df, S, retain=keep, **kw), by(lambda c: (of[c][-1] in S) == keep), 'end')
        rows(pm4py.filter_directly_follows_relation(df, P, retain=keep, **kw), by(lambda c: any(p in P for p in pairs(of[c])) == keep), 'paths', bycase=True)
        rows(pm4py.filter_event_attribute_values(df, key, S, level='case', retain=keep, **ck), by(lambda c: any(a in S for a in of[c]) == keep), 'values')
        rows(pm4py.filter_event_attribute_values(df, key, S, level='event', retain=keep, **ck), [(a in S) == keep for a in before[key]], 'events')
        rows(pm4py.filter_event_attribute_values(df, 'res', ['x', 'y'], level='case', retain=keep, **ck) if 'res' in df.columns else df[by(lambda c: not keep)], by(lambda c: any(e.get('res') in ('x', 'y') if 'res' in e else False for e in le[c]) == keep), 'res')
        rows(pm4py.filter_trace_attribute_values(df, 'case:kind', ['g', 'h'], retain=keep, **ck), by(lambda c: (kinds[c] in ('g', 'h')) == keep), 'kind')
        rows(pm4py.filter_variants(df, V, retain=keep, **kw), by(lambda c: (tuple(of[c]) in V) == keep), 'variants')
    rows(pm4py.filter_case_size(df, lo, hi, **ck), by(lambda c: lo <= len(of[c]) <= hi), 'size')
    rows(pm4py.filter_activities_rework(df, act, m, **kw), by(lambda c: of[c].count(act) >= m), 'rework')
    for pos in (True, False):
        rows(pr.apply(df, act, parameters={pr.Parameters.ACTIVITY_KEY: key, pr.Parameters.CASE_ID_KEY: cid, pr.Parameters.MIN_OCCURRENCES: m, pr.Parameters.POSITIVE: pos}), by(lambda c: (of[c].count(act) >= m) == pos), 'rework:positive')
    d1, d2 = sorted(rng.choice([0, 1, 60, 90, 3600, 10 ** 5]) for _ in range(2))
    pth = rng.choice([p for t in traces for p in pairs(t)] or [('q', 'q')])
    for keep in (True, False):
        rows(pm4py.filter_paths_performance(df, pth, d1, d2, keep=keep, **kw), by(lambda c: any(p == pth and d1 <= x <= d2 for p, x in zip(pairs(of[c]), secs(le[c], ts))) == keep), 'paths:performance', bycase=True)
    need(df.equals(before) and list(df.columns) == list(before.columns), 'table:frame', 'table modified')
    return 18


CASES = [('logs', logs, 200), ('events', events, 200), ('tables', tables, 120)]
