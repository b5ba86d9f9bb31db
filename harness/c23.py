from gen import *
import pm4py
from pm4py.statistics.rework.log import get as rw_l
from pm4py.statistics.rework.pandas import get as rw_p
from pm4py.statistics.rework.cases.log import get as rc_l
from pm4py.statistics.rework.cases.pandas import get as rc_p
from pm4py.statistics.attributes.log import get as at_l
from pm4py.statistics.attributes.pandas import get as at_p
from pm4py.algo.discovery.minimum_self_distance import algorithm as msd_a
from pm4py.algo.discovery.minimum_self_distance import utils as msd_u
from pm4py.statistics.eventually_follows.log import get as ef_l
from pm4py.statistics.eventually_follows.pandas import get as ef_p
from pm4py.statistics.eventually_follows.uvcl import get as ef_u
from pm4py.algo.discovery.inductive.dtypes.im_ds import IMDataStructureUVCL

BOUNDS = 'logs of at most 9 traces of at most 8 events over at most 6 activities (empty traces, equal timestamps, events with a start time, other attribute names, clashing case/activity strings); tables with interleaved cases and arbitrary index'


def case(rng):
    acts = rng.sample(ACTS, rng.randint(1, 4)) + rng.choice([[], ['1', '11', '1a'], ['A', 'é']])
    traces = rand_traces(rng, acts=acts, maxlen=8)
    key, ts = rng.choice([('concept:name', 'time:timestamp'), ('concept:name', 'time:timestamp'), ('act', 't2')])
    names = names_for(traces, rng)
    if rng.random() < 0.3:
        names = ['c' + '1' * i for i in range(len(traces))]
    nv = rng.randint(1, 3)
    log = mk_log(traces, rng=rng, key=key, ts=ts, names=names, attrs={'v': lambda i, j: rng.choice([None, 0, 'x', 'y', ''][:nv + 2])})
    if key != 'concept:name' and rng.random() < 0.6:
        for t in log:
            for e in t:
                e['concept:name'] = rng.choice(['other', 'a', 'b'])
    for t in log:
        if rng.random() < 0.7:
            t.attributes['seg'] = rng.choice(['s', 't', 0])
    return traces, log, key, ts


def eq(got, want, key, what, data):
    need(dict(got) == want, key, '%s: %r, expected %r, traces %r' % (what, dict(got), want, data))


def rework(traces):
    return dict(Counter(a for t in traces for a, c in Counter(t).items() if c > 1))


def msd(traces):
    r = {}
    for t in traces:
        for i in range(len(t)):
            for j in range(i + 1, len(t)):
                if t[i] == t[j]:
                    r[t[i]] = min(r.get(t[i], 10 ** 9), j - i - 1)
    return r


def witnesses(traces):
    m = msd(traces)
    r = {a: set() for a in m if m[a] > 0}
    for t in traces:
        for i in range(len(t)):
            for j in range(i + 1, len(t)):
                if t[i] == t[j] and t[i] in r and j - i - 1 == m[t[i]]:
                    r[t[i]] |= set(t[i + 1:j])
    return r


def ef(evs, first):
    """evs: per trace a list of (activity, start, end) in order of start"""
    c = Counter()
    for t in evs:
        t = sorted(t, key=lambda x: x[1])
        for i in range(len(t)):
            for j in range(i + 1, len(t)):
                if t[i][2] <= t[j][1]:
                    c[(t[i][0], t[j][0])] += 1
                    if first:
                        break
    return dict(c)


def logs(rng, k):
    traces, log, key, ts = case(rng)
    import copy
    before = copy.deepcopy(log)
    ps = None if key == 'concept:name' and rng.random() < 0.5 else {'pm4py:param:activity_key': key, 'pm4py:param:timestamp_key': ts, 'pm4py:param:start_timestamp_key': ts}
    eq(rw_l.apply(log, ps), rework(traces), 'rework', 'rework', traces)
    eq(pm4py.get_rework_cases_per_activity(log, activity_key=key, timestamp_key=ts), rework(traces), 'rework', 'pm4py rework', traces)
    eq(rc_l.apply(log, ps), {t.attributes['concept:name']: {'number_activities': len(x), 'rework': len(x) - len(set(x))} for t, x in zip(log, traces)}, 'rework:cases', 'rework cases', traces)
    for at in (key, 'v', 'nope'):
        vals = [[e[at] for e in t if at in e] for t in log]
        for once in (False, True):
            w = dict(Counter(v for t in vals for v in (set(t) if once else t)))
            eq(at_l.get_attribute_values(log, at, {'keep_once_per_case': once}), w, 'values', 'values of %s once %s' % (at, once), traces)
            eq(pm4py.get_event_attribute_values(log, at, count_once_per_case=once), w, 'values', 'pm4py values of %s once %s' % (at, once), traces)
    eq(at_l.get_attribute_values(log, key), dict(Counter(a for t in traces for a in t)), 'values', 'values', traces)
    w = dict(Counter(t.attributes['seg'] for t in log if 'seg' in t.attributes))
    eq(at_l.get_trace_attribute_values(log, 'seg'), w, 'trace values', 'trace values', traces)
    eq(pm4py.get_trace_attribute_values(log, 'seg'), w, 'trace values', 'pm4py trace values', traces)
    eq(pm4py.get_trace_attribute_values(log, 'case:seg'), w, 'trace values', 'pm4py trace values with prefix', traces)
    need(at_l.get_all_trace_attributes_from_log(log) == {x for t in log for x in t.attributes} - {'concept:name'}, 'names', 'trace attribute names')
    need(at_l.get_all_event_attributes_from_log(log) == {x for t in log for e in t for x in e}, 'names', 'event attribute names')
    eq(msd_a.apply(log, parameters=ps), msd(traces), 'msd', 'minimum self-distance', traces)
    eq(pm4py.get_minimum_self_distances(log, activity_key=key, timestamp_key=ts), msd(traces), 'msd', 'pm4py minimum self-distance', traces)
    eq(msd_u.derive_msd_witnesses(log, parameters=ps), witnesses(traces), 'msd:witnesses', 'witnesses', traces)
    eq(pm4py.get_minimum_self_distance_witnesses(log, activity_key=key, timestamp_key=ts), witnesses(traces), 'msd:witnesses', 'pm4py witnesses', traces)
    evs = [[(e[key], e[ts], e[ts]) for e in t] for t in log]
    eq(ef_l.apply(log, ps), ef(evs, False), 'ef', 'eventually follows', traces)
    need(log == before, 'frame', 'log modified')
    if not any('start' in e for t in log for e in t):
        import datetime
        for t in log:
            for e in t:
                e['start'] = e[ts] - datetime.timedelta(seconds=rng.choice([0, 0, 10, 45, 4000]))
        evs = [[(e[key], e['start'], e[ts]) for e in t] for t in log]
        for first in (False, True):
            q = {'pm4py:param:activity_key': key, 'pm4py:param:timestamp_key': ts, 'pm4py:param:start_timestamp_key': 'start', 'keep_first_following': first}
            if all(len({x[1] for x in t}) == len(t) for t in evs) or True:
                eq(ef_l.apply(log, q), ef(evs, first), 'ef:interval', 'eventually follows with start times, first %s' % first, evs)
    c = Counter(tuple(t) for t in traces)
    w = Counter()
    for t, n in c.items():
        for i in range(len(t)):
            for j in range(i + 1, len(t)):
                w[(t[i], t[j])] += n
    eq(ef_u.apply(IMDataStructureUVCL(c)), dict(w), 'ef:uvcl', 'eventually follows of variants', traces)
    return 20


def distr(rng, k):
    import datetime, pandas as pd
    n = rng.randint(1, 12)
    stamps = [T0 + datetime.timedelta(days=rng.choice([rng.randint(-800, 800), rng.randint(-3, 3)]), hours=rng.randint(0, 30)) for _ in range(n)]
    log = mk_log([['a'] * n])
    for e, s in zip(log[0], stamps):
        e['time:timestamp'] = s
    df = pd.DataFrame([{'case:concept:name': 'c', 'concept:name': 'a', 'time:timestamp': s} for s in stamps])
    wd = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
    two = lambda x: '%02d' % x
    spec = {'days_month': (range(1, 32), lambda s: s.day, two), 'months': (range(1, 13), lambda s: s.month, two),
            'years': (range(min(s.year for s in stamps), max(s.year for s in stamps) + 1), lambda s: s.year, two),
            'hours': (range(24), lambda s: s.hour, two), 'days_week': (range(7), lambda s: s.weekday(), lambda x: wd[x]),
            'weeks': (range(53), lambda s: s.isocalendar()[1], two)}
    for d, (dom, f, sh) in spec.items():
        c = Counter({x: 0 for x in dom})
        c.update(f(s) for s in stamps)
        want = ([sh(x) for x in sorted(c)], [c[x] for x in sorted(c)])
        for what, got in (('log', at_l.get_events_distribution(log, d)), ('table', at_p.get_events_distribution(df, d)),
                          ('pm4py', None)):
            if got is not None:
                need((list(got[0]), list(got[1])) == want, 'distribution', '%s %s: %r, expected %r, %r' % (what, d, got, want, stamps))
    return 12


def tables(rng, k):
    traces, log, key, ts = case(rng)
    if not any(traces):
        return 0
    cid = 'case:concept:name' if key == 'concept:name' else 'cid'
    df = mk_table(log, rng, keys=(cid, key, ts), orig=(key, ts))
    ps = {'pm4py:param:activity_key': key, 'pm4py:param:timestamp_key': ts, 'pm4py:param:case_id_key': cid}
    ne = [t for t in traces if t]
    eq(rw_p.apply(df.copy(), ps), rework(traces), 'table:rework', 'rework', traces)
    eq(pm4py.get_rework_cases_per_activity(df.copy(), activity_key=key, timestamp_key=ts, case_id_key=cid), rework(traces), 'table:rework', 'pm4py rework', traces)
    eq(rc_p.apply(df.copy(), ps), {t.attributes['concept:name']: {'number_activities': len(x), 'rework': len(x) - len(set(x))} for t, x in zip(log, traces) if x}, 'table:rework:cases', 'rework cases', traces)
    for once in (False, True):
        w = dict(Counter(v for t in traces for v in (set(t) if once else t)))
        q = dict(ps)
        q['keep_once_per_case'] = once
        eq(at_p.get_attribute_values(df.copy(), key, q), w, 'table:values', 'values once %s' % once, traces)
        eq(pm4py.get_event_attribute_values(df.copy(), key, count_once_per_case=once, case_id_key=cid), w, 'table:values', 'pm4py values once %s' % once, traces)
    eq(msd_a.apply(df.copy(), parameters=ps), msd(traces), 'table:msd', 'minimum self-distance', traces)
    eq(pm4py.get_minimum_self_distances(df.copy(), activity_key=key, timestamp_key=ts, case_id_key=cid), msd(traces), 'table:msd', 'pm4py minimum self-distance', traces)
    eq(pm4py.get_minimum_self_distance_witnesses(df.copy(), activity_key=key, timestamp_key=ts, case_id_key=cid), witnesses(traces), 'table:msd:witnesses', 'pm4py witnesses', traces)
    evs = [[(e[key], e[ts], e[ts]) for e in t] for t in log]
    eq(ef_p.apply(df.copy(), ps), ef(evs, False), 'table:ef', 'eventually follows', traces)
    eq(pm4py.discover_eventually_follows_graph(df.copy(), activity_key=key, timestamp_key=ts, case_id_key=cid), ef(evs, False), 'table:ef', 'pm4py eventually follows', traces)
    return 10


CASES = [('logs', logs, 350), ('distr', distr, 120), ('tables', tables, 140)]
