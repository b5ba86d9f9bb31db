from gen import *
import copy, warnings, pm4py
warnings.simplefilter('ignore')
from collections import Counter
from pm4py.algo.discovery.log_skeleton import algorithm as disc
from pm4py.algo.conformance.log_skeleton import algorithm as conf
from pm4py.objects.log.obj import EventLog

BOUNDS = 'logs of at most 9 non-empty traces of at most 7 events over at most 7 activities (repeated activities, clashing strings, other attribute names), traces checked of at most 7 events, skeletons of other logs or with arbitrary pairs, table with interleaved cases'
KINDS = ('equivalence', 'always_after', 'always_before', 'never_together', 'directly_follows')


def case(rng, empty=False):
    acts = rng.sample(ACTS, rng.randint(1, 3)) + rng.choice([[], [], ['1', '11'], ['a,b', 'b'], ['A', 'é', '']])
    traces = rand_traces(rng, acts=acts, maxlen=rng.choice([2, 3, 4, 7]), empty=empty) or [(acts[0],)]
    if rng.random() < 0.4:
        traces = traces + [rng.choice(traces) for _ in range(2)]
    key, ts = rng.choice([('concept:name', 'time:timestamp'), ('concept:name', 'time:timestamp'), ('act', 't2')])
    log = mk_log(traces, rng=rng, key=key, ts=ts, names=names_for(traces, rng))
    if key != 'concept:name' and rng.random() < 0.6:
        for t in log:
            for e in t:
                e['concept:name'] = rng.choice(['other', 'a', 'b'])
                e['time:timestamp'] = T0
    return [tuple(t) for t in traces], log, key, ts, acts


def holds(kind, q, t):
    """the pair relation in trace t, which contains the first activity"""
    a, b = q
    at = [i for i, x in enumerate(t) if x == a]
    if kind == 'equivalence':
        return t.count(a) == t.count(b)
    if kind == 'always_after':
        return all(b in t[i + 1:] for i in at)
    if kind == 'always_before':
        return all(b in t[:i] for i in at)
    if kind == 'directly_follows':
        return all(t[i + 1:i + 2] == (b,) for i in at)
    return b not in t


def ever(kind, q, t):
    """some occurrence of the first activity satisfies the relation"""
    a, b = q
    at = [i for i, x in enumerate(t) if x == a]
    if kind == 'always_after':
        return any(b in t[i + 1:] for i in at)
    if kind == 'always_before':
        return any(b in t[:i] for i in at)
    if kind == 'directly_follows':
        return any(t[i + 1:i + 2] == (b,) for i in at)
    return holds(kind, q, t)


def skeleton(traces):
    acts = sorted({a for t in traces for a in t})
    out = {k: {(a, b) for a in acts for b in acts if (a != b or k not in ('equivalence', 'never_together')) and all(holds(k, (a, b), t) for t in traces if a in t)} for k in KINDS}
    out['activ_freq'] = {a: {t.count(a) for t in traces} for a in acts}
    return out


def same(got, want, key, what):
    need(set(got) == set(want), key, '%s: keys %r, expected %r' % (what, sorted(got), sorted(want)))
    for k in want:
        g = got[k] if k == 'activ_freq' else set(got[k])
        g = {a: set(x) for a, x in g.items()} if k == 'activ_freq' else g
        need(g == want[k], key, '%s: %s is %r, expected %r' % (what, k, g, want[k]))


def found(rng, k):
    traces, log, key, ts, acts = case(rng)
    before = copy.deepcopy(log)
    want = skeleton(traces)
    got = pm4py.discover_log_skeleton(log, activity_key=key, timestamp_key=ts)
    same(got, want, 'c09:log', 'skeleton of %r' % (traces,))
    need([[dict(e) for e in t] for t in log] == [[dict(e) for e in t] for t in before], 'c09:frame', 'discovery changed the log')
    n = 7
    # every trace of the log fits
    res = pm4py.conformance_log_skeleton(log, got, activity_key=key, timestamp_key=ts)
    need(len(res) == len(traces), 'c09:own', '%d results for %d traces' % (len(res), len(traces)))
    for t, r in zip(traces, res):
        need(r['is_fit'] and r['deviations'] == [] and r['no_dev_total'] == 0 and r['dev_fitness'] == 1.0, 'c09:own', 'trace %r of its own log %r deviates: %r' % (t, traces, r))
    return n


def table(rng, k):
    traces, log, key, ts, acts = case(rng)
    keys = rng.choice([('case:concept:name', 'concept:name', 'time:timestamp'), ('cid', 'activity', 'when')])
    df = mk_table(log, rng, keys=keys, orig=(key, ts))
    kw = dict(activity_key=keys[1], timestamp_key=keys[2], case_id_key=keys[0])
    before = df.copy()
    groups = [tuple(x) for x in df.groupby(keys[0], sort=False)[keys[1]].agg(list)]
    got = pm4py.discover_log_skeleton(df, **kw)
    same(got, skeleton(groups), 'c09:table', 'skeleton of the table of %r' % (groups,))
    res = pm4py.conformance_log_skeleton(df, got, **kw)
    need(len(res) == len(groups), 'c09:own', '%d results for %d cases' % (len(res), len(groups)))
    for r in res:
        need(r['is_fit'] and r['deviations'] == [] and r['no_dev_total'] == 0 and r['dev_fitness'] == 1.0, 'c09:own', 'a case of the own table %r deviates: %r' % (groups, r))
    need(df.equals(before), 'c09:frame', 'the table was changed')
    return 3


def expected(t, model, kinds):
    """violated constraints, those to be reported, and number of constraints considered"""
    dev, must, total, n = [], [], 0, 0
    for k in KINDS:
        if k not in kinds:
            continue
        cons = {q for q in model[k] if q[0] in t}
        bad = {q for q in cons if not holds(k, q, t)}
        total += len(cons)
        dev += [(k, q) for q in bad]
        must += [(k, q) for q in cons if not ever(k, q, t)]
    if 'activ_freq' in kinds:
        m = model['activ_freq']
        miss = {a for a in m if min(m[a]) > 0 and a not in t}
        cur = set(t)
        total += len(cur) + len(miss)
        bad = {(a, t.count(a) if a in m else 0) for a in cur if a not in m or t.count(a) not in m[a]} | {(a, 0) for a in miss}
        dev += [('activ_freq', x) for x in bad]
        must += [('activ_freq', x) for x in bad]
    return set(dev), set(must), total


def flat(r):
    out = []
    for k, x in r['deviations']:
        out += [(k, x)] if k == 'activ_freq' else [(k, q) for q in x]
    return out


def check(rng, k):
    traces, log, key, ts, acts = case(rng, empty=True)
    other = [tuple(t) for t in rand_traces(rng, acts=acts + ['z'], maxlen=5, empty=False)] or [('z',)]
    model = skeleton(other)
    if rng.random() < 0.5:
        al = acts + ['z', 'y']
        for x in KINDS:
            model[x] = {(a, b) for a in al for b in al if a != b and rng.random() < 0.3}
        model['activ_freq'] = {a: {rng.randint(0, 3) for _ in range(rng.randint(1, 3))} for a in al if rng.random() < 0.7}
    shown = {x: (set(y) if x != 'activ_freq' else {a: set(b) for a, b in y.items()}) for x, y in model.items()}
    kinds = KINDS + ('activ_freq',)
    pa = {'pm4py:param:activity_key': key}
    if rng.random() < 0.4:
        kinds = tuple(rng.sample(kinds, rng.randint(1, 5)))
        pa['considered_constraints'] = list(kinds)
        res = conf.apply(log, model, parameters=pa)
    else:
        res = pm4py.conformance_log_skeleton(log, model, activity_key=key, timestamp_key=ts)
    need(model == shown, 'c09:frame', 'checking changed the skeleton')
    need(len(res) == len(traces), 'c09:check', '%d results for %d traces' % (len(res), len(traces)))
    one = [conf.apply(t, model, parameters=pa) for t in log]
    for t, r, o in zip(traces, res, one):
        dev, must, total = expected(t, model, kinds)
        what = 'trace %r against %r (%r): %r' % (t, model, kinds, r)
        fl = flat(r)
        need(len(fl) == len(set(fl)) and set(fl) <= dev, 'c09:deviation', what + ': reported and not violated: %r' % (set(fl) - dev,))
        need(set(fl) >= must, 'c09:complete', what + ': never satisfied and not reported: %r' % (must - set(fl),))
        n = len(fl)
        need(r['is_fit'] == (not fl) and r['no_dev_total'] == n and r['no_constr_total'] == total, 'c09:totals', what + ': expected %d of %d' % (n, total))
        need(abs(r['dev_fitness'] - (1.0 - n / total if total else 1.0)) < 1e-12 and 0 <= r['dev_fitness'] <= 1, 'c09:fitness', what)
        need(o == r or (flat(o) and set(flat(o)) == set(fl) and o['no_dev_total'] == r['no_dev_total']), 'c09:trace', 'the trace alone gives %r, in the log %r' % (o, r))
    return 5 * len(traces)


CASES = [('found', found, 6000), ('table', table, 500), ('check', check, 5000)]
