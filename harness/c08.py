from gen import *
import copy, warnings
import pm4py
from pm4py.algo.discovery.footprints import algorithm as fpd
from pm4py.algo.discovery.footprints.log.variants import entire_event_log, trace_by_trace, entire_dataframe
from pm4py.algo.discovery.footprints.dfg.variants import dfg as fdfg
from pm4py.algo.discovery.causal import algorithm as causal
from pm4py.algo.conformance.footprints import algorithm as fpc
from pm4py.algo.conformance.footprints.variants import log_model, log_extensive, trace_extensive
from pm4py.objects.dfg.utils import dfg_utils
warnings.simplefilter('ignore')

BOUNDS = 'logs of at most 9 traces of at most 7 events over at most 6 activities (with empty traces, equal timestamps, other attribute names); relations over at most 5 activities with optional keys missing'


def ref(traces):
    c = Counter()
    for t in traces:
        c.update(zip(t, t[1:]))
    return {'dfg': dict(c), 'sequence': {p for p in c if (p[1], p[0]) not in c}, 'parallel': {p for p in c if (p[1], p[0]) in c},
            'start_activities': {t[0] for t in traces if t}, 'end_activities': {t[-1] for t in traces if t},
            'activities': {a for t in traces for a in t}, 'min_trace_length': min([len(t) for t in traces], default=0)}


def case(rng):
    acts = rng.sample(ACTS, rng.randint(1, 5)) + rng.choice([[], ['', 'a,b'], ['A', 'é']])
    traces = rand_traces(rng, acts=acts, maxlen=7)
    key, ts = rng.choice([('concept:name', 'time:timestamp'), ('concept:name', 'time:timestamp'), ('act', 't2')])
    log = mk_log(traces, rng=rng, key=key, ts=ts, names=names_for(traces, rng))
    if key != 'concept:name' and rng.random() < 0.5:
        for t in log:
            for e in t:
                e['concept:name'] = 'other'
    return traces, log, key, ts


def eq(got, want, key, data):
    need(set(got) == set(want), key + ':keys', 'keys %r, expected %r, traces %r' % (sorted(got), sorted(want), data))
    for k in want:
        g = dict(got[k]) if isinstance(want[k], dict) else got[k]
        need(g == want[k], key + ':' + k, '%s: %r, expected %r, traces %r' % (k, g, want[k], data))


def logs(rng, k):
    traces, log, key, ts = case(rng)
    before = copy.deepcopy(log)
    ps = {'pm4py:param:activity_key': key}
    r = ref(traces)
    eq(entire_event_log.apply(log, parameters=ps), r, 'entire', traces)
    eq(fpd.apply(log, variant=fpd.Variants.ENTIRE_EVENT_LOG, parameters=ps), r, 'entire:algorithm', traces)
    out = trace_by_trace.apply(log, parameters=ps)
    need(len(out) == len(traces), 'trace:count', '%d results for %r' % (len(out), traces))
    for o, t in zip(out, traces):
        eq(o, dict(ref([t]), trace=tuple(t)), 'trace', t)
    if key == 'concept:name':
        out2 = pm4py.discover_footprints(log)
        need(isinstance(out2, list) and out2 == out, 'dispatch:log', 'discover_footprints %r' % (out2,))
    need(log == before, 'frame', 'log modified')
    return 6 + len(out)


def tables(rng, k):
    traces, log, key, ts = case(rng)
    traces2 = [t for t in traces if t]
    if not traces2:
        return 0
    cid = 'case:concept:name' if key == 'concept:name' else 'cid'
    df = mk_table(log, rng, keys=(cid, key, ts), orig=(key, ts))
    before = df.copy(deep=True)
    ps = {'pm4py:param:activity_key': key, 'pm4py:param:timestamp_key': ts, 'pm4py:param:case_id_key': cid}
    r = ref(traces2)
    eq(entire_dataframe.apply(df, parameters=ps), r, 'table', traces)
    if key == 'concept:name':
        eq(pm4py.discover_footprints(df), r, 'table:dispatch', traces)
        eq(entire_dataframe.apply(df), r, 'table', traces)
    need(df.equals(before), 'frame', 'table modified')
    return 2


def dfgs(rng, k):
    acts = rng.sample(ACTS, rng.randint(1, 5)) + rng.choice([[], ['']])
    d = {(rng.choice(acts), rng.choice(acts)): rng.randint(1, 9) for _ in range(rng.randint(0, 9))}
    d0 = dict(d)
    S, T = {a for a, _ in d}, {b for _, b in d}
    want = {'sequence': {p for p in d if (p[1], p[0]) not in d}, 'parallel': {p for p in d if (p[1], p[0]) in d},
            'start_activities': S - T, 'end_activities': T - S, 'activities': S | T}
    for f in (fdfg.apply, fpd.apply, pm4py.discover_footprints):
        eq(f(d), want, 'dfg', d)
    al = causal.apply(d, causal.Variants.CAUSAL_ALPHA)
    need(set(al) == want['sequence'] and all(v == 1 for v in al.values()), 'alpha', '%r from %r' % (al, d))
    o, i = dfg_utils.get_outgoing_edges(d), dfg_utils.get_ingoing_edges(d)
    need({(a, b): n for a in o for b, n in o[a].items()} == d and set(o) == S, 'outgoing', '%r from %r' % (o, d))
    need({(a, b): n for b in i for a, n in i[b].items()} == d and set(i) == T, 'ingoing', '%r from %r' % (i, d))
    need(d == d0, 'frame', 'graph modified')
    return 6


def rels(rng, acts, model, kind):
    prs = [(a, b) for a in acts for b in acts]
    some = lambda xs, p=0.4: {x for x in xs if rng.random() < p}
    seq = some(prs)
    par = some([p for p in prs if p not in seq]) if rng.random() < 0.6 else some(prs)
    fp = {'sequence': seq, 'parallel': par, 'start_activities': some(acts), 'end_activities': some(acts), 'activities': some(acts, 0.6), 'min_trace_length': rng.randint(0, 4)}
    if model:
        fp['activities_always_happening'] = some(acts)
        fp['skippable'] = False
        for k in ('start_activities', 'end_activities', 'activities', 'activities_always_happening', 'min_trace_length', 'skippable'):
            if rng.random() < 0.25:
                del fp[k]
    elif rng.random() < 0.2:
        del fp['min_trace_length']
    return fp


def plain(l, m, strict):
    if strict:
        return (l['sequence'] - m['sequence']) | (l['parallel'] - m['parallel'])
    return (l['sequence'] | l['parallel']) - (m['sequence'] | m['parallel'])


def ext(l, m, always=None):
    out = {'footprints': plain(l, m, False)}
    for k in ('start_activities', 'end_activities'):
        out[k] = l[k] - m[k] if k in m else set()
    if always is not None:
        out['activities_always_happening'] = m['activities_always_happening'] - l['activities'] if always and 'activities_always_happening' in m else set()
    k = 'min_trace_length'
    out['min_length_fit'] = not (k in l and k in m) or l[k] >= m[k]
    out['is_footprints_fit'] = out['min_length_fit'] and not any(v for k, v in out.items() if k != 'min_length_fit')
    return out


def conf(rng, k):
    acts = rng.sample(ACTS, rng.randint(1, 4)) + rng.choice([[], [''], ['a,b']])
    m = rels(rng, acts, True, k)
    ls = []
    for i in range(rng.randint(1, 5)):
        if ls and rng.random() < 0.3:
            ls.append(copy.deepcopy(rng.choice(ls)))
        else:
            l = rels(rng, acts, False, k)
            if rng.random() < 0.4:
                l['sequence'] &= m['sequence'] | m['parallel']
                l['parallel'] &= m['sequence'] | m['parallel']
            if rng.random() < 0.4:
                l['start_activities'] &= m.get('start_activities', set(acts))
                l['end_activities'] &= m.get('end_activities', set(acts))
            l['trace'] = tuple([rng.choice(acts) for _ in range(3)] + ['#%d' % i])
            ls.append(l)
    m0, l0 = copy.deepcopy(m), copy.deepcopy(ls)
    for strict in (False, True, None):
        ps = {} if strict is None else {log_model.Parameters.STRICT: strict}
        want = [plain(l, m, bool(strict)) for l in ls]
        for f in (log_model.apply, fpc.apply):
            got = f(ls, m, parameters=ps)
            need(got == want, 'log_model:%s' % strict, '%r, expected %r for %r against %r' % (got, want, l0, m0))
            need(f(ls[0], m, parameters=ps) == want[0], 'log_model:single:%s' % strict, '%r against %r' % (l0[0], m0))
    lf = dict(ls[0])
    del lf['trace']
    eq(log_extensive.apply(lf, m), ext(lf, m), 'log_extensive', (lf, m))
    eq(fpc.apply(lf, m, variant=fpc.Variants.LOG_EXTENSIVE), ext(lf, m), 'log_extensive', (lf, m))
    eq(pm4py.conformance_diagnostics_footprints(lf, m), ext(lf, m), 'diagnostics', (lf, m))
    for always in (None, True, False):
        ps = {} if always is None else {trace_extensive.Parameters.ENABLE_ACT_ALWAYS_EXECUTED: always}
        got = trace_extensive.apply(ls, m, parameters=ps)
        need(len(got) == len(ls), 'trace_extensive:count', '%d' % len(got))
        for g, l in zip(got, ls):
            eq(g, ext(l, m, always is not False), 'trace_extensive', (l, m, always))
    got = pm4py.conformance_diagnostics_footprints(ls, m)
    for g, l in zip(got, ls):
        eq(g, ext(l, m, True), 'diagnostics', (l, m))
    need(m == m0 and ls == l0, 'frame', 'footprints modified')
    return 10 + 4 * len(ls)


def own(rng, k):
    traces, log, key, ts = case(rng)
    ps = {'pm4py:param:activity_key': key}
    whole, each = entire_event_log.apply(log, parameters=ps), trace_by_trace.apply(log, parameters=ps)
    for strict in (False, True):
        q = {log_model.Parameters.STRICT: strict}
        need(log_model.apply(whole, whole, parameters=q) == set(), 'own:log_model', 'strict %s: %r' % (strict, traces))
        need(strict or log_model.apply(each, whole, parameters=q) == [set() for _ in traces], 'own:traces', '%r' % traces)
    need(log_extensive.apply(whole, whole)['is_footprints_fit'], 'own:extensive', '%r' % traces)
    for c in trace_extensive.apply(each, whole):
        need(c['is_footprints_fit'], 'own:trace_extensive', '%r: %r' % (traces, c))
    if key == 'concept:name' and traces:
        m = rels(rng, sorted(whole['activities']) or ['a'], True, k)
        c = trace_extensive.apply(each, m)
        d = trace_extensive.get_diagnostics_dataframe(log, c)
        need(list(d['is_fit']) == [x['is_footprints_fit'] for x in c] and list(d['footprints_violations']) == [len(x['footprints']) for x in c]
             and list(d['start_activities_violations']) == [len(x['start_activities']) for x in c] and list(d['end_activities_violations']) == [len(x['end_activities']) for x in c]
             and list(d['act_always_happening_violations']) == [len(x['activities_always_happening']) for x in c] and list(d['min_length_fit']) == [x['min_length_fit'] for x in c]
             and list(d['case_id']) == [t.attributes['concept:name'] for t in log], 'diagnostics:table', '%r %r' % (c, d.to_dict('list')))
        c = log_model.apply(each, m)
        d = log_model.get_diagnostics_dataframe(log, c)
        need(list(d['num_violations']) == [len(x) for x in c] and list(d['is_fit']) == [not x for x in c], 'diagnostics:table', '%r' % d.to_dict('list'))
    return 6 + len(traces)


CASES = [('logs', logs, 350), ('tables', tables, 120), ('dfgs', dfgs, 400), ('conf', conf, 400), ('own', own, 250)]
