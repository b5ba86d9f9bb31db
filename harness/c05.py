from gen import *
import copy, pm4py
from pm4py.algo.conformance.tokenreplay import algorithm as tr
from pm4py.algo.conformance.tokenreplay.variants import token_replay as tbr

BOUNDS = ('block-structured workflow nets with loops and silent transitions and random nets with at most 5 places, 5 transitions and weights up to 2; logs of at most 8 traces of at most 7 events with unknown activities, '
          'empty and repeated traces, model runs with up to two changes; tables; silent transitions of random nets do not increase the number of tokens; reduction caches, token-flood cleaning and immediate stop switched off')
P = tbr.Parameters
key = lambda m: tuple(sorted((p.name, c) for p, c in m.items() if c))


def recount(R, im, fm, acts, result, problems):
    """replays the activated transitions, adding what is missing exactly before those with problems"""
    m = {p: c for p, c in im.items() if c}
    produced, consumed, missing = sum(im.values()), 0, 0
    todo = list(problems)
    for t in acts:
        if not R.enabled(t, m):
            need(todo and todo[0] is t, 'order', 'transition %s was fired without enough tokens and is not reported as a problem' % t)
            todo.pop(0)
            for p, w, _ in R.pre(t):
                if m.get(p, 0) < w:
                    missing += w - m.get(p, 0)
                    m[p] = w
        m = R.fire(t, m)
        consumed += sum(w for _, w, _ in R.pre(t))
        produced += sum(w for _, w, _ in R.post(t))
    need(not todo, 'order', 'problems %r left over' % todo)
    need(key(result['reached_marking']) == key(m), 'reached', 'reached marking %r, replaying the activated transitions gives %r' % (result['reached_marking'], m))
    consumed += sum(fm.values())
    missing += sum(max(0, c - m.get(p, 0)) for p, c in fm.items())
    remaining = sum(max(0, c - fm.get(p, 0)) for p, c in m.items())
    return produced, consumed, missing, remaining, m


def judge(R, im, fm, trace, r, unknown=False, strict=True):
    c = {k: r[k + '_tokens'] for k in ('produced', 'consumed', 'missing', 'remaining')}
    need(all(type(x) is int and x >= 0 for x in c.values()), 'negative', repr(c))
    need(c['produced'] + c['missing'] == c['consumed'] + c['remaining'], 'balance', '%r for trace %r' % (c, trace))
    pr, co, mi, re_, m = recount(R, im, fm, r['activated_transitions'], r, r['transitions_with_problems'])
    need(c == dict(produced=pr, consumed=co, missing=mi, remaining=re_), 'counts', '%r, recounted %r for trace %r' % (c, (pr, co, mi, re_), trace))
    known = {t.label for t in R.trans}
    need([t.label for t in r['activated_transitions'] if t.label is not None] == [a for a in trace if a in known], 'labels', 'activated %r for trace %r' % (r['activated_transitions'], trace))
    fit = mi == 0 and re_ == 0 and not (unknown and any(a not in known for a in trace))
    if strict:
        need(r['trace_is_fit'] == fit, 'fit', 'is_fit %r with %r (unknown activities count: %r) for trace %r' % (r['trace_is_fit'], c, unknown, trace))
    f = 0.5 * (1 - mi / co) + 0.5 * (1 - re_ / pr) if co and pr else 1.0
    need(abs(r['trace_fitness'] - f) < 1e-9, 'fitness', '%r, expected %r' % (r['trace_fitness'], f))
    return m


def runs(rng, R, im, fm, n):
    out = []
    for _ in range(n):
        m, tr_ = {p: c for p, c in im.items() if c}, []
        for _ in range(12):
            en = [t for t in R.trans if R.enabled(t, m)]
            if not en or key(m) == key(fm):
                break
            t = rng.choice(en)
            m = R.fire(t, m)
            if t.label is not None:
                tr_.append(t.label)
        out.append(tuple(tr_))
    return out


def noisy(rng, t, acts):
    t = list(t)
    for _ in range(rng.randint(0, 2)):
        k = rng.randint(0, len(t))
        r = rng.random()
        if r < 0.35 and k < len(t):
            del t[k]
        elif r < 0.7:
            t.insert(k, rng.choice(acts))
        elif k < len(t) and len(t) > 1:
            j = rng.randrange(len(t))
            t[k], t[j] = t[j], t[k]
    return tuple(t[:9])


def model(rng, plain=False):
    if rng.random() < 0.6:
        R = workflow_net(rng, depth=rng.choice([1, 2, 3]), silent=0 if plain else 0.2)
        if len({t.label for t in R.trans if t.label}) < len([t for t in R.trans if t.label]):
            for i, t in enumerate(x for x in R.trans if x.label):          # unique visible labels
                t._Transition__label = 'abcdefghijklmnopqrstuvwxyz'[i % 26] + str(i // 26 or '')
        return R, R.im, R.fm
    R = rand_net(rng, np=5, nt=5, maxw=rng.choice([1, 1, 2]), silent=0 if plain else 0.25)
    for t in R.trans:
        if t.label is None and sum(w for _, w, _ in R.post(t)) > sum(w for _, w, _ in R.pre(t)):
            t._Transition__label = 'x'                              # silent transitions alone produce boundedly many tokens
    for i, t in enumerate(x for x in R.trans if x.label):
        t._Transition__label = 'abcde'[i % 5]
    mk = lambda: Marking({p: rng.choice([1, 1, 2]) for p in rng.sample(list(R.places), rng.randint(0, min(2, len(R.places))))})
    return R, mk(), mk()


def case(rng, plain=False):
    R, im, fm = model(rng, plain)
    acts = sorted({t.label for t in R.trans if t.label}) + ['unknown', 'zz']
    traces = [noisy(rng, t, acts) if rng.random() < 0.6 else t for t in runs(rng, R, im, fm, rng.randint(1, 5))]
    traces += [()] if rng.random() < 0.3 else []
    traces += [rng.choice(traces) for _ in range(rng.randint(0, 3))]
    return R, im, fm, traces, acts


def net_state(R, im, fm):
    return ({(a.source, a.target, a.weight) for a in R.net.arcs}, set(R.net.places), set(R.net.transitions), dict(im), dict(fm))


def replay(rng, k):
    R, im, fm, traces, acts = case(rng)
    ak = rng.choice(['concept:name', 'act'])
    log = mk_log(traces, rng=rng, key=ak, names=names_for(traces, rng))
    before, logb = net_state(R, im, fm), copy.deepcopy(log)
    unknown = rng.random() < 0.4
    cons = rng.random() < 0.8
    ps = {P.ACTIVITY_KEY: ak, P.CONSIDER_ACTIVITIES_NOT_IN_MODEL_IN_FITNESS: unknown, P.CONSIDER_REMAINING_IN_FITNESS: cons, P.SHOW_PROGRESS_BAR: False,
          P.TRY_TO_REACH_FINAL_MARKING_THROUGH_HIDDEN: rng.random() < 0.8, P.WALK_THROUGH_HIDDEN_TRANS: rng.random() < 0.8, P.DISABLE_VARIANTS: rng.random() < 0.3}
    res = tr.apply(log, R.net, im, fm, parameters=dict(ps))
    need(len(res) == len(traces), 'number', '%d results for %d traces' % (len(res), len(traces)))
    for t, r in zip(traces, res):
        judge(R, im, fm, t, r, unknown, cons)
    need(net_state(R, im, fm) == before, 'frame', 'net or markings changed')
    need(log == logb, 'frame', 'log changed')
    # a trace is judged alone
    j = rng.randrange(len(traces))
    alone = tr.apply(mk_log([traces[j]], rng=rng, key=ak), R.net, im, fm, parameters=dict(ps))[0]
    for f in ('trace_is_fit', 'trace_fitness', 'missing_tokens', 'consumed_tokens', 'remaining_tokens', 'produced_tokens'):
        need(alone[f] == res[j][f], 'alone', '%s of %r is %r in the log %r and %r alone' % (f, traces[j], res[j][f], traces, alone[f]))
    # per place and transition
    if rng.random() < 0.5 and R.places:
        a, pf, tf, un = tr.apply(log, R.net, im, fm, parameters=dict(ps, **{P.ENABLE_PLTR_FITNESS: True}) if False else {**ps, P.ENABLE_PLTR_FITNESS: True})
        for t, r in zip(traces, a):
            judge(R, im, fm, t, r, unknown, cons)
        known = {t.label for t in R.trans}
        need(set(un) == {x for t in traces for x in t if x not in known}, 'unknown', 'activities not in the model: %r' % sorted(un))
    return 2 * len(traces)


def language(rng, k):
    """without silent transitions and with unique labels the replay is determined: exactly the runs of the model fit"""
    R, im, fm, traces, acts = case(rng, plain=True)
    if any(t.label is None for t in R.trans):
        return 0
    log = mk_log(traces, rng=rng)
    known = {t.label: t for t in R.trans}
    if len(known) < len(R.trans):
        return 0
    rs = pm4py.conformance_diagnostics_token_based_replay(log, R.net, im, fm, opt_parameters={'show_progress_bar': False})
    for t, r in zip(traces, rs):
        m, ok = {p: c for p, c in im.items() if c}, True
        for a in t:
            if a in known:
                ok = ok and R.enabled(known[a], m)
                m = R.fire(known[a], m) if ok else m
        judge(R, im, fm, t, r)
        need(r['trace_is_fit'] == (ok and key(m) == key(fm)), 'language', 'trace %r: is_fit %r, it is%s a run of the model' % (t, r['trace_is_fit'], '' if ok and key(m) == key(fm) else ' not'))
    n = [len(traces), sum(r['trace_is_fit'] for r in rs)]
    f = pm4py.fitness_token_based_replay(log, R.net, im, fm)
    if not sum(r['consumed_tokens'] for r in rs) or not sum(r['produced_tokens'] for r in rs):
        return len(traces)
    need(abs(f['perc_fit_traces'] - 100 * n[1] / n[0]) < 1e-6, 'log', '%r for %d of %d fitting traces' % (f, n[1], n[0]))
    need(abs(f['average_trace_fitness'] - sum(r['trace_fitness'] for r in rs) / n[0]) < 1e-9, 'log', 'average %r' % f)
    return 2 * len(traces)


def tables(rng, k):
    R, im, fm, traces, acts = case(rng)
    traces = [t for t in traces if t]
    if not traces:
        return 0
    log = mk_log(traces, rng=rng, names=names_for(traces, rng))
    df = mk_table(log, rng)
    order = sorted(set(df['case:concept:name']))
    of = {l.attributes['concept:name']: acts_of(l) for l in log}
    res = tr.apply(df, R.net, im, fm, parameters={P.SHOW_PROGRESS_BAR: False})
    need(len(res) == len(order), 'table', '%d results for %d cases' % (len(res), len(order)))
    for c, r in zip(order, res):
        judge(R, im, fm, tuple(of[c]), r)
    return len(order)


CASES = [('replay', replay, 2500), ('language', language, 1500), ('tables', tables, 500)]
