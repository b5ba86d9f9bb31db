from gen import *
import warnings, math
import pm4py
from pm4py.algo.evaluation.replay_fitness.variants import token_replay as tr, alignment_based as al
from pm4py.algo.evaluation.replay_fitness import algorithm as rf
from pm4py.algo.evaluation.simplicity.variants import arc_degree
from pm4py.algo.evaluation.simplicity import algorithm as simp
from pm4py.algo.conformance.footprints.util import evaluation as fpe
from pm4py.algo.conformance.tokenreplay import algorithm as tbr
warnings.simplefilter('ignore')

BOUNDS = 'lists of at most 6 replay or alignment results, footprints over at most 5 activities, nets with at most 5 places and 5 transitions, logs of at most 9 traces on block-structured nets'


def close(a, b):
    return (a is None) == (b is None) and (a is None or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)))


def same(got, want, key, data):
    need(set(got) >= set(want), key + ':keys', '%r for %r' % (got, data))
    for k in want:
        need(close(got[k], want[k]), key + ':' + k, '%s: %r, expected %r, for %r' % (k, got[k], want[k], data))


def unit(x, key, data):
    need(-1e-12 <= x <= 1 + 1e-12, key, '%r outside [0,1] for %r' % (x, data))


def token(res):
    m, c, r, p = [sum(x[k + '_tokens'] for x in res) for k in ('missing', 'consumed', 'remaining', 'produced')]
    n = len(res)
    if not (n and c and p):
        return dict(perc_fit_traces=0, percentage_of_fitting_traces=0, average_trace_fitness=0, log_fitness=0)
    f = 100.0 * sum(bool(x['trace_is_fit']) for x in res) / n
    return dict(perc_fit_traces=f, percentage_of_fitting_traces=f, average_trace_fitness=sum(x['trace_fitness'] for x in res) / n, log_fitness=0.5 * (1 - m / c) + 0.5 * (1 - r / p))


def tokens(rng, k):
    res = []
    for _ in range(rng.randint(0, 6)):
        c, p = rng.randint(0, 9), rng.randint(0, 9)
        if rng.random() < 0.7:
            c, p = c + 1, p + 1
        res.append({'trace_is_fit': rng.random() < 0.5, 'trace_fitness': rng.random(), 'missing_tokens': rng.randint(0, c), 'consumed_tokens': c, 'remaining_tokens': rng.randint(0, p), 'produced_tokens': p,
                    'activated_transitions': []})
    got = tr.evaluate(res)
    same(got, token(res), 'token', res)
    same(rf.evaluate(res, variant=rf.Variants.TOKEN_BASED), token(res), 'token:algorithm', res)
    unit(got['log_fitness'], 'token:range', res)
    unit(got['average_trace_fitness'], 'token:range', res)
    unit(got['perc_fit_traces'] / 100, 'token:range', res)
    return 3


def alref(res):
    xs = [x for x in res if x is not None]
    n = len(xs)
    if not n:
        return dict(percFitTraces=0, averageFitness=0, percentage_of_fitting_traces=0, average_trace_fitness=0, log_fitness=0)
    both = [x for x in xs if 'bwc' in x and 'cost' in x]
    b, c = sum(x['bwc'] for x in both), sum(x['cost'] for x in both)
    f = 100.0 * sum(x['fitness'] == 1 for x in xs) / n
    a = sum(x['fitness'] for x in xs) / n
    return dict(percFitTraces=f, averageFitness=a, percentage_of_fitting_traces=f, average_trace_fitness=a, log_fitness=1 - (c / b if b > 0 else 0))


def aligns(rng, k):
    res = []
    for _ in range(rng.randint(0, 6)):
        if rng.random() < 0.2:
            res.append(None)
            continue
        d = {'fitness': rng.choice([1.0, 1, 0.0, rng.random()])}
        if rng.random() < 0.8:
            d['bwc'] = rng.choice([0, rng.randint(1, 90000)])
        if rng.random() < 0.8:
            d['cost'] = rng.randint(0, d.get('bwc', 9))
        res.append(d)
    got = al.evaluate(res)
    same(got, alref(res), 'alignment', res)
    same(rf.evaluate(res, variant=rf.Variants.ALIGNMENT_BASED), alref(res), 'alignment:algorithm', res)
    for q in ('averageFitness', 'log_fitness'):
        unit(got[q], 'alignment:range', res)
    unit(got['percFitTraces'] / 100, 'alignment:range', res)
    return 3


def fp(rng, acts):
    prs = [(a, b) for a in acts for b in acts]
    d = Counter({p: rng.randint(1, 9) for p in prs if rng.random() < 0.35})
    return {'dfg': d, 'sequence': {p for p in d if (p[1], p[0]) not in d}, 'parallel': {p for p in d if (p[1], p[0]) in d},
            'start_activities': {a for a in acts if rng.random() < 0.4} | ({rng.choice(acts)} if d else set()), 'end_activities': {a for a in acts if rng.random() < 0.4}, 'activities': set(acts), 'min_trace_length': 1}


def merge(l):
    if not isinstance(l, list):
        return l
    out = {'dfg': Counter()}
    for k in ('sequence', 'parallel', 'start_activities', 'end_activities'):
        out[k] = set().union(*[x[k] for x in l])
    for x in l:
        for p, n in x['dfg'].items():
            out['dfg'][p] += n
    return out


def footprints(rng, k):
    acts = rng.sample(ACTS, rng.randint(1, 4))
    model = fp(rng, acts)
    log = fp(rng, acts) if rng.random() < 0.5 else [fp(rng, acts) for _ in range(rng.randint(1, 4))]
    import copy
    l0, m0 = copy.deepcopy(log), copy.deepcopy(model)
    m = merge(log)
    mc = lambda f: f['sequence'] | f['parallel']
    want = len(mc(m) & mc(model)) / len(mc(model)) if mc(model) else 1.0
    need(close(fpe.fp_precision(log, model), want), 'fp:precision', '%r, expected %r: %r %r' % (fpe.fp_precision(log, model), want, l0, m0))
    ml = [model, fp(rng, acts)]
    mm = merge(ml)
    want = len(mc(m) & mc(mm)) / len(mc(mm)) if mc(mm) else 1.0
    need(close(fpe.fp_precision(log, ml), want), 'fp:precision:lists', '%r, expected %r' % (fpe.fp_precision(log, ml), want))
    unit(want, 'fp:precision:range', l0)

    def conf(x):
        c = {'footprints': mc(x) - mc(model), 'start_activities': x['start_activities'] - model['start_activities'], 'end_activities': x['end_activities'] - model['end_activities']}
        c['is_footprints_fit'] = not any(c.values())
        return c
    cf = [conf(x) for x in log] if isinstance(log, list) else conf(log)
    got = fpe.fp_fitness(log, model, cf)
    cm = conf(m)
    d = m['dfg']
    if d:
        rel = len(mc(m)) if not isinstance(log, list) else len(m['sequence']) + len(m['parallel'])
        rel = len(m['sequence']) + len(m['parallel'])
        se = len(m['start_activities']) + len(m['end_activities'])
        f = ((1 - sum(d[p] for p in cm['footprints']) / sum(d.values())) * rel + se - len(cm['start_activities']) - len(cm['end_activities'])) / (rel + se)
    else:
        f = 1.0
    if isinstance(log, list):
        same(got, {'perc_fit_traces': 100.0 * sum(c['is_footprints_fit'] for c in cf) / len(cf), 'log_fitness': f}, 'fp:fitness', (l0, m0))
        unit(got['perc_fit_traces'] / 100, 'fp:range', l0)
        got = got['log_fitness']
    need(close(got, f), 'fp:fitness', '%r, expected %r: %r %r' % (got, f, l0, m0))
    unit(got, 'fp:range', (l0, m0))
    need(log == l0 and model == m0, 'frame', 'footprints modified')
    return 5


def nets(rng, k):
    if rng.random() < 0.1:
        from pm4py.objects.petri_net.obj import PetriNet
        net = PetriNet('e')
        need(close(arc_degree.apply(net), 1.0), 'simplicity', 'empty net: %r' % arc_degree.apply(net))
        return 1
    r = rand_net(rng, np=5, nt=5, dens=rng.choice([0.1, 0.4, 0.9]))
    deg = [sum(1 for s, x, _, _ in r.arcs if s is o or x is o) for o in r.places + r.trans]
    mean = sum(deg) / len(deg)
    for kk in (2, 1, 3, 0):
        want = 1 / (1 + max(0, mean - kk))
        got = arc_degree.apply(r.net, {arc_degree.Parameters.K: kk})
        need(close(got, want), 'simplicity', '%r, expected %r for degrees %r' % (got, want, deg))
    for f in (arc_degree.apply, simp.apply, lambda n: pm4py.simplicity_petri_net(n, None, None) if hasattr(pm4py, 'simplicity_petri_net') else simp.apply(n)):
        got = f(r.net)
        need(close(got, 1 / (1 + max(0, mean - 2))), 'simplicity', '%r for degrees %r' % (got, deg))
        unit(got, 'simplicity:range', deg)
    return 7


def logs(rng, k):
    w = workflow_net(rng, depth=2, loops=rng.random() < 0.5)
    labels = sorted({t.label for t in w.trans if t.label} | {'a', 'z'})
    traces = rand_traces(rng, acts=labels, maxlen=4, n=4, empty=False)
    log = mk_log(traces, rng=rng, names=names_for(traces, rng))
    res = tbr.apply(log, w.net, w.im, w.fm, parameters={'show_progress_bar': False, tbr.Variants.TOKEN_REPLAY.value.Parameters.CONSIDER_REMAINING_IN_FITNESS: True})
    got = rf.apply(log, w.net, w.im, w.fm, variant=rf.Variants.TOKEN_BASED)
    same(got, token(res), 'log:token', traces)
    unit(got['log_fitness'], 'log:range', traces)
    same(pm4py.fitness_token_based_replay(log, w.net, w.im, w.fm), {q: v for q, v in token(res).items()}, 'log:fitness_tbr', traces)
    ra = pm4py.conformance_diagnostics_alignments(log, w.net, w.im, w.fm)
    same(pm4py.fitness_alignments(log, w.net, w.im, w.fm), alref(ra), 'log:fitness_alignments', traces)
    unit(alref(ra)['log_fitness'], 'log:range', traces)
    return 4


CASES = [('tokens', tokens, 400), ('aligns', aligns, 400), ('footprints', footprints, 400), ('nets', nets, 250), ('logs', logs, 25)]
