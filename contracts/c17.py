"""C17 Quality measures follow their definitions and stay within [0,1]."""
from .log import *
from . import petri
from .petri import Net, NET, NIN, NOUT, PNF, rv
from pyvc import syms

EVAL = 'pm4py.algo.evaluation.'
RF = EVAL + 'replay_fitness.variants.'
FPE = 'pm4py.algo.conformance.footprints.util.evaluation'

REPLAY = TRec({'trace_is_fit': TBool, 'trace_fitness': TReal, 'missing_tokens': TInt, 'consumed_tokens': TInt, 'remaining_tokens': TInt, 'produced_tokens': TInt})
REPLAYS = TList(REPLAY)
ALIGN = TRec({'fitness': TReal, 'bwc': TReal, 'cost': TReal})
ALIGNS = TList(TOpt(ALIGN))


def setup(w):
    petri.schema(w)
    return schema(w)


def over(t, l, f, opt=lambda e: TRUE, zero=0):
    """the sum of f over the members of a list"""
    i = iv()
    e = sel(t.arr(l), i)
    v = f(e)
    return syms.SUM(i, z3.If(And(i >= 0, i < t.len(l), opt(e)), v, z3.RealVal(0) if v.sort() == z3.RealSort() else z3.IntVal(0)))


def R(x):
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


def fields(t, l, *ks):
    i = iv()
    e = sel(t.arr(l), i)
    return fa([i], z3.Implies(And(i >= 0, i < t.len(l)), And(*[t.t.has(e, k) for k in ks])), e)


def replay_pre(s):
    return [('every result has the counts', fields(REPLAYS, s.aligned_traces, *REPLAY.keys))]


def tok(s):
    l = s.aligned_traces
    n = REPLAYS.len(l)
    tot = lambda k: over(REPLAYS, l, lambda e: REPLAY.get(e, k))
    m, c, r, p = [tot(k + '_tokens') for k in ('missing', 'consumed', 'remaining', 'produced')]
    fit = over(REPLAYS, l, lambda e: z3.If(REPLAY.get(e, 'trace_is_fit'), z3.IntVal(1), z3.IntVal(0)))
    ok = And(n > 0, c > 0, p > 0)
    half, zero = z3.RealVal('1/2'), z3.RealVal(0)
    perc = z3.If(ok, 100 * R(fit) / R(n), zero)
    return RecV({'perc_fit_traces': SV(TReal, perc), 'average_trace_fitness': SV(TReal, z3.If(ok, tot('trace_fitness') / R(n), zero)),
                 'log_fitness': SV(TReal, z3.If(ok, half * (1 - R(m) / R(c)) + half * (1 - R(r) / R(p)), zero)), 'percentage_of_fitting_traces': SV(TReal, perc)})


def align_pre(s):
    i = iv()
    o = TOpt(ALIGN)
    e = sel(ALIGNS.arr(s.aligned_traces), i)
    return [('every alignment has a fitness', fa([i], z3.Implies(And(i >= 0, i < ALIGNS.len(s.aligned_traces), Not(o.is_none(e))), ALIGN.has(o.val(e), 'fitness')), e))]


def ali(s):
    l = s.aligned_traces
    o = TOpt(ALIGN)
    some = lambda e: Not(o.is_none(e))
    at = lambda k, g=None: over(ALIGNS, l, (lambda e: ALIGN.get(o.val(e), k)), lambda e: And(some(e), g(o.val(e)) if g else TRUE))
    n = over(ALIGNS, l, lambda e: z3.IntVal(1), some)
    fit = over(ALIGNS, l, lambda e: z3.IntVal(1), lambda e: And(some(e), ALIGN.get(o.val(e), 'fitness') == 1))
    both = lambda e: And(ALIGN.has(e, 'bwc'), ALIGN.has(e, 'cost'))
    bwc, cost = at('bwc', both), at('cost', both)
    zero = z3.RealVal(0)
    perc = z3.If(n > 0, 100 * R(fit) / R(n), zero)
    avg = z3.If(n > 0, at('fitness') / R(n), zero)
    return RecV({'percFitTraces': SV(TReal, perc), 'averageFitness': SV(TReal, avg), 'percentage_of_fitting_traces': SV(TReal, perc), 'average_trace_fitness': SV(TReal, avg),
                 'log_fitness': SV(TReal, z3.If(n > 0, 1 - z3.If(bwc > 0, cost / bwc, zero), zero))})


PAIRS, ACTS = TSet(PAIR), TSet(VAL)
DFG = TDict(PAIR, TInt, counter=True)
FP = TRec({'dfg': DFG, 'sequence': PAIRS, 'parallel': PAIRS, 'start_activities': ACTS, 'end_activities': ACTS})
CONF = TRec({'footprints': PAIRS, 'start_activities': ACTS, 'end_activities': ACTS, 'is_footprints_fit': TBool})
FPS, CONFS = TList(FP), TList(CONF)


def union(t, l, k):
    q = z3.FreshConst(t.t.fields[k].t.sort(), 'q')
    i = iv()
    return t.t.fields[k], lam(q, z3.Exists([i], And(i >= 0, i < t.len(l), sel(t.t.get(sel(t.arr(l), i), k), q))))


def flat_fp(s, l=None):
    l = s.fp if l is None else l
    q, i = z3.FreshConst(PAIR.sort(), 'q'), iv()
    e = FP.get(sel(FPS.arr(l), i), 'dfg')
    inr = And(i >= 0, i < FPS.len(l))
    dfg = DFG.mk(lam(q, z3.Exists([i], And(inr, sel(DFG.dom(e), q)))), lam(q, syms.SUM(i, z3.If(And(inr, sel(DFG.dom(e), q)), sel(DFG.val(e), q), z3.IntVal(0)))))
    d = {'dfg': SV(DFG, dfg)}
    d.update({k: SV(*union(FPS, l, k)) for k in ('sequence', 'parallel', 'start_activities', 'end_activities')})
    return RecV(d)


def flat_conf(s, l=None):
    l = s.conf if l is None else l
    return RecV({k: SV(*union(CONFS, l, k)) for k in ('footprints', 'start_activities', 'end_activities')})


def whole(f, l, ks):
    return [('the footprints have the fields', And(*[f.has(l, k) for k in ks]))]


def flat(s, t, l, fn):
    """the flattened form of a list of results, as {key: term}"""
    if t in (FP, CONF):
        return {k: t.get(l, k) for k in t.keys}
    return {k: v.e for k, v in fn(s, l).items.items()}


def precision(ta, tb):
    def value(s):
        a, b = flat(s, ta, s.fp_log, flat_fp), flat(s, tb, s.fp_model, flat_fp)
        q = z3.FreshConst(PAIR.sort(), 'q')
        got = lambda f: Or(sel(f['sequence'], q), sel(f['parallel'], q))
        n = syms.CARD(PAIR, lam(q, got(b)))
        both = syms.CARD(PAIR, lam(q, And(got(a), got(b))))
        return TReal, z3.If(z3.Exists([q], got(b)), R(both) / R(n), z3.RealVal(1))
    return value


def parts(s, ta, tc):
    l, c = flat(s, ta, s.fp_log, flat_fp), flat(s, tc, s.conf_results, flat_conf)
    q = z3.FreshConst(PAIR.sort(), 'q')
    d = l['dfg']
    tot = syms.SUM(q, z3.If(sel(DFG.dom(d), q), sel(DFG.val(d), q), z3.IntVal(0)))
    dev = syms.SUM(q, z3.If(sel(c['footprints'], q), sel(DFG.val(d), q), z3.IntVal(0)))
    card = lambda t, r, k: syms.CARD(t.fields[k].t, r[k])
    return dict(d=d, tot=tot, dev=dev, rel=card(FP, l, 'sequence') + card(FP, l, 'parallel'), se=card(FP, l, 'start_activities') + card(FP, l, 'end_activities'),
                dse=card(CONF, c, 'start_activities') + card(CONF, c, 'end_activities'), some=z3.Exists([q], sel(DFG.dom(d), q)))


def fitness(ta, tc):
    def value(s):
        p = parts(s, ta, tc)
        fit = z3.If(p['some'], ((1 - R(p['dev']) / R(p['tot'])) * R(p['rel']) + R(p['se'] - p['dse'])) / R(p['rel'] + p['se']), z3.RealVal(1))
        if tc is CONF:
            return TReal, fit
        n = CONFS.len(s.conf_results)
        ok = over(CONFS, s.conf_results, lambda e: z3.If(CONF.get(e, 'is_footprints_fit'), z3.IntVal(1), z3.IntVal(0)))
        return RecV({'perc_fit_traces': SV(TReal, R(ok) / R(n) * 100), 'log_fitness': SV(TReal, fit)})
    return value


def fit_pre(ta, tc):
    def pre(s):
        p = parts(s, ta, tc)
        ks = ('footprints', 'start_activities', 'end_activities')
        out = whole(FP, s.fp_log, FP.keys) if ta is FP else [('every footprints has the fields', fields(FPS, s.fp_log, *FP.keys))]
        out += whole(CONF, s.conf_results, ks) if tc is CONF else [('every result has the fields', fields(CONFS, s.conf_results, *CONF.keys)), ('there are results', CONFS.len(s.conf_results) > 0)]
        return out + [('a graph with entries has a positive total', z3.Implies(p['some'], p['tot'] > 0)), ('a graph with entries has relations', z3.Implies(p['some'], p['rel'] + p['se'] > 0))]
    return pre


def prec_pre(ta, tb):
    f = lambda t, l: whole(FP, l, FP.keys) if t is FP else [('every footprints has the fields', fields(FPS, l, *FP.keys))]
    return lambda s: f(ta, s.fp_log) + f(tb, s.fp_model)


def degree(s):
    N = Net(s)
    o = rv('o')
    k = prm('k', TInt, 2)
    P, T = N.places(s.petri_net), N.transitions(s.petri_net)
    card = lambda e: syms.CARD(petri.ARC, e)
    dp, dt = card(N.pin(o)) + card(N.pout(o)), card(N.tin(o)) + card(N.tout(o))
    tot = syms.SUM(o, z3.If(sel(P, o), dp, z3.IntVal(0))) + syms.SUM(o, z3.If(sel(T, o), dt, z3.IntVal(0)))
    n = syms.CARD(petri.PLACE, P) + syms.CARD(petri.TRANS, T)
    mean = z3.If(n > 0, R(tot) / R(n), z3.RealVal(0))
    return TReal, 1 / (1 + z3.If(mean - R(k) > 0, mean - R(k), z3.RealVal(0)))


def CONTRACTS():
    return [
        Contract(RF + 'token_replay:evaluate', dict(aligned_traces=REPLAYS, parameters=params), pre=replay_pre, value=tok),
        Contract(RF + 'alignment_based:evaluate', dict(aligned_traces=ALIGNS), pre=align_pre, value=ali),
        Contract(FPE + ':flatten_fp', dict(fp=FPS), pre=lambda s: [('every footprints has the fields', fields(FPS, s.fp, *FP.keys))], value=flat_fp),
        Contract(FPE + ':flatten_conf', dict(conf=CONFS), pre=lambda s: [('every result has the fields', fields(CONFS, s.conf, *CONF.keys))], value=flat_conf),
    ] + [Contract(FPE + ':fp_precision', dict(fp_log=a, fp_model=b, parameters=params), tag=g, pre=prec_pre(a, b), value=precision(a, b))
         for g, a, b in (('', FP, FP), ('per trace', FPS, FP), ('both per trace', FPS, FPS))
    ] + [Contract(FPE + ':fp_fitness', dict(fp_log=a, fp_model=FP, conf_results=c, parameters=params), tag=g, pre=fit_pre(a, c), value=fitness(a, c))
         for g, a, c in (('', FP, CONF), ('per trace', FPS, CONFS))
    ] + [
        Contract(EVAL + 'simplicity.variants.arc_degree:apply', dict(petri_net=NET, parameters=params), value=degree),
    ]


def LEMMAS():
    """the measures are fractions when the counts are those of valid replays"""
    l = z3.Const('l', REPLAYS.sort())
    i = iv()
    e = sel(REPLAYS.arr(l), i)
    g = lambda k: REPLAY.get(e, k + '_tokens')
    valid = fa([i], z3.Implies(And(i >= 0, i < REPLAYS.len(l)), And(g('missing') >= 0, g('missing') <= g('consumed'), g('remaining') >= 0, g('remaining') <= g('produced'))), e)
    m, c, r, p = [over(REPLAYS, l, lambda e: REPLAY.get(e, k + '_tokens')) for k in ('missing', 'consumed', 'remaining', 'produced')]
    out = [('the totals of valid replays are ordered', [valid], And(m >= 0, m <= c, r >= 0, r <= p))]
    M, C, RR, P = [z3.Real('x%d' % i) for i in range(4)]
    half = z3.RealVal('1/2')
    f = half * (1 - M / C) + half * (1 - RR / P)
    out.append(('token fitness of ordered totals is a fraction', [M >= 0, M <= C, C > 0, RR >= 0, RR <= P, P > 0], And(f >= 0, f <= 1)))
    q = z3.Const('q', PAIR.sort())
    a, b = z3.Const('a', PAIRS.sort()), z3.Const('b', PAIRS.sort())
    n, k = syms.CARD(PAIR, b), syms.CARD(PAIR, lam(q, And(sel(a, q), sel(b, q))))
    out.append(('the common relations are at most those of the model', [], And(k >= 0, k <= n)))
    out.append(('a part of a positive whole is a fraction', [M >= 0, M <= C, C > 0], And(M / C >= 0, M / C <= 1)))
    d, f_ = z3.Const('d', DFG.sort()), z3.Const('f', PAIRS.sort())
    v = sel(DFG.val(d), q)
    pos = fa([q], z3.Implies(sel(DFG.dom(d), q), v > 0), v)
    tot = syms.SUM(q, z3.If(sel(DFG.dom(d), q), v, z3.IntVal(0)))
    dev = syms.SUM(q, z3.If(And(sel(f_, q), sel(DFG.dom(d), q)), v, z3.IntVal(0)))
    out.append(('the deviating frequency is at most the total', [pos], And(dev >= 0, dev <= tot)))
    out.append(('the total of a graph with entries is positive', [pos, z3.Exists([q], sel(DFG.dom(d), q))], tot > 0))
    D = z3.Real('x4')
    out.append(('footprint fitness of ordered counts is a fraction', [M >= 0, M <= C, C > 0, D >= 0, D <= RR, P >= 0, RR + P > 0], (lambda g: And(g >= 0, g <= 1))(((1 - M / C) * P + (RR - D)) / (RR + P))))
    out.append(('simplicity is a fraction', [], (lambda g: And(g > 0, g <= 1))(1 / (1 + z3.If(M - C > 0, M - C, z3.RealVal(0))))))
    al = z3.Const('al', ALIGNS.sort())
    o = TOpt(ALIGN)
    ae = sel(ALIGNS.arr(al), i)
    fit = lambda e: ALIGN.get(o.val(e), 'fitness')
    some = lambda e: Not(o.is_none(e))
    num = over(ALIGNS, al, lambda e: z3.IntVal(1), some)
    isfit = over(ALIGNS, al, lambda e: z3.IntVal(1), lambda e: And(some(e), fit(e) == 1))
    out.append(('the fitting alignments are at most all alignments', [], And(isfit >= 0, isfit <= num)))
    return out


BOUNDED = 'the measures on whole logs (replay or alignment, then evaluation) are compared with a recount'
NOTE = ('Proved for all lists of replay results, alignments and footprints and all nets: token and alignment fitness, footprint fitness and precision (whole log and per trace, flattening included) and arc-degree simplicity equal their formulas; '
        'lemmas: with the counts of valid replays each formula lies in [0,1]. Floating point is treated as real arithmetic.')
