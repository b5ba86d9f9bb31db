"""C08 Footprints classify activity pairs and flag exactly the violations."""
from .log import *
from .c06 import one, counts, native, starts, named, ACT, DN, SA, EA
from .c07 import SEQ, variant_of
from pyvc import syms

FP = 'pm4py.algo.discovery.footprints.'
CF = 'pm4py.algo.conformance.footprints.variants.'
ALPHA = 'pm4py.algo.discovery.causal.variants.alpha'
DU = 'pm4py.objects.dfg.utils.dfg_utils'
PAIRS, ACTS = TSet(PAIR), TSet(VAL)
DFG = TDict(PAIR, TInt, counter=True)
SP = TTuple(TStr, TStr)
SDFG = TDict(SP, TInt)


def swap(q, t=PAIR):
    return t.mk(t.get(q, 1), t.get(q, 0))


def pv(t=PAIR):
    return z3.FreshConst(t.sort(), 'q')


def alpha(s):
    q = pv()
    n = lambda q: z3.If(sel(DFG.dom(s.dfg), q), sel(DFG.val(s.dfg), q), z3.IntVal(0))
    t = TDict(PAIR, TInt)
    return t, t.mk(lam(q, And(n(q) > 0, n(swap(q)) == 0)), lam(q, z3.IntVal(1)))


def counted(s):
    q = pv()
    return [('frequencies are not negative', fa([q], sel(DFG.val(s.dfg), q) >= 0, sel(DFG.val(s.dfg), q)))]


def keys(t, e):
    q = z3.FreshConst(t.k.sort(), 'k')
    return TSet(t.k), lam(q, sel(t.dom(e), q))


def entire(s):
    L = Log(s)
    key = ACT()
    dt, d = native(s)
    q, a = pv(), z3.FreshConst(VAL.sort(), 'a')
    i, j = iv(), iv('j')
    has = lambda q: sel(dt.dom(d), q)
    freq = lambda q: z3.If(has(q), sel(dt.val(d), q), z3.IntVal(0))
    n = L.ntr(s.log)
    return RecV({'dfg': SV(dt, d),
                 'sequence': SV(PAIRS, lam(q, And(freq(q) > 0, freq(swap(q)) == 0))),
                 'parallel': SV(PAIRS, lam(q, And(has(q), has(swap(q))))),
                 'start_activities': SV(ACTS, keys(*starts(False)(s))[1]),
                 'end_activities': SV(ACTS, keys(*starts(True)(s))[1]),
                 'activities': SV(ACTS, lam(a, z3.Exists([i, j], And(L.in_trace(s.log, i, j), L.act(s.log, i, j, key) == a)))),
                 'min_trace_length': SV(TInt, z3.If(n > 0, syms.MINV(i, And(i >= 0, i < n), L.len(L.trace(s.log, i))), z3.IntVal(0)))})


def from_dfg(s):
    has = lambda q: sel(SDFG.dom(s.dfg), q)
    q, a = pv(SP), z3.FreshConst(TStr.sort(), 'a')
    b = z3.FreshConst(TStr.sort(), 'b')
    out, inc = z3.Exists([b], has(SP.mk(a, b))), z3.Exists([b], has(SP.mk(b, a)))
    SPS, SA_ = TSet(SP), TSet(TStr)
    return RecV({'sequence': SV(SPS, lam(q, And(has(q), Not(has(swap(q, SP)))))),
                 'parallel': SV(SPS, lam(q, And(has(q), has(swap(q, SP))))),
                 'start_activities': SV(SA_, lam(a, And(out, Not(inc)))),
                 'end_activities': SV(SA_, lam(a, And(inc, Not(out)))),
                 'activities': SV(SA_, lam(a, z3.Exists([q], And(has(q), Or(SP.get(q, 0) == a, SP.get(q, 1) == a)))))})


LFP = TRec({'sequence': PAIRS, 'parallel': PAIRS, 'start_activities': ACTS, 'end_activities': ACTS, 'activities': ACTS, 'min_trace_length': TInt, 'trace': SEQ})
MFP = TRec({'sequence': PAIRS, 'parallel': PAIRS, 'start_activities': ACTS, 'end_activities': ACTS, 'activities_always_happening': ACTS, 'min_trace_length': TInt})
TFP = TRec({k: LFP.fields[k] for k in LFP.keys})
CONF = TRec({'footprints': PAIRS, 'start_activities': ACTS, 'end_activities': ACTS, 'activities_always_happening': ACTS, 'min_length_fit': TBool, 'is_footprints_fit': TBool})
VIOL = TList(PAIRS)


def rel(t, e, k, x):
    return sel(t.get(e, k), x)


def have(t, e, *ks):
    return And(*[t.has(e, k) for k in ks])


def related(lt, l):
    def pre(s):
        return [('the footprints of the log hold the two relations', have(lt, l(s), 'sequence', 'parallel')),
                ('the footprints of the model hold the two relations', have(MFP, s.model_footprints, 'sequence', 'parallel'))]
    return pre


def disallowed(l, m, strict):
    q = pv()
    S, P = (lambda t, e: rel(t, e, 'sequence', q)), (lambda t, e: rel(t, e, 'parallel', q))
    return lam(q, z3.If(strict, Or(And(S(LFP, l), Not(S(MFP, m))), And(P(LFP, l), Not(P(MFP, m)))),
                        And(Or(S(LFP, l), P(LFP, l)), Not(Or(S(MFP, m), P(MFP, m))))))


def single(s):
    return PAIRS, disallowed(s.log_footprints, s.model_footprints, prm('strict', TBool, False))


LFPS = TList(LFP)


def each(s):
    i = iv()
    l = sel(LFPS.arr(s.log_footprints), i)
    return [('every trace has the two relations', fa([i], z3.Implies(And(i >= 0, i < LFPS.len(s.log_footprints)), have(LFP, l, 'sequence', 'parallel')), l)),
            ('the footprints of the model hold the two relations', have(MFP, s.model_footprints, 'sequence', 'parallel'))]


def many(s):
    i = iv()
    n = LFPS.len(s.log_footprints)
    strict = prm('strict', TBool, False)
    return VIOL, VIOL.mk(n, lam(i, z3.If(And(i >= 0, i < n), disallowed(sel(LFPS.arr(s.log_footprints), i), s.model_footprints, strict), default(PAIRS))))


def extensive(l, m, always):
    """what the extended check reports for the footprints l against the footprints m of the model"""
    q, a = pv(), z3.FreshConst(VAL.sort(), 'a')

    def notin(k):
        return lam(a, And(MFP.has(m, k), rel(LFP, l, k, a), Not(rel(MFP, m, k, a))))
    fp = lam(q, And(Or(rel(LFP, l, 'sequence', q), rel(LFP, l, 'parallel', q)), Not(Or(rel(MFP, m, 'sequence', q), rel(MFP, m, 'parallel', q)))))
    miss = lam(a, And(MFP.has(m, 'activities_always_happening'), always, rel(MFP, m, 'activities_always_happening', a), Not(rel(LFP, l, 'activities', a))))
    k = 'min_trace_length'
    short = z3.Implies(And(LFP.has(l, k), MFP.has(m, k)), LFP.get(l, k) >= MFP.get(m, k))
    return {'footprints': (PAIRS, fp), 'start_activities': (ACTS, notin('start_activities')), 'end_activities': (ACTS, notin('end_activities')),
            'activities_always_happening': (ACTS, miss), 'min_length_fit': (TBool, short)}


def none(t, e):
    return syms.CARD(t.t, e) == 0


def whole(s):
    d = extensive(s.log_footprints, s.model_footprints, FALSE)
    del d['activities_always_happening']
    fit = And(*[none(t, e) if isinstance(t, TSet) else e for t, e in d.values()])
    d['is_footprints_fit'] = (TBool, fit)
    return RecV({k: SV(*v) for k, v in d.items()})


def complete(s):
    return related(LFP, lambda s: s.log_footprints)(s) + [('the footprints of the log hold its start and end activities', have(LFP, s.log_footprints, 'start_activities', 'end_activities'))]


EDGES = TDict(TStr, TDict(TStr, TInt))


def adjacency(out):
    def value(s):
        a, b, q = z3.FreshConst(TStr.sort(), 'a'), z3.FreshConst(TStr.sort(), 'b'), pv(SP)
        has = lambda q: sel(SDFG.dom(s.dfg), q)
        at = lambda a, b: SP.mk(a, b) if out else SP.mk(b, a)
        return EDGES, EDGES.mk(lam(a, z3.Exists([b], has(at(a, b)))),
                               lam(a, EDGES.v.mk(lam(b, has(at(a, b))), lam(b, z3.If(has(at(a, b)), sel(SDFG.val(s.dfg), at(a, b)), z3.IntVal(0))))))
    return value


def adj_inv(out):
    def inv(l):
        name = 'outgoing' if out else 'ingoing'
        e, d = l.v(name), l.old('dfg')
        a, b, q = z3.FreshConst(TStr.sort(), 'a'), z3.FreshConst(TStr.sort(), 'b'), pv(SP)
        at = SP.mk(a, b) if out else SP.mk(b, a)
        row = sel(EDGES.val(e), a)
        return [('rows are those of the visited pairs', z3.ForAll([a], sel(EDGES.dom(e), a) == z3.Exists([b], sel(l.done, at)))),
                ('entries are those of the visited pairs', z3.ForAll([a, b], sel(EDGES.v.dom(row), b) == sel(l.done, at))),
                ('entries hold the frequency', z3.ForAll([a, b], sel(EDGES.v.val(row), b) == z3.If(sel(l.done, at), sel(SDFG.val(d), at), z3.IntVal(0))))]
    return inv


CONFS = TList(CONF)
MEMO = TDict(SEQ, CONF)
ALWAYS = lambda: prm('enable_act_always_executed', TBool, True)


def record(l, m, always):
    d = extensive(l, m, always)
    fit = And(*[none(t, e) if isinstance(t, TSet) else e for t, e in d.values()])
    d['is_footprints_fit'] = (TBool, fit)
    return CONF.mk({k: (TRUE, d[k][1]) for k in CONF.keys})


def nth(s, i):
    return sel(LFPS.arr(s.log_footprints), i)


def per_trace(s):
    i, j = iv(), iv('j')
    n = LFPS.len(s.log_footprints)
    l, l2 = nth(s, i), nth(s, j)
    used = [k for k in LFP.keys if k != 'trace']
    return [('every trace has complete footprints', fa([i], z3.Implies(And(i >= 0, i < n), have(LFP, l, 'trace', 'sequence', 'parallel', 'start_activities', 'end_activities', 'activities')), l)),
            ('equal traces have equal footprints', z3.ForAll([i, j], z3.Implies(And(i >= 0, i < n, j >= 0, j < n, LFP.get(l, 'trace') == LFP.get(l2, 'trace')),
                                                             And(*[LFP.has(l, k) == LFP.has(l2, k) for k in used], *[LFP.get(l, k) == LFP.get(l2, k) for k in used])), patterns=[z3.MultiPattern(l, l2)])),
            ('the footprints of the model hold the two relations', have(MFP, s.model_footprints, 'sequence', 'parallel'))]


def all_records(s):
    i = iv()
    n = LFPS.len(s.log_footprints)
    return CONFS, CONFS.mk(n, lam(i, z3.If(And(i >= 0, i < n), record(nth(s, i), s.model_footprints, ALWAYS()), default(CONF))))


def te_inv(l):
    ret, memo, lf, m = l.v('ret'), l.v('conf_traces'), l.old('log_footprints'), l.old('model_footprints')
    i, q = iv(), z3.FreshConst(SEQ.sort(), 'q')
    k = l.done
    tr = sel(LFPS.arr(lf), i)
    rec = record(tr, m, ALWAYS())
    return [('one result per visited trace', CONFS.len(ret) == k),
            ('results so far', fa([i], z3.Implies(And(i >= 0, i < k), sel(CONFS.arr(ret), i) == rec), sel(CONFS.arr(ret), i))),
            ('remembered traces', z3.ForAll([q], sel(MEMO.dom(memo), q) == z3.Exists([i], And(i >= 0, i < k, LFP.get(tr, 'trace') == q)))),
            ('remembered results', fa([i], z3.Implies(And(i >= 0, i < k), sel(MEMO.val(memo), LFP.get(tr, 'trace')) == rec), tr))]


TBT = TRec({'dfg': DFG, 'sequence': PAIRS, 'parallel': PAIRS, 'start_activities': ACTS, 'end_activities': ACTS, 'activities': ACTS, 'min_trace_length': TInt, 'trace': SEQ})
TBTS = TList(TBT)


def trace_record(L, tr, key):
    q, a = pv(), z3.FreshConst(VAL.sort(), 'a')
    j = iv('j')
    n = L.len(tr)
    act = lambda j: L.val(L.event(tr, j), key)
    w, once = prm('window', TInt, 1), prm('keep_once_per_case', TBool, False)
    at = lambda q: And(j >= 0, j < n, j >= w, act(j - w) == PAIR.get(q, 0), act(j) == PAIR.get(q, 1))
    cnt = lambda q: z3.If(once, one(z3.Exists([j], at(q))), syms.SUM(j, one(at(q))))
    dt, d = counts(DFG, cnt)
    has = lambda q: sel(dt.dom(d), q)
    return TBT.mk({k: (TRUE, v) for k, v in {
        'dfg': d, 'sequence': lam(q, And(has(q), Not(has(swap(q))))), 'parallel': lam(q, And(has(q), has(swap(q)))),
        'start_activities': lam(a, And(n > 0, act(z3.IntVal(0)) == a)), 'end_activities': lam(a, And(n > 0, act(n - 1) == a)),
        'activities': lam(a, z3.Exists([j], And(j >= 0, j < n, act(j) == a))),
        'min_trace_length': n, 'trace': variant_of_(L, tr, key)}.items()})


def variant_of_(L, tr, key):
    from .c07 import seq
    return seq(L.len(tr), lambda j: L.val(L.event(tr, j), key))


def by_trace(s):
    L = Log(s)
    i = iv()
    n = L.ntr(s.log)
    return TBTS, TBTS.mk(n, lam(i, z3.If(And(i >= 0, i < n), trace_record(L, L.trace(s.log, i), ACT()), default(TBT))))


def tt_inv(l):
    L = LogOld(l)
    ret = l.v('ret')
    i, o = iv(), z3.FreshConst(REF, 'o')
    log = l.old('log')
    return [('one record per visited trace', TBTS.len(ret) == l.done),
            ('records so far', fa([i], z3.Implies(And(i >= 0, i < l.done), sel(TBTS.arr(ret), i) == trace_record(L, L.trace(log, i), ACT())), sel(TBTS.arr(ret), i)))] + only_new(l, LL, *[(ES, f) for f in ('_attributes', '_extensions', '_omni', '_classifiers')])


def CONTRACTS():
    me = dict(log=LOG, parameters=params)
    cf = lambda l: dict(log_footprints=l, model_footprints=MFP, parameters=params)
    return [
        Contract(ALPHA + ':apply', dict(dfg=DFG), pre=counted, value=alpha),
        Contract(FP + 'log.variants.entire_event_log:apply', me, pre=named, value=entire),
        Contract(DU + ':get_outgoing_edges', dict(dfg=SDFG), value=adjacency(True), loops={0: LoopInv(adj_inv(True))}),
        Contract(DU + ':get_ingoing_edges', dict(dfg=SDFG), value=adjacency(False), loops={0: LoopInv(adj_inv(False))}),
        Contract(FP + 'log.variants.trace_by_trace:apply', me, pre=lambda s: named(s) + [exist(s, s.log)], value=by_trace, loops={0: LoopInv(tt_inv)}),
        Contract(FP + 'dfg.variants.dfg:apply', dict(dfg=SDFG, parameters=params), value=from_dfg),
        Contract(CF + 'log_model:apply_single', cf(LFP), pre=related(LFP, lambda s: s.log_footprints), value=single),
        Contract(CF + 'log_model:apply', cf(LFPS), pre=each, value=many),
        Contract(CF + 'log_extensive:apply', cf(LFP), merge=True, pre=complete, value=whole),
        Contract(CF + 'trace_extensive:apply', cf(LFPS), pre=per_trace, value=all_records, merge=True, loops={0: LoopInv(te_inv)}),
    ]


def USES():
    from . import c06
    return c06.CONTRACTS()


BOUNDED = 'footprints of event tables (pandas), the diagnostics tables, the dispatch in pm4py.discover_footprints and conformance_diagnostics_footprints'
NOTE = ('Proved for all logs, relations and parameters: the alpha causality, the footprints of a whole log, of each trace (any window and keep_once_per_case) and of a directly-follows graph (with the inferred start and end activities), '
        'and the four conformance checks (single, per-trace list, extended, extended per trace with remembered duplicates). Tables, dispatch and diagnostics tables are compared with an independent recount (bounded).')
