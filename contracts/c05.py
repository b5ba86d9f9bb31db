"""C05 Token-based replay accounts for every token."""
from pyvc import syms
from pyvc.core import OpaqueV, SV, TupV, RecV, NONE
from .petri import *
from .log import *
from .c01 import enabled

TBR = 'pm4py.algo.conformance.tokenreplay.variants.token_replay'
EVA = 'pm4py.algo.evaluation.replay_fitness.variants.token_replay'
COUNT = TDict(PLACE, TInt)


def short(n, m, a):
    """tokens that the place of arc a lacks"""
    d = n.w(a) - sel(MARK.val(m), n.src(a))
    return z3.If(d > 0, d, z3.IntVal(0))


def at(n, S, end, p, what):
    """Sum of what(a) over the arcs of S at place p (at most one)"""
    a = rv('a')
    return syms.SUM(a, z3.If(And(sel(S, a), end(a) == p), what(a), z3.IntVal(0)))


def total(S, what):
    a = rv('a')
    return syms.SUM(a, z3.If(sel(S, a), what(a), z3.IntVal(0)))


def arcs_ok(s):
    return [('at most one arc per node pair, positive weights', simple_arcs(Net(s), s.t))]


def lacking(s, p):
    n = Net(s)
    a = rv('a')
    return z3.Exists([a], And(sel(n.tin(s.t), a), n.src(a) == p, short(n, s.marking, a) > 0))


def filling(n, S, m0, m, d, missing):
    """every place at an arc of S has at least the tokens its arc needs, the tokens added are counted, and nothing else changes"""
    a, p = rv('a'), rv('p')
    V = lambda x: sel(MARK.val(x), n.src(a))
    touched = lambda p: z3.Exists([a], And(sel(S, a), n.src(a) == p))
    return [('input places have the tokens needed, exactly if they had less', fa([a], z3.Implies(sel(S, a), V(m) == V(m0) + short(n, m0, a)), sel(S, a))),
            ('exactly the places that lack tokens are noted, with the tokens added', fa([a], z3.Implies(sel(S, a), And(sel(COUNT.dom(d), n.src(a)) == (short(n, m0, a) > 0), z3.Implies(short(n, m0, a) > 0, sel(COUNT.val(d), n.src(a)) == short(n, m0, a)))), sel(S, a))),
            ('marked places', fa([a], z3.Implies(sel(S, a), sel(MARK.dom(m), n.src(a)) == Or(sel(MARK.dom(m0), n.src(a)), short(n, m0, a) > 0)), sel(S, a))),
            ('other places are unchanged', z3.ForAll([p], z3.Implies(Not(touched(p)), And(sel(MARK.val(m), p) == sel(MARK.val(m0), p), sel(MARK.dom(m), p) == sel(MARK.dom(m0), p), Not(sel(COUNT.dom(d), p)))))),
            ('the tokens added are counted', missing == total(S, lambda a: short(n, m0, a)))]


def filling_so_far(l):
    return filling(Net(l), l.done, l.old('marking'), l.at('marking', MARK), l.at('tokens_added', COUNT), l.at('missing', TInt))


FILLED = TTuple(TInt, COUNT)


def filled(s):
    r = s.result(FILLED)
    return filling(Net(s), Net(s).tin(s.t), s.marking, s.now('marking'), FILLED.get(r, 1), FILLED.get(r, 0))


def moved(arcs, end):
    def value(s):
        n = Net(s)
        S, e = getattr(n, arcs)(s.t), getattr(n, end)
        a, p = rv('a'), rv('p')
        return TupV([SV(TInt, total(S, n.w)), SV(COUNT, COUNT.mk(lam(p, z3.Exists([a], And(sel(S, a), e(a) == p))), lam(p, at(n, S, e, p, n.w))))])
    return value


DIAG = TRec({'trace_is_fit': TBool, 'trace_fitness': TReal, 'missing_tokens': TInt, 'consumed_tokens': TInt, 'remaining_tokens': TInt, 'produced_tokens': TInt})
DIAGS = TList(DIAG)


def summary(s):
    """share of fitting traces, mean fitness and fitness of the totals; 0 where nothing is consumed or produced"""
    n, i = DIAGS.len(s.aligned_traces), z3.FreshConst(z3.IntSort(), 'i')
    at_ = lambda i, k: DIAG.get(sel(DIAGS.arr(s.aligned_traces), i), k)
    tot = lambda k: syms.SUM(i, z3.If(And(i >= 0, i < n), at_(i, k), z3.RealVal(0) if k == 'trace_fitness' else z3.IntVal(0)))
    fit = syms.SUM(i, z3.If(And(i >= 0, i < n, at_(i, 'trace_is_fit')), z3.IntVal(1), z3.IntVal(0)))
    m, c, r, p = [tot(k + '_tokens') for k in ('missing', 'consumed', 'remaining', 'produced')]
    R = z3.ToReal
    ok = And(n > 0, c > 0, p > 0)
    share = z3.If(ok, 100 * R(fit) / R(n), z3.RealVal(0))
    return RecV({'perc_fit_traces': SV(TReal, share), 'percentage_of_fitting_traces': SV(TReal, share), 'average_trace_fitness': SV(TReal, z3.If(ok, tot('trace_fitness') / R(n), z3.RealVal(0))),
                 'log_fitness': SV(TReal, z3.If(ok, (1 - R(m) / R(c)) / 2 + (1 - R(r) / R(p)) / 2, z3.RealVal(0)))})


# ---- the replay itself: the markings as values, with names for enabled, fired, filled and the numbers of tokens
SEMM = 'pm4py.objects.petri_net.semantics'
ALU = 'pm4py.objects.petri_net.utils.align_utils'
MS, B, I = MARK.sort(), z3.BoolSort(), z3.IntSort()
EN = z3.Function('enabled', REF, MS, B)
FIRE = z3.Function('fired', REF, MS, MS)
FILL = z3.Function('filled', REF, MS, MS)
MISS = z3.Function('missing', REF, MS, I)
CIN, COUT = z3.Function('consumes', REF, I), z3.Function('produces', REF, I)
TOT = z3.Function('tokens', MS, I)
VALID = z3.Function('valid', MS, B)
ACTS, TSET, GROUPS = TList(TRANS), TSet(TRANS), TList(TList(TRANS))
ARR = z3.ArraySort(I, REF)
NEXT = z3.Function('next', ARR, I, B)      # true everywhere: names where the definition of the sums is used
PIN, POUT = z3.Function('consumed_upto', ARR, I, I), z3.Function('produced_upto', ARR, I, I)


def mv(n='m'):
    return z3.FreshConst(MS, n)


def laws(s):
    """firing and filling change the number of tokens by what is consumed, produced and added"""
    t, m, a, n, k = rv('t'), mv(), z3.FreshConst(ARR, 'a'), z3.FreshConst(I, 'n'), z3.FreshConst(I, 'k')
    out = [('law: firing', z3.ForAll([t, m], z3.Implies(And(VALID(m), EN(t, m)), And(VALID(FIRE(t, m)), TOT(FIRE(t, m)) == TOT(m) - CIN(t) + COUT(t))), patterns=[FIRE(t, m)])),
           ('law: filling', z3.ForAll([t, m], z3.Implies(VALID(m), And(VALID(FILL(t, m)), EN(t, FILL(t, m)), MISS(t, m) >= 0, TOT(FILL(t, m)) == TOT(m) + MISS(t, m))), patterns=[FILL(t, m), MISS(t, m)]))]
    for P, c in ((PIN, CIN), (POUT, COUT)):
        out.append(('law: numbers of tokens moved', z3.ForAll([t], c(t) >= 0, patterns=[c(t)])))
        out.append(('definition: sums over the first transitions', And(z3.ForAll([a], P(a, 0) == 0), z3.ForAll([a, k, t], z3.Implies(k >= 0, P(z3.Store(a, k, t), k + 1) == P(a, k) + c(t)), patterns=[P(z3.Store(a, k, t), k + 1)]),
         z3.ForAll([a, k], And(NEXT(a, k), z3.Implies(k >= 0, P(a, k + 1) == P(a, k) + c(sel(a, k)))), patterns=[NEXT(a, k)]),
                                                                     z3.ForAll([a, n, t, k], z3.Implies(k <= n, P(z3.Store(a, n, t), k) == P(a, k)), patterns=[P(z3.Store(a, n, t), k)]))))
    return out


def step_terms(acts):
    """names the sum after one more transition"""
    a, n = ACTS.arr(acts), ACTS.len(acts)
    return And(PIN(a, n) == PIN(a, n), POUT(a, n) == POUT(a, n))


def each(k, body, *pats):
    try:
        return z3.ForAll([k], body, patterns=list(pats))
    except z3.Z3Exception:
        return z3.ForAll([k], body)


def balanced(m0, a0, m, a):
    """a extends a0, and the tokens gained since are those of the transitions added"""
    k = z3.FreshConst(I, 'k')
    A, A0, n, n0 = ACTS.arr(a), ACTS.arr(a0), ACTS.len(a), ACTS.len(a0)
    return [('the marking is valid', VALID(m)),
            ('transitions are added', And(n >= n0, fa([k], z3.Implies(And(k >= 0, k < n0), sel(A, k) == sel(A0, k)), sel(A, k)), each(k, z3.Implies(And(k >= 0, k <= n0), And(PIN(A, k) == PIN(A0, k), POUT(A, k) == POUT(A0, k))), PIN(A, k), POUT(A, k)))),
            ('tokens', TOT(m) - TOT(m0) == POUT(A, n) - POUT(A0, n0) - PIN(A, n) + PIN(A0, n0))]


def in_net(s, S):
    return sel(Net(s).transitions(s.net), S)


def same_obj(s, i, k):
    v, w = s.res.items[i], s.env[k]
    return z3.BoolVal(v is w or getattr(v, 'place', 0) == getattr(w, 'place', 1))


def enable_hidden_post(s):
    r = s.res.items
    return [('result %d is the argument' % i, same_obj(s, i, k)) for i, k in ((1, 'activated_transitions'), (2, 'visited_transitions'))] + \
        balanced(s.marking, s.activated_transitions, s.ip.term(r[0], MARK), s.now('activated_transitions'))


def P(name, t):
    """value of a parameter on entry"""
    return z3.Const('p!' + name, t.sort())


JT = TList(TInt)


def indexes(l):
    H, J = l.v('hidden_transitions_to_enable'), l.at('j_indexes', JT)
    i = z3.FreshConst(I, 'i')
    return [('indexes', And(JT.len(J) == GROUPS.len(H), fa([i], z3.Implies(And(i >= 0, i < GROUPS.len(H)), And(sel(JT.arr(J), i) >= 0, sel(JT.arr(J), i) <= ACTS.len(sel(GROUPS.arr(H), i)))), sel(JT.arr(J), i))))]


def hidden_balance(l):
    return balanced(P('marking', MARK), P('activated_transitions', ACTS), l.at('marking', MARK), l.at('activated_transitions', ACTS))


def hidden_group(l):
    H, J, J0 = l.v('hidden_transitions_to_enable'), l.at('j_indexes', JT), l.old('j_indexes')
    z = l.at('z', TInt) % GROUPS.len(H)
    return indexes(l) + [('index of the group', sel(JT.arr(J), z) == sel(JT.arr(J0), z) + l.done)] + hidden_balance(l)


PATHS = TDict(PLACE, TDict(PLACE, ACTS))
GROUP = z3.Function('a group of interest', ACTS.sort(), B)      # any property of lists of transitions


def of_interest(m):
    p, q = rv('p'), rv('q')
    x = sel(PATHS.val(m), p)
    return [('the paths are of interest', z3.ForAll([p, q], z3.Implies(And(sel(PATHS.dom(m), p), sel(PATHS.v.dom(x), q)), GROUP(sel(PATHS.v.val(x), q))), patterns=[sel(PATHS.v.val(x), q)]))]


def groups(g):
    i = z3.FreshConst(I, 'i')
    return [('groups are paths of interest', fa([i], z3.Implies(And(i >= 0, i < GROUPS.len(g)), GROUP(sel(GROUPS.arr(g), i))), sel(GROUPS.arr(g), i)))]


def group_def(s):
    """of interest here: lists of transitions of the net"""
    x, j = z3.FreshConst(ACTS.sort(), 'x'), z3.FreshConst(I, 'j')
    e = sel(ACTS.arr(x), j)
    return [('definition: lists of transitions of the net', z3.ForAll([x, j], z3.Implies(And(GROUP(x), j >= 0, j < ACTS.len(x)), in_net(s, e)), patterns=[z3.MultiPattern(GROUP(x), e)]))]


def apply_hidden_post(s):
    r = s.res.items
    return [('the net is unchanged', s.ip.term(r[0], NET) == s.net), ('result 2 is the argument', same_obj(s, 2, 'act_tr'))] + balanced(s.marking, s.act_tr, s.ip.term(r[1], MARK), s.now('act_tr'))


def nested_balance(l):
    return [('the net is unchanged', l.at('net', NET) == P('net', NET))] + balanced(P('marking', MARK), P('act_tr', ACTS), l.at('marking', MARK), l.at('act_tr', ACTS))


def unfold_acts(name):
    return lambda l: [step_terms(l.at(name, ACTS))]


LABELS = TDict(TOpt(VAL), TRANS)


def setup(w):
    w.schema[TR]['_Transition__label'] = TOpt(VAL)
    w.models[ALU + ':get_visible_transitions_eventually_enabled_by_marking'] = lambda ip, a, k, n: OpaqueV('eventually enabled transitions')


def count(m, p):
    return sel(MARK.val(m), p)


def left_over(m, fm, p):
    d = count(m, p) - count(fm, p)
    return z3.If(sel(MARK.dom(fm), p), z3.If(d > 0, d, z3.IntVal(0)), count(m, p))


def not_reached(m, fm, p):
    d = count(fm, p) - count(m, p)
    return z3.If(d > 0, d, z3.IntVal(0))


REM, LACK = z3.Function('remaining', MS, MS, I), z3.Function('lacking', MS, MS, I)
PSET = z3.ArraySort(REF, B)
# sums over a finite set of places: of the tokens, of the tokens left over, and of the tokens not reached
S1, S2, S3 = z3.Function('tokens_in', PSET, MS, I), z3.Function('left_over_in', PSET, MS, MS, I), z3.Function('lacking_in', PSET, MS, MS, I)
WIT = z3.Function('where', MS, MS, REF)


def lacks(m, f, p):
    return And(sel(MARK.dom(f), p), count(f, p) - count(m, p) > 0)


def sums(s):
    m, f, p, D = mv(), mv('f'), rv('p'), z3.FreshConst(PSET, 'D')
    out = [('definition: positive counts', z3.ForAll([m, p], z3.Implies(VALID(m), sel(MARK.dom(m), p) == (count(m, p) > 0)), patterns=[z3.MultiPattern(VALID(m), count(m, p)), z3.MultiPattern(VALID(m), sel(MARK.dom(m), p))]))]
    for S, args, val, dom, whole in ((S1, [m], count(m, p), lambda x: sel(MARK.dom(m), x), TOT(m)), (S2, [m, f], left_over(m, f, p), lambda x: sel(MARK.dom(m), x), REM(m, f)), (S3, [m, f], not_reached(m, f, p), lambda x: lacks(m, f, x), LACK(m, f))):
        w = z3.Function('w!' + S.name(), PSET, *[x.sort() for x in args], REF)(D, *args)
        e = z3.Function('e!' + S.name(), PSET, REF)(D)
        out += [('definition: %s (step)' % S.name(), z3.ForAll([D, p] + args, z3.Implies(Not(sel(D, p)), S(z3.Store(D, p, TRUE), *args) == S(D, *args) + val), patterns=[S(z3.Store(D, p, TRUE), *args)])),
                ('definition: %s (empty, whole)' % S.name(), z3.ForAll([D] + args, And(Or(sel(D, e), S(D, *args) == 0), Or(sel(D, w) != dom(w), S(D, *args) == whole)), patterns=[S(D, *args)]))]
    x = WIT(m, f)
    return out + [('law: numbers of tokens', z3.ForAll([m], z3.Implies(VALID(m), TOT(m) >= 0), patterns=[TOT(m)])),
                  ('law: left over and lacking', z3.ForAll([m, f], z3.Implies(And(VALID(m), VALID(f)), And(TOT(m) + LACK(m, f) == TOT(f) + REM(m, f), REM(m, f) >= 0, LACK(m, f) >= 0, Or(LACK(m, f) == 0, lacks(m, f, x)))), patterns=[LACK(m, f), REM(m, f)])),
                  ('law: summands', z3.ForAll([m, f, p], z3.Implies(And(VALID(m), VALID(f), lacks(m, f, p)), LACK(m, f) >= count(f, p) - count(m, p)), patterns=[z3.MultiPattern(LACK(m, f), count(f, p))]))]


def LEMMAS():
    m, f, p = mv(), mv('f'), rv('p')
    g = lambda x, e: z3.If(sel(MARK.dom(x), p), e, z3.IntVal(0))
    pos = [sel(MARK.dom(x), p) == (count(x, p) > 0) for x in (m, f)] + [Or(sel(MARK.dom(x), p), count(x, p) == 0) for x in (m, f)]
    return [('at every place: tokens + lacking = expected + left over', pos, g(m, count(m, p)) + g(f, not_reached(m, f, p)) == g(f, count(f, p)) + g(m, left_over(m, f, p)))]


def ok_trace(s):
    k = z3.FreshConst(TOpt(VAL).sort(), 'k')
    i = z3.FreshConst(I, 'i')
    L = Log(s)
    n = L.len(s.trace)
    return laws(s) + sums(s) + group_def(s) + of_interest(s.places_shortest_path_by_hidden) + [
        ('counts are positive', And(VALID(s.initial_marking), VALID(s.final_marking))),
        ('labelled transitions of the net', fa([k], z3.Implies(sel(LABELS.dom(s.trans_map), k), in_net(s, sel(LABELS.val(s.trans_map), k))), sel(LABELS.dom(s.trans_map), k))),
        ('every event has the activity', z3.ForAll([i], z3.Implies(And(i >= 0, i < n), L.has(sel(EVS.arr(sel(s.heap(*TL), s.trace)), i), s.activity_key))))]


def counters(l):
    return [l.at(k, TInt) for k in ('produced', 'missing', 'consumed')]


def trace_balance(l):
    p, m, c = counters(l)
    mk = l.at('marking', MARK)
    return [('the marking is valid', VALID(mk)), ('no count is negative', And(p >= 0, m >= 0, c >= 0)), ('produced + missing = consumed + tokens', p + m == c + TOT(mk)), ('the net is unchanged', l.at('net', NET) == P('net', NET))]


def hidden_counted(l):
    p, m, c = counters(l)
    acts, n0 = l.at('new_act_trans', ACTS), ACTS.len(l.at('act_trans', ACTS))
    a = ACTS.arr(acts)
    return [('consumed by the hidden transitions', And(c - l.old('consumed') == PIN(a, n0 + l.done) - PIN(a, n0), c >= 0)), ('produced by the hidden transitions', And(p - l.old('produced') == POUT(a, n0 + l.done) - POUT(a, n0), p >= 0))]


def next_hidden(l):
    """instances of the definition of the sums over the first transitions"""
    a, k = ACTS.arr(l.at('new_act_trans', ACTS)), ACTS.len(l.at('act_trans', ACTS)) + l.done
    return [NEXT(a, k)]


SINK = TList(TTuple(PLACE, ACTS))


def sinks(l):
    c, i = l.at('connections_to_sink', SINK), z3.FreshConst(I, 'i')
    return [('connections are paths of interest', fa([i], z3.Implies(And(i >= 0, i < SINK.len(c)), GROUP(SINK.t.get(sel(SINK.arr(c), i), 1))), sel(SINK.arr(c), i)))]


def accounted(s):
    r = s.res.items
    num = lambda i, t=TInt: s.ip.term(r[i], t)
    fit, f, mk, m, c, rem, p = num(0, TBool), num(1, TReal), num(4, MARK), num(6), num(7), num(8), num(9)
    i = z3.FreshConst(I, 'i')
    L = Log(s)
    unknown = z3.Exists([i], And(i >= 0, i < L.len(s.trace), Not(sel(LABELS.dom(s.trans_map), TOpt(VAL).some(L.val(sel(EVS.arr(sel(s.heap(*TL), s.trace)), i), s.activity_key))))))
    R = z3.ToReal
    return [('no count is negative', And(m >= 0, c >= 0, rem >= 0, p >= 0)),
            ('produced + missing = consumed + remaining', p + m == c + rem),
            ('remaining tokens are those of the marking reached', rem == REM(mk, s.final_marking)),
            ('a trace fits exactly if nothing is missing or remains and every activity is known', fit == And(m == 0, rem == 0, Not(And(s.consider_activities_not_in_model_in_fitness, unknown)))),
            ('fitness', f == z3.If(And(c > 0, p > 0), (1 - R(m) / R(c)) / 2 + (1 - R(rem) / R(p)) / 2, z3.RealVal(1)))]


def leftover(l):
    m0, m, f, p = l.old('marking'), l.at('marking', MARK), l.at('final_marking', MARK), rv('p')
    D = l.done
    return [('marked places', fa([p], sel(MARK.dom(m), p) == sel(MARK.dom(m0), p), sel(MARK.dom(m), p))),
            ('tokens', fa([p], count(m, p) == z3.If(sel(D, p), left_over(m0, f, p), count(m0, p)), count(m, p))),
            ('remaining', l.at('remaining', TInt) == S2(D, m0, f))]


def difference(l):
    d, m, f, p = l.at('diff_fin_mark_mark', MARK), l.at('marking', MARK), l.at('final_marking', MARK), rv('p')
    return [('tokens that are not reached', each(p, And(sel(MARK.dom(d), p) == And(sel(l.done, p), lacks(m, f, p)), count(d, p) == z3.If(sel(MARK.dom(d), p), count(f, p) - count(m, p), z3.IntVal(0))), count(d, p), sel(MARK.dom(d), p)))]


def counting(name, mark):
    def inv(l):
        m = l.at(mark, MARK)
        return [(name, l.at(name, TInt) == l.old(name) + S1(l.done, m))]
    return LoopInv(inv)


def lacking_counted(l):
    return [('missing', l.at('missing', TInt) == l.old('missing') + S3(l.done, l.at('marking_before_cleaning', MARK), l.at('final_marking', MARK)))]


def FLAG(v):
    return lambda ip: SV(TBool, z3.BoolVal(v))


def replayed():
    o = lambda n: (lambda ip: OpaqueV(n))
    bal = LoopInv(trace_balance, unfold=lambda l: [TOT(l.at('marking', MARK)) == TOT(l.at('marking', MARK))])
    return Contract(TBR + ':apply_trace', dict(trace=TRACE, net=NET, initial_marking=MARK, final_marking=MARK, trans_map=LABELS, enable_pltr_fitness=FLAG(False), place_fitness=o('d'), transition_fitness=o('d'), notexisting_activities_in_model=o('d'),
                    places_shortest_path_by_hidden=PATHS, consider_remaining_in_fitness=FLAG(True), activity_key=TStr, try_to_reach_final_marking_through_hidden=TBool, stop_immediately_unfit=FLAG(False), walk_through_hidden_trans=TBool,
                    post_fix_caching=o('c'), marking_to_activity_caching=o('c'), is_reduction=FLAG(False), thread_maximum_ex_time=o('c'), enable_postfix_cache=FLAG(False), enable_marktoact_cache=FLAG(False), cleaning_token_flood=FLAG(False), s_components=o('c'),
                    trace_occurrences=TInt, consider_activities_not_in_model_in_fitness=TBool),
                    pre=ok_trace, post=accounted, merge=True,
                    drop=('trace_activities', 'vis_mark', 'transitions_with_problems', 'activating_transition_index', 'activating_transition_interval', 'current_event_map', 'notexisting_activities_in_model', 'old_marking_names', 'prev_len_activated_transitions',
                          'post_fix_caching', 'marking_to_activity_caching'),
                    locals={'connections_to_sink': SINK, 'act_trans': ACTS},
                    loops={0: counting('sum_tokens_im', 'initial_marking'), 1: counting('sum_tokens_fm', 'final_marking'), 2: bal, 4: LoopInv(hidden_counted, unfold=next_hidden), 13: bal, 14: bal, 15: bal, 18: LoopInv(sinks), 19: bal, 20: bal, 21: bal, 24: LoopInv(difference), 25: LoopInv(leftover), 27: counting('consumed', 'final_marking'), 28: LoopInv(lacking_counted)})


def CONTRACTS():
    named = lambda f, c: Contract(TBR + ':' + f, dict(t=TRANS), value=lambda s: TupV([SV(TInt, c(s.t)), OpaqueV('tokens per place')]))
    t = dict(t=TRANS)
    return [Contract(TBR + ':add_missing_tokens', dict(t=TRANS, marking=MARK), pre=arcs_ok, post=filled, result=FILLED, havoc=('marking',), loops={0: LoopInv(filling_so_far)},
                     caller=Contract(TBR + ':add_missing_tokens', dict(t=TRANS, marking=MARK), pre=lambda s: [('counts are positive', VALID(s.marking))], value=lambda s: TupV([SV(TInt, MISS(s.t, s.marking)), OpaqueV('tokens added')]), effects=lambda s: {'marking': FILL(s.t, s.marking)})),
            Contract(EVA + ':evaluate', dict(aligned_traces=DIAGS, parameters=lambda ip: NONE), pre=lambda s: [('the keys are there', z3.ForAll([i := z3.FreshConst(z3.IntSort(), 'i')], z3.Implies(And(i >= 0, i < DIAGS.len(s.aligned_traces)), And(*[DIAG.has(sel(DIAGS.arr(s.aligned_traces), i), k) for k in DIAG.fields]))))], value=summary),
            Contract(TBR + ':get_consumed_tokens', t, pre=arcs_ok, value=moved('tin', 'src'), caller=named('get_consumed_tokens', CIN)),
            Contract(TBR + ':get_produced_tokens', t, pre=arcs_ok, value=moved('tout', 'tgt'), caller=named('get_produced_tokens', COUT)),
            replayed(),
            Contract(TBR + ':get_places_with_missing_tokens', dict(t=TRANS, marking=MARK), value=lambda s: (TSet(PLACE), lam(p := rv('p'), lacking(s, p)))),
            Contract(TBR + ':enable_hidden_transitions', dict(net=NET, marking=MARK, activated_transitions=ACTS, visited_transitions=TSET, all_visited_markings=lambda ip: OpaqueV('markings'), hidden_transitions_to_enable=GROUPS, t=TRANS),
                     pre=lambda s: laws(s) + [('counts are positive', VALID(s.marking)), ('there are groups', GROUPS.len(s.hidden_transitions_to_enable) > 0)] + group_def(s) + groups(s.hidden_transitions_to_enable),
                     post=enable_hidden_post, result=lambda ip, env: TupV([ip.fresh_value(MARK), env['activated_transitions'], env['visited_transitions'], OpaqueV('markings')]),
                     havoc=('activated_transitions', 'visited_transitions'), drop=('all_visited_markings',),
                     loops={0: LoopInv(lambda l: indexes(l) + hidden_balance(l)), 1: LoopInv(hidden_group, unfold=unfold_acts('activated_transitions'))}),
            Contract(TBR + ':apply_hidden_trans', dict(t=TRANS, net=NET, marking=MARK, places_shortest_paths_by_hidden=PATHS, act_tr=ACTS, rec_depth=TInt, visit_trans=TSET, vis_mark=lambda ip: OpaqueV('markings')),
                     pre=lambda s: laws(s) + group_def(s) + of_interest(s.places_shortest_paths_by_hidden) + [('counts are positive', VALID(s.marking)), ('transition of the net', in_net(s, s.t))],
                     post=apply_hidden_post, result=lambda ip, env: TupV([env['net'], ip.fresh_value(MARK), env['act_tr'], OpaqueV('markings')]), havoc=('act_tr', 'visit_trans'), drop=('vis_mark',),
                     loops={0: LoopInv(nested_balance, unfold=unfold_acts('act_tr')), 1: LoopInv(nested_balance, unfold=unfold_acts('act_tr'))}),
            *[Contract(TBR + ':' + f, {'marking': MARK, k: t, 'places_shortest_path_by_hidden': PATHS}, pre=lambda s: of_interest(s.places_shortest_path_by_hidden), post=lambda s: groups(s.result(GROUPS)), result=GROUPS,
                       loops={0: LoopInv(lambda l: groups(l.at('hidden_transitions_to_enable', GROUPS))), 1: LoopInv(lambda l: groups(l.at('hidden_transitions_to_enable', GROUPS)))})
              for f, k, t in (('get_hidden_transitions_to_enable', 'places_with_missing', TSet(PLACE)), ('get_req_transitions_for_final_marking', 'final_marking', MARK))],
            Contract(TBR + ':break_condition_final_marking', dict(marking=MARK, final_marking=MARK), value=lambda s: (TBool, z3.ForAll([p := rv('p')], z3.Implies(sel(MARK.dom(s.final_marking), p), sel(MARK.dom(s.marking), p)))))]


def USES():
    """the contracts of C01 and of the functions above, with names for what they compute"""
    val = lambda s: [('counts are positive', VALID(s.m))]
    return [Contract(SEMM + ':is_enabled', dict(t=TRANS, pn=NET, m=MARK), pre=val, value=lambda s: (TBool, And(sel(Net(s).transitions(s.pn), s.t), EN(s.t, s.m)))),
            Contract(SEMM + ':execute', dict(t=TRANS, pn=NET, m=MARK), pre=lambda s: val(s) + [('enabled', And(sel(Net(s).transitions(s.pn), s.t), EN(s.t, s.m)))], value=lambda s: (MARK, FIRE(s.t, s.m)))]


ASSUMPTIONS = ['laws of finite sums, used with names for the numbers of tokens: the number of tokens of a marking changes by what is consumed and produced when a transition fires and by what is added when missing tokens are added; '
               'tokens + lacking = expected + left over (its identity at every place is proved as a lemma); prefix sums over lists of transitions and sums over sets of places by recursion (definitional axioms)',
               'inside apply_trace and the functions for silent transitions, enabled and fired are the results of the contracts of C01, and filled, missing, consumes and produces those of the contracts of add_missing_tokens, get_consumed_tokens and get_produced_tokens (proved separately, from the arcs)',
               'at most one arc per pair of nodes, positive weights and positive counts in the initial and final marking; trans_map maps to transitions of the net, places_shortest_path_by_hidden to lists of transitions of the net, every event has the activity',
               'statements that only change caches and diagnostics (trace_activities, vis_mark, transitions_with_problems, activating_transition_index and _interval, current_event_map, notexisting_activities_in_model, the caches) are left out of apply_trace, and vis_mark, all_visited_markings of the functions for silent transitions: '
               'a statement is left out only if it changes nothing else; the set of visible transitions eventually enabled from the reached marking is not described',
               'a list returned by a function for silent transitions is its argument changed in place (proved) and shares nothing with the marking', 'floating-point numbers are treated as real numbers']
BOUNDED = ['apply_trace with reduction, caches, place and transition fitness, immediate stop or cleaning of the token flood (off here), or without counting remaining tokens in the fitness', 'the diagnostics per trace assembled by apply_log from the replay of the variants, tables and the simplified interface',
           'the list of activated transitions and of the transitions with problems']
NOTE = ('Proved for all nets, markings, traces and paths of silent transitions: the replay of a trace (apply_trace, with the recursive search through silent transitions, the walk to the final marking and the connections to the sink) keeps every count non-negative and produced + missing = consumed + remaining, remaining is what the reached marking has in excess of the final marking, '
        'a trace fits exactly if nothing is missing or remains (and, if wanted, all activities are known), and its fitness is the formula; adding missing tokens gives every input place exactly what it lacks and counts it; tokens consumed and produced are the arc weights; the fitness of a log is computed from the totals.')
