"""C04 Reachability graphs contain exactly the reachable behaviour."""
from pyvc import syms
from pyvc.core import OpaqueV, SV, EnumV
from .petri import *
from .log import params, prm, ParamsV, get_param_value
from .c02 import same

RG = 'pm4py.objects.petri_net.utils.reachability_graph'
SEM = 'pm4py.objects.petri_net.semantics:ClassicSemantics'
ALU = 'pm4py.objects.petri_net.utils.align_utils'
TSET = TSet(TRANS)
INC = TDict(MARK, TSET)
NEXT = TDict(TRANS, MARK)
OUT = TDict(MARK, NEXT)
EVE = TDict(MARK, TSET)
ACTIVE = TList(MARK)
FLOW = TTuple(INC, OUT, EVE)
B = z3.BoolSort()
MS = MARK.sort()
EN = z3.Function('enabled', REF, MS, B)             # the transition is enabled (C01)
FIRE = z3.Function('fired', REF, MS, MS)            # the marking after firing it (C01)
VALID = z3.Function('valid', MS, B)                 # every count is positive
REACH = z3.Function('reachable', MS, B)
SLOT = z3.Function('slot', z3.IntSort(), B)          # names the positions of the worklist in triggers (true everywhere)
EVENT = z3.Function('eventually_enabled', MS, TSET.sort())


TSY = 'pm4py.objects.transition_system.obj:TransitionSystem'
TSYS, STATE, EDGE = TRef(TSY), TRef(TSY + '.State'), TRef(TSY + '.Transition')
STATES, EDGES = (TSY, '_TransitionSystem__states'), (TSY, '_TransitionSystem__transitions')
IN_, OUT_ = (TSY + '.State', '_State__incoming'), (TSY + '.State', '_State__outgoing')
NAME, FROM, TO = [(TSY + '.Transition', '_Transition__' + x) for x in ('name', 'from_state', 'to_state')]
BUILT = [STATES, EDGES, IN_, OUT_, NAME, FROM, TO, (TSY, '_TransitionSystem__name'), (TSY + '.State', '_State__name')]
SHOWN = z3.Function('shown', REF, TStr.sort())         # repr of a transition
MAP = TDict(MARK, STATE)
ASSIGN = z3.Function('assignment', MAP.sort(), B)       # names the assignment of states to markings in triggers (true everywhere)


def forall2(vs, body, *terms, alt=()):
    """a quantifier triggered by all the terms together, where they can be triggers"""
    try:
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*terms)] + list(alt))
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


def there_is(vs, body, term):
    try:
        return z3.Exists(vs, body, patterns=[term])
    except z3.Z3Exception:
        return z3.Exists(vs, body)


def mv(n='m'):
    return z3.FreshConst(MS, n)


def setup(w):
    w.models[('eq', MARK.name)] = lambda x, y: x == y       # Marking.__eq__ (C02) on markings in normal form: lemma below
    w.schema[SEM] = {}
    w.models[SEM] = lambda ip, a, k, n: SV(TRef(SEM), z3.Const('classic_semantics', REF))
    w.schema[TSY] = {'_TransitionSystem__name': TStr, '_TransitionSystem__states': TSet(STATE), '_TransitionSystem__transitions': TSet(EDGE)}
    w.schema[TSY + '.State'] = {'_State__name': TStr, '_State__incoming': TSet(EDGE), '_State__outgoing': TSet(EDGE), '_State__data': opaque}
    w.schema[TSY + '.Transition'] = {'_Transition__name': TStr, '_Transition__from_state': STATE, '_Transition__to_state': STATE, '_Transition__data': opaque}
    d = w.schema['disjoint']
    d[TSY], d[TSY + '.State'], d[TSY + '.Transition'] = (TSY + '.State', TSY + '.Transition'), (TSY, TSY + '.Transition'), (TSY, TSY + '.State')

    def shown(ip, args, kw, n):
        v = args[0]
        if isinstance(v, SV) and v.t == TRANS:
            return SV(TStr, SHOWN(v.e))
        return SV(TStr, ip.fresh(TStr.sort(), 'shown'))
    w.models['builtins.repr'] = shown
    w.models['re.sub'] = shown
    w.models['time.time'] = lambda ip, a, k, n: SV(TReal, z3.RealVal(0))

    def gpv(ip, args, kw, n):
        if isinstance(args[0], EnumV) and isinstance(args[0].value, SV) and args[0].value.py == 'petri_semantics':
            return args[2]
        return get_param_value(ip, args, kw, n)
    w.models['pm4py.util.exec_utils:get_param_value'] = gpv


def USES():
    """the contracts of C01, with names for 'enabled' and 'fired'"""
    me = dict(self=TRef(SEM))
    val = lambda s: [('counts are positive', VALID(s.m))]
    en = lambda s: (TSET, lam(x := rv('t'), And(sel(Net(s).transitions(s.pn), x), EN(x, s.m))))
    return [Contract(SEM + '.enabled_transitions', {**me, **dict(pn=NET, m=MARK)}, pre=val, value=en),
            Contract(SEM + '.weak_execute', {**me, **dict(t=TRANS, pn=NET, m=MARK)}, pre=lambda s: val(s) + [('enabled', And(sel(Net(s).transitions(s.pn), s.t), EN(s.t, s.m)))], value=lambda s: (MARK, FIRE(s.t, s.m))),
            Contract(ALU + ':get_visible_transitions_eventually_enabled_by_marking', dict(net=NET, marking=MARK), value=lambda s: (TSET, EVENT(s.marking)))]


def normal(m):
    p = rv('p')
    return z3.ForAll([p], Or(sel(MARK.dom(m), p), sel(MARK.val(m), p) == 0), patterns=[sel(MARK.val(m), p)])


def LEMMAS():
    x, y = mv('x'), mv('y')
    D, T = z3.Const('D', z3.ArraySort(MS, B)), z3.Const('T', z3.ArraySort(REF, B))
    mu, ts, k, t = z3.Function('mu', z3.IntSort(), MS), z3.Function('ts', z3.IntSort(), REF), z3.Const('k', z3.IntSort()), rv('t')
    closed = z3.ForAll([x, t], z3.Implies(And(sel(D, x), sel(T, t), EN(t, x)), sel(D, FIRE(t, x))), patterns=[FIRE(t, x)])
    return [('induction step: a closed set with the k-th marking of a firing sequence has the next one', [closed, sel(D, mu(k)), sel(T, ts(k)), EN(ts(k), mu(k)), mu(k + 1) == FIRE(ts(k), mu(k))], sel(D, mu(k + 1))),
            ('markings in normal form are equal exactly if Marking.__eq__ says so', [normal(x), normal(y)], (x == y) == same(x, y))]


def reachability(s, im=None):
    """reachable: the least set of markings that contains the initial one and is closed under firing"""
    t, m = rv('t'), mv()
    im = s.im if im is None else im
    T = Net(s).transitions(s.net)
    i = z3.FreshConst(z3.IntSort(), 'i')
    return [('definition: slot', And(SLOT(0), z3.ForAll([i], SLOT(i), patterns=[SLOT(i)]))), ('the time limit is positive', prm('max_elab_time', TInt, 86400) > 0),
            ('the initial marking has positive counts', VALID(im)),
            ('definition: reachable', And(REACH(im), z3.ForAll([t, m], z3.Implies(And(REACH(m), sel(T, t), EN(t, m)), REACH(FIRE(t, m))), patterns=[FIRE(t, m)]))),
            ('firing keeps counts positive (lemma of C01)', z3.ForAll([t, m], z3.Implies(And(VALID(m), sel(T, t), EN(t, m)), VALID(FIRE(t, m))), patterns=[FIRE(t, m)]))]


def edges(T, inc, out, m, upto=None):
    """exactly the enabled transitions lead out of m, to the marking after firing"""
    t = rv('t')
    o = sel(OUT.val(out), m)
    nm = sel(NEXT.val(o), t)
    dom = And(sel(T, t), EN(t, m)) if upto is None else upto(t)
    return fa([t], And(sel(NEXT.dom(o), t) == dom, z3.Implies(sel(NEXT.dom(o), t), And(nm == FIRE(t, m), sel(INC.dom(inc), nm), sel(sel(INC.val(inc), nm), t)))), sel(NEXT.dom(o), t))


def flow(T, im, inc, out, act, cur=None, upto=None):
    m, x, t, i, j = mv(), mv('x'), rv('t'), z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
    I, O = INC.dom(inc), OUT.dom(out)
    a = lambda k: sel(ACTIVE.arr(act), k)
    n = ACTIVE.len(act)
    r = [('initial marking', sel(I, im)),
         ('valid, reachable', fa([m], z3.Implies(sel(I, m), And(VALID(m), REACH(m))), sel(I, m))),
         ('explored markings are known', fa([m], z3.Implies(sel(O, m), sel(I, m)), sel(O, m))),
         ('known markings are explored or waiting', fa([m], z3.Implies(sel(I, m), Or(sel(O, m), there_is([i], And(SLOT(i), i >= 0, i < n, a(i) == m), SLOT(i)))), sel(I, m))),
         ('waiting markings are known, unexplored', fa([i], z3.Implies(And(i >= 0, i < n), And(sel(I, a(i)), Not(sel(O, a(i))))), a(i))),
         ('waiting once', z3.ForAll([i, j], z3.Implies(And(i >= 0, i < j, j < n), a(i) != a(j)))),
         ('edges', fa([m], z3.Implies(sel(O, m) if cur is None else And(sel(O, m), m != cur), edges(T, inc, out, m)), sel(O, m))),
         ('incoming', fa([x, t], z3.Implies(And(sel(I, x), sel(sel(INC.val(inc), x), t)), z3.Exists([m], And(sel(O, m), sel(NEXT.dom(sel(OUT.val(out), m)), t), sel(NEXT.val(sel(OUT.val(out), m)), t) == x))), sel(sel(INC.val(inc), x), t)))]
    if cur is not None:
        r += [('current marking', And(sel(O, cur), sel(I, cur))), ('edges of the current marking', edges(T, inc, out, cur, upto))]
    return r


def T_of(l):
    return sel(l.heap(*PNF['transitions']), l.at('net', NET))


def outer(l):
    return flow(T_of(l), l.at('im', MARK), l.at('incoming_transitions', INC), l.at('outgoing_transitions', OUT), l.at('active', ACTIVE))


def inner(l):
    m = l.at('m', MARK)
    return flow(T_of(l), l.at('im', MARK), l.at('incoming_transitions', INC), l.at('outgoing_transitions', OUT), l.at('active', ACTIVE), m, lambda t: sel(l.done, t))


def exact(s):
    T = Net(s).transitions(s.net)
    r = s.result(FLOW)
    inc, out = FLOW.get(r, 0), FLOW.get(r, 1)
    m, t, x = mv(), rv('t'), mv('x')
    I, O = INC.dom(inc), OUT.dom(out)
    return [('the initial marking is a state', sel(I, s.im)),
            ('every state is reachable', fa([m], z3.Implies(sel(I, m), REACH(m)), sel(I, m))),
            ('every state is explored', fa([m], sel(O, m) == sel(I, m), sel(I, m))),
            ('one edge for every enabled transition, to the marking after firing, which is a state', fa([m], z3.Implies(sel(I, m), edges(T, inc, out, m)), sel(I, m))),
            ('the states are closed under firing', z3.ForAll([m, t], z3.Implies(And(sel(I, m), sel(T, t), EN(t, m)), And(sel(I, FIRE(t, m)), out_of(out, m, t), successor(out, m, t) == FIRE(t, m))), patterns=[FIRE(t, m)])),
            ('incoming transitions are the labels of the edges', fa([x, t], z3.Implies(sel(I, x), sel(sel(INC.val(inc), x), t) == z3.Exists([m], And(sel(I, m), sel(NEXT.dom(sel(OUT.val(out), m)), t), sel(NEXT.val(sel(OUT.val(out), m)), t) == x))), sel(sel(INC.val(inc), x), t)))]


def label(h, use, t):
    return z3.If(use, sel(h(TR, '_Transition__name'), t), SHOWN(t))


def successor(out, m, t):
    return sel(NEXT.val(sel(OUT.val(out), m)), t)


def out_of(out, m, t):
    return And(sel(OUT.dom(out), m), sel(NEXT.dom(sel(OUT.val(out), m)), t))


def flow_ok(s):
    m, t, m2, t2 = mv(), rv('t'), mv(), rv('t')
    inc, out = s.incoming_transitions, s.outgoing_transitions
    f = z3.FreshConst(MAP.sort(), 'f')
    known = fa([m, t], z3.Implies(out_of(out, m, t), And(sel(INC.dom(inc), m), sel(INC.dom(inc), successor(out, m, t)))), sel(NEXT.dom(sel(OUT.val(out), m)), t))
    return [('definition: assignment', z3.ForAll([f], ASSIGN(f), patterns=[ASSIGN(f)])), ('edges connect known markings', known), ('the transitions are shown differently', z3.ForAll([m, t, m2, t2], z3.Implies(And(out_of(out, m, t), out_of(out, m2, t2), label(s.heap, s.use_trans_name, t) == label(s.heap, s.use_trans_name, t2)), t == t2),
             patterns=[z3.MultiPattern(sel(NEXT.dom(sel(OUT.val(out), m)), t), sel(NEXT.dom(sel(OUT.val(out), m2)), t2))]))]


def one_state_each(isa, h, M, r, dom, alloc, exists):
    """M assigns a state of r to every marking of dom, a different one to each; r has no other state"""
    m, m2, x = mv(), mv('n'), rv('x')
    a = lambda k: sel(MAP.val(M), k)
    S = sel(h(*STATES), r)
    return [('states of the markings', fa([m], And(sel(MAP.dom(M), m) == dom(m), z3.Implies(dom(m), And(isa(TSY + '.State', a(m)), alloc(a(m)), Not(exists(a(m))), sel(S, a(m))))), sel(MAP.dom(M), m))),
            ('different markings have different states', forall2([m, m2], z3.Implies(And(dom(m), dom(m2), a(m) == a(m2)), m == m2), a(m), a(m2))),
            ('no other states', fa([x], z3.Implies(sel(S, x), there_is([m], And(sel(MAP.dom(M), m), a(m) == x), sel(MAP.dom(M), m))), sel(S, x)))]


def states_so_far(l):
    M, r = l.at('map_states', MAP), l.at('re_gr', TSYS)
    isa = lambda k, x: l.ip.isinst_pred(k, x)
    m, x = mv(), rv('x')
    a = sel(MAP.val(M), m)
    none = lambda f: Not(sel(sel(l.heap(*f), a), x))
    return one_state_each(isa, l.heap, M, r, lambda k: sel(l.done, k), l.alloc, l.alloc_old) + \
        [('existing objects still exist', fa([x], z3.Implies(l.alloc_old(x), l.alloc(x)), l.alloc_old(x))),
         ('states without arcs', z3.ForAll([m, x], z3.Implies(sel(l.done, m), And(none(IN_), none(OUT_)))))]


def edge_for(h, succ, M, use, x, m, t):
    a = lambda k: sel(MAP.val(M), k)
    return And(sel(h(*FROM), x) == a(m), sel(h(*TO), x) == a(succ(m, t)), sel(h(*NAME), x) == label(h, use, t))


def one_edge_each(isa, h, known, succ, M, use, r, dom, alloc, tr):
    """exactly one edge of r for every m, t of dom, from the state of m to the state of its successor, listed there"""
    m, t, x, y = mv(), rv('t'), rv('x'), rv('y')
    E = sel(h(*EDGES), r)
    a = sel(MAP.val(M), m)
    k = TSY + '.Transition'
    tr = tr(m, t)
    return [('an edge for every step', fa([m, t], z3.Implies(dom(m, t), there_is([x], And(isa(k, x), sel(E, x), edge_for(h, succ, M, use, x, m, t)), isa(k, x))), tr)),
            ('every edge is a step', fa([x], z3.Implies(sel(E, x), And(isa(k, x), alloc(x), there_is([m, t], And(tr, dom(m, t), edge_for(h, succ, M, use, x, m, t)) if tr.sort() == B else And(dom(m, t), edge_for(h, succ, M, use, x, m, t)), tr))), sel(E, x))),
            ('one edge per step', forall2([x, y], z3.Implies(And(sel(E, x), sel(E, y), sel(h(*FROM), x) == sel(h(*FROM), y), sel(h(*NAME), x) == sel(h(*NAME), y)), x == y), isa(k, x), isa(k, y))),
            ('outgoing edges', forall2([m, x], z3.Implies(known(m), sel(sel(h(*OUT_), a), x) == And(sel(E, x), sel(h(*FROM), x) == a)), a, isa(k, x), alt=[sel(sel(h(*OUT_), a), x)])),
            ('incoming edges', forall2([m, x], z3.Implies(known(m), sel(sel(h(*IN_), a), x) == And(sel(E, x), sel(h(*TO), x) == a)), a, isa(k, x), alt=[sel(sel(h(*IN_), a), x)]))]


def in_flow(inc, out):
    """the markings, successors and triggers of a marking flow"""
    return lambda m: sel(INC.dom(inc), m), lambda m, t: successor(out, m, t), lambda m, t: sel(NEXT.dom(sel(OUT.val(out), m)), t)


def edges_so_far(done):
    def inv(l):
        isa = lambda k, x: l.ip.isinst_pred(k, x)
        x = rv('x')
        inc, out = l.at('incoming_transitions', INC), l.at('outgoing_transitions', OUT)
        known, succ, tr = in_flow(inc, out)
        return one_edge_each(isa, l.heap, known, succ, l.at('map_states', MAP), l.at('use_trans_name', TBool), l.at('re_gr', TSYS), lambda m, t: And(out_of(out, m, t), done(l, m, t)), l.alloc, tr) + \
            [('existing objects still exist', fa([x], z3.Implies(l.alloc_old(x), l.alloc(x)), l.alloc_old(x)))]
    return inv


def before(done, m):
    return sel(done, m) if z3.is_array(done) else z3.BoolVal(False)


def graph_of(s, states, succ, steps, tr, use):
    """r has one state for every marking of states and one edge for every step, and nothing else"""
    r = s.result(TSYS)
    M = z3.FreshConst(MAP.sort(), 'M')
    d = states(M)
    parts = one_state_each(s.isa, s.heap_now, M, r, d, s.alloc_now, s.alloc) + one_edge_each(s.isa, s.heap_now, d, succ, M, use, r, steps(M), s.alloc_now, tr)
    return M, parts


def from_flow(s):
    inc, out = s.incoming_transitions, s.outgoing_transitions
    known, succ, tr = in_flow(inc, out)
    M, parts = graph_of(s, lambda M: known, succ, lambda M: lambda m, t: out_of(out, m, t), tr, s.use_trans_name)
    return [('one state per marking, one edge per step, incidence', there_is([M], And(ASSIGN(M), *[c for _, c in parts]), ASSIGN(M)))]


def shown_differently(s):
    t, t2, f = rv('t'), rv('u'), z3.FreshConst(MAP.sort(), 'f')
    T = Net(s).transitions(s.net)
    return reachability(s, s.initial_marking) + [('definition: assignment', z3.ForAll([f], ASSIGN(f), patterns=[ASSIGN(f)])),
                              ('the transitions are shown differently', z3.ForAll([t, t2], z3.Implies(And(sel(T, t), sel(T, t2), label(s.heap, s.use_trans_name, t) == label(s.heap, s.use_trans_name, t2)), t == t2), patterns=[z3.MultiPattern(sel(T, t), sel(T, t2))]))]


def whole(s):
    T = Net(s).transitions(s.net)
    states = lambda M: lambda m: sel(MAP.dom(M), m)
    M, parts = graph_of(s, states, lambda m, t: FIRE(t, m), lambda M: lambda m, t: And(sel(MAP.dom(M), m), sel(T, t), EN(t, m)), lambda m, t: FIRE(t, m), s.use_trans_name)
    m, t = mv(), rv('t')
    D = states(M)
    least = [D(s.initial_marking), fa([m], z3.Implies(D(m), REACH(m)), D(m)), z3.ForAll([m, t], z3.Implies(And(D(m), sel(T, t), EN(t, m)), D(FIRE(t, m))), patterns=[FIRE(t, m)])]
    return [('one state per reachable marking, one edge per enabled transition, incidence', there_is([M], And(ASSIGN(M), *least, *[c for _, c in parts]), ASSIGN(M)))]


def CONTRACTS():
    return [Contract(RG + ':construct_reachability_graph', dict(net=NET, initial_marking=MARK, use_trans_name=TBool, parameters=params), pre=shown_differently, post=whole, result=TSYS, allocates=True, modifies=BUILT),
            Contract(RG + ':marking_flow_petri', dict(net=NET, im=MARK, return_eventually_enabled=TBool, parameters=params), pre=reachability, post=exact, result=FLOW,
                     loops={0: LoopInv(outer), 1: LoopInv(inner, unfold=lambda l: [SLOT(ACTIVE.len(l.at('active', ACTIVE)))])}),
            Contract(RG + ':construct_reachability_graph_from_flow', dict(incoming_transitions=INC, outgoing_transitions=OUT, use_trans_name=TBool, parameters=params), pre=flow_ok, post=from_flow, result=TSYS, allocates=True,
                     modifies=BUILT,
                     loops={0: LoopInv(states_so_far), 1: LoopInv(edges_so_far(lambda l, m, t: sel(l.done, m)), unfold=lambda l: [ASSIGN(l.at('map_states', MAP))]),
                            2: LoopInv(edges_so_far(lambda l, m, t: Or(before(l.outer, m), And(m == l.at('s1', MARK), sel(l.done, t)))))})]


ASSUMPTIONS = ['the contracts of ClassicSemantics.enabled_transitions and weak_execute discharged for C01, here with names for "enabled" and "the marking after firing"; the default semantics is used',
               'markings reached have positive counts (discharged for C01: firing removes zero entries); Marking.__eq__ is equality of markings in normal form (lemma here and C02)',
               'the time limit is not reached (time.time is modelled as a constant)',
               'different transitions of the net are shown differently (by repr, or by name where use_trans_name is set): otherwise "one edge per step" cannot be told from the edges',
               'reachable is any set of markings that contains the initial marking and is closed under firing: the states are contained in each such set and are one themselves, hence the least one',
               'termination on bounded nets is not proved (partial correctness: whenever the exploration returns)']
BOUNDED = ['the eventually enabled transitions of return_eventually_enabled are not part of the property', 'conversion through the simplified interface (pm4py.convert_to_reachability_graph)']
NOTE = ('Proved for all nets, weights and initial markings: marking_flow_petri explores exactly the least set of markings closed under firing, with exactly the enabled transitions and their successors; construct_reachability_graph_from_flow makes one new state per marking, '
        'one edge per step and exact incidence lists; construct_reachability_graph composes the two contracts. Bounded: random bounded nets against an independent breadth-first exploration.')
