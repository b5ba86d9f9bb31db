"""C18 Play-out produces only traces of the model's language."""
import sys
from pyvc.core import Unsupported, SV, EnumV, TupV, PyRaise, NONE
from .petri import *
from .log import params, prm, get_param_value
from .c02 import le
from .c04 import MARK, MS, EN, FIRE, VALID, SEM, SLOT, B, mv, forall2, there_is, USES as C04_USES

EXT = 'pm4py.algo.simulation.playout.petri_net.variants.extensive'
LAB = TU('Labels')              # the visible labels of a firing sequence
ELE = TU('Elements')            # its markings and transitions
LS, ES = LAB.sort(), ELE.sort()
L0, E0 = z3.Const('no_labels', LS), z3.Const('no_elements', ES)
LADD = z3.Function('add_label', LS, LABEL.sort(), LS)
EADDM = z3.Function('add_marking', ES, MS, ES)
EADDT = z3.Function('add_transition', ES, REF, ES)
LLEN = z3.Function('labels_length', LS, z3.IntSort())
RUN = z3.Function('run', MS, LS, ES, B)         # a firing sequence from the initial marking: where it leads, its labels, its elements
STATE = TTuple(MARK, LAB, ELE)
WORK = TList(STATE)
SEEN = TSet(TTuple(MARK, LAB))
FEAS = TList(ELE)
VISITED = z3.Function('visited', SEEN.sort(), B)     # names the explored pairs in triggers (true everywhere)
COUNT = TU('Count')
OFC = z3.Function('count_of', ES, COUNT.sort())
LBL = (TR, '_Transition__label')
KEY = TTuple(MARK, LAB)


def setup(w):
    from . import c04
    c04.setup(w)

    def empty(c):
        def f(ip, v):
            if not isinstance(v, TupV) or v.items:
                raise Unsupported('a tuple with elements')
            return c
        return f
    w.models[(LAB.name, 'term')], w.models[(ELE.name, 'term')] = empty(L0), empty(E0)
    w.models[(ELEM.name, 'term')] = entry
    w.models['random.choice'] = random_choice
    w.models['pm4py.objects.stochastic_petri.utils:pick_transition'] = random_choice     # numpy.random.choice with weights: a member of the list
    w.models[(LAB.name, 'len')] = lambda ip, v: SV(TInt, LLEN(v.e))

    def lab_add(ip, a, b):
        if not isinstance(b, TupV) or len(b.items) > 1:
            raise Unsupported('concatenation')
        return SV(LAB, LADD(a.e, ip.term(b.items[0], LABEL))) if b.items else a

    def ele_add(ip, a, b):
        if not isinstance(b, TupV):
            raise Unsupported('concatenation')
        e = a.e
        for x in b.items:
            e = EADDT(e, x.e) if isinstance(x, SV) else EADDM(e, ip.term(x, MARK))
        return SV(ELE, e)
    w.models[(LAB.name, 'add')], w.models[(ELE.name, 'add')] = lab_add, ele_add
    w.models['collections.Counter'] = w.models['typing.Counter'] = lambda ip, a, k, n: SV(COUNT, OFC(a[0].e))
    w.models[(COUNT.name, 'getitem')] = lambda ip, v, k: SV(TInt, OCC_OF(v.e, ip.term(k, MARK)))


OCC_OF = z3.Function('occurrences_in', COUNT.sort(), MS, z3.IntSort())


def USES():
    # Marking.__eq__ is equality of markings in normal form (lemma of C04 over the contract of C02)
    ok = lambda s: [('counts are positive', VALID(s.m)), ('enabled', And(sel(Net(s).transitions(s.pn), s.t), EN(s.t, s.m)))]
    return C04_USES() + [Contract(SEM + '.execute', dict(self=TRef(SEM), t=TRANS, pn=NET, m=MARK), pre=ok, value=lambda s: (MARK, FIRE(s.t, s.m))),
                         Contract('pm4py.objects.petri_net.obj:Marking.__eq__', dict(self=MARK, other=MARK), value=lambda s: (TBool, s.self == s.other)),
                         Contract('pm4py.objects.petri_net.obj:Marking.__le__', dict(self=MARK, other=MARK), value=lambda s: (TBool, le(s.self, s.other)))]


def lbl(h, t):
    o = TOpt(LABEL)
    return sel(h(*LBL), t), o


def grown(h, ls, t):
    """the labels after firing t"""
    l, o = lbl(h, t)
    return z3.If(o.is_none(l), ls, LADD(ls, o.val(l)))


def lv(n='l'):
    return z3.FreshConst(LS, n)


def ev(n='e'):
    return z3.FreshConst(ES, n)


def defs(s):
    m, l, e, t, x, v = mv(), lv(), ev(), rv('t'), z3.FreshConst(LABEL.sort(), 'x'), z3.FreshConst(SEEN.sort(), 'v')
    i = z3.FreshConst(z3.IntSort(), 'i')
    T = Net(s).transitions(s.net)
    e2 = EADDT(EADDM(e, m), t)
    return [('definition: triggers', And(SLOT(0), z3.ForAll([i], And(SLOT(i), SLOT(i - 1)), patterns=[SLOT(i)]), z3.ForAll([v], VISITED(v), patterns=[VISITED(v)]))),
            ('definition: length', And(LLEN(L0) == 0, z3.ForAll([l, x], LLEN(LADD(l, x)) == LLEN(l) + 1, patterns=[LADD(l, x)]))),
            ('definition: run', And(RUN(s.initial_marking, L0, E0), z3.ForAll([m, l, e, t], z3.Implies(And(RUN(m, l, e), sel(T, t), EN(t, m)), RUN(FIRE(t, m), grown(s.heap, l, t), e2)), patterns=[z3.MultiPattern(RUN(m, l, e), FIRE(t, m))]))),
            ('the initial marking has positive counts', VALID(s.initial_marking)),
            ('firing keeps counts positive (lemma of C01)', z3.ForAll([t, m], z3.Implies(And(VALID(m), sel(T, t), EN(t, m)), VALID(FIRE(t, m))), patterns=[FIRE(t, m)])),
            ('no limit on repeated markings', z3.ForAll([e, m], OCC_OF(OFC(e), m) <= prm('max_marking_occ', TInt, sys.maxsize), patterns=[OCC_OF(OFC(e), m)])),
            ('elements are returned', prm('return_elements', TBool, False)),
            ('the length bound is not negative', prm('maxTraceLength', TInt, 10) >= 0)]


def at(l, name):
    return l.at(name, dict(to_visit=WORK, visited=SEEN, feasible_elements=FEAS)[name])


def part(w, i, k):
    return STATE.get(sel(WORK.arr(w), i), k)


def iv(n='i'):
    return z3.FreshConst(z3.IntSort(), n)


def pair(m, l):
    return KEY.mk(m, l)


def known(vis, todo, m, l, also=None):
    """explored, or waiting to be"""
    i = iv()
    return Or(sel(vis, pair(m, l)), there_is([i], And(SLOT(i), i >= 0, i < WORK.len(todo), part(todo, i, 0) == m, part(todo, i, 1) == l), SLOT(i)), *([] if also is None else [also(m, l)]))


def maxlen():
    return prm('maxTraceLength', TInt, 10)


def step_known(h, T, vis, todo, m, l, t):
    n = grown(h, l, t)
    return z3.Implies(And(sel(T, t), EN(t, m), LLEN(n) <= maxlen()), known(vis, todo, FIRE(t, m), n))


def sound(feas, fm):
    """every element list found is a firing sequence to the final marking within the length bound"""
    j, l = iv('j'), lv()
    e = sel(FEAS.arr(feas), j)
    return forall2([j], z3.Implies(And(j >= 0, j < FEAS.len(feas)), z3.Exists([l], And(RUN(fm, l, e), LLEN(l) <= maxlen()))), e)


def explored(h, T, vis, todo, feas, fm, cur=None, done=None):
    m, l, t, j, i, e = mv(), lv(), rv('t'), iv('j'), iv(), ev()
    v = sel(vis, pair(m, l))
    other = v if cur is None else And(v, Not(And(m == cur[0], l == cur[1])))
    r = [('waiting: runs within the bound', forall2([i], z3.Implies(And(i >= 0, i < WORK.len(todo)), And(VALID(part(todo, i, 0)), RUN(part(todo, i, 0), part(todo, i, 1), part(todo, i, 2)), LLEN(part(todo, i, 1)) <= maxlen())), sel(WORK.arr(todo), i))),
         ('found: complete runs within the bound', sound(feas, fm)),
         ('explored: steps are known', forall2([m, l, t], z3.Implies(other, step_known(h, T, vis, todo, m, l, t)), v, FIRE(t, m))),
         ('explored: complete runs are found', forall2([l], z3.Implies(sel(vis, pair(fm, l)), there_is([j], And(SLOT(j), j >= 0, j < FEAS.len(feas), RUN(fm, l, sel(FEAS.arr(feas), j))), SLOT(j))), sel(vis, pair(fm, l))))]
    if cur is not None:
        r += [('steps of the current run are known', forall2([t], z3.Implies(sel(done, t), step_known(h, T, vis, todo, cur[0], cur[1], t)), sel(done, t), alt=[FIRE(t, cur[0])]))]
    return r


def outer(l):
    h, T = l.heap, sel(l.heap(*PNF['transitions']), l.at('net', NET))
    vis, todo = at(l, 'visited'), at(l, 'to_visit')
    return explored(h, T, vis, todo, at(l, 'feasible_elements'), l.at('final_marking', MARK)) + [('the empty run is known', known(vis, todo, l.at('initial_marking', MARK), L0))]


def inner(l):
    h, T = l.heap, sel(l.heap(*PNF['transitions']), l.at('net', NET))
    vis, todo = at(l, 'visited'), at(l, 'to_visit')
    cur = (l.at('m', MARK), l.at('trace', LAB))
    return explored(h, T, vis, todo, at(l, 'feasible_elements'), l.at('final_marking', MARK), cur, l.done) + [('the empty run is known', known(vis, todo, l.at('initial_marking', MARK), L0))]


def post(s):
    r = s.result(FEAS)
    T = Net(s).transitions(s.net)
    V = z3.FreshConst(SEEN.sort(), 'V')
    m, l, t, j = mv(), lv(), rv('t'), iv('j')
    v = sel(V, pair(m, l))
    n = grown(s.heap, l, t)
    fm = s.final_marking
    closed = [sel(V, pair(s.initial_marking, L0)),
              forall2([m, l, t], z3.Implies(And(v, sel(T, t), EN(t, m), LLEN(n) <= maxlen()), sel(V, pair(FIRE(t, m), n))), v, FIRE(t, m)),
              forall2([l], z3.Implies(sel(V, pair(fm, l)), there_is([j], And(SLOT(j), j >= 0, j < FEAS.len(r), RUN(fm, l, sel(FEAS.arr(r), j))), SLOT(j))), sel(V, pair(fm, l)))]
    return [('every sequence found is a firing sequence from the initial to the final marking within the length bound', sound(r, fm)),
            ('every firing sequence within the bound that ends in the final marking has its labels among the results', there_is([V], And(VISITED(V), *closed), VISITED(V)))]


BAS = 'pm4py.algo.simulation.playout.petri_net.variants.basic_playout'
ELEM = TU('Element')            # an entry of a play-out: a marking or a transition
EM, ET = z3.Function('marking_entry', MS, ELEM.sort()), z3.Function('transition_entry', REF, ELEM.sort())
UNT = z3.Function('the_transition', ELEM.sort(), REF)
UNM = z3.Function('the_marking', ELEM.sort(), MS)
RAND = TList(ELEM)
RUNS = TList(TSeq(RAND))


def entry(ip, v):
    if isinstance(v, SV) and v.t == TRANS:
        return ET(v.e)
    if isinstance(v, SV) and v.t == TOpt(TRANS) and not ip.decide(v.t.is_none(v.e)):
        return ET(v.t.val(v.e))
    return EM(ip.term(v, MARK))


def random_choice(ip, args, kw, n):
    """any member of the list"""
    l = ip.as_loc(args[0])
    e = ip.read(l)
    if ip.decide(l.t.len(e) <= 0):
        raise PyRaise('IndexError')
    i = ip.fresh(z3.IntSort(), 'pick')
    ip.assume(And(i >= 0, i < l.t.len(e)))
    return ip.elem_value(l, l.t.t, i)


def last(im, els):
    """the marking that the entries lead to"""
    n, a = RAND.len(els), lambda i: sel(RAND.arr(els), i)
    return z3.If(n == 0, im, z3.If(n % 2 == 1, UNM(a(n - 1)), FIRE(UNT(a(n - 1)), UNM(a(n - 2)))))


def played(T, im, els):
    """els = marking, transition, marking ... of a firing sequence from im"""
    k = iv('k')
    n = RAND.len(els)
    a = lambda i: sel(RAND.arr(els), i)
    even = And(a(k) == EM(UNM(a(k))), UNM(a(k)) == z3.If(k == 0, im, FIRE(UNT(a(k - 1)), UNM(a(k - 2)))))
    odd = And(a(k) == ET(UNT(a(k))), sel(T, UNT(a(k))), EN(UNT(a(k)), UNM(a(k - 1))))
    return forall2([k], z3.Implies(And(k >= 0, k < n), z3.If(k % 2 == 0, even, odd)), a(k))


def bdefs(s):
    m, t = mv(), rv('t')
    T = Net(s).transitions(s.net)
    x = z3.FreshConst(ELEM.sort(), 'x')
    return [('definition: entries', And(z3.ForAll([m], UNM(EM(m)) == m, patterns=[EM(m)]), z3.ForAll([t], UNT(ET(t)) == t, patterns=[ET(t)]))),
            ('the initial marking has positive counts', VALID(s.initial_marking)),
            ('firing keeps counts positive (lemma of C01)', z3.ForAll([t, m], z3.Implies(And(VALID(m), sel(T, t), EN(t, m)), VALID(FIRE(t, m))), patterns=[FIRE(t, m)])),
            ('the elements are returned', s.return_visited_elements)]


def good(T, im, fm, els, only, leq):
    l = last(im, els)
    return And(played(T, im, els), z3.Implies(only, Or(l == fm, And(leq, le(fm, l)))))


def all_good(T, im, fm, runs, only, leq):
    i = iv()
    e = sel(RUNS.arr(runs), i)
    return forall2([i], z3.Implies(And(i >= 0, i < RUNS.len(runs)), good(T, im, fm, e, only, leq)), e)


FALSE = z3.BoolVal(False)


def bargs(l):
    return (sel(l.heap(*PNF['transitions']), l.at('net', NET)), l.at('initial_marking', MARK), l.at('final_marking', MARK), l.at('all_visited_elements', RUNS), l.at('add_only_if_fm_is_reached', TBool), l.at('fm_leq_accepted', TBool))


def bouter(l):
    return [('the runs so far', all_good(*bargs(l)))]


def binner(l):
    T, im = sel(l.heap(*PNF['transitions']), l.at('net', NET)), l.at('initial_marking', MARK)
    e, m = l.at('visited_elements', RAND), l.at('marking', MARK)
    return [('the run so far', played(T, im, e)), ('marking', And(VALID(m), RAND.len(e) % 2 == 0, m == last(im, e)))]


def bpost(s):
    return [('every run is a firing sequence from the initial marking, to the final one where only these are asked for', all_good(Net(s).transitions(s.net), s.initial_marking, s.final_marking, s.result(RUNS), s.add_only_if_fm_is_reached, s.fm_leq_accepted))]


STO = 'pm4py.algo.simulation.playout.petri_net.variants.stochastic_playout'


def sargs(l):
    return (sel(l.heap(*PNF['transitions']), l.at('net', NET)), l.at('initial_marking', MARK), l.at('initial_marking', MARK), l.at('all_visited_elements', RUNS), FALSE, FALSE)


def spost(s):
    return [('every run is a firing sequence from the initial marking', all_good(Net(s).transitions(s.net), s.initial_marking, s.initial_marking, s.result(RUNS), FALSE, FALSE))]


def CONTRACTS():
    return [Contract(STO + ':apply_playout', dict(net=NET, initial_marking=MARK, final_marking=MARK, no_traces=TInt, max_trace_length=TInt, smap=TU('Weights'), return_visited_elements=TBool, semantics=TRef(SEM)),
                     pre=bdefs, post=spost, result=RUNS, tag='elements', merge=True, locals=dict(visited_elements=RAND, all_visited_elements=RUNS),
                     loops={0: LoopInv(lambda l: [('the runs so far', all_good(*sargs(l)))]), 1: LoopInv(binner)}),
            Contract(BAS + ':apply_playout', dict(net=NET, initial_marking=MARK, final_marking=MARK, no_traces=TInt, max_trace_length=TInt, return_visited_elements=TBool, semantics=TRef(SEM), add_only_if_fm_is_reached=TBool, fm_leq_accepted=TBool),
                     pre=bdefs, post=bpost, result=RUNS, tag='elements', merge=True, locals=dict(visited_elements=RAND, all_visited_elements=RUNS), loops={0: LoopInv(bouter), 1: LoopInv(binner)}),
            Contract(EXT + ':apply', dict(net=NET, initial_marking=MARK, final_marking=MARK, parameters=params), pre=defs, post=post, result=FEAS, tag='elements', locals=dict(to_visit=WORK, feasible_elements=FEAS),
                     loops={0: LoopInv(outer, unfold=lambda l: [VISITED(at(l, 'visited')), SLOT(FEAS.len(at(l, 'feasible_elements')))]), 1: LoopInv(inner, unfold=lambda l: [SLOT(WORK.len(at(l, 'to_visit')))])})]


ASSUMPTIONS = ['the contracts of ClassicSemantics.enabled_transitions, execute and weak_execute discharged for C01, here with names for "enabled" and "the marking after firing"; markings have positive counts (C01); the default semantics is used',
               'Marking.__eq__ and __le__ by their contracts of C02',
               'tuples of labels and of markings/transitions are abstract sequences built by appending (no further laws are needed); a play-out entry is a marking or a transition, told apart by position',
               'random.choice and stochastic_petri.utils.pick_transition (numpy.random.choice) return any member of the given list: the result holds for every random choice',
               'a final marking is given; extensive play-out: no limit on repeated markings (the default), non-negative length bound',
               'termination is not proved: a net with an endless run of silent steps is played out for ever']
BOUNDED = ['building the event log from the elements (labels of the visible transitions, in order)', 'the entry points play_out and playout.algorithm.apply', 'final marking not given', 'max_marking_occ other than the default']
NOTE = ('Proved for all nets, initial and final markings and length bounds: every element list returned by the extensive play-out is a firing sequence from the initial marking to the final one within the length bound, and every visible label sequence of such a firing sequence is among them '
        '(ghost set of explored pairs of marking and labels, closed under firing); every run recorded by the basic and the stochastic play-out alternates markings and transitions enabled in them, the next marking being the one after firing, '
        'and with add_only_if_fm_is_reached each run ends in the final marking (or one that contains it, where fm_leq_accepted is set). Bounded: the resulting event logs, against an independent enumeration of the language.')
