"""C03 Petri net editing keeps the arc relation consistent."""
from .petri import *
from pyvc.core import OpaqueV

U = 'pm4py.objects.petri_net.utils.petri_utils'
SN = 'pm4py.objects.petri_net.saw_net.obj:StochasticArcWeightNet'
FP, FT, FA = PNF['places'], PNF['transitions'], PNF['arcs']
IP, OP, IT, OT = NIN[PL], NOUT[PL], NIN[TR], NOUT[TR]


def kind(s, n):
    """places and transitions are different kinds of objects"""
    x = rv('x')
    return z3.ForAll([x], z3.And(z3.Implies(sel(n, x), TRUE)))


def wf(s, net, now=False):
    """the invariant: every arc joins a place and a transition of the net and is registered at both; no node lists another arc"""
    n = Net(s, now)
    a, p, t = rv('a'), rv('p'), rv('t')
    P, T, A = n.places(net), n.transitions(net), n.arcs(net)
    return [
        ('places are places, transitions are transitions', z3.And(
            fa([p], z3.Implies(sel(P, p), z3.And(s.isa(PL, p), z3.Not(s.isa(TR, p)))), sel(P, p)),
            fa([t], z3.Implies(sel(T, t), z3.And(s.isa(TR, t), z3.Not(s.isa(PL, t)))), sel(T, t)))),
        ('every arc joins a place and a transition of the net and is registered at both', fa([a], z3.Implies(sel(A, a), z3.Or(
            z3.And(sel(P, n.src(a)), sel(T, n.tgt(a)), sel(n.pout(n.src(a)), a), sel(n.tin(n.tgt(a)), a)),
            z3.And(sel(T, n.src(a)), sel(P, n.tgt(a)), sel(n.tout(n.src(a)), a), sel(n.pin(n.tgt(a)), a)))), sel(A, a))),
        ('incoming arcs of a place', fa([p, a], z3.Implies(z3.And(sel(P, p), sel(n.pin(p), a)), z3.And(sel(A, a), n.tgt(a) == p)), sel(n.pin(p), a))),
        ('outgoing arcs of a place', fa([p, a], z3.Implies(z3.And(sel(P, p), sel(n.pout(p), a)), z3.And(sel(A, a), n.src(a) == p)), sel(n.pout(p), a))),
        ('incoming arcs of a transition', fa([t, a], z3.Implies(z3.And(sel(T, t), sel(n.tin(t), a)), z3.And(sel(A, a), n.tgt(a) == t)), sel(n.tin(t), a))),
        ('outgoing arcs of a transition', fa([t, a], z3.Implies(z3.And(sel(T, t), sel(n.tout(t), a)), z3.And(sel(A, a), n.src(a) == t)), sel(n.tout(t), a))),
    ]


def allocated(s, net):
    """everything the net mentions exists"""
    n = Net(s)
    x = rv('x')
    al = lambda S: fa([x], z3.Implies(sel(S, x), s.alloc(x)), sel(S, x))
    y = rv('y')
    al2 = lambda f: fa([x, y], z3.Implies(sel(f(x), y), s.alloc(y)), sel(f(x), y))
    return ('the net and the arcs registered at nodes exist', And(s.alloc(net), al(n.places(net)), al(n.transitions(net)), al(n.arcs(net)),
                                                      al2(n.pin), al2(n.pout), al2(n.tin), al2(n.tout)))


def pre_wf(s):
    return wf(s, s.net) + [allocated(s, s.net)]


def upd(s, key, ref, val):
    return z3.Store(s.heap(*key), ref, val)


def add_node(cls, field, fi, fo, nm):
    def post(s):
        r = s.result(TRef(cls))
        n, m = Net(s), Net(s, True)
        x = rv('x')
        old, new = sel(s.heap(*field), s.net), sel(s.heap_now(*field), s.net)
        o = rv('o')
        out = [('the node is new', z3.And(z3.Not(s.alloc(r)), s.alloc_now(r))),
               ('the node is added, nothing else', sel(new, x) == z3.Or(sel(old, x), x == r)),
               ('other nets keep their nodes', z3.Implies(o != s.net, sel(sel(s.heap_now(*field), o), x) == sel(sel(s.heap(*field), o), x))),
               ('the node has no arcs', z3.And(z3.Not(sel(sel(s.heap_now(*fi), r), x)), z3.Not(sel(sel(s.heap_now(*fo), r), x)))),
               ('the name is the given one', z3.Implies(z3.Not(TOpt(TStr).is_none(s.name)), sel(s.heap_now(*nm), r) == TOpt(TStr).val(s.name)))]
        if cls == TR:
            out.append(('the label is the given one', sel(s.heap_now(TR, '_Transition__label'), r) == s.label))
        return out + wf(s, s.net, True)
    return post


def remove_node(cls, field, fin, fout, nin, nout, arg):
    """nin/nout: the lists of the node; fin/fout: (in, out) lists of the opposite kind"""
    def effects(s):
        n = Net(s)
        x = getattr(s, arg)
        inn = sel(sel(s.heap(*field), s.net), x)
        a, q = rv('a'), rv('q')
        I, O = sel(s.heap(*nin), x), sel(s.heap(*nout), x)
        A = n.arcs(s.net)
        A2 = lam(a, z3.And(sel(A, a), z3.Not(sel(I, a)), z3.Not(sel(O, a))))
        S2 = lam(q, z3.And(sel(sel(s.heap(*field), s.net), q), q != x))
        # incoming arcs of x are outgoing arcs of their source
        o2 = lam(q, lam(a, z3.And(sel(sel(s.heap(*fout), q), a), z3.Not(z3.And(sel(I, a), n.src(a) == q)))))
        i2 = lam(q, lam(a, z3.And(sel(sel(s.heap(*fin), q), a), z3.Not(z3.And(sel(O, a), n.tgt(a) == q)))))
        r = {FA: upd(s, FA, s.net, A2), field: upd(s, field, s.net, S2), fout: o2, fin: i2}
        return {k: z3.If(inn, v, s.heap(*k)) for k, v in r.items()}

    def post(s):
        x = getattr(s, arg)
        n, m = Net(s), Net(s, True)
        return [('returns the net', s.result(NET) == s.net), ('the node is gone', z3.Not(sel(sel(s.heap_now(*field), s.net), x)))] + wf(s, s.net, True)
    return effects, post


INH, RES, STO = 'inhibitor', 'reset', 'stochastic_arc'


def bad_arc(s):
    o = TOpt(TStr)
    is_ = lambda v: z3.And(z3.Not(o.is_none(s.type)), o.val(s.type) == strlit(v))
    return z3.Or(z3.And(is_(INH), z3.Not(s.isa(IN, s.net))), z3.And(is_(RES), z3.Not(s.isa(RN, s.net))),
                 z3.And(is_(STO), z3.Not(s.isa(SN, s.net))), s.isa(PL, s.fr) == s.isa(PL, s.to))


def add_arc_post(s):
    o = TOpt(TStr)
    is_ = lambda v: z3.And(z3.Not(o.is_none(s.type)), o.val(s.type) == strlit(v))
    r = s.result(ARC)
    n, m = Net(s), Net(s, True)
    a, q = rv('a'), rv('q')
    out = [('the arc is new', z3.And(z3.Not(s.alloc(r)), s.alloc_now(r))),
           ('it joins the given nodes with the given weight', z3.And(m.src(r) == s.fr, m.tgt(r) == s.to, m.w(r) == s.weight)),
           ('it is of the given kind', z3.And(s.isa(IA, r) == is_(INH), s.isa(RA, r) == is_(RES))),
           ('other arcs keep ends and weight', z3.Implies(a != r, z3.And(m.src(a) == n.src(a), m.tgt(a) == n.tgt(a), m.w(a) == n.w(a)))),
           ('it is added to the net, nothing else', sel(sel(s.heap_now(*FA), q), a) == z3.Or(sel(sel(s.heap(*FA), q), a), z3.And(q == s.net, a == r)))]
    frp, top = s.isa(PL, s.fr), s.isa(PL, s.to)
    for nm, key, c in (('place outgoing', OP, z3.And(frp, q == s.fr)), ('transition outgoing', OT, z3.And(z3.Not(frp), q == s.fr)),
                       ('place incoming', IP, z3.And(top, q == s.to)), ('transition incoming', IT, z3.And(z3.Not(top), q == s.to))):
        out.append(('arcs registered: ' + nm, sel(sel(s.heap_now(*key), q), a) == z3.Or(sel(sel(s.heap(*key), q), a), z3.And(c, a == r))))
    inn = lambda x: z3.Or(z3.And(s.isa(PL, x), sel(n.places(s.net), x)), z3.And(z3.Not(s.isa(PL, x)), sel(n.transitions(s.net), x)))
    good = And(*([c for _, c in wf(s, s.net)] + [allocated(s, s.net)[1], inn(s.fr), inn(s.to)]))
    for nm, c in wf(s, s.net, True):
        out.append(('invariant kept: ' + nm, z3.Implies(good, c)))
    return out


def remove_arc_effects(s):
    n = Net(s)
    a, q = rv('a'), rv('q')
    x = s.arc
    rm = lambda key, end, isp: lam(q, lam(a, z3.And(sel(sel(s.heap(*key), q), a), z3.Not(z3.And(a == x, q == end, isp)))))
    sp = s.isa(PL, n.src(x))
    tp = s.isa(PL, n.tgt(x))
    return {FA: upd(s, FA, s.net, lam(a, z3.And(sel(n.arcs(s.net), a), a != x))),
            OP: rm(OP, n.src(x), sp), OT: rm(OT, n.src(x), z3.Not(sp)), IP: rm(IP, n.tgt(x), tp), IT: rm(IT, n.tgt(x), z3.Not(tp))}


def merge_effects(s):
    o = TOpt(TList(NET))
    l = o.val(s.nets)
    i, x = z3.FreshConst(z3.IntSort(), 'i'), rv('x')
    t = TOpt(NET).val(s.trgt)
    L = TList(NET)
    out = {}
    for key in (FP, FT, FA):
        h = s.heap(*key)
        ex = z3.Exists([i], z3.And(z3.Not(o.is_none(s.nets)), i >= 0, i < L.len(l), sel(sel(h, sel(L.arr(l), i)), x)))
        out[key] = z3.Store(h, t, lam(x, z3.Or(sel(sel(h, t), x), ex)))
    return out


def setup(w):
    w.schema[SN] = {}
    w.schema[SN + '.Arc'] = {}
    d = w.schema['disjoint']
    for k in (AR, IA, RA):
        d[k] = tuple(d[k]) + (SN + '.Arc',)
    d[SN + '.Arc'] = (PL, TR, PN, IA, RA)


def CONTRACTS():
    ON = TOpt(TStr)
    out = [
        Contract(U + ':add_place', dict(net=NET, name=ON), pre=pre_wf, post=add_node(PL, FP, IP, OP, (PL, '_Place__name')), result=PLACE, modifies=[FP], allocates=True),
        Contract(U + ':add_transition', dict(net=NET, name=ON, label=TOpt(LABEL)), pre=pre_wf,
                 post=add_node(TR, FT, IT, OT, (TR, '_Transition__name')), result=TRANS, modifies=[FT], allocates=True),
        Contract(U + ':add_arc_from_to', dict(fr=NODE, to=NODE, net=NET, weight=TInt, type=ON), raises=lambda s: {'Exception': bad_arc(s)},
                 pre=lambda s: [('node kinds', z3.And(*[s.isa(PL, x) != s.isa(TR, x) for x in (s.fr, s.to)]))],
                 post=add_arc_post, result=ARC, modifies=[FA, OP, OT, IP, IT], allocates=True),
    ]
    e, p = remove_node(PL, FP, IT, OT, IP, OP, 'place')
    out.append(Contract(U + ':remove_place', dict(net=NET, place=PLACE), pre=pre_wf, effects=e, post=p, result=NET))
    e, p = remove_node(TR, FT, IP, OP, IT, OT, 'trans')
    out.append(Contract(U + ':remove_transition', dict(net=NET, trans=TRANS), pre=pre_wf, effects=e, post=p, result=NET))
    out.append(Contract(U + ':remove_arc', dict(net=NET, arc=ARC), pre=lambda s: pre_wf(s) + [('the arc belongs to the net', sel(Net(s).arcs(s.net), s.arc))],
                        effects=remove_arc_effects, post=lambda s: [('returns the net', s.result(NET) == s.net)] + wf(s, s.net, True), result=NET))
    def pre_merge(s):
        i = z3.FreshConst(z3.IntSort(), 'i')
        o, L = TOpt(TList(NET)), TList(NET)
        return [('a target is given', z3.Not(TOpt(NET).is_none(s.trgt))),
                ('the target is not among the merged nets', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < L.len(o.val(s.nets))), sel(L.arr(o.val(s.nets)), i) != TOpt(NET).val(s.trgt))))]
    out.append(Contract(U + ':merge', dict(trgt=TOpt(NET), nets=TOpt(TList(NET))), pre=pre_merge, effects=merge_effects,
                        post=lambda s: [('returns the target', s.result(NET) == TOpt(NET).val(s.trgt))], result=NET))
    return out


def LEMMAS():
    """merging well-formed nets gives a well-formed net: the union of two well-formed nets over one heap is well-formed"""
    from .base import world
    from .c01 import _Free
    s = _Free(world())
    s.alloc = lambda r: TRUE
    n1, n2, n3 = [z3.Const('n%d' % i, REF) for i in (1, 2, 3)]
    f = [c for _, c in wf(s, n1)] + [c for _, c in wf(s, n2)]
    x = rv('x')
    n = Net(s)
    for S in (n.places, n.transitions, n.arcs):
        f.append(fa([x], sel(S(n3), x) == z3.Or(sel(S(n1), x), sel(S(n2), x)), sel(S(n3), x)))
        f.append(fa([x], sel(S(n3), x) == z3.Or(sel(S(n1), x), sel(S(n2), x)), sel(S(n1), x)))
        f.append(fa([x], sel(S(n3), x) == z3.Or(sel(S(n1), x), sel(S(n2), x)), sel(S(n2), x)))
    return [('the union of well-formed nets is well-formed: ' + nm, f, c) for nm, c in wf(s, n3)]


BOUNDED = 'random sequences of editing operations on real nets (normal, inhibitor, reset) compared with a reference multigraph after each step'


NOTE = ('Proved for all nets: each editing function changes exactly the places, transitions, arcs and incidence sets it has to, and preserves the representation invariant (every arc in the in-arcs of its target and the out-arcs of its source, both in the net; nothing else there), also across merge.')
