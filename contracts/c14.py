"""C14 Incidence and consumption matrices agree with the net."""
from .petri import *
from pyvc import syms
from pyvc.core import OpaqueV

I = 'pm4py.objects.petri_net.utils.incidence_matrix'
K = 'pm4py.objects.petri_net.utils.consumption_matrix'
IM, CM = I + ':IncidenceMatrix', K + ':ConsumptionMatrix'
MAT = TList(TList(TInt))
ROW = TList(TInt)
PI, TI = TDict(PLACE, TInt), TDict(TRANS, TInt)
FI = dict(A=(IM, '_IncidenceMatrix__A'), P=(IM, '_IncidenceMatrix__place_indices'), T=(IM, '_IncidenceMatrix__transition_indices'))
FC = dict(A=(CM, '_ConsumptionMatrix__C'), P=(CM, '_ConsumptionMatrix__place_indices'), T=(CM, '_ConsumptionMatrix__transition_indices'))


def setup(w):
    w.schema[IM] = {FI['A'][1]: MAT, FI['P'][1]: PI, FI['T'][1]: TI, 'matrix_built': TBool}
    w.schema[CM] = {FC['A'][1]: MAT, FC['P'][1]: PI, FC['T'][1]: TI}


def pre_net(s):
    """every arc listed at a place has its other end among the transitions of the net, its own end at the place; names are given"""
    n = Net(s)
    p, a, a2, p2 = rv('p'), rv('a'), rv('a'), rv('p')
    return [('incoming arcs of a place come from a transition of the net', fa([p, a], z3.Implies(z3.And(sel(n.places(s.net), p), sel(n.pin(p), a)),
             z3.And(sel(n.transitions(s.net), n.src(a)), s.isa(TR, n.src(a)))), sel(n.pin(p), a))),
            ('outgoing arcs of a place lead to a transition of the net', fa([p2, a2], z3.Implies(z3.And(sel(n.places(s.net), p2), sel(n.pout(p2), a2)),
             z3.And(sel(n.transitions(s.net), n.tgt(a2)), s.isa(TR, n.tgt(a2)))), sel(n.pout(p2), a2)))]


def produced(n, p, t):
    a = rv('a')
    return syms.SUM(a, z3.If(z3.And(sel(n.pin(p), a), n.src(a) == t), n.w(a), z3.IntVal(0)))


def consumed(n, p, t):
    a = rv('a')
    return syms.SUM(a, z3.If(z3.And(sel(n.pout(p), a), n.tgt(a) == t), n.w(a), z3.IntVal(0)))


def index_ok(D, d, S, size):
    x, y, z = rv('x'), rv('x'), rv('y')
    return [('exactly the nodes of the net have an index', sel(D.dom(d), x) == sel(S, x)),
            ('indices are between zero and the number of nodes', z3.Implies(sel(S, x), z3.And(sel(D.val(d), x) >= 0, sel(D.val(d), x) < size))),
            ('different nodes have different indices', z3.Implies(z3.And(sel(S, y), sel(S, z), sel(D.val(d), y) == sel(D.val(d), z)), y == z))]


def post(F, entry):
    def f(s):
        n = Net(s)
        H = {k: sel(s.heap_now(*v), s.self) for k, v in F.items()}
        A = H['A']
        out = []
        Ps, Ts = n.places(s.net), n.transitions(s.net)
        np, nt = syms.CARD(PLACE, Ps), syms.CARD(TRANS, Ts)
        out += [('places: ' + a, b) for a, b in index_ok(PI, H['P'], Ps, np)] + [('transitions: ' + a, b) for a, b in index_ok(TI, H['T'], Ts, nt)]
        i = z3.FreshConst(z3.IntSort(), 'i')
        out.append(('one row per place', MAT.len(A) == np))
        out.append(('one column per transition', z3.Implies(z3.And(i >= 0, i < np), ROW.len(sel(MAT.arr(A), i)) == nt)))
        p, t = rv('p'), rv('t')
        e = sel(ROW.arr(sel(MAT.arr(A), sel(PI.val(H['P']), p))), sel(TI.val(H['T']), t))
        out.append(('entries', z3.Implies(z3.And(sel(Ps, p), sel(Ts, t)), e == entry(n, p, t))))
        return out
    return f


def pre_encode(s):
    d = sel(s.heap(*FI['P']), s.self)
    x, y, z = rv('x'), rv('x'), rv('y')
    n = syms.CARD(PLACE, PI.dom(d))
    return [('the indices are between zero and the number of places', fa([x], z3.Implies(sel(PI.dom(d), x), z3.And(sel(PI.val(d), x) >= 0, sel(PI.val(d), x) < n)), sel(PI.val(d), x))),
            ('different places have different indices', fa([y, z], z3.Implies(z3.And(sel(PI.dom(d), y), sel(PI.dom(d), z), sel(PI.val(d), y) == sel(PI.val(d), z)), y == z))),
            ('the marked places belong to the net', fa([z], z3.Implies(sel(MARK.dom(s.marking), z), sel(PI.dom(d), z)), sel(MARK.dom(s.marking), z)))]


def post_encode(s):
    d = sel(s.heap(*FI['P']), s.self)
    r = s.result(ROW)
    p, i = rv('p'), z3.FreshConst(z3.IntSort(), 'i')
    return [('one entry per place', ROW.len(r) == syms.CARD(PLACE, PI.dom(d))),
            ('the entry of a place is its number of tokens', z3.Implies(sel(PI.dom(d), p), sel(ROW.arr(r), sel(PI.val(d), p)) == sel(MARK.val(s.marking), p)))]


def LEMMAS():
    """state equation: with the entries of the matrix and of the markings as specified, firing changes each entry by the column"""
    from .base import world
    from .c01 import _Free, fired, simple_arcs
    s = _Free(world())
    n = Net(s)
    t, p, m = z3.Const('t', REF), z3.Const('p', REF), z3.Const('m', MARK.sort())
    a, q = rv('a'), rv('q')
    # the arcs of the transition and the arcs of the place are the same arcs (C03)
    reg = [fa([a], z3.Implies(sel(n.pin(p), a), n.tgt(a) == p), sel(n.pin(p), a)), fa([a], z3.Implies(sel(n.pout(p), a), n.src(a) == p), sel(n.pout(p), a)),
           fa([a], z3.Implies(sel(n.tin(t), a), n.tgt(a) == t), sel(n.tin(t), a)), fa([a], z3.Implies(sel(n.tout(t), a), n.src(a) == t), sel(n.tout(t), a)),
           fa([a], z3.Implies(n.src(a) == t, z3.Implies(n.tgt(a) == p, sel(n.tout(t), a) == sel(n.pin(p), a))), sel(n.tout(t), a)),
           fa([a], z3.Implies(n.src(a) == p, z3.Implies(n.tgt(a) == t, sel(n.tin(t), a) == sel(n.pout(p), a))), sel(n.tin(t), a))]
    f = fired(s, t, m)
    return [('firing changes the marking of each place by the incidence entry', reg,
             sel(MARK.val(f), p) == sel(MARK.val(m), p) + produced(n, p, t) - consumed(n, p, t))]


def CONTRACTS():
    return [
        Contract(IM + '.encode_marking', dict(self=TRef(IM), marking=MARK), pre=pre_encode, post=post_encode, result=ROW),
        Contract(IM + '.__init__', dict(self=TRef(IM), net=NET), pre=pre_net, modifies=list(FI.values()) + [(IM, 'matrix_built')],
                 post=post(FI, lambda n, p, t: produced(n, p, t) - consumed(n, p, t))),
        Contract(CM + '.__init__', dict(self=TRef(CM), net=NET), pre=pre_net, modifies=list(FC.values()),
                 post=post(FC, lambda n, p, t: -consumed(n, p, t))),
    ]


BOUNDED = 'random weighted nets with parallel arcs and equal names; the matrices and marking vectors of woflan (numpy code outside the verifier) are covered by the oracle only'


NOTE = ('Proved for all nets: different nodes have different indices, every node has one, and each matrix entry is the (signed) sum of the weights of the arcs between the place and the transition; encoding a marking puts each count at the index of its place.')
