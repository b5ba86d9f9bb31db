"""Schema and shared vocabulary for Petri nets and markings."""
import z3
from pyvc.types import *
from pyvc.core import World, And, Or, Not, TRUE, FALSE
from pyvc.contract import Contract, LoopInv

M = 'pm4py.objects.petri_net.obj'
PN, MK = M + ':PetriNet', M + ':Marking'
PL, TR, AR = PN + '.Place', PN + '.Transition', PN + '.Arc'
IN, RN = M + ':InhibitorNet', M + ':ResetNet'
IA, RA = IN + '.InhibitorArc', RN + '.ResetArc'
NET, PLACE, TRANS, ARC, NODE = TRef(PN), TRef(PL), TRef(TR), TRef(AR), TRef(PL, TR)
LABEL = TU('Label')
MARK = TDict(PLACE, TInt, counter=True, cls=MK)

PNF = dict(places=(PN, '_PetriNet__places'), transitions=(PN, '_PetriNet__transitions'), arcs=(PN, '_PetriNet__arcs'))
NIN = {PL: (PL, '_Place__in_arcs'), TR: (TR, '_Transition__in_arcs')}
NOUT = {PL: (PL, '_Place__out_arcs'), TR: (TR, '_Transition__out_arcs')}
SRC, TGT, WGT = (AR, '_Arc__source'), (AR, '_Arc__target'), (AR, '_Arc__weight')


def opaque(ip, v):
    from pyvc.core import OpaqueV
    return OpaqueV('opaque')


def schema(w):
    s = w.schema
    s[PN] = {'_PetriNet__places': TSet(PLACE), '_PetriNet__transitions': TSet(TRANS), '_PetriNet__arcs': TSet(ARC),
             '_PetriNet__name': TStr, '_PetriNet__properties': opaque}
    s[PL] = {'_Place__name': TStr, '_Place__in_arcs': TSet(ARC), '_Place__out_arcs': TSet(ARC), '_Place__properties': opaque}
    s[TR] = {'_Transition__name': TStr, '_Transition__label': TOpt(LABEL), '_Transition__in_arcs': TSet(ARC),
             '_Transition__out_arcs': TSet(ARC), '_Transition__properties': opaque}
    s[AR] = {'_Arc__source': NODE, '_Arc__target': NODE, '_Arc__weight': TInt, '_Arc__properties': opaque}
    for k in (IN, RN, IA, RA):
        s[k] = {}
    s[MK] = MARK
    s['disjoint'] = {PL: (TR, AR, PN), TR: (PL, AR, PN), AR: (PL, TR, PN, IA, RA), IA: (RA, PL, TR), RA: (IA, PL, TR)}
    return w


def rv(n='r'):
    return z3.FreshConst(REF, n)


class Net:
    """vocabulary over a Spec (entry state) or, with now=True, over the exit state"""

    def __init__(self, s, now=False):
        self.s, self.now = s, now
        f = s.heap_now if now else s.heap
        self.h = lambda k: f(*k)

    def places(self, n):
        return sel(self.h(PNF['places']), n)

    def transitions(self, n):
        return sel(self.h(PNF['transitions']), n)

    def arcs(self, n):
        return sel(self.h(PNF['arcs']), n)

    def tin(self, t):
        return sel(self.h(NIN[TR]), t)

    def tout(self, t):
        return sel(self.h(NOUT[TR]), t)

    def pin(self, p):
        return sel(self.h(NIN[PL]), p)

    def pout(self, p):
        return sel(self.h(NOUT[PL]), p)

    def src(self, a):
        return sel(self.h(SRC), a)

    def tgt(self, a):
        return sel(self.h(TGT), a)

    def w(self, a):
        return sel(self.h(WGT), a)


def _has_ite(e):
    return z3.is_quantifier(e) or z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(_has_ite(c) for c in e.children()))


def fa(vs, body, *pats):
    """universal quantifier with patterns where they are patterns"""
    ps = []
    for p in pats:
        p = z3.simplify(p)
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SELECT and not _has_ite(p):
            ps.append(p)
    try:
        return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)
    except z3.Z3Exception:
        return z3.ForAll(vs, body)


def simple_arcs(n, t):
    """at most one arc per ordered node pair, positive weights, for the arcs around transition t"""
    a, b = rv('a'), rv('b')
    out = []
    for S, end in ((n.tin(t), n.src), (n.tout(t), n.tgt)):
        out.append(z3.ForAll([a], z3.Implies(sel(S, a), n.w(a) > 0), patterns=[sel(S, a)]))
        out.append(z3.ForAll([a, b], z3.Implies(z3.And(sel(S, a), sel(S, b), end(a) == end(b)), a == b),
                             patterns=[z3.MultiPattern(sel(S, a), sel(S, b))]))
    return And(*out)


def positive(m):
    """markings hold positive counts only (no zero entries)"""
    p = rv('p')
    return z3.ForAll([p], sel(MARK.dom(m), p) == (sel(MARK.val(m), p) > 0), patterns=[sel(MARK.val(m), p), sel(MARK.dom(m), p)])
