"""C01 Petri net firing follows the token game."""
from pyvc import syms
from pyvc.core import OpaqueV
from .petri import *

S = 'pm4py.objects.petri_net.semantics'
I = 'pm4py.objects.petri_net.inhibitor_reset.semantics'


def enabled(s, t, pn, m):
    n = Net(s)
    a = rv('a')
    return And(sel(n.transitions(pn), t),
               z3.ForAll([a], z3.Implies(sel(n.tin(t), a), sel(MARK.val(m), n.src(a)) >= n.w(a))))


def enabled_ir(s, t, pn, m):
    n = Net(s)
    a = rv('a')
    tok = sel(MARK.val(m), n.src(a))
    return And(sel(n.transitions(pn), t),
               z3.ForAll([a], z3.Implies(sel(n.tin(t), a),
                         z3.If(s.isa(IA, a), tok == 0, z3.Or(s.isa(RA, a), tok >= n.w(a))))))


def fired(s, t, m, ir=False, drop='nonzero'):
    """m - input weights + output weights"""
    n = Net(s)
    a, p = rv('a'), rv('p')
    g = sel(n.tin(t), a)
    if ir:
        g = z3.And(g, z3.Not(s.isa(IA, a)), z3.Not(s.isa(RA, a)))
    cons = syms.SUM(a, z3.If(z3.And(g, n.src(a) == p), n.w(a), z3.IntVal(0)))
    b = rv('b')
    prod = syms.SUM(b, z3.If(z3.And(sel(n.tout(t), b), n.tgt(b) == p), n.w(b), z3.IntVal(0)))
    left = sel(MARK.val(m), p) - cons
    if ir:
        c = rv('c')
        reset = z3.Exists([c], z3.And(sel(n.tin(t), c), s.isa(RA, c), n.src(c) == p))
        left = z3.If(reset, z3.IntVal(0), left)
    v = left + prod
    return MARK.mk(lam(p, v != 0), lam(p, v))


def pre_fire(s):
    n = Net(s)
    return [('at most one arc per node pair, positive weights', simple_arcs(n, s.t)), ('counts are positive', positive(s.m)),
            ('arc kinds are exclusive', z3.ForAll([q := rv('a')], z3.Not(z3.And(s.isa(IA, q), s.isa(RA, q)))))]


def value_exec(en, ir):
    def value(s):
        o = TOpt(MARK)
        return o, z3.If(en(s, s.t, s.pn, s.m), o.some(fired(s, s.t, s.m, ir)), o.none())
    return value


def weakly_fired(s, t, m, ir=False):
    """as fired, but an input place never goes below zero (equal to fired when the transition is enabled: lemma below)"""
    n = Net(s)
    a, b, p = rv('a'), rv('b'), rv('p')
    g = sel(n.tin(t), a)
    if ir:
        g = z3.And(g, z3.Not(s.isa(IA, a)), z3.Not(s.isa(RA, a)))
    cons = syms.SUM(a, z3.If(z3.And(g, n.src(a) == p), n.w(a), z3.IntVal(0)))
    prod = syms.SUM(b, z3.If(z3.And(sel(n.tout(t), b), n.tgt(b) == p), n.w(b), z3.IntVal(0)))
    left = sel(MARK.val(m), p) - cons
    left = z3.If(left < 0, z3.IntVal(0), left)
    if ir:
        c = rv('c')
        left = z3.If(z3.Exists([c], z3.And(sel(n.tin(t), c), s.isa(RA, c), n.src(c) == p)), z3.IntVal(0), left)
    v = left + prod
    return MARK.mk(lam(p, v != 0), lam(p, v))


CM = TDict(PLACE, TInt, counter=True)      # plain collections.Counter of places


def generic_fire(s):
    n = Net(s)
    a, b, p, c, d = [rv(x) for x in 'abpcd']
    m, t = s.marking, s.transition
    cons = syms.SUM(a, z3.If(z3.And(sel(n.tin(t), a), n.src(a) == p), n.w(a), z3.IntVal(0)))
    prod = syms.SUM(b, z3.If(z3.And(sel(n.tout(t), b), n.tgt(b) == p), n.w(b), z3.IntVal(0)))
    touched = z3.Or(z3.Exists([c], z3.And(sel(n.tin(t), c), n.src(c) == p)), z3.Exists([d], z3.And(sel(n.tout(t), d), n.tgt(d) == p)))
    return CM, CM.mk(lam(p, z3.Or(sel(CM.dom(m), p), touched)), lam(p, sel(CM.val(m), p) - cons + prod))


def CONTRACTS():
    out = []
    pos = lambda s: [('counts are positive', positive(s.m))]
    for mod, cls, en, ir in ((S, 'ClassicSemantics', enabled, False), (I, 'InhibitorResetSemantics', enabled_ir, True)):
        tp = dict(t=TRANS, pn=NET, m=MARK)
        val_en = lambda s, en=en: (TBool, en(s, s.t, s.pn, s.m))
        val_all = lambda s, en=en: (TSet(TRANS), lam(x := rv('t'), en(s, x, s.pn, s.m)))
        val_weak = lambda s, ir=ir: (MARK, weakly_fired(s, s.t, s.m, ir))
        out.append(Contract(mod + ':is_enabled', tp, pre=pos, value=val_en))
        out.append(Contract(mod + ':enabled_transitions', dict(pn=NET, m=MARK), pre=pos, value=val_all))
        out.append(Contract(mod + ':execute', tp, pre=pre_fire, value=value_exec(en, ir)))
        out.append(Contract(mod + ':weak_execute', dict(t=TRANS, m=MARK), pre=pre_fire, value=val_weak))
        q = mod + ':' + cls + '.'
        me = dict(self=lambda ip: OpaqueV('semantics'))
        out.append(Contract(q + 'is_enabled', {**me, **tp}, pre=pos, value=val_en))
        out.append(Contract(q + 'enabled_transitions', {**me, **dict(pn=NET, m=MARK)}, pre=pos, value=val_all))
        out.append(Contract(q + 'execute', {**me, **tp}, pre=pre_fire, value=value_exec(en, ir)))
        out.append(Contract(q + 'weak_execute', {**me, **tp}, pre=pre_fire, value=val_weak))
    # generic semantics on a plain counter: the counts follow the token game (visited places keep an explicit entry)
    q = S + ':PetriNetSemantics.'
    gp = dict(cls=lambda ip: ip.class_by_key(S + ':PetriNetSemantics'), pn=NET, transition=TRANS, marking=CM)
    out.append(Contract(q + 'is_enabled', gp, value=lambda s: (TBool, enabled(s, s.transition, s.pn, s.marking))))
    out.append(Contract(q + 'fire', gp, value=generic_fire))
    return out


class _Free:
    """a state with arbitrary field values, for lemmas over the contract vocabulary"""

    def __init__(self, w):
        self.w = w

    def heap(self, c, f):
        return z3.Const('H!%s.%s' % (c.split(':')[1], f), z3.ArraySort(REF, self.w.schema[c][f].sort()))

    def isa(self, k, e):
        return z3.Function('is!' + k.split(':')[1], REF, z3.BoolSort())(e)


def LEMMAS():
    from .base import world
    s = _Free(world())
    s.t, s.pn, s.m = z3.Const('t', REF), z3.Const('pn', REF), z3.Const('m', MARK.sort())
    p = rv('p')
    out = []
    for nm, en, ir in (('classic', enabled, False), ('inhibitor/reset', enabled_ir, True)):
        f = [c for _, c in pre_fire(s)] + [en(s, s.t, s.pn, s.m), z3.ForAll([x := rv('x')], z3.Or(sel(MARK.dom(s.m), x), sel(MARK.val(s.m), x) == 0), patterns=[sel(MARK.val(s.m), x)])]
        a, b = fired(s, s.t, s.m, ir), weakly_fired(s, s.t, s.m, ir)
        out.append((nm + ': weak execution of an enabled transition is execution',
                    f, z3.And(sel(MARK.dom(a), p) == sel(MARK.dom(b), p), sel(MARK.val(a), p) == sel(MARK.val(b), p))))
        out.append((nm + ': firing an enabled transition leaves positive counts only', f,
                    sel(MARK.dom(a), p) == (sel(MARK.val(a), p) > 0)))
    return out


BOUNDED = 'token game on random small nets (real objects) against an independent reference'


NOTE = ('Proved for all nets (weights, inhibitor and reset arcs, any topology with at most one arc per ordered pair of nodes where the statement needs it) and all markings: a transition is enabled exactly if every input place carries enough tokens (inhibitor places none), the enabled set is exactly the enabled transitions of the net, and firing yields exactly m - consumed + produced (reset places emptied first), with zero entries removed, as a new marking, the given one unchanged; execute refuses a disabled transition.')
