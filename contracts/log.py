"""Schema and shared vocabulary for event logs; the parameter dictionary."""
import z3
from pyvc.types import *
from pyvc.core import World, And, Or, Not, TRUE, FALSE, ParamsV, SV, RecV, EnumV, NONE, OpaqueV, Unsupported, Loc, TUnk
from pyvc.contract import Contract, LoopInv
from .petri import fa

M = 'pm4py.objects.log.obj'
EV, TC, ES, EL = M + ':Event', M + ':Trace', M + ':EventStream', M + ':EventLog'
EVENT, TRACE, LOG, STREAM = TRef(EV), TRef(TC), TRef(EL), TRef(ES)
VAL = TU('Val')
ATTRS = TDict(TStr, VAL)
EVS, TRS = TList(EVENT), TList(TRACE)
D, TL, LL, SL = (EV, '_dict'), (TC, '_list'), (EL, '_list'), (ES, '_list')
PAIR = TTuple(VAL, VAL)
COUNTS = TDict(VAL, TInt)


def schema(w):
    w.schema[EV] = {'_dict': ATTRS}
    w.schema[TC] = {'_list': EVS, '_attributes': ATTRS, '_properties': ATTRS}
    w.schema[ES] = {'_list': EVS, '_attributes': ATTRS, '_extensions': ATTRS, '_omni': ATTRS, '_classifiers': ATTRS,
                    '_properties': lambda ip, v: ParamsV(tag='props!')}
    w.schema[EL] = {'_list': TRS}
    w.models['pm4py.util.exec_utils:get_param_value'] = get_param_value
    # warnings only (switched off by default)
    w.models['pm4py.utils:__event_log_deprecation_warning'] = lambda ip, a, k, n: NONE
    return w


PTYPES = {'pm4py:param:start_timestamp_key': TStr, 'business_hours': TBool}

OPAQUE = {'business_hour_slots', 'workcalendar', 'work_calendar'}      # only handed on, or not used


def prm(name, t, default=None):
    """the value of the algorithm parameter: the given one, else the default (C21)"""
    d = default
    if isinstance(d, str):
        d = strlit(d)
    elif isinstance(d, bool):
        d = z3.BoolVal(d)
    elif isinstance(d, int):
        d = z3.IntVal(d)
    elif isinstance(d, float):
        d = z3.RealVal(d)
    ps, tag = ParamsV(), ''
    if ParamsV.CALL:
        ip, ps = ParamsV.CALL[-1]
        if empty(ps):
            if not any(c.eq(ParamsV.NONE_CONST) for c in ip.st.pc):
                return TOpt(t).none() if d is None and not isinstance(t, TOpt) else d
            ps = ParamsV()
        if isinstance(ps, RecV):
            ps = ParamsV(ps.items, '!rec!')
        if not isinstance(ps, ParamsV):
            raise Unsupported('parameter dictionary')
        if name in ps.over:
            r = ps.over[name]
            return TOpt(t).some(ip.term(r, t)) if d is None and not isinstance(t, TOpt) else ip.term(r, t)
        if ps.tag == '!rec!':
            return TOpt(t).none() if d is None and not isinstance(t, TOpt) else d
        tag = '' if ps.tag == '!copy!' else ps.tag
    given = ps.given(name)
    name = tag + name
    v = z3.Const('glob!prm!%s!%s' % (name, t.name), t.sort())
    if d is None and not isinstance(t, TOpt):
        return z3.If(given, TOpt(t).some(v), TOpt(t).none())
    return z3.If(given, v, d)


def empty(ps):
    return ps is NONE or isinstance(ps, RecV) and not ps.items or isinstance(ps, Loc) and isinstance(ps.t, TUnk)


def get_param_value(ip, args, kw, n):
    p, ps, d = args[0], args[1], args[2]
    if isinstance(d, EnumV):
        d = d.value
    if empty(ps):
        if any(c.eq(ParamsV.NONE_CONST) for c in ip.st.pc) and isinstance(p, EnumV) and isinstance(p.value, SV):
            ps = ParamsV()      # no dictionary was given: the same term, which then is the default
        else:
            return d
    if not isinstance(p, EnumV):
        raise Unsupported('parameter key')
    key = p.value.py if isinstance(p.value, SV) else None
    if key is None:
        raise Unsupported('parameter key')
    if key in OPAQUE:
        return OpaqueV('parameter ' + key)
    if isinstance(ps, RecV):
        if key in ps.items:
            return ps.items[key]
        return d
    if not isinstance(ps, ParamsV):
        raise Unsupported('parameter dictionary')
    if key in ps.over:
        return ps.over[key]
    given = ps.given(key)
    tag = '' if ps.tag == '!copy!' else ps.tag
    t = PTYPES.get(key)
    if d is NONE:
        if t is None:
            raise Unsupported('type of parameter ' + key)
        v = z3.Const('glob!prm!%s!%s' % (tag + key, t.name), t.sort())
        if isinstance(t, TOpt):
            return SV(t, z3.If(given, v, t.none()))
        return SV(TOpt(t), z3.If(given, TOpt(t).some(v), TOpt(t).none()))
    if t is None:
        t = ip.vtype(d)
    v = z3.Const('glob!prm!%s!%s' % (tag + key, t.name), t.sort())
    if not z3.is_expr(v) or t.mutable:
        raise Unsupported('type of parameter ' + key)
    return SV(t, z3.If(given, v, ip.term(d, t)))


def params(ip):
    return ParamsV()


params.is_params = True


class Log:
    """vocabulary over a Spec (entry state)"""

    def __init__(self, s, now=False):
        f = s.heap_now if now else s.heap
        self.h = lambda k: f(*k)

    def ntr(self, log):
        return LogT.len(sel(self.h(LL), log))

    def trace(self, log, i):
        return sel(TRS.arr(sel(self.h(LL), log)), i)

    def len(self, tr):
        return EVS.len(sel(self.h(TL), tr))

    def event(self, tr, j):
        return sel(EVS.arr(sel(self.h(TL), tr)), j)

    def has(self, ev, key):
        return sel(ATTRS.dom(sel(self.h(D), ev)), key)

    def val(self, ev, key):
        return sel(ATTRS.val(sel(self.h(D), ev)), key)

    def act(self, log, i, j, key):
        return self.val(self.event(self.trace(log, i), j), key)

    def in_log(self, log, i):
        return z3.And(i >= 0, i < self.ntr(log))

    def in_trace(self, log, i, j):
        return z3.And(self.in_log(log, i), j >= 0, j < self.len(self.trace(log, i)))


LogT = TRS


class LogOld(Log):
    """vocabulary over a LoopView: the log when the loop started"""

    def __init__(self, l):
        self.h = lambda k: l.heap_old(*k)


def exist(s, log):
    """what the log refers to exists (references are never dangling)"""
    L = Log(s)
    i, j = iv(), iv('j')
    e = L.event(L.trace(log, i), j)
    return ('the traces and events of the log exist', And(s.alloc(log), fa([i], z3.Implies(L.in_log(log, i), s.alloc(L.trace(log, i))), L.trace(log, i)),
            fa([i, j], z3.Implies(L.in_trace(log, i, j), s.alloc(e)), e)))


def only_new(l, *fields):
    """the loop changes these fields of objects it creates only"""
    o = z3.FreshConst(REF, 'o')
    return [('existing objects still exist', fa([o], z3.Implies(l.alloc_old(o), l.alloc(o)), l.alloc_old(o)))] + \
           [('existing objects keep %s' % f[1], fa([o], z3.Implies(l.alloc_old(o), sel(l.heap(*f), o) == sel(l.heap_old(*f), o)), l.alloc_old(o), sel(l.heap(*f), o))) for f in fields]


def iv(n='i'):
    return z3.FreshConst(z3.IntSort(), n)


def all_have(s, log, key):
    """every event has the attribute"""
    L = Log(s)
    i, j = iv(), iv('j')
    e = L.event(L.trace(log, i), j)
    return fa([i, j], z3.Implies(L.in_trace(log, i, j), L.has(e, key)), e)
