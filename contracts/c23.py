"""C23 Case statistics count what they say."""
from .log import *
from .c06 import one, counts
from pyvc import syms

RW = 'pm4py.statistics.rework.log.get'
RC = 'pm4py.statistics.rework.cases.log.get'
AT = 'pm4py.statistics.attributes.log.get'
ACT = lambda: prm('pm4py:param:activity_key', TStr, 'concept:name')
TA = (TC, '_attributes')


def named(s):
    return [('every event has the activity attribute', all_have(s, s.log, ACT()))]


def rework(s):
    L = Log(s)
    key = ACT()

    def n(a):
        i, j = iv(), iv('j')
        c = syms.SUM(j, one(And(L.in_trace(s.log, i, j), L.act(s.log, i, j, key) == a)))
        return syms.SUM(i, one(And(L.in_log(s.log, i), c > 1)))
    return counts(COUNTS, n)


def attr_values(s):
    L = Log(s)
    once = prm('keep_once_per_case', TBool, False)

    def n(a):
        i, j = iv(), iv('j')
        at = And(L.in_trace(s.log, i, j), L.has(L.event(L.trace(s.log, i), j), s.attribute_key), L.act(s.log, i, j, s.attribute_key) == a)
        return z3.If(once, syms.SUM(i, one(And(L.in_log(s.log, i), z3.Exists([j], at)))), syms.SUM(i, syms.SUM(j, one(at))))
    return counts(COUNTS, n)


def event_values(s):
    L = Log(s)

    def n(a):
        i, j = iv(), iv('j')
        at = And(L.in_trace(s.log, i, j), L.has(L.event(L.trace(s.log, i), j), s.attribute), L.act(s.log, i, j, s.attribute) == a)
        return z3.If(s.count_once_per_case, syms.SUM(i, one(And(L.in_log(s.log, i), z3.Exists([j], at)))), syms.SUM(i, syms.SUM(j, one(at))))
    return counts(COUNTS, n)


def trace_values(s):
    L = Log(s)

    def n(a):
        i = iv()
        at = sel(s.heap(*TA), L.trace(s.log, i))
        return syms.SUM(i, one(And(L.in_log(s.log, i), sel(ATTRS.dom(at), s.attribute_key), sel(ATTRS.val(at), s.attribute_key) == a)))
    return counts(COUNTS, n)


CID = lambda: prm('pm4py:param:case_id_key', TStr, 'concept:name')
REC = TDict(TStr, TInt)


def case_ids(s):
    """every case has an identifier, and no two cases the same"""
    L = Log(s)
    at = lambda i: sel(s.heap(*TA), L.trace(s.log, i))
    i, j = iv(), iv('j')
    k = CID()
    return named(s) + [('every case has an identifier', z3.ForAll([i], z3.Implies(L.in_log(s.log, i), sel(ATTRS.dom(at(i)), k)), patterns=[L.trace(s.log, i)])),
                       ('case identifiers are distinct', z3.ForAll([i, j], z3.Implies(And(L.in_log(s.log, i), L.in_log(s.log, j), sel(ATTRS.val(at(i)), k) == sel(ATTRS.val(at(j)), k)), i == j)))]


def rework_cases(s):
    L = Log(s)
    i, j = iv(), iv('j')
    key, k = ACT(), CID()
    t = TDict(VAL, REC)
    v = z3.FreshConst(VAL.sort(), 'v')
    cid = lambda i: sel(ATTRS.val(sel(s.heap(*TA), L.trace(s.log, i))), k)
    at = And(L.in_log(s.log, i), cid(i) == v)
    c = syms.CHOOSE(i, at)
    n = L.len(L.trace(s.log, c))
    a = z3.FreshConst(VAL.sort(), 'a')
    distinct = syms.SUM(a, one(z3.Exists([j], And(j >= 0, j < n, a == L.act(s.log, c, j, key)))))
    rec = default(REC)
    dom, val = REC.dom(rec), REC.val(rec)
    for f, x in (('number_activities', n), ('rework', n - distinct)):
        dom, val = z3.Store(dom, strlit(f), TRUE), z3.Store(val, strlit(f), x)
    e = z3.Exists([i], at)
    return t, t.mk(lam(v, e), lam(v, z3.If(e, REC.mk(dom, val), default(REC))))


def attr_names(trace):
    def value(s):
        L = Log(s)
        i, j = iv(), iv('j')
        t = TSet(TStr)
        q = z3.FreshConst(TStr.sort(), 'q')
        if trace:
            e = z3.Exists([i], And(L.in_log(s.log, i), sel(ATTRS.dom(sel(s.heap(*TA), L.trace(s.log, i))), q)))
        else:
            e = z3.Exists([i, j], And(L.in_trace(s.log, i, j), L.has(L.event(L.trace(s.log, i), j), q)))
        return t, lam(q, And(e, q != strlit('concept:name' if trace else 'lifecycle:transition')))
    return value


def CONTRACTS():
    me = dict(log=LOG, parameters=params)
    return [
        Contract(RW + ':apply', me, pre=named, value=rework),
        Contract(AT + ':get_attribute_values', dict(log=LOG, attribute_key=TStr, parameters=params), value=attr_values),
        Contract(AT + ':get_trace_attribute_values', dict(log=LOG, attribute_key=TStr, parameters=params), value=trace_values),
        Contract(AT + ':get_all_trace_attributes_from_log', dict(log=LOG), value=attr_names(True)),
        Contract(AT + ':get_all_event_attributes_from_log', dict(log=LOG), value=attr_names(False)),
        Contract('pm4py.stats:get_event_attribute_values', dict(log=LOG, attribute=TStr, count_once_per_case=TBool), value=event_values),
        Contract(RC + ':apply', me, pre=case_ids, value=rework_cases),
    ]


BOUNDED = ['minimum self-distance (log and table variants, witnesses)', 'eventually-follows (log, table and variants-with-counts)', 'every statistic over an event table (pandas)', 'events distribution']
NOTE = 'rework, attribute-value and attribute-name statistics of logs proved; self-distance, eventually-follows and table variants bounded'
