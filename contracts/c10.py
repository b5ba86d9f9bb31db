"""C10 Log filters keep exactly the matching cases."""
from .log import *
from .c06 import one
from pyvc import syms

A = 'pm4py.algo.filtering.log.'
KEY = lambda: prm('pm4py:param:activity_key', TStr, 'concept:name')
POS = lambda: prm('positive', TBool, True)
VALS, VSET = TList(VAL), TSet(VAL)


def inside(coll, x):
    """x in coll, for a list or a set of values"""
    if coll.sort() == VSET.sort():
        return sel(coll, x)
    j = iv('j')
    return z3.Exists([j], And(j >= 0, j < VALS.len(coll), sel(VALS.arr(coll), j) == x))


def kept(s, log, cond):
    """the traces of the log that satisfy cond, in order"""
    L = Log(s)
    i, j = iv(), iv('j')
    g = z3.simplify(And(L.in_log(log, i), cond(i, L.trace(log, i))))
    n = syms.SUM(i, one(g))
    fs = syms.define('fsel', [i], [g, n], z3.ArraySort(z3.IntSort(), z3.IntSort()))
    return TRS.mk(n, lam(j, z3.If(And(j >= 0, j < n), L.trace(log, sel(fs, j)), default(TRACE))))


def selected(s, cond):
    r = s.result(LOG)
    j = iv('j')
    got, want = sel(s.heap_now(*LL), r), kept(s, s.log, cond)
    return [('a new log', Not(s.alloc(r))), ('number of cases', TRS.len(got) == TRS.len(want)),
            ('the matching cases in order', z3.ForAll([j], z3.Implies(And(j >= 0, j < TRS.len(want)), sel(TRS.arr(got), j) == sel(TRS.arr(want), j))))]


def same_header(s):
    r = s.result(LOG)
    return [('the log keeps its ' + f, sel(s.heap_now(ES, f), r) == sel(s.heap(ES, f), s.log)) for f in ('_attributes',)]


# ---------------------------------------------------------------- the same by rank: the matching case i is at the position that counts the matching cases before it
class At:
    """a loop view as a Spec of the state in which the loop started"""

    def __init__(self, l):
        self.l, self.log = l, l.old('log')

    def heap(self, *f):
        return self.l.heap_old(*f)

    def alloc(self, r):
        return self.l.alloc_old(r)

    def __getattr__(self, n):
        return self.l.old(n)


MATCH, RANK = z3.Function('matches', z3.IntSort(), z3.BoolSort()), z3.Function('rank', z3.IntSort(), z3.IntSort())


def ghost(cond):
    """defines, for the log given to the function: matches(i) = the i-th case satisfies the condition, rank(i) = number of matching cases before the i-th"""
    def pre(s):
        L = Log(s)
        i = iv()
        tr = L.trace(s.log, i)
        return [exist(s, s.log), ('definition: matches', fa([i], z3.Implies(L.in_log(s.log, i), MATCH(i) == cond(s, L, tr)), tr)),
                ('definition: rank', And(RANK(0) == 0, fa([i], z3.Implies(i >= 0, RANK(i + 1) == RANK(i) + one(MATCH(i))), MATCH(i))))]
    return pre


def ranked(s, log, got, n):
    L = Log(s)
    i = iv()
    tr = L.trace(log, i)
    r = RANK(i)
    return [('number of cases', TRS.len(got) == RANK(n)),
            ('the positions are those of the new log', fa([i], z3.Implies(And(i >= 0, i < n, MATCH(i)), And(r >= 0, r < TRS.len(got))), MATCH(i))),
            ('the matching cases in order', fa([i], z3.Implies(And(i >= 0, i < n, MATCH(i)), sel(TRS.arr(got), r) == tr), MATCH(i)))]


def selected_by_rank(s):
    r = s.result(LOG)
    return [('a new log', Not(s.alloc(r)))] + ranked(s, s.log, sel(s.heap_now(*LL), r), Log(s).ntr(s.log))


def building(*fields):
    """invariant of the loop over the log that appends the matching cases to filtered_log"""
    def inv(l):
        s = At(l)
        new = l.v('filtered_log')
        o = z3.FreshConst(REF, 'o')
        return [('ranks are not negative', RANK(l.done) >= 0), ('this case', MATCH(l.done) == MATCH(l.done))] + ranked(s, s.log, sel(l.heap(*LL), new), l.done) + [('the new log exists', l.alloc(new)),
                ('other logs are unchanged', fa([o], z3.Implies(o != new, sel(l.heap(*LL), o) == sel(l.heap_old(*LL), o)), sel(l.heap(*LL), o)))] + only_new(l, *fields)
    return LoopInv(inv)


def act(s, tr, j, key):
    L = Log(s)
    return L.val(L.event(tr, j), key)


def where(cond):
    return lambda s: selected(s, lambda i, tr: cond(s, Log(s), tr))


def switch(pos, c):
    return z3.If(pos, c, Not(c))


def start(s, L, tr):
    return And(L.len(tr) > 0, switch(POS(), inside(s.admitted_start_activities, act(s, tr, z3.IntVal(0), KEY()))))


def end(s, L, tr):
    return And(L.len(tr) > 0, switch(POS(), inside(s.admitted_end_activities, act(s, tr, L.len(tr) - 1, KEY()))))


def path(s, L, tr):
    k = iv('k')
    key = prm('pm4py:param:attribute_key', TStr, 'concept:name')
    p = PAIR.mk(act(s, tr, k, key), act(s, tr, k + 1, key))
    m = iv('m')
    return switch(POS(), z3.Exists([k], And(k >= 0, k + 1 < L.len(tr), z3.Exists([m], And(m >= 0, m < PATHS.len(s.paths), sel(PATHS.arr(s.paths), m) == p)))))


PATHS = TList(PAIR)


def rework(s, L, tr):
    k = iv('k')
    n = syms.SUM(k, one(And(k >= 0, k < L.len(tr), act(s, tr, k, KEY()) == s.activity)))
    return switch(POS(), And(n > 0, n >= prm('min_occurrences', TInt, 2)))


def carries(s, L, tr):
    """the case counts only if it has an event"""
    k = iv('k')
    key = prm('pm4py:param:attribute_key', TStr, 'concept:name')
    e = L.event(tr, k)
    found = z3.Exists([k], And(k >= 0, k < L.len(tr), L.has(e, key), inside(s.values, L.val(e, key))))
    return And(L.len(tr) > 0, switch(POS(), found))


def case_carries(s, L, tr):
    key = prm('pm4py:param:attribute_key', TStr, 'concept:name')
    d = sel(s.heap(TC, '_attributes'), tr)
    return switch(POS(), And(sel(ATTRS.dom(d), key), inside(s.values, sel(ATTRS.val(d), key))))


def size(s, L, tr):
    t = TOpt(TInt)
    return And(L.len(tr) >= s.min_case_size, z3.Or(t.is_none(s.max_case_size), L.len(tr) <= t.val(s.max_case_size)))


def first_n(s):
    """the first cases of the log"""
    r = s.result(LOG)
    j = iv('j')
    got = sel(s.heap_now(*LL), r)
    n = Log(s).ntr(s.log)
    k = z3.If(s.max_no_cases < n, s.max_no_cases, n)
    return [('a new log', Not(s.alloc(r))), ('number of cases', TRS.len(got) == k),
            ('the first cases in order', z3.ForAll([j], z3.Implies(And(j >= 0, j < k), sel(TRS.arr(got), j) == Log(s).trace(s.log, j))))]


def ends_have(at):
    def pre(s):
        L = Log(s)
        i = iv()
        tr = L.trace(s.log, i)
        return [('the events looked at have the activity', z3.ForAll([i], z3.Implies(And(L.in_log(s.log, i), L.len(tr) > 0), L.has(L.event(tr, at(L, tr)), KEY())), patterns=[tr]))]
    return pre


def events_have(key):
    return lambda s: [('every event has the attribute', all_have(s, s.log, prm(key, TStr, 'concept:name')))]


def CONTRACTS():
    out = []

    def add(q, pars, cond, pre=None, tag='', **kw):
        if kw.get('loops'):
            out.append(Contract(A + q, dict(log=LOG, **pars), pre=ghost(cond), post=lambda s: selected_by_rank(s) + same_header(s), result=LOG, allocates=True, tag=tag, **kw))
            return
        out.append(Contract(A + q, dict(log=LOG, **pars), pre=pre, post=lambda s: where(cond)(s) + (same_header(s) if 'cases' not in q else []), result=LOG, allocates=True, tag=tag, **kw))
    par = dict(parameters=params)
    for t, tag in ((VALS, 'list'), (VSET, 'set')):
        add('start_activities.start_activities_filter:apply', dict(admitted_start_activities=t, **par), start, ends_have(lambda L, tr: z3.IntVal(0)), tag)
        add('end_activities.end_activities_filter:apply', dict(admitted_end_activities=t, **par), end, ends_have(lambda L, tr: L.len(tr) - 1), tag)
        add('attributes.attributes_filter:apply', dict(values=t, **par), carries, None, tag, loops={0: building(TL, (TC, '_attributes'), (TC, '_properties'))})
        add('attributes.attributes_filter:apply_trace_attribute', dict(values=t, **par), case_carries, None, tag)
    add('paths.paths_filter:apply', dict(paths=PATHS, **par), path, events_have('pm4py:param:attribute_key'))
    add('rework.rework_filter:apply', dict(activity=VAL, **par), rework, events_have('pm4py:param:activity_key'))
    add('cases.case_filter:filter_on_case_size', dict(min_case_size=TInt, max_case_size=TOpt(TInt)), size)
    out.append(Contract(A + 'cases.case_filter:filter_on_ncases', dict(log=LOG, max_no_cases=TInt), pre=lambda s: [('not negative', And(s.max_no_cases >= 0, Log(s).ntr(s.log) >= 0))], post=first_n, result=LOG, allocates=True))
    return out


ASSUMPTIONS = ['the log passed is an event log (the conversion to an event log returns it unchanged); its header dictionaries are shared with the new log']
BOUNDED = ['filters on tables', 'variant, top-k and coverage filters, performance filters, eventually-follows and time-range filters, between/prefix/suffix filters and event-level attribute filters of logs']
NOTE = ('Proved for all logs and arguments (both settings of the keep/remove switch, lists and sets of values): filtering on start activities, end activities, attribute values at case level, case attributes, directly-follows paths, rework, case size and number of cases '
        'returns a new log whose cases are exactly the matching (non-empty, where stated) cases in their original order, as the same objects, and changes nothing of the given log.')
