"""C20 Filtering an object-centric log keeps it referentially intact."""
import ast
import z3
from pyvc.types import *
from pyvc.core import And, Or, Not, TRUE, FALSE, HostV, SV, NONE, OpaqueV, ParamsV, Unsupported, Source, Loc, TUnk, ExtV, TupV
from pyvc.contract import Contract, LoopInv
from pyvc import syms
from .petri import fa
from .log import get_param_value, prm, params, PTYPES

OC = 'pm4py.objects.ocel.obj:OCEL'
OCEL = TRef(OC)
DF = 'pandas:DataFrame'
ROW, SER = TU('Row'), None
F = 'pm4py.algo.filtering.ocel.'
U = 'pm4py.objects.ocel.util.filtering_utils:'
S = 'pm4py.filtering:'
COL = z3.ArraySort(ROW.sort(), STR)
TABLES = ('events', 'objects', 'relations', 'o2o', 'e2e', 'object_changes')
NAMES = {'event_id_column': ('param:event:id', 'ocel:eid'), 'object_id_column': ('param:object:id', 'ocel:oid'), 'object_type_column': ('param:object:type', 'ocel:type'),
         'event_activity': ('param:event:activity', 'ocel:activity'), 'event_timestamp': ('param:event:timestamp', 'ocel:timestamp'),
         'qualifier': ('param:qualifier', 'ocel:qualifier'), 'changed_field': ('param:chngfield', 'ocel:field')}
ROWS = TSet(ROW)
COLS = TSet(TStr)
# the order of the rows of a table; comparison of values; the moment a text denotes
BEFORE = z3.Function('row_before', ROW.sort(), ROW.sort(), z3.BoolSort())
LE = z3.Function('value_le', STR, STR, z3.BoolSort())
MOMENT = z3.Function('moment', STR, STR)
CAT = z3.Function('strcat', STR, STR, STR)


class TCells(T):
    """the cells of a table: column, row -> value"""
    name = 'Cells'

    def sort(self):
        return z3.ArraySort(STR, COL)


class TFrame(TRef):
    def host(self, e):
        return FrameV(e)


CELLS = TCells()
FRAME = TFrame(DF)


def row():
    return z3.FreshConst(ROW.sort(), 'r')


class FrameV(HostV):
    """a table: its rows, the values of its cells; selecting rows makes a new table, setting or deleting a column changes this one"""
    t = FRAME

    def __init__(self, e):
        self.e = e

    def get(self, ip, f):
        return sel(ip.heap((DF, f)), self.e)

    def put(self, ip, f, v):
        ip.st.heap[(DF, f)] = z3.Store(ip.heap((DF, f)), self.e, v)

    def new(self, ip, rows):
        r = ip.fresh(REF, 'new_table')
        al = ip.st.cells.get('alloc')
        if al is None:
            al = z3.Const('alloc!0', z3.ArraySort(REF, z3.BoolSort()))
        ip.assume(Not(sel(al, r)))
        ip.st.cells['alloc'] = z3.Store(al, r, TRUE)
        n = FrameV(r)
        n.put(ip, 'cells', self.get(ip, 'cells'))
        n.put(ip, 'cols', self.get(ip, 'cols'))
        n.put(ip, 'rows', rows)
        return n

    def copy(self, ip):
        return self.new(ip, self.get(ip, 'rows'))

    def getitem(self, ip, k):
        if isinstance(k, MaskV):
            r = row()
            return self.new(ip, lam(r, And(sel(self.get(ip, 'rows'), r), k.f(r))))
        c = ip.term(k, TStr)
        col, rows = sel(self.get(ip, 'cells'), c), self.get(ip, 'rows')
        return SeriesV(lambda r: sel(rows, r), lambda r: sel(col, r))

    def setitem(self, ip, k, v):
        c = ip.term(k, TStr)
        if isinstance(v, SeriesV):
            r = row()
            self.put(ip, 'cells', z3.Store(self.get(ip, 'cells'), c, lam(r, v.f(r))))
            self.put(ip, 'cols', z3.Store(self.get(ip, 'cols'), c, TRUE))
            return
        raise Unsupported('assignment to a column')

    def delitem(self, ip, k):
        self.put(ip, 'cols', z3.Store(self.get(ip, 'cols'), ip.term(k, TStr), FALSE))

    def contains(self, ip, x):
        return sel(self.get(ip, 'cols'), ip.term(x, TStr))

    def method(self, ip, name, args, kw, n):
        if name in ('copy', '__copy__', '__deepcopy__'):
            return self.copy(ip)
        if name == 'groupby' and len(args) == 1 and not kw:
            return GroupV(self, ip.term(args[0], TStr))
        raise Unsupported('method %s of a table' % name)


class SeriesV(HostV):
    """the values f(r) of the rows r with inn(r)"""

    def __init__(self, inn, f):
        self.inn, self.f = inn, f

    def has(self, x):
        r = row()
        return z3.Exists([r], And(self.inn(r), self.f(r) == x))

    def contains(self, ip, x):
        return self.has(ip.term(x, TStr))

    def source(self, ip):
        r = row()
        return Source([r], self.inn(r), SV(TStr, self.f(r)))

    def copy(self, ip):
        return self

    def method(self, ip, name, args, kw, n):
        if name in ('unique', 'to_numpy', 'tolist', 'to_list', 'dropna') and not args and not kw:
            return self         # identifiers and types are not missing values
        if name == 'isin' and len(args) == 1:
            v = ip.unopt(args[0])
            if isinstance(v, Source):
                v = ip.as_loc(v)
            return MaskV(lambda r: ip.contains(v, SV(TStr, self.f(r))))
        raise Unsupported('method %s of a column' % name)

    def compare(self, ip, op, o):
        x = ip.term(o, TStr)
        k = {ast.Eq: lambda r: self.f(r) == x, ast.NotEq: lambda r: self.f(r) != x, ast.GtE: lambda r: LE(x, self.f(r)), ast.LtE: lambda r: LE(self.f(r), x),
             ast.Gt: lambda r: Not(LE(self.f(r), x)), ast.Lt: lambda r: Not(LE(x, self.f(r)))}.get(type(op))
        if k is None:
            raise Unsupported('comparison of a column')
        return MaskV(k)

    def binop(self, ip, op, o):
        if not isinstance(op, ast.Add):
            raise Unsupported('operator on a column')
        g = o.f if isinstance(o, SeriesV) else (lambda e: lambda r: e)(ip.term(o, TStr))
        return SeriesV(self.inn, lambda r: CAT(self.f(r), g(r)))


class MaskV(HostV):
    """a truth value for each row"""

    def __init__(self, f):
        self.f = f

    def binop(self, ip, op, o):
        if isinstance(o, MaskV) and isinstance(op, ast.BitAnd):
            return MaskV(lambda r: And(self.f(r), o.f(r)))
        if isinstance(o, MaskV) and isinstance(op, ast.BitOr):
            return MaskV(lambda r: Or(self.f(r), o.f(r)))
        raise Unsupported('operator on truth values of rows')

    def unary(self, ip, op):
        if isinstance(op, ast.Invert):
            return MaskV(lambda r: Not(self.f(r)))
        raise Unsupported('operator on truth values of rows')


class GroupV(HostV):
    """the rows of a table, in groups of equal values of a column"""

    def __init__(self, frame, key, col=None):
        self.frame, self.key, self.col = frame, key, col

    def getitem(self, ip, k):
        return GroupV(self.frame, self.key, ip.term(k, TStr))

    def method(self, ip, name, args, kw, n):
        rows, k = self.frame.get(ip, 'rows'), sel(self.frame.get(ip, 'cells'), self.key)
        if name in ('first', 'last') and not args and not kw:
            return EndsV(self.frame, lambda r: end(rows, k, r, name == 'first'))
        if name == 'agg' and len(args) == 1 and not kw and self.col is not None and isinstance(args[0], ExtV) and args[0].name in ('list', 'builtins.list'):
            return ListsV(rows, k, sel(self.frame.get(ip, 'cells'), self.col))
        raise Unsupported('method %s of groups' % name)


class ListsV(HostV):
    """the values in a column of the rows with each value of the key column"""

    def __init__(self, rows, key, col):
        self.rows, self.key, self.col = rows, key, col

    def method(self, ip, name, args, kw, n):
        if name == 'to_dict' and not args and not kw:
            return self
        if name == 'items' and not args and not kw:
            x, r = z3.FreshConst(STR, 'x'), row()
            of = lambda r: And(sel(self.rows, r), sel(self.key, r) == x)
            return Source([x], z3.Exists([r], of(r)), TupV([SV(TStr, x), SeriesV(of, lambda r: sel(self.col, r))]))
        raise Unsupported('method %s of the lists of groups' % name)


def end(rows, k, r, first):
    """r is the first (last) of the rows with its value in column k"""
    q = row()
    return And(sel(rows, r), z3.ForAll([q], z3.Implies(And(sel(rows, q), sel(k, q) == sel(k, r)), Not(BEFORE(q, r) if first else BEFORE(r, q)))))


class EndsV(HostV):
    def __init__(self, frame, inn):
        self.frame, self.inn = frame, inn

    def getitem(self, ip, k):
        col = sel(self.frame.get(ip, 'cells'), ip.term(k, TStr))
        return SeriesV(self.inn, lambda r: sel(col, r))


def setup(w):
    w.schema[DF] = {'rows': ROWS, 'cols': COLS, 'cells': CELLS}
    d = {k: FRAME for k in TABLES}
    d.update({k: TStr for k in NAMES})
    d['globals'] = lambda ip, v: ParamsV(tag='globals!')
    d['parameters'] = lambda ip, v: ParamsV(tag='self!')
    w.schema[OC] = d
    w.models['pm4py.util.exec_utils:get_param_value'] = get_param_value
    w.models['pm4py.util.pandas_utils:format_unique'] = lambda ip, a, k, n: a[0]
    w.models['pm4py.objects.log.util.dataframe_utils:get_dt_from_string'] = w.models['pm4py.algo.filtering.common.timestamp.timestamp_common:get_dt_from_string'] = \
        lambda ip, a, k, n: SV(TStr, MOMENT(ip.term(a[0], TStr)))


# ---------------------------------------------------------------- vocabulary
class V:
    """the log at entry (or the result at exit)"""

    def __init__(self, s, o, now=False):
        self.h = s.heap_now if now else s.heap
        self.o = o

    def f(self, name):
        return sel(self.h(OC, name), self.o)

    def rows(self, t, r):
        return sel(sel(self.h(DF, 'rows'), self.f(t)), r)

    def cols(self, t):
        return sel(self.h(DF, 'cols'), self.f(t))

    def cell(self, t, c, r):
        return sel(sel(sel(self.h(DF, 'cells'), self.f(t)), c), r)


def par(s, name, t, default):
    return prm(name, t, default) if 'parameters' in s.env else default


def E(s):
    return par(s, 'param:event:id', TStr, V(s, s.ocel).f('event_id_column'))


def O(s):
    return par(s, 'param:object:id', TStr, V(s, s.ocel).f('object_id_column'))


def two(c):
    return CAT(c, strlit('_2'))


def some(p):
    r = row()
    return z3.Exists([r], p(r))


def pre(s):
    v = V(s, s.ocel)
    ps = ParamsV(tag='self!')
    out = [('the log and its tables exist', And(s.alloc(s.ocel), *[s.alloc(v.f(t)) for t in TABLES])),
           ('the tables are different objects', z3.Distinct(*[v.f(t) for t in TABLES])),
           ('relations have the qualifier column', sel(v.cols('relations'), v.f('qualifier')))]
    for k, (p, d) in NAMES.items():
        out.append(('%s is the one of its parameters' % k, v.f(k) == z3.If(ps.given(p), z3.Const('glob!prm!self!%s!%s' % (p, TStr.name), STR), strlit(d))))
    return out


def consistent(s):
    """what the log relates exists"""
    v, q, c = V(s, s.ocel), row(), []
    e, o = E(s), O(s)
    ine = lambda x: some(lambda r: And(v.rows('events', r), v.cell('events', e, r) == x))
    ino = lambda x: some(lambda r: And(v.rows('objects', r), v.cell('objects', o, r) == x))
    for t, col, i in (('relations', e, ine), ('relations', o, ino)):
        c.append(('%s of the input refer to existing ones (%s)' % (t, 'events' if col is e else 'objects'), fa([q], z3.Implies(v.rows(t, q), i(v.cell(t, col, q))), v.rows(t, q))))
    return c


def outcome(events=None, objects=None, relations=None, out=None):
    """exactly the rows with the given criterion, and what belongs to them, are kept; columns and cells stay"""
    def f(s):
        v, e, o = V(s, s.ocel), E(s), O(s)
        n = V(s, s.result(OCEL), True)
        crit = lambda t, p: (lambda r: And(v.rows(t, r), p(r)))
        ids = lambda t, c, p: (lambda x: some(lambda r: And(p(r), v.cell(t, c, r) == x)))
        K = {}
        if events:
            K['events'] = crit('events', lambda r: events(s, v, r))
            ie = ids('events', e, K['events'])
            K['relations'] = crit('relations', lambda r: ie(v.cell('relations', e, r)))
            io = ids('relations', o, K['relations'])
            K['objects'] = crit('objects', lambda r: io(v.cell('objects', o, r)))
        elif objects:
            K['objects'] = crit('objects', lambda r: objects(s, v, r))
            io = ids('objects', o, K['objects'])
            K['relations'] = crit('relations', lambda r: io(v.cell('relations', o, r)))
            ie = ids('relations', e, K['relations'])
            K['events'] = crit('events', lambda r: ie(v.cell('events', e, r)))
        else:
            K0 = crit('relations', lambda r: relations(s, v, r))
            ee, oo = ids('events', e, lambda r: v.rows('events', r)), ids('objects', o, lambda r: v.rows('objects', r))
            ie0, io0 = ids('relations', e, K0), ids('relations', o, K0)
            ie, io = lambda x: And(ie0(x), ee(x)), lambda x: And(io0(x), oo(x))
            K['relations'] = lambda r: And(K0(r), ee(v.cell('relations', e, r)), oo(v.cell('relations', o, r)))
            K['events'] = crit('events', lambda r: ie(v.cell('events', e, r)))
            K['objects'] = crit('objects', lambda r: io(v.cell('objects', o, r)))
        K['e2e'] = crit('e2e', lambda r: And(ie(v.cell('e2e', e, r)), ie(v.cell('e2e', two(e), r))))
        K['o2o'] = crit('o2o', lambda r: And(io(v.cell('o2o', o, r)), io(v.cell('o2o', two(o), r))))
        K['object_changes'] = crit('object_changes', lambda r: io(v.cell('object_changes', o, r)))
        res = []
        for t in TABLES:
            r, c = row(), z3.FreshConst(STR, 'c')
            res.append(('rows kept in %s' % t, n.rows(t, r) == K[t](r)))
            res.append(('columns of %s' % t, sel(n.cols(t), c) == sel(v.cols(t), c)))
            res.append(('cells of %s' % t, z3.Implies(sel(v.cols(t), c), n.cell(t, c, r) == v.cell(t, c, r))))
        for k in NAMES:
            res.append(('%s of the result' % k, n.f(k) == v.f(k)))
        # referential integrity of the result
        kept = lambda t, c, x: some(lambda r: And(n.rows(t, r), n.cell(t, c, r) == x))
        r = row()
        res += [('relations mention kept events only', z3.Implies(n.rows('relations', r), kept('events', e, n.cell('relations', e, r)))),
                ('relations mention kept objects only', z3.Implies(n.rows('relations', r), kept('objects', o, n.cell('relations', o, r)))),
                ('object changes mention kept objects only', z3.Implies(n.rows('object_changes', r), kept('objects', o, n.cell('object_changes', o, r))))]
        res += [('object-to-object relations mention kept objects only (%s)' % x, z3.Implies(n.rows('o2o', r), kept('objects', o, n.cell('o2o', c, r)))) for x, c in (('source', o), ('target', two(o)))]
        res += [('event-to-event relations mention kept events only (%s)' % x, z3.Implies(n.rows('e2e', r), kept('events', e, n.cell('e2e', c, r)))) for x, c in (('source', e), ('target', two(e)))]
        return res
    return f


VALS = TSet(TStr)
PTYPES.update({'positive': TBool})


def pos(s):
    return prm('positive', TBool, True)


def C(qual, ps, post, more=lambda s: [], **kw):
    ps = dict(dict(ocel=OCEL), **ps)
    return Contract(qual, ps, pre=lambda s: pre(s) + consistent(s) + more(s), post=post, result=OCEL, modular=False, **kw)


def by_value(table, default):
    """the value of the attribute is among the given ones (not among them)"""
    return lambda s, v, r: sel(s.values, v.cell(table, prm('pm4py:param:attribute_key', TStr, v.f(default)), r)) == prm('positive', TBool, True)


def in_time(s, v, r):
    x = v.cell('events', prm('pm4py:param:timestamp_key', TStr, v.f('event_timestamp')), r)
    return And(LE(MOMENT(s.min_timest), x), LE(x, MOMENT(s.max_timest)))


def endpoint(first):
    """the event is the first (last) one of an object of the type"""
    def f(s, v, r):
        e, o, t = E(s), O(s), par(s, 'param:object:type', TStr, v.f('object_type_column'))
        typed = lam(q0, And(v.rows('relations', q0), v.cell('relations', t, q0) == s.object_type)) if (q0 := row()) is not None else None
        k = sel(sel(sel(v.h(DF, 'cells'), v.f('relations')), o), q0)
        return some(lambda q: And(end(typed, lam(q0, k), q, first), v.cell('relations', e, q) == v.cell('events', e, r)))
    return f


def matching(s, v, r):
    a, t = v.cell('relations', par(s, 'pm4py:param:activity_key', TStr, v.f('event_activity')), r), v.cell('relations', par(s, 'param:object:type', TStr, v.f('object_type_column')), r)
    c = s.correspondence_dict
    return And(sel(CORR.dom(c), t), sel(sel(CORR.val(c), t), a))


def pre_matching(s):
    v = V(s, s.ocel)
    tc, sep = par(s, 'temp_column', TStr, strlit('@@temp_column')), par(s, 'temp_separator', TStr, strlit('@#@#'))
    a, b, x, y, z = [z3.FreshConst(STR, n) for n in 'abxyz']
    l, r = CAT(CAT(a, z), x), CAT(CAT(b, z), y)
    return [('the temporary column is not one of the relations', Not(sel(v.cols('relations'), tc))),
            ('the name of the temporary column differs from the other columns read', And(*[tc != z for z in (E(s), O(s), par(s, 'pm4py:param:activity_key', TStr, v.f('event_activity')), par(s, 'param:object:type', TStr, v.f('object_type_column')))])),
            ('the separator separates: joined names are equal only for equal parts', z3.ForAll([a, b, x, y, z], z3.Implies(And(z == sep, l == r), And(a == b, x == y)), patterns=[z3.MultiPattern(l, r)]))]


CORR = TDict(TStr, TSet(TStr))
LEAST = TDict(TStr, TInt)
COUNTER = TDict(TStr, TInt, counter=True)
COUNTS = TDict(TStr, COUNTER)
G = 'pm4py.statistics.ocel.objects_ot_count:get_objects_ot_count'


def ot_count(s, e, t):
    """number of relations of event e to objects of type t"""
    v, r = V(s, s.ocel), row()
    ty = par(s, 'param:object:type', TStr, v.f('object_type_column'))
    return syms.SUM(r, z3.If(And(v.rows('relations', r), v.cell('relations', E(s), r) == e, v.cell('relations', ty, r) == t), z3.IntVal(1), z3.IntVal(0)))


def related(s, e, t=None):
    v = V(s, s.ocel)
    ty = par(s, 'param:object:type', TStr, v.f('object_type_column'))
    return some(lambda r: And(v.rows('relations', r), v.cell('relations', E(s), r) == e, *([v.cell('relations', ty, r) == t] if t is not None else [])))


# names of: event e has relations; ... to objects of type t; their number; at least the required number; for every required type
HASREL = z3.Function('has_relations', STR, z3.BoolSort())
HASTYPE = z3.Function('has_relations_of', STR, STR, z3.BoolSort())
NUMBER = z3.Function('number_of', STR, STR, z3.IntSort())
REACHES = z3.Function('reaches', STR, STR, z3.BoolSort())
ENOUGH = z3.Function('enough', STR, z3.BoolSort())
LACKS = z3.Function('lacks', STR, STR)


def define_counts(s):
    e, t = z3.FreshConst(STR, 'e'), z3.FreshConst(STR, 't')
    return [('definition: has relations', fa([e], HASREL(e) == related(s, e), HASREL(e))),
            ('definition: has relations of a type', fa([e, t], HASTYPE(e, t) == related(s, e, t), HASTYPE(e, t))),
            ('definition: number of relations of a type', fa([e, t], NUMBER(e, t) == ot_count(s, e, t), NUMBER(e, t)))]


def post_counts(s):
    c, e, t = s.result(COUNTS), z3.FreshConst(STR, 'e'), z3.FreshConst(STR, 't')
    d = sel(COUNTS.val(c), e)
    return [('exactly the events with relations', fa([e], sel(COUNTS.dom(c), e) == HASREL(e), sel(COUNTS.dom(c), e), HASREL(e))),
            ('number of objects of each type', fa([e, t], z3.Implies(sel(COUNTS.dom(c), e), sel(COUNTER.val(d), t) == NUMBER(e, t)), sel(COUNTER.val(d), t), NUMBER(e, t))),
            ('only types that occur', fa([e, t], z3.Implies(sel(COUNTS.dom(c), e), sel(COUNTER.dom(d), t) == HASTYPE(e, t)), sel(COUNTER.dom(d), t), HASTYPE(e, t)))]


def define_enough(s):
    m, e, k = s.min_num_obj_type, z3.FreshConst(STR, 'e'), z3.FreshConst(STR, 'k')
    w = LACKS(e)
    return define_counts(s) + [
        ('definition: the required number of a type', fa([e, k], REACHES(e, k) == And(HASTYPE(e, k), NUMBER(e, k) >= sel(LEAST.val(m), k)), REACHES(e, k))),
        ('definition: enough objects of every required type', fa([e, k], z3.Implies(And(ENOUGH(e), sel(LEAST.dom(m), k)), REACHES(e, k)), REACHES(e, k))),
        ('definition: a required type without enough objects', fa([e], z3.Implies(Not(ENOUGH(e)), And(sel(LEAST.dom(m), w), Not(REACHES(e, w)))), ENOUGH(e)))]


def enough(s, v, r):
    e = v.cell('events', E(s), r)
    return And(HASREL(e), ENOUGH(e))


def in_place(post):
    def f(s):
        o = z3.FreshConst(REF, 'o')
        return post(s) + [('the log itself is returned', s.result(OCEL) == s.ocel)] + [('other logs keep %s' % t, z3.Implies(o != s.ocel, sel(s.heap_now(OC, t), o) == sel(s.heap(OC, t), o))) for t in TABLES]
    return f


def api(table, col):
    return lambda s, v, r: sel(s.values_, v.cell(table, col(s, v), r)) == s.positive


def level1(s):
    return [('level one', s.level == 1)]


def inv_types(l):
    k = z3.FreshConst(STR, 'k')
    x = l.v('evid')
    return [('no visited type lacks objects', l.at('is_ok', TBool)), ('every visited type has enough objects', fa([k], z3.Implies(sel(l.done, k), REACHES(x, k)), REACHES(x, k)))]


def inv_events(l):
    x = z3.FreshConst(STR, 'x')
    return [('the visited events with enough objects', fa([x], sel(l.v('filt_evs'), x) == And(sel(l.done, x), ENOUGH(x)), sel(l.v('filt_evs'), x), ENOUGH(x)))]


def CONTRACTS():
    P = dict(parameters=params)
    keep = lambda s, v, r: TRUE
    mods = [(OC, t) for t in TABLES]
    F2 = dict(positive=TBool)
    return [
        C(U + 'propagate_event_filtering', P, in_place(outcome(events=keep)), modifies=mods),
        C(U + 'propagate_object_filtering', P, in_place(outcome(objects=keep)), modifies=mods),
        C(U + 'propagate_relations_filtering', P, in_place(outcome(relations=keep)), modifies=mods),
        C(F + 'event_attributes:apply', dict(P, values=VALS), outcome(events=by_value('events', 'event_activity'))),
        C(F + 'event_attributes:apply_timestamp', dict(P, min_timest=TStr, max_timest=TStr), outcome(events=in_time)),
        C(F + 'object_attributes:apply', dict(P, values=VALS), outcome(objects=by_value('objects', 'object_type_column'))),
        C(F + 'activity_type_matching:apply', dict(P, correspondence_dict=CORR), outcome(relations=matching), more=pre_matching),
        C(F + 'ot_endpoints:filter_start_events_per_object_type', dict(P, object_type=TStr), outcome(events=endpoint(True))),
        C(F + 'ot_endpoints:filter_end_events_per_object_type', dict(P, object_type=TStr), outcome(events=endpoint(False))),
        Contract(G, dict(P, ocel=OCEL), pre=lambda s: pre(s) + define_counts(s), post=post_counts, result=COUNTS),
        C(F + 'objects_ot_count:apply', dict(P, min_num_obj_type=LEAST), outcome(events=enough), more=define_enough, loops={0: LoopInv(inv_events), 1: LoopInv(inv_types)}),
        C(S + 'filter_ocel_object_per_type_count', dict(min_num_obj_type=LEAST), outcome(events=enough), more=define_enough, loops={}),
        C(S + 'filter_ocel_event_attribute', dict(attribute_key=TStr, attribute_values=VALS, positive=TBool), outcome(events=lambda s, v, r: sel(s.attribute_values, v.cell('events', s.attribute_key, r)) == s.positive)),
        C(S + 'filter_ocel_object_attribute', dict(attribute_key=TStr, attribute_values=VALS, positive=TBool), outcome(objects=lambda s, v, r: sel(s.attribute_values, v.cell('objects', s.attribute_key, r)) == s.positive)),
        C(S + 'filter_ocel_object_types_allowed_activities', dict(correspondence_dict=CORR), outcome(relations=matching), more=pre_matching),
        C(S + 'filter_ocel_start_events_per_object_type', dict(object_type=TStr), outcome(events=endpoint(True))),
        C(S + 'filter_ocel_end_events_per_object_type', dict(object_type=TStr), outcome(events=endpoint(False))),
        C(S + 'filter_ocel_events_timestamp', dict(min_timest=TStr, max_timest=TStr, timestamp_key=TStr), outcome(events=lambda s, v, r: And(LE(MOMENT(s.min_timest), v.cell('events', s.timestamp_key, r)), LE(v.cell('events', s.timestamp_key, r), MOMENT(s.max_timest))))),
        C(S + 'filter_ocel_events', dict(event_identifiers=VALS, positive=TBool), outcome(events=lambda s, v, r: sel(s.event_identifiers, v.cell('events', E(s), r)) == s.positive)),
        C(S + 'filter_ocel_object_types', dict(obj_types=VALS, positive=TBool, level=TInt), outcome(objects=lambda s, v, r: sel(s.obj_types, v.cell('objects', v.f('object_type_column'), r)) == s.positive), more=level1),
        C(S + 'filter_ocel_objects', dict(object_identifiers=VALS, positive=TBool, level=TInt), outcome(objects=lambda s, v, r: sel(s.object_identifiers, v.cell('objects', O(s), r)) == s.positive), more=level1),
    ]


BOUNDED = 'filter_ocel_objects and filter_ocel_object_types with level above one, and the four filters on connected components (networkx code): random logs against a direct implementation; the tables there are real pandas tables'

ASSUMPTIONS = ['tables are modelled as a set of rows with a value in each column: selection by a mask keeps exactly the rows of the mask and makes a new table; isin, ==, <=, >=, ~, &, | and + act row by row; unique gives the values of a column; '
               'groupby(c).first() / last() give the first / last row of each value of c, groupby(c)[d].agg(list) the values of d in the rows of each value of c (pandas)',
               'the columns a filter reads exist, and identifiers and types are not missing values; the relations have the qualifier column (the constructor adds it)',
               'the column names of the log are those its parameters determine (set by the constructor)',
               'the temporary column of the activity-type filter is not a column of the log, and its separator does not occur in such a way that joined names coincide']


NOTE = ('Proved for all object-centric logs in which relations refer to existing events and objects, all column names and arguments: each filter on events, objects, their attributes, types, timestamps, end points, counts and activity-type matching returns a new log '
        'whose tables consist of exactly the rows selected by the criterion and the rows that belong to kept events and objects; relations, object-to-object, event-to-event and object-change tables of the result mention kept events and objects only; '
        'columns, cells and column names are those of the input, and the input log and its tables are unchanged (frame conditions). Component filters and higher levels are checked within bounds.')
