"""C12 Business-hours duration equals the overlap with the working slots."""
import z3
from pyvc.types import *
from pyvc.core import And, Or, Not, SV, NONE, Unsupported, sel, TRUE
from pyvc.contract import Contract, LoopInv
from pyvc import syms
from pyvc.types import _Prim
from .petri import fa

M = 'pm4py.util.business_hours'
BH = M + ':BusinessHours'
SELF = TRef(BH)
DTZ = TU('DateTime')                        # a timestamp with or without a zone
DT = _Prim('NaiveDateTime', z3.RealSort())    # seconds since Monday 0001-01-01 00:00
TD = _Prim('TimeDelta', z3.RealSort())
DATE = _Prim('Date', z3.IntSort())          # days since Monday 0001-01-01
CAL = TU('Calendar')
SLOT = TTuple(TReal, TReal)
SLOTS = TList(SLOT)
ROW = TList(TReal)
ROWS = TList(ROW)
DAY, WEEK = 86400, 604800
wall = z3.Function('wall_clock', DTZ.sort(), z3.RealSort())


def R(x):
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x


def setup(w):
    w.schema[BH] = {'datetime1': DT, 'datetime2': DT, 'business_hour_slots': SLOTS, 'business_hour_slots_unified': ROWS, 'work_calendar': CAL}
    w.facts = definitions
    m = w.models

    def replace(ip, v, args, kw, n):
        if list(kw) == ['tzinfo'] and kw['tzinfo'] is NONE and not args and isinstance(v, SV) and v.t in (DTZ, DT):
            return SV(DT, wall(v.e)) if v.t == DTZ else v
        raise Unsupported('replace')
    m['.replace'] = replace

    def date(ip, v, args, kw, n):
        if isinstance(v, SV) and v.t == DT and not args:
            return SV(DATE, z3.ToInt(v.e / DAY))
        raise Unsupported('date')
    m['.date'] = date

    def weekday(ip, v, args, kw, n):
        if isinstance(v, SV) and v.t in (DT, DATE):
            d = v.e if v.t == DATE else z3.ToInt(v.e / DAY)
            return SV(TInt, d % 7)
        raise Unsupported('weekday')
    m['.weekday'] = weekday
    m['.isoweekday'] = lambda ip, v, args, kw, n: SV(TInt, weekday(ip, v, args, kw, n).e + 1)

    def timedelta(ip, args, kw, n):
        tot = z3.RealVal(0)
        for k, u in zip(('days', 'seconds'), args):
            kw = dict(kw, **{k: u})
        for k, v in kw.items():
            u = {'days': DAY, 'seconds': 1, 'minutes': 60, 'hours': 3600, 'weeks': WEEK}.get(k)
            if u is None:
                raise Unsupported('timedelta ' + k)
            tot = tot + ip.term(v, TReal) * u
        return SV(TD, tot)
    m['datetime.timedelta'] = timedelta

    def combine(ip, args, kw, n):
        d, t = args
        if isinstance(d, SV) and d.t == DATE and getattr(t, 'name', '') == 'datetime.time.min':
            return SV(DT, R(d.e) * DAY)
        raise Unsupported('combine')
    m['datetime.datetime.combine'] = combine
    m['.total_seconds'] = lambda ip, v, args, kw, n: SV(TReal, v.e)

    def arith(name):
        def f(ip, a, b):
            ta, tb = getattr(a, 't', None), getattr(b, 't', None)
            if not (isinstance(a, SV) and isinstance(b, SV)):
                raise Unsupported('date arithmetic')
            x, y = R(a.e), R(b.e)
            if ta == DATE and tb == TD:     # whole days of the duration count
                return SV(DATE, a.e + z3.ToInt(y / DAY) if name == 'Add' else a.e - z3.ToInt(y / DAY))
            if (ta, tb) == (DT, TD):
                return SV(DT, x + y if name == 'Add' else x - y)
            if (ta, tb) == (TD, DT) and name == 'Add':
                return SV(DT, x + y)
            if (ta, tb) == (DT, DT) and name == 'Sub':
                return SV(TD, x - y)
            if (ta, tb) == (TD, TD):
                return SV(TD, x + y if name == 'Add' else x - y)
            raise Unsupported('date arithmetic')
        return f

    def minmax(ip, vals, ismin):
        r = vals[0].e
        for v in vals[1:]:
            if v.t != vals[0].t:
                raise Unsupported('order of dates')
            r = z3.If(v.e < r, v.e, r) if ismin else z3.If(v.e > r, v.e, r)
        return SV(vals[0].t, r)

    def cmp(ip, op, a, b):
        if a.t != b.t:
            raise Unsupported('order of dates')
        return {'Lt': a.e < b.e, 'LtE': a.e <= b.e, 'Gt': a.e > b.e, 'GtE': a.e >= b.e}[type(op).__name__]
    for t in (DT, TD, DATE):
        for o in ('Add', 'Sub'):
            m[(t.name, o)] = arith(o)
        m[(t.name, 'minmax')] = minmax
        m[(t.name, 'cmp')] = cmp


RS = z3.RealSort()
overlap = z3.Function('overlap', RS, RS, RS, RS, RS)
monday = z3.Function('monday_before', RS, RS)       # the begin of the week
share = z3.Function('share', RS, RS, RS, RS, z3.IntSort(), RS)      # the overlap with an interval moved by some weeks
passed = z3.Function('weeks_passed', RS, RS, z3.IntSort())


def definitions(ip):
    a, b, c, d = z3.Reals('a! b! c! d!')
    lo, hi = z3.If(c > a, c, a), z3.If(d < b, d, b)
    n, k = z3.ToInt(a / DAY), z3.Int('k!')
    l, sl = z3.Const('l!', ROWS.sort()), z3.Const('sl!', SLOTS.sort())
    return [z3.ForAll([sl, l], UNIFIED(sl, l) == And(*[f for _, f in unified(sl, l)]), patterns=[UNIFIED(sl, l)]), z3.ForAll([a, b, c, d], overlap(a, b, c, d) == z3.If(hi - lo > 0, hi - lo, z3.RealVal(0)), patterns=[overlap(a, b, c, d)]),
            z3.ForAll([a, b, c, d, k], share(a, b, c, d, k) == overlap(a, b, c + WEEK * R(k), d + WEEK * R(k)), patterns=[share(a, b, c, d, k)]),
            z3.ForAll([a, b], passed(a, b) == z3.ToInt((b - a) / WEEK), patterns=[passed(a, b)]),
            z3.ForAll([a], monday(a) == R(n - n % 7) * DAY, patterns=[monday(a)])]


def iv(n='i'):
    return z3.FreshConst(z3.IntSort(), n)


def begin(rows, i):
    return sel(ROW.arr(sel(ROWS.arr(rows), i)), z3.IntVal(0))


def end(rows, i):
    return sel(ROW.arr(sel(ROWS.arr(rows), i)), z3.IntVal(1))


def rows_ok(rows):
    i = iv()
    r = sel(ROWS.arr(rows), i)
    return And(ROWS.len(rows) >= 0, fa([i], z3.Implies(And(i >= 0, i < ROWS.len(rows)), ROW.len(r) == 2), r))


def separate(rows):
    i, j = iv(), iv('j')
    return fa([i, j], z3.Implies(And(i >= 0, i < j, j < ROWS.len(rows)), end(rows, i) + 1 < begin(rows, j)), begin(rows, j), begin(rows, i))


def slots_in_week(l):
    i = iv()
    e = sel(SLOTS.arr(l), i)
    b, f = SLOT.get(e, 0), SLOT.get(e, 1)
    return fa([i], z3.Implies(And(i >= 0, i < SLOTS.len(l)), And(0 <= b, b <= f, f <= WEEK)), e)


def rows_in_week(l):
    i = iv()
    return fa([i], z3.Implies(And(i >= 0, i < ROWS.len(l)), And(0 <= begin(l, i), begin(l, i) <= end(l, i), end(l, i) <= WEEK)), begin(l, i))


ROW_AT = z3.Function('row_at', z3.IntSort(), z3.BoolSort())        # always true: names the rows and moments to consider
ONE = z3.Function('a_slot', SLOT.sort(), z3.BoolSort())
UNIFIED = z3.Function('unified', SLOTS.sort(), ROWS.sort(), z3.BoolSort())
MOMENT = z3.Function('moment', z3.RealSort(), z3.BoolSort())


def exists(v, b, *pats):
    return z3.Exists([v], b, patterns=list(pats))


def covers(slots, rows, upto=None):
    """every slot lies in a row"""
    i, j = iv(), iv('j')
    e = sel(SLOTS.arr(slots), i)
    v = z3.FreshConst(SLOT.sort(), 'v')
    return z3.ForAll([v], z3.Implies(And(ONE(v), exists(i, And(i >= 0, i < (SLOTS.len(slots) if upto is None else upto), v == e), e)),
                                     exists(j, And(ROW_AT(j), j >= 0, j < ROWS.len(rows), begin(rows, j) <= SLOT.get(v, 0), SLOT.get(v, 1) <= end(rows, j)), ROW_AT(j))), patterns=[ONE(v)])


def covered(slots, rows, upto=None):
    """every moment of a row lies in a slot, or in the gap of at most one second before one"""
    i, j = iv(), iv('j')
    x = z3.FreshConst(z3.RealSort(), 'x')
    e = sel(SLOTS.arr(slots), i)
    return z3.ForAll([j, x], z3.Implies(And(ROW_AT(j), MOMENT(x), j >= 0, j < ROWS.len(rows), begin(rows, j) <= x, x <= end(rows, j)),
                     exists(i, And(i >= 0, i < (SLOTS.len(slots) if upto is None else upto), SLOT.get(e, 0) - 1 <= x, x <= SLOT.get(e, 1)), e)), patterns=[z3.MultiPattern(ROW_AT(j), MOMENT(x))])


def bounded(slots, rows, upto=None):
    """every row begins where a slot begins and ends where one ends"""
    i, j = iv(), iv('j')
    e = sel(SLOTS.arr(slots), i)
    n = SLOTS.len(slots) if upto is None else upto
    return fa([j], z3.Implies(And(ROW_AT(j), j >= 0, j < ROWS.len(rows)), And(exists(i, And(i >= 0, i < n, SLOT.get(e, 0) == begin(rows, j)), e), exists(i, And(i >= 0, i < n, SLOT.get(e, 1) == end(rows, j)), e))), ROW_AT(j))


F1, F2, FS, FU, FC = [(BH, k) for k in ('datetime1', 'datetime2', 'business_hour_slots', 'business_hour_slots_unified', 'work_calendar')]


def unified(slots, rows):
    return [('rows have a begin and an end', rows_ok(rows)), ('rows are apart', separate(rows)), ('rows lie in the week', rows_in_week(rows)),
            ('every slot lies in a row', covers(slots, rows)), ('rows consist of slots', covered(slots, rows)), ('rows begin and end with slots', bounded(slots, rows))]


def joining(l):
    rows = sel(l.heap(*FU), l.v('self'))
    slots = l.ip.read(l.src.loc)
    k, j = iv('k'), iv('j')
    last = ROWS.len(rows) - 1
    o = z3.FreshConst(REF, 'o')
    return [('rows have a begin and an end', rows_ok(rows)), ('rows are apart', separate(rows)), ('rows lie in the week', rows_in_week(rows)),
            ('every slot so far lies in a row', covers(slots, rows, l.done)), ('rows consist of slots so far', covered(slots, rows, l.done)), ('rows begin and end with slots so far', bounded(slots, rows, l.done)),
            ('a row there is once there was a slot', z3.Implies(l.done > 0, last >= 0)),
            ('slots to come begin later', fa([k], z3.Implies(And(k >= l.done, k < SLOTS.len(slots), last >= 0), begin(rows, last) <= SLOT.get(sel(SLOTS.arr(slots), k), 0)), sel(SLOTS.arr(slots), k))),
            ('other objects are unchanged', fa([o], z3.Implies(o != l.v('self'), sel(l.heap(*FU), o) == sel(l.heap_old(*FU), o)), sel(l.heap(*FU), o)))]


def considered(l):
    rows = sel(l.heap(*FU), l.v('self'))
    slots = l.ip.read(l.src.loc)
    return [ROW_AT(ROWS.len(rows) - 1), ROW_AT(ROWS.len(rows)), ROW.len(sel(ROWS.arr(rows), ROWS.len(rows) - 1)) >= 0, SLOT.get(sel(SLOTS.arr(slots), l.done), 0) == SLOT.get(sel(SLOTS.arr(slots), l.done), 0)]


def built(s):
    me = s.self
    return [('the first wall-clock time', sel(s.heap_now(*F1), me) == wall(s.datetime1)), ('the second wall-clock time', sel(s.heap_now(*F2), me) == wall(s.datetime2)),
            ('others keep their fields', others(s))] + unified(s.business_hour_slots, sel(s.heap_now(*FU), me)) + [('hence the rows are the unified slots', UNIFIED(s.business_hour_slots, sel(s.heap_now(*FU), me)))]


def others(s):
    o = z3.FreshConst(REF, 'o')
    return And(*[fa([o], z3.Implies(o != s.self, sel(s.heap_now(*f), o) == sel(s.heap(*f), o)), sel(s.heap_now(*f), o)) for f in (F1, F2, FS, FU, FC)])


def part(rows, i, k, d1, d2):
    """the share of the interval in row i of week k"""
    return share(d1, d2, monday(d1) + begin(rows, i), monday(d1) + end(rows, i), k)


def total(rows, d1, d2, upto=None):
    i, k = iv(), iv('k')
    return syms.SUM(i, z3.If(And(i >= 0, i < (ROWS.len(rows) if upto is None else upto)), weeks(rows, i, d1, d2), z3.RealVal(0)))


def weeks(rows, i, d1, d2):
    """this week and all later ones"""
    k = iv('k')
    return part(rows, i, z3.IntVal(0), d1, d2) + syms.SUM(k, z3.If(k >= 1, part(rows, i, k, d1, d2), z3.RealVal(0)))


def seconds(s):
    me = s.self
    return TReal, total(sel(s.heap(*FU), me), sel(s.heap(*F1), me), sel(s.heap(*F2), me))


def usable(s):
    rows = sel(s.heap(*FU), s.self)
    return [('rows have a begin and an end', rows_ok(rows)), ('rows lie in the week', rows_in_week(rows)), ('the interval is not empty', sel(s.heap(*F1), s.self) <= sel(s.heap(*F2), s.self))]


def number(a0, a):
    """of the weeks from a0 to a (full weeks added to a are added to the number)"""
    a = z3.simplify(a)
    n = 0
    if z3.is_add(a):
        c = [x for x in a.children() if z3.is_rational_value(x)]
        if c and c[0].as_fraction() % WEEK == 0:
            n = int(c[0].as_fraction() // WEEK)
    return passed(a0, z3.simplify(a - n * WEEK)) + n


def weekly(l):
    """after K further weeks"""
    a, b, a0, b0 = l.v('bh_start'), l.v('bh_end'), l.old('bh_start'), l.old('bh_end')
    d1, d2 = sel(l.heap(*F1), l.v('self')), sel(l.heap(*F2), l.v('self'))
    K, k = number(a0, a), iv('k')
    s = syms.SUM(k, z3.If(And(k >= 1, k <= K), share(d1, d2, a0, b0, k), z3.RealVal(0)))
    return [('weeks passed', And(K >= 0, a == a0 + WEEK * R(K), b == b0 + WEEK * R(K))), ('their share is counted', R(l.v('sum')) == R(l.old('sum')) + s)]


def counted(l):
    me = l.v('self')
    return [('the rows so far are counted', R(l.v('sum')) == total(sel(l.heap(*FU), me), sel(l.heap(*F1), me), sel(l.heap(*F2), me), l.done))]


def left(l):
    return z3.ToInt((sel(l.heap(*F2), l.v('self')) - l.v('bh_start')) / WEEK)


def clamp(x, d1, d2):
    return z3.If(x < d1, d1, z3.If(x > d2, d2, x))


def upto_week(rows, i, d1, d2, K):
    k = iv('k')
    return part(rows, i, z3.IntVal(0), d1, d2) + syms.SUM(k, z3.If(And(k >= 1, k <= K), part(rows, i, k, d1, d2), z3.RealVal(0)))


def LEMMAS():
    rows, other, slots = z3.Const('rows', ROWS.sort()), z3.Const('other', ROWS.sort()), z3.Const('slots', SLOTS.sort())
    d1, d2 = z3.Reals('d1 d2')
    n, K, a = z3.Ints('n K a')
    N = ROWS.len(rows)
    defs = definitions(None)
    base = defs + [rows_ok(rows), rows_in_week(rows), separate(rows), d1 <= d2]
    i = iv()
    m = monday(d1)
    zero = z3.RealVal(0)
    week = lambda n, k: syms.SUM(i, z3.If(And(i >= 0, i < n), part(rows, i, k, d1, d2), zero))          # one week, the first n rows
    many = lambda K: syms.SUM(i, z3.If(And(i >= 0, i < N), upto_week(rows, i, d1, d2, K), zero))        # weeks 0..K
    cl = lambda x: clamp(x, d1, d2)
    at = lambda k: m + WEEK * R(k)
    top = lambda n, k: cl(at(k) + z3.If(n > 0, end(rows, n - 1), 0)) - cl(at(k))
    ind = And(n >= 0, n < N, K >= 0, week(n, K) <= top(n, K))
    all_week = week(N, K) <= cl(at(K + 1)) - cl(at(K))
    w1 = lambda k: week(z3.IntVal(1), k)
    full = defs + [rows_ok(rows), N == 1, begin(rows, z3.IntVal(0)) == 0, end(rows, z3.IntVal(0)) == WEEK, d1 <= d2]
    tot = total(rows, d1, d2)
    x = z3.Real('x!')
    j = iv('j')
    whole = z3.ForAll([x], z3.Implies(And(MOMENT(x), 0 <= x, x <= WEEK), exists(j, And(ROW_AT(j), j >= 0, j < N, begin(rows, j) <= x, x <= end(rows, j)), ROW_AT(j))), patterns=[MOMENT(x)])
    slot = lambda i, k: SLOT.get(sel(SLOTS.arr(slots), i), k)
    M_ = SLOTS.len(slots)
    i0, v, i1, r2, q, c = z3.Ints('i0 v i1 r2 q c')
    # what unified(slots, rows) and unified(slots, other) say about the row a, its slot and the row v with that slot
    in_row = lambda rows, i, j: And(0 <= j, j < ROWS.len(rows), begin(rows, j) <= slot(i, 0), slot(i, 1) <= end(rows, j))
    k1, k2 = z3.Ints('k1 k2')
    apart = lambda r: z3.ForAll([k1, k2], z3.Implies(And(k1 >= 0, k1 < k2, k2 < ROWS.len(r)), end(r, k1) + 1 < begin(r, k2)), patterns=[z3.MultiPattern(sel(ROWS.arr(r), k1), sel(ROWS.arr(r), k2))])
    two = [f for r in (rows, other) for f in (rows_ok(r), rows_in_week(r), apart(r))] + [0 <= a, a < N]

    def unique(edge, far):
        k = 0 if edge is begin else 1
        mid = (end(rows, a - 1) + begin(rows, a) - 1) / 2 if edge is begin else (begin(rows, a + 1) - 1 + end(rows, a)) / 2
        return two + [slot(x, 0) <= slot(x, 1) for x in (i0, i1, q)] + [0 <= i0, i0 < M_, slot(i0, k) == edge(rows, a), in_row(rows, i0, a), in_row(other, i0, v),
                      0 <= i1, i1 < M_, slot(i1, k) == edge(other, v), in_row(rows, i1, r2),
                      z3.Implies(And(begin(other, v) <= mid, mid <= end(other, v)), And(0 <= q, q < M_, slot(q, 0) - 1 <= mid, mid <= slot(q, 1), in_row(rows, q, c))),
                      MOMENT(begin(rows, far)), MOMENT(end(rows, a)), MOMENT(begin(rows, a))]
    return [
        ('the duration is never negative', base, tot >= 0),
        ('elapsed time, within a week: no row', base, week(z3.IntVal(0), K) <= top(z3.IntVal(0), K)),
        ('elapsed time, within a week: one more row', base + [ind], week(n + 1, K) <= top(n + 1, K)),
        ('elapsed time, within a week: all rows', base + [K >= 0, week(N, K) <= top(N, K)], all_week),
        ('elapsed time: the first week', base + [K == 0, week(N, z3.IntVal(0)) <= cl(at(z3.IntVal(1))) - cl(at(z3.IntVal(0)))], many(z3.IntVal(0)) <= cl(at(z3.IntVal(1))) - cl(m)),
        ('elapsed time: one more week', base + [K >= 0, many(K) <= cl(at(K + 1)) - cl(m), week(N, K + 1) <= cl(at(K + 2)) - cl(at(K + 1))], many(K + 1) <= cl(at(K + 2)) - cl(m)),
        ('later weeks do not count', base + [K >= 0, at(K + 1) >= d2], tot == many(K)),
        ('the duration is at most the elapsed time', base + [K >= 0, at(K + 1) >= d2, tot == many(K), many(K) <= cl(at(K + 1)) - cl(m)], tot <= d2 - d1),
        ('slots that cover the week make one row', base + [whole] + [MOMENT(f) for f in (zero, begin(rows, z3.IntVal(1)), z3.RealVal(WEEK), end(rows, z3.IntVal(0)) + z3.RealVal('1/2'))] + [ROW_AT(z3.IntVal(0))],
            And(N == 1, begin(rows, z3.IntVal(0)) == 0, end(rows, z3.IntVal(0)) == WEEK)),
        ('whole week: one week', full + [K >= 0], week(N, K) == cl(at(K + 1)) - cl(at(K))),
        ('whole week: the first week', full + [week(N, z3.IntVal(0)) == cl(at(z3.IntVal(1))) - cl(at(z3.IntVal(0)))], many(z3.IntVal(0)) == cl(at(z3.IntVal(1))) - cl(m)),
        ('whole week: one more week', full + [K >= 0, many(K) == cl(at(K + 1)) - cl(m), week(N, K + 1) == cl(at(K + 2)) - cl(at(K + 1))], many(K + 1) == cl(at(K + 2)) - cl(m)),
        ('with the whole week open the duration is the elapsed time', full + [K >= 0, at(K + 1) >= d2, tot == many(K), many(K) == cl(at(K + 1)) - cl(m)], tot == d2 - d1),
        ('rows are determined by the slots: begins', unique(begin, a - 1), begin(other, v) == begin(rows, a)),
        ('rows are determined by the slots: ends', unique(end, a + 1), end(other, v) == end(rows, a)),
    ]


def sojourn(s):
    rows = z3.FreshConst(ROWS.sort(), 'rows')
    return [('the overlap of the interval with the unified slots', z3.Exists([rows], And(UNIFIED(s.business_hour_slots, rows), s.result(TReal) == total(rows, wall(s.st), wall(s.et))), patterns=[UNIFIED(s.business_hour_slots, rows)]))]


def CONTRACTS():
    return [
        Contract(M + ':get_overlapping_time', dict(timespan1_begin=DT, timespan1_end=DT, timespan2_begin=DT, timespan2_end=DT),
                 value=lambda s: (TReal, overlap(s.timespan1_begin, s.timespan1_end, s.timespan2_begin, s.timespan2_end))),
        Contract(BH + '.__init__', dict(self=SELF, datetime1=DTZ, datetime2=DTZ, business_hour_slots=SLOTS, work_calendar=CAL), pre=lambda s: [('slots lie in the week', slots_in_week(s.business_hour_slots))],
                 post=built, modifies=[F1, F2, FS, FU, FC], keeps=('business_hour_slots',), loops={0: LoopInv(joining, unfold=considered)}),
        Contract(BH + '.get_seconds', dict(self=SELF), pre=usable, value=seconds, loops={0: LoopInv(counted), 1: LoopInv(weekly, variant=left)}),
        Contract(M + ':soj_time_business_hours_diff', dict(st=DTZ, et=DTZ, business_hour_slots=SLOTS, work_calendar=CAL), result=TReal, post=sojourn,
                 pre=lambda s: [('slots lie in the week', slots_in_week(s.business_hour_slots)), ('start not after end', wall(s.st) <= wall(s.et))], allocates=True, modifies=[F1, F2, FS, FU, FC], keeps=('business_hour_slots',)),
    ]


ASSUMPTIONS = ['naive datetimes are seconds on the real line, Monday 0001-01-01 being 0; dates are whole days of it; replace(tzinfo=None) keeps the wall clock',
               'datetime, timedelta, max and min of them behave as documented']
NOTE = ('Proved for all timestamps, all lists of weekly slots and any number of weeks: the slots are unified into separate rows that are determined by the slots, and the duration is the sum over rows and weeks of the overlap with the interval; '
        'lemmas (by induction over rows and weeks): never negative, at most the elapsed time, equal to it if the slots cover the week. Floating point is treated as real arithmetic.')
BOUNDED = 'zones, pandas timestamps and the statistics that use business hours are compared with an exact computation'
