"""C12: business-hours durations compared with an exact computation on a time line of microseconds."""
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo
from gen import need
from pm4py.util import business_hours as bh
from pm4py.util import constants

BOUNDS = 'spans of up to 60 weeks, up to 8 slots; all offsets of begin and end around slot borders'
WEEK = 604800
US = 10 ** 6


def unite(slots):
    out = []
    for b, e in sorted((min(b, e), max(b, e)) for b, e in slots):
        if out and b - out[-1][1] <= 1:
            out[-1][1] = max(out[-1][1], e)
        else:
            out.append([b, e])
    return out


def micro(t):
    t = t.replace(tzinfo=None)
    d = t - datetime(2000, 1, 3)        # a Monday
    return (d.days * 86400 + d.seconds) * US + d.microseconds


def expected(t1, t2, slots):
    a, b = micro(t1), micro(t2)
    tot = 0
    for k in range(a // (WEEK * US) - 1, b // (WEEK * US) + 2):
        for s, e in unite(slots):
            lo, hi = max(a, k * WEEK * US + round(s * US)), min(b, k * WEEK * US + round(e * US))
            tot += max(0, hi - lo)
    return tot / US


def rand_slots(rng):
    r = rng.random()
    if r < 0.1:
        return []
    if r < 0.2:
        return list(constants.DEFAULT_BUSINESS_HOUR_SLOTS)
    out = []
    for _ in range(rng.randrange(1, 9)):
        q = rng.random()
        unit = rng.choice([1, 60, 3600, 21600, 86400])
        b = rng.randrange(0, WEEK // unit) * unit
        e = min(WEEK, b + rng.randrange(0, 30) * unit)
        if q < 0.15:
            b, e = 0, rng.choice([1, 86400, WEEK])
        elif q < 0.3:
            b, e = rng.choice([WEEK - 1, WEEK - 86400, WEEK - 3600]), WEEK
        if out and rng.random() < 0.4:          # next to, inside, or a second or two apart from another one
            pb, pe = rng.choice(out)
            b = max(0, min(WEEK, rng.choice([pe, pe + 1, pe + 2, pe - 1, pb, pb + 1, (pb + pe) // 2])))
            e = min(WEEK, b + rng.choice([0, 1, 2, 60, 3600, 86400]))
        out.append((b, e))
    rng.shuffle(out)
    return out


def rand_time(rng, slots, base):
    r = rng.random()
    d = timedelta(seconds=rng.randrange(0, WEEK))
    if slots and r < 0.5:
        d = timedelta(seconds=rng.choice(rng.choice(slots)) + rng.choice([-2, -1, 0, 0, 1, 2]))
    elif r < 0.6:
        d = timedelta(days=rng.randrange(0, 7))
    t = base + timedelta(weeks=rng.choice([0, 0, 0, 1, 1, 2, 5, 60]) if rng.random() < 0.6 else 0) + d
    if rng.random() < 0.3:
        t += timedelta(microseconds=rng.choice([1, 500000, 999999]))
    return t


BASES = [datetime(2021, 3, 1), datetime(2020, 12, 28), datetime(2024, 2, 26), datetime(1999, 12, 27)]      # Mondays


def tag(rng, a, b):
    r = rng.random()
    if r < 0.1:
        import pandas as pd
        return pd.Timestamp(a), pd.Timestamp(b)
    if r < 0.6:
        return a, b
    z = rng.choice([timezone.utc, timezone(timedelta(hours=5, minutes=30)), ZoneInfo('Europe/Berlin')]) if r < 0.9 else timezone(timedelta(hours=-11))
    return a.replace(tzinfo=z), b.replace(tzinfo=z)


def compare(rng, k):
    slots = rand_slots(rng)
    base = rng.choice(BASES)
    n = 0
    for _ in range(6):
        a, b = sorted([rand_time(rng, slots, base), rand_time(rng, slots, base)])
        if rng.random() < 0.1:
            b = a
        a, b = tag(rng, a, b)
        s = [list(x) for x in slots] if rng.random() < 0.3 else list(slots)
        keep = [tuple(x) for x in s]
        got = bh.soj_time_business_hours_diff(a, b, s)
        want = expected(a, b, slots)
        need(abs(got - want) < 1e-6 * max(1, want), 'duration', '%s .. %s with slots %s: %r instead of %r' % (a, b, slots, got, want))
        need([tuple(x) for x in s] == keep, 'slots changed', 'the given slots were changed')
        el = (micro(b) - micro(a)) / US
        need(-1e-9 <= got <= el + 1e-6, 'range', '%r not within 0 and %r' % (got, el))
        o = bh.BusinessHours(a, b, business_hour_slots=list(reversed(s)) + s[:2])
        need(abs(o.get_seconds() - want) < 1e-6 * max(1, want), 'order', 'another order or repetition of the slots %s: %r instead of %r' % (slots, o.get_seconds(), want))
        need(o.get_seconds() == o.get_seconds(), 'repeat', 'asking twice gives different answers')
        n += 4
    return n


def whole_week(rng, k):
    cuts = sorted({0, WEEK} | {rng.randrange(1, WEEK) for _ in range(rng.randrange(0, 5))})
    slots = [(x, y) for x, y in zip(cuts, cuts[1:])]
    rng.shuffle(slots)
    a, b = sorted([rand_time(rng, slots, BASES[0]), rand_time(rng, slots, BASES[0])])
    a, b = tag(rng, a, b)
    got = bh.soj_time_business_hours_diff(a, b, slots)
    el = (micro(b) - micro(a)) / US
    need(abs(got - el) < 1e-5, 'whole week', 'the slots %s cover the week, %s .. %s: %r instead of %r' % (slots, a, b, got, el))
    return 1


def default_slots(rng, k):
    a, b = sorted([rand_time(rng, [], BASES[k % 4]), rand_time(rng, [], BASES[k % 4])])
    got = bh.BusinessHours(a, b).get_seconds()
    want = expected(a, b, constants.DEFAULT_BUSINESS_HOUR_SLOTS)
    need(abs(got - want) < 1e-6 * max(1, want), 'default', 'default slots, %s .. %s: %r instead of %r' % (a, b, got, want))
    return 1


def overlapping(rng, k):
    t = [BASES[0] + timedelta(seconds=rng.randrange(0, 6), microseconds=rng.choice([0, 0, 1, 999999])) for _ in range(4)]
    a, b = sorted(t[:2])
    c, d = sorted(t[2:])
    want = max(0, min(micro(b), micro(d)) - max(micro(a), micro(c))) / US
    got = bh.get_overlapping_time(a, b, c, d)
    need(abs(got - want) < 1e-9, 'overlap', 'overlap of %s: %r instead of %r' % (t, got, want))
    return 1


def in_statistics(rng, k):
    """the durations statistics report with business hours switched on"""
    from pm4py.objects.log.obj import EventLog, Trace, Event
    from pm4py.algo.discovery.dfg import algorithm as dfg
    from pm4py.statistics.service_time.log import get as soj
    from pm4py.statistics.service_time.pandas import get as psoj
    import pandas as pd
    slots = rand_slots(rng) or [(0, 3600)]
    log = EventLog()
    want, dur = {}, {}
    for i in range(rng.randrange(1, 4)):
        ts = sorted(rand_time(rng, slots, BASES[0]) for _ in range(rng.randrange(2, 5)))
        acts = [rng.choice('AB') for _ in ts]
        tr = Trace(attributes={'concept:name': str(i)})
        for x, y, a, b in zip(ts, ts[1:], acts, acts[1:]):
            want.setdefault((a, b), []).append(expected(x, y, slots))
        for j, (x, a) in enumerate(zip(ts, acts)):
            s = ts[j - 1] if j else x
            tr.append(Event({'concept:name': a, 'time:timestamp': x, 'start_timestamp': s}))
            dur.setdefault(a, []).append(expected(s, x, slots))
        log.append(tr)
    got = dfg.apply(log, variant=dfg.Variants.PERFORMANCE, parameters={'business_hours': True, 'business_hour_slots': slots, 'aggregationMeasure': 'raw_values'})
    for p in want:
        x, y = sorted(got[p]), sorted(want[p])
        need(len(x) == len(y) and all(abs(u - v) < 1e-5 for u, v in zip(x, y)), 'performance graph', 'slots %s, pair %s: %s instead of %s' % (slots, p, x, y))
    got = soj.apply(log, parameters={'business_hours': True, 'business_hour_slots': slots, soj.Parameters.START_TIMESTAMP_KEY: 'start_timestamp', soj.Parameters.AGGREGATION_MEASURE: 'sum'})
    for a in dur:
        need(abs(got[a] - sum(dur[a])) < 1e-4, 'service time', 'slots %s, activity %s: %s instead of %s' % (slots, a, got[a], sum(dur[a])))
    rows = [dict({'case:concept:name': tr.attributes['concept:name']}, **dict(e)) for tr in log for e in tr]
    got = psoj.apply(pd.DataFrame(rows), parameters={'business_hours': True, 'business_hour_slots': slots, psoj.Parameters.START_TIMESTAMP_KEY: 'start_timestamp', psoj.Parameters.AGGREGATION_MEASURE: 'sum'})
    for a in dur:
        need(abs(got[a] - sum(dur[a])) < 1e-4, 'service time (table)', 'slots %s, activity %s: %s instead of %s' % (slots, a, got[a], sum(dur[a])))
    return len(want) + 2 * len(dur)


CASES = [('compared with an exact computation', compare, 900), ('whole week open', whole_week, 200), ('default slots', default_slots, 200), ('overlap of two intervals', overlapping, 600),
         ('durations in statistics', in_statistics, 150)]
