from gen import *
import copy, datetime, pandas as pd, pm4py
from pm4py.objects.ocel.obj import OCEL
from pm4py.algo.filtering.ocel import event_attributes, object_attributes, activity_type_matching, objects_ot_count, ot_endpoints

BOUNDS = ('object-centric logs of at most 7 events, 6 objects of 3 types and 14 relations (with qualifiers, also several relations of the same pair, events without objects and objects without events), event-to-event, object-to-object and object-change tables, '
          'default and other column names, arbitrary row labels')
T0 = datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)


def case(rng):
    E, O, T, A, S, Q, C = cols = rng.choice([('ocel:eid', 'ocel:oid', 'ocel:type', 'ocel:activity', 'ocel:timestamp', 'ocel:qualifier', 'ocel:field')] * 3 + [('e', 'o', 't', 'a', 's', 'q', 'f')])
    evs = [{E: 'e%d' % i, A: rng.choice('abc'), S: T0 + datetime.timedelta(hours=i + rng.choice([0, 0, -1])), 'x': rng.choice([0, 1, None, 'u'])} for i in range(rng.randint(1, 7))]
    evs.sort(key=lambda e: e[S])
    objs = [{O: 'o%d' % i, T: rng.choice(['p', 'q', 'r']), 'y': rng.choice([0, 1, None, 'u'])} for i in range(rng.randint(1, 6))]
    rels = []
    for e in evs:
        for o in rng.sample(objs, rng.choice([0, 1, 1, 2, min(3, len(objs))]) if len(objs) > 2 else rng.randint(0, len(objs))):
            for _ in range(rng.choice([1, 1, 1, 2])):
                rels.append({E: e[E], A: e[A], S: e[S], O: o[O], T: o[T], Q: rng.choice([None, 'k', 'l'])})
    o2o = [{O: rng.choice(objs)[O], O + '_2': rng.choice(objs)[O], Q: rng.choice(['', 'k'])} for _ in range(rng.randint(0, 4))]
    e2e = [{E: rng.choice(evs)[E], E + '_2': rng.choice(evs)[E], Q: rng.choice(['', 'k'])} for _ in range(rng.randint(0, 4))]
    chg = []
    for _ in range(rng.randint(0, 4)):
        o = rng.choice(objs)
        chg.append({O: o[O], T: o[T], S: T0 + datetime.timedelta(hours=rng.randint(0, 5)), C: 'y', 'y': rng.randint(0, 3)})

    def df(rows, cs):
        d = pd.DataFrame({c: [r[c] for r in rows] for c in cs}, dtype=None if rows else object)
        if rng.random() < 0.4 and len(d):
            d.index = rng.sample(range(20), len(d))
        return d
    params = {'param:event:id': E, 'param:object:id': O, 'param:object:type': T, 'param:event:activity': A, 'param:event:timestamp': S, 'param:qualifier': Q, 'param:changed:field': C} if E == 'e' else {}
    ocel = OCEL(df(evs, [E, A, S, 'x']), df(objs, [O, T, 'y']), df(rels, [E, A, S, O, T, Q]), {'g': 1}, params, df(o2o, [O, O + '_2', Q]), df(e2e, [E, E + '_2', Q]), df(chg, [O, T, S, C, 'y']))
    need((ocel.event_id_column, ocel.object_id_column, ocel.object_type_column, ocel.event_activity, ocel.event_timestamp, ocel.qualifier) == (E, O, T, A, S, Q), 'columns', 'columns of the log')
    return ocel, cols


TABLES = ('events', 'objects', 'relations', 'o2o', 'e2e', 'object_changes')


def rows(t):
    return [tuple(str(type(v).__name__) + str(v) for v in r) for r in t.itertuples()]


def state(o):
    return {k: (list(getattr(o, k).columns), rows(getattr(o, k))) for k in TABLES}


def shown(o):
    return {k: getattr(o, k).to_dict('records') for k in TABLES}


def verdict(ocel, cols, f, what, events=None, objects=None, relations=None):
    """keeps the rows of one table selected by the predicate; the rest follows"""
    E, O, T, A, S, Q, C = cols
    before, arg = state(ocel), shown(ocel)
    frames = {k: getattr(ocel, k) for k in TABLES}
    r = f()
    need(state(ocel) == before and all(getattr(ocel, k) is frames[k] for k in TABLES), 'input', '%s changed the input log' % what, arg)
    rec = {k: frames[k].to_dict('records') for k in TABLES}
    sel = lambda k, p: [x for x, d in zip(before[k][1], rec[k]) if p(d)]
    ids = lambda k, c, keep: {d[c] for x, d in zip(before[k][1], rec[k]) if x in keep}
    want = {}
    if events is not None:
        want['events'] = sel('events', events)
        es = ids('events', E, want['events'])
        want['relations'] = sel('relations', lambda d: d[E] in es)
        os = ids('relations', O, want['relations'])
        want['objects'] = sel('objects', lambda d: d[O] in os)
    elif objects is not None:
        want['objects'] = sel('objects', objects)
        os = ids('objects', O, want['objects'])
        want['relations'] = sel('relations', lambda d: d[O] in os)
        es = ids('relations', E, want['relations'])
        want['events'] = sel('events', lambda d: d[E] in es)
    else:
        want['relations'] = sel('relations', relations)
        es, os = ids('relations', E, want['relations']), ids('relations', O, want['relations'])
        want['events'] = sel('events', lambda d: d[E] in es)
        want['objects'] = sel('objects', lambda d: d[O] in os)
    want['e2e'] = sel('e2e', lambda d: d[E] in es and d[E + '_2'] in es)
    want['o2o'] = sel('o2o', lambda d: d[O] in os and d[O + '_2'] in os)
    want['object_changes'] = sel('object_changes', lambda d: d[O] in os)
    got = state(r)
    for k in TABLES:
        need(got[k] == (before[k][0], want[k]), what + ':' + k, '%s: table %s is %r, expected %r' % (what, k, got[k], (before[k][0], want[k])), arg)
    need(all(getattr(r, c) == getattr(ocel, c) for c in ('event_id_column', 'object_id_column', 'object_type_column', 'event_activity', 'event_timestamp', 'qualifier')), 'columns', '%s: column names of the result' % what, arg)


def f_events(rng, k):
    ocel, cols = case(rng)
    E, O, T, A, S, Q, C = cols
    for _ in range(2):
        pos = rng.random() < 0.6
        key, vals = rng.choice([(A, rng.sample('abc', rng.randint(0, 2))), ('x', rng.sample([0, 1, 'u'], rng.randint(0, 2))), (E, rng.sample(['e0', 'e1', 'e2', 'zz'], 2))])
        vals = rng.choice([list, set, tuple])(vals) if not isinstance(vals, str) else vals
        f = (lambda d: (d[key] in vals) == pos)
        verdict(ocel, cols, lambda: pm4py.filter_ocel_event_attribute(ocel, key, vals, positive=pos), 'filter_ocel_event_attribute(%r, %r, %r)' % (key, vals, pos), events=f)
        lo, hi = T0 + datetime.timedelta(hours=rng.randint(-1, 4)), T0 + datetime.timedelta(hours=rng.randint(2, 7))
        ls, hs = [x.replace(tzinfo=None).strftime('%Y-%m-%d %H:%M:%S') for x in (lo, hi)]
        verdict(ocel, cols, lambda: pm4py.filter_ocel_events_timestamp(ocel, ls, hs, timestamp_key=S), 'filter_ocel_events_timestamp(%s, %s)' % (ls, hs), events=lambda d: lo <= d[S] <= hi)
        es = rng.sample(['e%d' % i for i in range(8)], rng.randint(0, 4))
        verdict(ocel, cols, lambda: pm4py.filter_ocel_events(ocel, es, positive=pos), 'filter_ocel_events(%r, %r)' % (es, pos), events=lambda d: (d[E] in es) == pos)


def f_objects(rng, k):
    ocel, cols = case(rng)
    E, O, T, A, S, Q, C = cols
    for _ in range(2):
        pos = rng.random() < 0.6
        key, vals = rng.choice([(T, rng.sample('pqr', rng.randint(0, 2))), ('y', rng.sample([0, 1, 'u'], rng.randint(0, 2)))])
        verdict(ocel, cols, lambda: pm4py.filter_ocel_object_attribute(ocel, key, vals, positive=pos), 'filter_ocel_object_attribute(%r, %r, %r)' % (key, vals, pos), objects=lambda d: (d[key] in vals) == pos)
        ts = rng.sample('pqr', rng.randint(0, 2))
        verdict(ocel, cols, lambda: pm4py.filter_ocel_object_types(ocel, ts, positive=pos), 'filter_ocel_object_types(%r, %r)' % (ts, pos), objects=lambda d: (d[T] in ts) == pos)
        all_o = ocel.objects[O].tolist()
        start = rng.sample(all_o, rng.randint(0, min(3, len(all_o))))
        level = rng.choice([1, 1, 2, 3])
        reach = set(start)
        ev = {}
        for d in ocel.relations.to_dict('records'):
            ev.setdefault(d[E], set()).add(d[O])
        for _i in range(level - 1):
            reach |= {o for os in ev.values() if os & reach for o in os}
        given = list(start)
        verdict(ocel, cols, lambda: pm4py.filter_ocel_objects(ocel, given, positive=pos, level=level), 'filter_ocel_objects(%r, %r, level=%d)' % (start, pos, level), objects=lambda d: (d[O] in reach) == pos)
        need(given == start, 'argument', 'filter_ocel_objects changed its argument')


def f_relations(rng, k):
    ocel, cols = case(rng)
    E, O, T, A, S, Q, C = cols
    rel = ocel.relations.to_dict('records')
    corr = {t: rng.choice([list, set])(rng.sample('abc', rng.randint(0, 3))) for t in rng.sample('pqr', rng.randint(0, 3))}
    verdict(ocel, cols, lambda: pm4py.filter_ocel_object_types_allowed_activities(ocel, corr), 'filter_ocel_object_types_allowed_activities(%r)' % corr, relations=lambda d: d[A] in corr.get(d[T], ()))
    t = rng.choice('pqr')
    first, last = {}, {}
    for d in rel:
        if d[T] == t:
            first.setdefault(d[O], d[E])
            last[d[O]] = d[E]
    verdict(ocel, cols, lambda: pm4py.filter_ocel_start_events_per_object_type(ocel, t), 'filter_ocel_start_events_per_object_type(%r)' % t, events=lambda d: d[E] in first.values())
    verdict(ocel, cols, lambda: pm4py.filter_ocel_end_events_per_object_type(ocel, t), 'filter_ocel_end_events_per_object_type(%r)' % t, events=lambda d: d[E] in last.values())
    cnt = {t: rng.randint(1, 2) for t in rng.sample('pqr', rng.randint(1, 2))}
    n = lambda e, t: sum(1 for d in rel if d[E] == e and d[T] == t)
    verdict(ocel, cols, lambda: pm4py.filter_ocel_object_per_type_count(ocel, cnt), 'filter_ocel_object_per_type_count(%r)' % cnt, events=lambda d: all(n(d[E], t) >= v for t, v in cnt.items()))


def f_components(rng, k):
    ocel, cols = case(rng)
    E, O, T, A, S, Q, C = cols
    all_o = ocel.objects[O].tolist()
    comp = {o: {o} for o in all_o}
    ev, act, typ = {}, {}, dict(zip(all_o, ocel.objects[T].tolist()))
    for d in ocel.relations.to_dict('records'):
        ev.setdefault(d[E], set()).add(d[O])
        act.setdefault(d[O], set()).add(d[A])
    for os in ev.values():
        m = set().union(*[comp[o] for o in os])
        for o in m:
            comp[o] = m
    o = rng.choice(all_o)
    verdict(ocel, cols, lambda: pm4py.filter_ocel_cc_object(ocel, o), 'filter_ocel_cc_object(%r)' % o, objects=lambda d: d[O] in comp[o])
    lo = rng.randint(1, 3)
    hi = lo + rng.randint(0, 2)
    verdict(ocel, cols, lambda: pm4py.filter_ocel_cc_length(ocel, lo, hi), 'filter_ocel_cc_length(%d, %d)' % (lo, hi), objects=lambda d: lo <= len(comp[d[O]]) <= hi)
    t = rng.choice('pqr')
    pos = rng.random() < 0.5
    verdict(ocel, cols, lambda: pm4py.filter_ocel_cc_otype(ocel, t, positive=pos), 'filter_ocel_cc_otype(%r, %r)' % (t, pos), objects=lambda d: any(typ[x] == t for x in comp[d[O]]) == pos)
    a = rng.choice('abc')
    verdict(ocel, cols, lambda: pm4py.filter_ocel_cc_activity(ocel, a), 'filter_ocel_cc_activity(%r)' % a, objects=lambda d: any(a in act.get(x, ()) for x in comp[d[O]]))


CASES = [('events', f_events, 300), ('objects', f_objects, 300), ('relations', f_relations, 250), ('components', f_components, 200)]
