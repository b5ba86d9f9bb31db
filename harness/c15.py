"""C15: the streaming discovery compared, after prefixes of the stream, with the batch discovery on the prefix log."""
import logging, threading
from collections import Counter
from gen import *
import pm4py
from pm4py.objects.log.obj import Event, EventLog, Trace, EventStream
from pm4py.streaming.algo.discovery.dfg import algorithm as streaming_dfg
from pm4py.streaming.util.dictio import generator
from pm4py.algo.discovery.dfg import algorithm as batch_dfg
from pm4py.statistics.start_activities.log import get as start_get
from pm4py.statistics.end_activities.log import get as end_get

logging.disable(logging.CRITICAL)
BOUNDS = 'streams of up to 60 events over up to 8 cases and 7 activities; results read after random prefixes; both in-memory dictionary kinds'
ODD = ["it's", 'say "x"', "a', 'b", '\\', 'x\ny', '', '(', "('a', 'b')", 'é', ' ', '0', 'None', "\\'", '}{', 'a' * 50, '\u2028', '%s']


def stream(rng, n, kc, ka):
    acts = rng.sample(ODD, rng.randrange(1, 6)) + ['a', 'b', 'c'][:rng.randrange(0, 4)] if rng.random() < 0.6 else ['a', 'b', 'c', 'd', 'e'][:rng.randrange(1, 6)]
    cases = ['c%d' % i for i in range(rng.randrange(1, 9))] if rng.random() < 0.6 else rng.sample(ODD, rng.randrange(1, 8))
    out = []
    for _ in range(n):
        d = {kc: rng.choice(cases), ka: rng.choice(acts), 'org:resource': rng.choice('xyz')}
        r = rng.random()
        if r < 0.05:
            del d[kc]
        elif r < 0.1:
            del d[ka]
        elif r < 0.13:
            d = {}
        items = list(d.items())
        rng.shuffle(items)
        d = dict(items)
        out.append(d if rng.random() < 0.5 else Event(d))
    return out


def oracle(events, kc, ka):
    traces = {}
    for e in events:
        if kc in e and ka in e:
            traces.setdefault(e[kc], []).append(e[ka])
    d, act, st, en = Counter(), Counter(), Counter(), Counter()
    for t in traces.values():
        st[t[0]] += 1
        en[t[-1]] += 1
        act.update(t)
        d.update(zip(t, t[1:]))
    return traces, (dict(d), dict(act), dict(st), dict(en))


def guarded(fn):
    """the call returns (a lock that is never released would block it)"""
    out = []
    t = threading.Thread(target=lambda: out.append(fn()), daemon=True)
    t.start()
    t.join(30)
    need(not t.is_alive(), 'returns', 'the call does not return')
    need(out, 'raises', 'the call raises')
    return out[0]


def play(rng, k):
    kc, ka = rng.choice([('case:concept:name', 'concept:name'), ('caseid', 'act'), ('org:resource2', 'concept:name')])
    prm = {}
    P = streaming_dfg.Variants.FREQUENCY.value.Parameters
    if (kc, ka) != ('case:concept:name', 'concept:name') or rng.random() < 0.5:
        prm = {P.CASE_ID_KEY: kc, P.ACTIVITY_KEY: ka} if rng.random() < 0.5 else {P.CASE_ID_KEY.value: kc, P.ACTIVITY_KEY.value: ka}
    v = rng.choice([None, generator.Variants.CLASSIC, generator.Variants.THREAD_SAFE])
    if v is not None:
        prm[P.DICT_VARIANT] = v
    n = rng.choice([0, 1, 2, 5, 20, 60])
    evs = stream(rng, n, kc, ka)
    given = [dict(e) for e in evs]
    algo = streaming_dfg.apply(parameters=prm if prm or rng.random() < 0.5 else None)
    other = streaming_dfg.apply(parameters=dict(prm)) if rng.random() < 0.3 else None       # a second, independent discovery
    checks = 0
    cuts = set(range(n + 1)) if n <= 5 else {n} | {rng.randrange(n + 1) for _ in range(6)}

    def compare(got, i):
        traces, want = oracle(given[:i], kc, ka)
        need(isinstance(got, tuple) and len(got) == 4, 'form', 'result %r' % (got,))
        for what, g, w in zip(('directly-follows frequencies', 'activity counts', 'start activities', 'end activities'), got, want):
            need(dict(g) == w, what, '%s after %d events: %r, the prefix log has %r' % (what, i, dict(g), w), (prm, given[:i]))
        if traces and rng.random() < 0.3:
            log = EventLog([Trace([Event({'concept:name': a}) for a in t]) for t in traces.values()])
            need(dict(batch_dfg.apply(log)) == dict(got[0]), 'batch dfg', 'batch discovery differs after %d events' % i, (prm, given[:i]))
            need(dict(start_get.get_start_activities(log)) == dict(got[2]), 'batch start', 'start activities differ after %d events' % i, (prm, given[:i]))
            need(dict(end_get.get_end_activities(log)) == dict(got[3]), 'batch end', 'end activities differ after %d events' % i, (prm, given[:i]))

    def run():
        c = 0
        kept = []
        for i in range(n + 1):
            if i in cuts:
                r = algo.get()
                compare(r, i)
                kept.append((i, r))
                if rng.random() < 0.3 and isinstance(r[0], dict):       # what was reported belongs to the caller
                    r2 = algo.get()
                    for d in r2:
                        d.clear()
                    compare(algo.get(), i)
                c += 4
            if i < n:
                algo.receive(evs[i])
                if other is not None and rng.random() < 0.5:
                    other.receive({kc: 'zz', ka: 'zz'})
        for i, r in kept:
            compare(r, i)
        return c
    box = []

    def safe():
        try:
            return run()
        except BaseException as e:
            box.append(e)
            return 0
    checks = guarded(safe)
    if box:
        raise box[0]
    need([dict(e) for e in evs] == given, 'events', 'received events were changed')
    return checks


def concurrent(rng, k):
    """several threads feed one discovery, each its own cases: the counters do not depend on how they interleave"""
    kc, ka = 'case:concept:name', 'concept:name'
    algo = streaming_dfg.apply()
    parts = []
    for t in range(4):
        parts.append([{kc: 'c%d-%d' % (t, rng.randrange(4)), ka: rng.choice('abcd')} for _ in range(300)])

    def feed(p):
        for e in p:
            algo.receive(e)

    def run():
        ths = [threading.Thread(target=feed, args=(p,), daemon=True) for p in parts]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return algo.get()
    got = guarded(run)
    _, want = oracle([e for p in parts for e in p], kc, ka)
    for what, g, w in zip(('directly-follows frequencies', 'activity counts', 'start activities', 'end activities'), got, want):
        need(dict(g) == w, 'concurrent ' + what, '%s with 4 feeding threads: %r, expected %r' % (what, dict(g), w))
    return 4


def log_stream(rng, k):
    """a log converted to a stream and replayed event by event gives the log's own statistics"""
    traces = rand_traces(rng, rng.randrange(1, 8), 6, empty=False)
    log = mk_log(traces, rng=rng)
    for i, t in enumerate(log):
        t.attributes['concept:name'] = 'n%d' % i
    es = pm4py.convert_to_event_stream(log)
    algo = streaming_dfg.apply()
    evs = list(es)
    order = sorted(range(len(evs)), key=lambda i: rng.random())
    pos = {}
    by = {}
    for e in evs:
        by.setdefault(e['case:concept:name'], []).append(e)
    seq = [evs[i]['case:concept:name'] for i in order]
    for c in seq:
        algo.receive(by[c][pos.setdefault(c, 0)])
        pos[c] += 1
    got = guarded(algo.get)
    need(dict(got[0]) == dict(batch_dfg.apply(log)), 'replayed log dfg', 'replayed log gives another dfg', traces)
    need(dict(got[2]) == dict(start_get.get_start_activities(log)), 'replayed log start', 'replayed log gives other start activities', traces)
    need(dict(got[3]) == dict(end_get.get_end_activities(log)), 'replayed log end', 'replayed log gives other end activities', traces)
    return 3


CASES = [('play', play, 1500), ('log_stream', log_stream, 200), ('concurrent', concurrent, 12)]
