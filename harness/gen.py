"""Generators of small random inputs for the concrete contract oracles (independent of the code under test)."""
import datetime, random
from collections import Counter
from pm4py.objects.petri_net.obj import PetriNet, Marking, InhibitorNet, ResetNet, ResetInhibitorNet
from pm4py.objects.log.obj import EventLog, Trace, Event
from run import Violation

ACTS = ['a', 'b', 'c', 'd', 'e', 'f']
T0 = datetime.datetime(2020, 1, 1, 8, 0, 0, tzinfo=datetime.timezone.utc)


def need(cond, key, msg, data=None):
    if not cond:
        raise Violation(key, msg, data)


class RNet:
    """a net with its reference structure: arcs = list of (src, tgt, weight, kind)"""

    def __init__(self, net, places, trans, arcs):
        self.net, self.places, self.trans, self.arcs = net, places, trans, arcs

    def pre(self, t):
        return [(s, w, k) for s, x, w, k in self.arcs if x is t]

    def post(self, t):
        return [(x, w, k) for s, x, w, k in self.arcs if s is t]

    def enabled(self, t, m):
        for p, w, k in self.pre(t):
            c = m.get(p, 0)
            if k == 'inhibitor':
                if c > 0:
                    return False
            elif k == 'reset':
                continue
            elif c < w:
                return False
        return True

    def fire(self, t, m):
        r = dict(m)
        for p, w, k in self.pre(t):
            if k == 'reset':
                r[p] = 0
            elif k != 'inhibitor':
                r[p] = r.get(p, 0) - w
        for p, w, k in self.post(t):
            r[p] = r.get(p, 0) + w
        return {p: c for p, c in r.items() if c != 0}


def rand_net(rng, kind='plain', np=4, nt=4, maxw=3, labels=None, dens=0.35, silent=0.2, attach=None):
    """random bipartite net, at most one arc per ordered pair of nodes"""
    cls = {'plain': PetriNet, 'inhibitor': InhibitorNet, 'reset': ResetNet, 'ri': ResetInhibitorNet}[kind]
    net = cls('n')
    np, nt = rng.randint(1, np), rng.randint(1, nt)
    P = [PetriNet.Place('p%d' % i) for i in range(np)]
    labels = labels or ACTS
    T = [PetriNet.Transition('t%d' % i, None if rng.random() < silent else rng.choice(labels)) for i in range(nt)]
    for p in P:
        net.places.add(p)
    for t in T:
        net.transitions.add(t)
    arcs = []

    def add(s, x, w, k):
        if k == 'inhibitor':
            a = InhibitorNet.InhibitorArc(s, x, w)
            a.properties['arctype'] = 'inhibitor'
        elif k == 'reset':
            a = ResetNet.ResetArc(s, x, w)
            a.properties['arctype'] = 'reset'
        else:
            a = PetriNet.Arc(s, x, w)
        net.arcs.add(a)
        s.out_arcs.add(a)
        x.in_arcs.add(a)
        arcs.append((s, x, w, k))
    for t in T:
        for p in P:
            if rng.random() < dens:
                k = None
                if kind in ('inhibitor', 'ri') and rng.random() < 0.3:
                    k = 'inhibitor'
                elif kind in ('reset', 'ri') and rng.random() < 0.3:
                    k = 'reset'
                add(p, t, rng.choice([1, 1, 1] + list(range(1, maxw + 1))), k)
            if rng.random() < dens:
                add(t, p, rng.choice([1, 1, 1] + list(range(1, maxw + 1))), None)
    return RNet(net, P, T, arcs)


def rand_marking(rng, places, maxc=4):
    m = Marking()
    for p in places:
        if rng.random() < 0.6:
            m[p] = rng.randint(1, maxc)
    return m


def mdict(m):
    return None if m is None else dict(m.items())


def workflow_net(rng, depth=3, labels=None, dup=False, silent=0.15, loops=True):
    """sound block-structured workflow net (weights 1) as RNet with (source, sink); built directly, no conversion code"""
    net = PetriNet('wf')
    labels = list(labels or ACTS)
    arcs, P, T = [], [], []
    cnt = [0, 0]

    def place():
        p = PetriNet.Place('p%d' % cnt[0])
        cnt[0] += 1
        net.places.add(p)
        P.append(p)
        return p

    def trans(l):
        t = PetriNet.Transition('t%d' % cnt[1], l)
        cnt[1] += 1
        net.transitions.add(t)
        T.append(t)
        return t

    def arc(s, x):
        a = PetriNet.Arc(s, x, 1)
        net.arcs.add(a)
        s.out_arcs.add(a)
        x.in_arcs.add(a)
        arcs.append((s, x, 1, None))

    def block(i, o, d):
        r = rng.random()
        if d == 0 or r < 0.25:
            t = trans(None if rng.random() < silent else (rng.choice(labels)))
            arc(i, t)
            arc(t, o)
        elif r < 0.55:
            m = place()
            block(i, m, d - 1)
            block(m, o, d - 1)
        elif r < 0.75:
            block(i, o, d - 1)
            block(i, o, d - 1)
        elif r < 0.9 or not loops:
            s, j = trans(None), trans(None)
            arc(i, s)
            arc(j, o)
            for _ in range(2):
                a, b = place(), place()
                arc(s, a)
                arc(b, j)
                block(a, b, d - 1)
        else:
            a, b = place(), place()
            s, j = trans(None), trans(None)
            arc(i, s)
            arc(s, a)
            block(a, b, d - 1)
            arc(b, j)
            arc(j, o)
            block(b, a, d - 1)
    src, snk = place(), place()
    block(src, snk, depth)
    r = RNet(net, P, T, arcs)
    r.source, r.sink = src, snk
    r.im, r.fm = Marking({src: 1}), Marking({snk: 1})
    return r


# ------------------------------------------------------------------ logs
def rand_traces(rng, n=6, maxlen=6, acts=None, empty=True):
    acts = acts or rng.sample(ACTS, rng.randint(1, 4))
    out = []
    for _ in range(rng.randint(1, n)):
        l = rng.randint(0 if empty else 1, maxlen)
        out.append([rng.choice(acts) for _ in range(l)])
    if rng.random() < 0.5 and out:
        out += [list(rng.choice(out)) for _ in range(rng.randint(1, 3))]
    return out


def mk_log(traces, rng=None, key='concept:name', ts='time:timestamp', step=True, attrs=None, names=None, tskey2=None):
    """EventLog; timestamps strictly increasing inside a trace unless rng decides on ties"""
    log = EventLog()
    for i, t in enumerate(traces):
        tr = Trace()
        tr.attributes['concept:name'] = names[i] if names else 'c%03d' % i
        cur = T0 + datetime.timedelta(hours=i)
        for j, a in enumerate(t):
            ev = Event({key: a, ts: cur})
            if tskey2:
                ev[tskey2] = cur - datetime.timedelta(seconds=rng.randint(0, 50) if rng else 0)
            if attrs:
                for k, f in attrs.items():
                    v = f(i, j)
                    if v is not None:
                        ev[k] = v
            tr.append(ev)
            cur = cur + datetime.timedelta(seconds=(rng.choice([0, 1, 30, 60, 3600, 86400 * 3]) if rng is not None else 60))
        log.append(tr)
    return log


def mk_df(log, shuffle=None):
    """equivalent event table, in the representation the pandas functions expect (formatted, sorted by case and time)"""
    import pandas as pd
    rows = []
    for i, tr in enumerate(log):
        for j, ev in enumerate(tr):
            d = {'case:concept:name': tr.attributes['concept:name'], '@@r': j}
            d.update({k: v for k, v in ev.items()})
            rows.append(d)
    df = pd.DataFrame(rows, columns=None if rows else ['case:concept:name', 'concept:name', 'time:timestamp', '@@r'])
    if len(df):
        df = df.drop(columns=['@@r'])
        df.index = range(len(df))
    return df


def acts_of(trace, key='concept:name'):
    return tuple(e[key] for e in trace)


def mk_table(log, rng, keys=('case:concept:name', 'concept:name', 'time:timestamp'), orig=('concept:name', 'time:timestamp')):
    """equivalent event table with rows of different cases interleaved (events of a case in order), any index, extra columns"""
    import pandas as pd
    its = [(tr.attributes['concept:name'], list(tr)) for tr in log if len(tr)]
    rows = []
    mode = rng.choice(['seq', 'mix', 'shuffled'])
    if mode == 'shuffled':
        rng.shuffle(its)
    pos = [0] * len(its)
    while True:
        live = [i for i in range(len(its)) if pos[i] < len(its[i][1])]
        if not live:
            break
        i = rng.choice(live) if mode == 'mix' else live[0]
        ev = its[i][1][pos[i]]
        pos[i] += 1
        d = {keys[0]: its[i][0], keys[1]: ev[orig[0]], keys[2]: ev[orig[1]]}
        for k, v in ev.items():
            if k not in orig:
                d[k] = v
        d['extra'] = rng.randint(0, 3)
        rows.append(d)
    df = pd.DataFrame(rows)
    ix = rng.choice(['range', 'off', 'perm', 'same'])
    if ix == 'off':
        df.index = range(10, 10 + len(df))
    elif ix == 'perm':
        p = list(range(len(df)))
        rng.shuffle(p)
        df.index = p
    if rng.random() < 0.3:
        cols = list(df.columns)
        rng.shuffle(cols)
        df = df[cols]
    return df


def names_for(traces, rng):
    """case identifiers: unique strings, not in sorted order"""
    n = [rng.choice(['c%d', 'case %d', '%d', 'Z%d', 'é%d']) % i for i in range(len(traces))]
    rng.shuffle(n)
    return n
