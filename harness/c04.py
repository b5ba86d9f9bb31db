from gen import *
import pm4py
from pm4py.objects.petri_net.utils import reachability_graph as rg

BOUNDS = 'random nets with at most 5 places, 5 transitions, weights up to 3 and bounded state space of at most 60 markings; random initial markings'
CAP = 60


def explore(R, m0):
    key = lambda m: tuple(sorted((p.name, c) for p, c in m.items()))
    seen, todo, edges = {key(m0): m0}, [m0], {}
    while todo:
        m = todo.pop()
        for t in R.trans:
            if R.enabled(t, m):
                n = R.fire(t, m)
                if sum(n.values()) > 12:
                    return None
                edges.setdefault(key(m), {})[t] = key(n)
                if key(n) not in seen:
                    if len(seen) >= CAP:
                        return None
                    seen[key(n)] = n
                    todo.append(n)
    return seen, edges


def compare(R, im, res, ts, lab):
    key = lambda m: tuple(sorted((p.name, c) for p, c in m.items()))
    seen, edges = res
    need(len(ts.states) == len(seen), 'states', '%d states for %d reachable markings' % (len(ts.states), len(seen)))
    ne = sum(len(v) for v in edges.values())
    need(len(ts.transitions) == ne, 'edges', '%d edges for %d steps' % (len(ts.transitions), ne))
    init = [s for s in ts.states if s.name == rg.staterep(repr(im))]
    need(init, 'initial', 'no initial state')
    for e in ts.transitions:
        need(e.from_state in ts.states and e.to_state in ts.states, 'ends', 'edge between unknown states')
    for s in ts.states:
        need(set(s.outgoing) == {e for e in ts.transitions if e.from_state is s}, 'outgoing', 'outgoing edges of %s' % s.name)
        need(set(s.incoming) == {e for e in ts.transitions if e.to_state is s}, 'incoming', 'incoming edges of %s' % s.name)
    bad = None
    for s in init:          # several when names of places differ only in the characters a state name leaves out
        try:
            return matched(ts, s, key({p: c for p, c in im.items() if c}), edges, lab)
        except Exception as e:
            bad = bad or e
    raise bad


def matched(ts, first, k0, edges, lab):
    at, todo = {k0: first}, [k0]
    while todo:
        k = todo.pop()
        s = at[k]
        want = {lab(t): n for t, n in edges.get(k, {}).items()}
        got = [(e.name, e.to_state) for e in s.outgoing]
        need(sorted(x for x, _ in got) == sorted(want), 'steps', 'state %s has edges %s, enabled are %s' % (s.name, sorted(x for x, _ in got), sorted(want)))
        for x, s2 in got:
            n = want[x]
            if n in at:
                need(at[n] is s2, 'target', 'edge %s from %s leads to the wrong state' % (x, s.name))
            else:
                need(all(v is not s2 for v in at.values()), 'target', 'one state for two markings')
                at[n] = s2
                todo.append(n)
    need(len(at) == len(ts.states), 'reached', 'unreachable states')


def check(rng, k):
    for _ in range(200):
        R = rand_net(rng, np=5, nt=5, maxw=rng.choice([1, 1, 2, 3]), dens=rng.choice([0.2, 0.3, 0.4]))
        if rng.random() < 0.3:          # names that differ only in the characters a state name leaves out
            for p, n in zip(R.places, rng.sample(['p-1', 'p1', 'p 1', 'p.1', "p'1", 'p_1'], len(R.places))):
                p.name = n
        im = rand_marking(rng, R.places)
        m0 = {p: c for p, c in im.items() if c}
        res = explore(R, m0)
        if res is not None and (len(res[0]) > 2 or rng.random() < 0.05):
            break
    else:
        return 0
    snap = dict(im)
    use = rng.random() < 0.5
    ts = rg.construct_reachability_graph(R.net, im, use_trans_name=use)
    compare(R, im, res, ts, (lambda t: t.name) if use else repr)
    inc, out, eve = rg.marking_flow_petri(R.net, im, return_eventually_enabled=rng.random() < 0.3)
    key = lambda m: tuple(sorted((p.name, c) for p, c in m.items()))
    need({key(m) for m in inc} == set(res[0]) == {key(m) for m in out} and len(inc) == len(res[0]), 'flow', 'markings of the flow')
    need({key(m): {t: key(n) for t, n in d.items()} for m, d in out.items() if d} == res[1], 'flow', 'steps of the flow')
    ts = pm4py.convert_to_reachability_graph(R.net, im, Marking())
    compare(R, im, res, ts, repr)
    need(dict(im) == snap, 'frame', 'initial marking modified')
    return 3


CASES = [('random nets', check, 700)]
