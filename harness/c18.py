from gen import *
import pm4py
from pm4py.objects.petri_net import semantics as sem
from pm4py.algo.simulation.playout.petri_net import algorithm as playout
from pm4py.algo.simulation.playout.petri_net.variants import extensive, basic_playout, stochastic_playout

BOUNDS = ('random nets with at most 5 places, 5 transitions and weights up to 3, and block-structured workflow nets with loops, duplicate and silent transitions; at most 600 pairs of marking and label sequence explored; '
          'length bound 0 to 5 for the extensive play-out; 6 random runs of at most 12 visible steps for the random ones')
CAP = 600
key = lambda m: tuple(sorted((p.name, c) for p, c in m.items() if c))
V = playout.Variants


def language(R, m0, fm, L):
    """label sequences (at most L labels) of firing sequences from m0 to fm; None if there are too many"""
    todo, seen, out = [(m0, ())], {(key(m0), ())}, set()
    while todo:
        m, tr = todo.pop()
        if key(m) == key(fm):
            out.add(tr)
        for t in R.trans:
            if R.enabled(t, m):
                n = R.fire(t, m)
                nt = tr if t.label is None else tr + (t.label,)
                if len(nt) > L or (key(n), nt) in seen:
                    continue
                if len(seen) > CAP or sum(n.values()) > 25:
                    return None
                seen.add((key(n), nt))
                todo.append((n, nt))
    return out


def after(R, ms, label):
    """markings reachable by silent steps (and one step with the label, first, if given)"""
    if label is not None:
        ms = [R.fire(t, m) for m in ms for t in R.trans if t.label == label and R.enabled(t, m)]
    seen = {key(m): m for m in ms}
    todo = list(seen.values())
    while todo:
        m = todo.pop()
        for t in R.trans:
            if t.label is None and R.enabled(t, m):
                n = R.fire(t, m)
                if key(n) not in seen:
                    if len(seen) > CAP or sum(n.values()) > 40:
                        raise OverflowError
                    seen[key(n)] = n
                    todo.append(n)
    return list(seen.values())


def possible(R, m0, labels, accept):
    """can the labels be the visible steps of a firing sequence from m0 to an accepted marking?"""
    try:
        ms = after(R, [m0], None)
        for a in labels:
            ms = after(R, ms, a)
        return any(accept(m) for m in ms)
    except OverflowError:
        return None


def follow(R, m0, els, T):
    """the marking that the elements lead to, checked step by step"""
    m = dict(m0)
    for i, x in enumerate(els):
        if i % 2 == 0:
            need(key(x) == key(m), 'elements', 'element %d is the marking %s, expected %s' % (i, x, m))
        else:
            need(x in T, 'elements', 'element %d is not a transition of the net' % i)
            need(R.enabled(x, m), 'fires', '%s is fired in %s where it is not enabled' % (x, m))
            m = R.fire(x, m)
    return m


def model(rng, silent=0.2):
    if rng.random() < 0.5:
        R = workflow_net(rng, depth=rng.choice([1, 2, 2]), dup=rng.random() < 0.5, loops=rng.random() < 0.5)
        return R, R.im, R.fm
    R = rand_net(rng, silent=silent, np=5, nt=5, maxw=rng.choice([1, 1, 2, 3]), dens=rng.choice([0.2, 0.3, 0.4]))
    im = rand_marking(rng, R.places, 3)
    m = dict(im)
    for _ in range(rng.randint(0, 5)):
        en = [t for t in R.trans if R.enabled(t, m)]
        if en:
            m = R.fire(rng.choice(en), m)
    return R, im, Marking(m)


def labels_of(log):
    return [tuple(e['concept:name'] for e in t) for t in log]


def check_extensive(rng, k):
    for _ in range(50):
        R, im, fm = model(rng)
        L = rng.randint(0, 5)
        lang = language(R, dict(im), fm, L)
        if lang is not None and (lang or rng.random() < 0.1):
            break
    else:
        return 0
    snap = (dict(im), dict(fm))
    P = {'maxTraceLength': L}
    log = playout.apply(R.net, im, fm, variant=V.EXTENSIVE, parameters=dict(P)) if rng.random() < 0.5 else extensive.apply(R.net, im, fm, parameters=dict(P))
    got = set(labels_of(log))
    need(got <= lang, 'sound', 'traces %s are not in the language' % sorted(got - lang)[:3])
    need(lang <= got, 'complete', 'traces %s of the language are missing (bound %d)' % (sorted(lang - got)[:3], L))
    els = extensive.apply(R.net, im, fm, parameters=dict(P, return_elements=True))
    for e in els:
        need(key(follow(R, dict(im), e, R.net.transitions)) == key(fm), 'final', 'the elements do not lead to the final marking')
    need({tuple(t.label for t in e[1::2] if t.label is not None) for e in els} == lang, 'elements', 'labels of the elements')
    need((dict(im), dict(fm)) == snap, 'frame', 'a marking was modified')
    return 3


def check_random(rng, k):
    R, im, fm = model(rng, 0)       # a run with silent steps only may not end
    snap = (dict(im), dict(fm))
    random.seed(rng.random())
    import numpy
    numpy.random.seed(rng.randrange(10 ** 6))
    kind = rng.choice(['basic', 'basic', 'stochastic', 'api'])
    only, leq = (rng.random() < 0.6, rng.random() < 0.3) if kind == 'basic' else (False, False)
    num = 1 if only and R.net.name != 'wf' else 6      # otherwise the play-out may not end
    P = {'noTraces': num, 'maxTraceLength': 12, 'add_only_if_fm_is_reached': only, 'fm_leq_accepted': leq}
    le = lambda m: all(m.get(p, 0) >= c for p, c in fm.items())
    accept = (lambda m: key(m) == key(fm) or (leq and le(m))) if only else (lambda m: True)
    n = 0
    if kind == 'stochastic':
        P['smap'] = {}
    mod = {'basic': basic_playout, 'stochastic': stochastic_playout, 'api': None}[kind]
    if mod is not None:
        runs = mod.apply(R.net, im, fm, parameters=dict(P, return_visited_elements=True))
        for e in runs:
            m = follow(R, dict(im), e, R.net.transitions)
            need(accept(m), 'complete', 'a run that does not end in the final marking')
            need(len([t for t in e[1::2] if t.label is not None]) <= 12, 'length', 'too many visible steps')
            n += 1
    log = mod.apply(R.net, im, fm, parameters=dict(P)) if mod is not None else pm4py.play_out(R.net, im, fm, parameters={'noTraces': 6, 'maxTraceLength': 12})
    for tr in labels_of(log):
        r = possible(R, dict(im), tr, accept)
        need(r is not False, 'language', 'the trace %s is not a label sequence of the model' % (tr,))
        n += 1
    need((dict(im), dict(fm)) == snap, 'frame', 'a marking was modified')
    return n


CASES = [('extensive', check_extensive, 1500), ('random', check_random, 1200)]
