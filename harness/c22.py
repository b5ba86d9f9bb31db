from gen import *
from pm4py.algo.discovery.causal.variants import alpha, heuristic
from pm4py.algo.discovery.causal import algorithm

BOUNDS = 'directly-follows graphs over at most 6 activities, frequencies 0..6 and large ones'


def check(rng, k):
    acts = rng.sample(ACTS, rng.randint(1, 6))
    d = {}
    pairs = [(a, b) for a in acts for b in acts]
    rng.shuffle(pairs)
    dens = rng.random()
    for q in pairs:
        if rng.random() < dens:
            d[q] = rng.choice([0, 1, 1, 2, 3, 6, 10 ** 6])
    if rng.random() < 0.5:
        d = Counter(d)
    before = dict(d)
    n = lambda a, b: before.get((a, b), 0)
    for f in (alpha.apply, lambda x: algorithm.apply(x, variant=algorithm.Variants.CAUSAL_ALPHA)):
        r = f(d)
        need(dict(r) == {q: 1 for q in pairs if n(*q) > 0 and n(q[1], q[0]) == 0}, 'alpha', 'alpha causal relation of %r: %r' % (before, r))
        need(dict(d) == before, 'frame', 'input modified')
    for f in (heuristic.apply, lambda x: algorithm.apply(x, variant=algorithm.Variants.CAUSAL_HEURISTIC)):
        r = f(d)
        need(set(r) == {q for q in pairs if q in before or (q[1], q[0]) in before}, 'heuristic:keys', 'pairs of %r: %r' % (before, r))
        for (a, b), v in r.items():
            w = (n(a, b) - n(b, a)) / (n(a, b) + n(b, a) + 1)
            need(abs(v - w) <= 1e-9, 'heuristic:value', 'measure of %s in %r: %r, not %r' % ((a, b), before, v, w))
            need(-1 < v < 1 and abs(v + r[(b, a)]) <= 1e-9, 'heuristic:law', 'measure of %s: %r' % ((a, b), v))
        need(dict(d) == before, 'frame', 'input modified')
    return 4


CASES = [('measures', check, 1500)]
