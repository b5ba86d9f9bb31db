from gen import *
from functools import lru_cache
from pm4py.util import string_distance as sd

BOUNDS = 'strings of at most 9 characters over small and mixed alphabets, lists of at most 7 strings; minimal edit scripts by breadth-first search for strings of at most 3 characters'


def lev(a, b):
    @lru_cache(None)
    def f(i, j):
        if i == 0 or j == 0:
            return i + j
        return min(f(i - 1, j) + 1, f(i, j - 1) + 1, f(i - 1, j - 1) + (a[i - 1] != b[j - 1]))
    return f(len(a), len(b))


def word(rng, n=9):
    al = rng.choice(['ab', 'abc', 'aA ', 'xyé', '\U0001f600ab', '01'])
    return ''.join(rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, rng.randint(0, n)])))


def dist(rng, k):
    a = word(rng)
    b = rng.choice([word(rng), a, a[::-1], a + word(rng), word(rng) + a, a[1:], a[:-1], a.replace('a', 'b', 1), a[1:] + a[:1]])
    w = lev(a, b)
    for f in (sd.levenshtein_distance, sd.levenshtein):
        need(f(a, b) == w, 'distance', '%s(%r, %r) = %r, expected %r' % (f.__name__, a, b, f(a, b), w))
        need(f(b, a) == w, 'symmetry', '%s(%r, %r) = %r, expected %r' % (f.__name__, b, a, f(b, a), w))
        need((f(a, b) == 0) == (a == b), 'identity', '%r %r' % (a, b))
    return 3


def scripts(rng, k):
    """minimum over all edit scripts"""
    al = 'ab'
    a, b = [''.join(rng.choice('ab') for _ in range(rng.randint(0, 3))) for _ in range(2)]
    seen, front, n = {a}, [a], 0
    while b not in seen:
        n += 1
        nx = []
        for s in front:
            for i in range(len(s) + 1):
                for t in [s[:i] + c + s[i:] for c in al] + ([s[:i] + s[i + 1:]] + [s[:i] + c + s[i + 1:] for c in al] if i < len(s) else []):
                    if t not in seen and len(t) <= 4:
                        seen.add(t)
                        nx.append(t)
        front = nx
    need(sd.levenshtein_distance(a, b) == n, 'scripts', '%r %r: %r, expected %r' % (a, b, sd.levenshtein_distance(a, b), n))


def pick(rng, k):
    s = word(rng)
    l = [rng.choice([word(rng), s, s[1:], s + 'a', s[::-1], word(rng, 4)]) for _ in range(rng.randint(0, 7))]
    if l and rng.random() < 0.3:
        l.append(rng.choice(l))
    keep = list(l)
    for f, best in ((sd.argmin_levenshtein, min), (sd.argmax_levenshtein, max)):
        r = f(s, l)
        need(l == keep, 'frame', '%s changed the list' % f.__name__)
        if not l:
            need(r is None, 'pick:empty', f.__name__)
        else:
            w = best(lev(s, x) for x in l)
            need(r in l and lev(s, r) == w, 'pick:' + f.__name__, '%s(%r, %r) = %r, the best distance is %r' % (f.__name__, s, l, r, w))
    return 2


CASES = [('dist', dist, 1500), ('scripts', scripts, 200), ('pick', pick, 1500)]
