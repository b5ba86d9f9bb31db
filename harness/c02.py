from gen import *

BOUNDS = 'triples of random markings over at most 5 places with counts up to 4, including equal and nested ones'


def check(rng, k):
    P = [PetriNet.Place('p%d' % i) for i in range(rng.randint(1, 5))]
    a, b, c = [rand_marking(rng, P) for _ in range(3)]
    if rng.random() < 0.4:
        # same content, other insertion order
        items = list(a.items())
        rng.shuffle(items)
        b = Marking()
        for p, v in items:
            b[p] = v
    if rng.random() < 0.3:
        c = a + b
    for x in (a, b, c):
        for y in (a, b, c):
            dx, dy = dict(x), dict(y)
            need((x == y) == (dx == dy), 'eq', '%s == %s gives %s' % (x, y, x == y))
            if dx == dy:
                need(hash(x) == hash(y), 'hash', 'equal markings %s with different hashes' % x)
                need(len({x, y}) == 1, 'set', 'equal markings are two set members')
            need((x <= y) == all(dy.get(p, 0) >= v for p, v in dx.items()), 'le', '%s <= %s gives %s' % (x, y, x <= y))
            s = x + y
            need(dict(s) == {p: dx.get(p, 0) + dy.get(p, 0) for p in set(dx) | set(dy)}, 'add', '%s + %s = %s' % (x, y, s))
            need(isinstance(s, Marking), 'type', 'sum is not a marking')
            d = x - y
            need(dict(d) == {p: v for p, v in ((p, dx.get(p, 0) - dy.get(p, 0)) for p in set(dx) | set(dy)) if v}, 'sub', '%s - %s = %s' % (x, y, d))
            need(isinstance(d, Marking), 'type', 'difference is not a marking')
            z = s - y
            need(z == x and dict(z) == dx, 'inverse', '(%s + %s) - the latter = %s' % (x, y, z))
            need(dict(x) == dx and dict(y) == dy, 'frame', 'operand modified')
    return 9


CASES = [('algebra', check, 1500)]
