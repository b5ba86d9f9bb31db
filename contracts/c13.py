"""C13 String edit distance is the Levenshtein metric."""
import z3
from pyvc.types import *
from pyvc.core import And, Or, Not, sel, NONE, SV
from pyvc.contract import Contract, LoopInv
from pyvc import syms

SD = 'pm4py.util.string_distance'
STRING = TSeq(TList(TStr))          # a string is the sequence of its characters
LT = STRING.tl
S = STRING.sort()
I = z3.IntSort()
ROWS = TList(TInt)
STRS = TList(STRING)

# definition of the edit distance of the prefixes of length i and j (Wagner and Fischer), by recursion on i + j
LEV = z3.Function('LEV', S, S, I, I, I)
AT = z3.Function('LEV!at', S, S, I, I, z3.BoolSort())       # where the definition is unfolded (true everywhere)
SYM = z3.Function('LEV!sym', S, S, I, I, z3.BoolSort())     # where the lemmas are used (true everywhere)


def mn(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = z3.If(x < r, x, r)
    return r


def mx(x, y):
    return z3.If(x > y, x, y)


def cost(a, b, i, j):
    return z3.If(sel(LT.arr(a), i - 1) == sel(LT.arr(b), j - 1), 0, 1)


def definition(a, b, i, j):
    return LEV(a, b, i, j) == z3.If(j == 0, i, z3.If(i == 0, j, mn(LEV(a, b, i - 1, j) + 1, LEV(a, b, i, j - 1) + 1, LEV(a, b, i - 1, j - 1) + cost(a, b, i, j))))


def symmetric(a, b, i, j):
    return LEV(a, b, i, j) == LEV(b, a, j, i)


def bounds(a, b, i, j):
    return And(LEV(a, b, i, j) <= mx(i, j), LEV(a, b, i, j) >= i - j, LEV(a, b, i, j) >= j - i)


def identical(a, b, i, j):
    """distance zero exactly for equal prefixes"""
    k = z3.FreshConst(I, 'k')
    return (LEV(a, b, i, j) == 0) == And(i == j, z3.ForAll([k], z3.Implies(And(k >= 0, k < i), sel(LT.arr(a), k) == sel(LT.arr(b), k))))


def lev(a, b):
    return LEV(a, b, LT.len(a), LT.len(b))


def axioms(lemmas=True):
    a, b = z3.Consts('lv!a lv!b', S)
    i, j = z3.Ints('lv!i lv!j')
    ok = And(i >= 0, j >= 0)
    r = [z3.ForAll([a, b, i, j], z3.Implies(ok, definition(a, b, i, j)), patterns=[AT(a, b, i, j)]),
         z3.ForAll([a, b, i, j], AT(a, b, i, j), patterns=[AT(a, b, i, j)])]
    z = z3.IntVal(0)
    r += [z3.ForAll([a, b, j], z3.Implies(j >= 0, definition(a, b, z, j)), patterns=[LEV(a, b, z, j)]), z3.ForAll([a, b, i], z3.Implies(i >= 0, definition(a, b, i, z)), patterns=[LEV(a, b, i, z)])]
    if lemmas:
        r += [z3.ForAll([a, b], z3.Implies(And(LT.len(a) >= 0, LT.len(b) >= 0), And(lev(a, b) == lev(b, a), bounds(a, b, LT.len(a), LT.len(b)))), patterns=[lev(a, b)])]
    return r


def setup(w):
    w.facts = lambda ip: axioms()
    w.models['importlib.util.find_spec'] = lambda ip, args, kw, n: NONE


def pre(s):
    return []


def row(r, n):
    """r lists the distances of the prefix of length n of s1 and the prefixes of s2"""
    def f(v):
        a, b, R = v.old('s1'), v.old('s2'), v.v(r)
        k = z3.FreshConst(I, 'k')
        return And(ROWS.len(R) == LT.len(b) + 1, z3.ForAll([k], z3.Implies(And(k >= 0, k <= LT.len(b)), sel(ROWS.arr(R), k) == LEV(a, b, n(v), k))))
    return f


def outer(v):
    return [('the row of the characters read so far', row('previous_row', lambda v: v.done)(v))]


def inner(v):
    a, b, R, P = v.old('s1'), v.old('s2'), v.v('current_row'), v.v('previous_row')
    i = v.v('i')
    k = z3.FreshConst(I, 'k')
    return [('previous row kept', P == v.old('previous_row')),
            ('entries computed so far', And(ROWS.len(R) == v.done + 1, z3.ForAll([k], z3.Implies(And(k >= 0, k <= v.done), sel(ROWS.arr(R), k) == LEV(a, b, i + 1, k)))))]


MAX = z3.IntVal(9223372036854775807)


def item(l, k):
    return sel(STRS.arr(l), k)


def sizes(s):
    """CPython: no string is longer than sys.maxsize"""
    k = z3.FreshConst(I, 'k')
    e = item(s.list_stri, k)
    return [('strings of representable length', And(LT.len(s.stru) < MAX, z3.ForAll([k], And(LT.len(e) < MAX, LT.len(e) >= 0), patterns=[e])))]


def picked(s, better):
    O = TOpt(STRING)
    r = s.result(O)
    k, m = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'm')
    n = STRS.len(s.list_stri)
    x = O.val(r)
    return [('nothing is picked from an empty list only', O.is_none(r) == (n == 0)),
            ('the string is one of the list', z3.Implies(n > 0, z3.Exists([m], And(m >= 0, m < n, item(s.list_stri, m) == x)))),
            ('no string of the list is better', z3.ForAll([k], z3.Implies(And(k >= 0, k < n), better(lev(s.stru, x), lev(s.stru, item(s.list_stri, k))))))]


def scan(best, dist, better, first):
    def f(v):
        O = TOpt(STRING)
        L, a = v.v('list_stri'), v.old('stru')
        b, d = v.at(best, O), v.v(dist)
        k, m = z3.FreshConst(I, 'k'), z3.FreshConst(I, 'm')
        n = v.done
        return [('none so far at the start only', And(O.is_none(b) == (n == 0), z3.Implies(n == 0, d == first))),
                ('distance of the best so far', z3.Implies(n > 0, And(d == lev(a, O.val(b)), z3.Exists([m], And(m >= 0, m < n, item(L, m) == O.val(b)))))),
                ('best so far', z3.ForAll([k], z3.Implies(And(k >= 0, k < n), better(d, lev(a, item(L, k))))))]
    return f


nearest = scan('argmin_dist', 'min_edit_dist', lambda x, y: x <= y, MAX)
farthest = scan('argmax_dist', 'max_edit_dist', lambda x, y: x >= y, z3.IntVal(-1))


def LEMMAS():
    a, b = z3.Consts('a b', S)
    i, j = z3.Ints('i j')
    x, y = z3.Ints('x y')
    ax = axioms(False)
    un = [AT(a, b, i, j), AT(b, a, j, i), i >= 0, j >= 0]

    def ih(P):
        return z3.ForAll([x, y], z3.Implies(And(x >= 0, y >= 0, x + y < i + j), P(a, b, x, y)), patterns=[LEV(a, b, x, y)])
    return [('distance of prefixes is symmetric (induction step)', ax + un + [ih(symmetric)], symmetric(a, b, i, j)),
            ('distance lies between the difference and the maximum of the lengths (induction step)', ax + un + [ih(bounds)], bounds(a, b, i, j)),
            ('zero exactly for equal prefixes (induction step)', ax + un + [ih(bounds), ih(identical)], identical(a, b, i, j))]


def CONTRACTS():
    two = dict(s1=STRING, s2=STRING)
    return [
        Contract(SD + ':levenshtein_distance', two, value=lambda s: (TInt, lev(s.s1, s.s2)),
                 loops={0: LoopInv(outer, unfold=lambda v: [AT(v.old('s1'), v.old('s2'), v.done + 1, 0)]),
                        1: LoopInv(inner, unfold=lambda v: [AT(v.old('s1'), v.old('s2'), v.v('i') + 1, v.done + 1), AT(v.old('s1'), v.old('s2'), v.v('i') + 1, 0)])}),
        Contract(SD + ':levenshtein', dict(stru1=STRING, stru2=STRING), value=lambda s: (TInt, lev(s.stru1, s.stru2))),
        Contract(SD + ':argmin_levenshtein', dict(stru=STRING, list_stri=STRS), pre=sizes, post=lambda s: picked(s, lambda x, y: x <= y), result=TOpt(STRING), loops={0: LoopInv(nearest)}),
        Contract(SD + ':argmax_levenshtein', dict(stru=STRING, list_stri=STRS), pre=sizes, post=lambda s: picked(s, lambda x, y: x >= y), result=TOpt(STRING), loops={0: LoopInv(farthest)}),
    ]


ASSUMPTIONS = ['the optional package stringdist is not installed (importlib.util.find_spec returns None for it); with it, levenshtein() is that package\'s',
               'the edit distance is defined by its recursion over prefixes (Wagner-Fischer); symmetry, the length bounds and identity are induction steps over that definition, the induction itself (on i + j) is the meta-argument',
               'strings are sequences of characters compared by ==, shorter than sys.maxsize', 'sorted() returns a permutation ordered by the key']
NOTE = 'all four functions proved for strings of any length'
