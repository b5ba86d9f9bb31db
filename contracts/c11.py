"""C11 Partial orders: closure, reduction and order tests are exact."""
import z3
from pyvc.types import *
from pyvc.core import And, Or, Not, sel, SV, OpaqueV
from pyvc.contract import Contract, LoopInv
from .petri import fa

M = 'pm4py.objects.powl.BinaryRelation'
BR = M + ':BinaryRelation'
VAL = TU('Node')
REL = TRef(BR)
NODES = TList(VAL)
N2I, I2N = TDict(VAL, TInt), TDict(TInt, VAL)
ROW = TList(TBool)
MAT = TList(ROW)
I = z3.IntSort()
F = {'nodes': (BR, '_nodes'), 'n2i': (BR, '_map_node_to_id'), 'i2n': (BR, '_map_id_to_node'), 'n': (BR, '_number_nodes'), 'e': (BR, '_edges')}


def opaque(ip, v):
    return OpaqueV('opaque')


def setup(w):
    w.schema[BR] = {'_nodes': NODES, '_map_node_to_id': N2I, '_map_id_to_node': I2N, '_number_nodes': TInt, '_edges': MAT, '_start_nodes': opaque, '_end_nodes': opaque}


def ints(*ns):
    return [z3.FreshConst(I, n) for n in ns]


def entry(m, i, j):
    return sel(ROW.arr(sel(MAT.arr(m), i)), j)


class Rel:
    def __init__(self, s, r, now=False):
        h = s.heap_now if now else s.heap
        self.nodes, self.n2i, self.i2n, self.n, self.m = [sel(h(*F[k]), r) for k in ('nodes', 'n2i', 'i2n', 'n', 'e')]

    def node(self, i):
        return sel(NODES.arr(self.nodes), i)

    def has(self, x):
        return sel(N2I.dom(self.n2i), x)

    def id(self, x):
        return sel(N2I.val(self.n2i), x)

    def e(self, i, j):
        return entry(self.m, i, j)

    def rng(self, *xs):
        return And(*[And(x >= 0, x < self.n) for x in xs])


def square(m, n):
    i, = ints('i')
    return And(MAT.len(m) == n, fa([i], z3.Implies(And(i >= 0, i < n), ROW.len(sel(MAT.arr(m), i)) == n), sel(MAT.arr(m), i)))


def nodeinv(R):
    i, = ints('i')
    x = z3.FreshConst(VAL.sort(), 'x')
    return [('number of nodes', And(R.n == NODES.len(R.nodes), R.n >= 0)),
            ('the k-th node has number k', fa([i], z3.Implies(R.rng(i), And(R.has(R.node(i)), R.id(R.node(i)) == i)), R.node(i))),
            ('numbers and nodes correspond', fa([x], z3.Implies(R.has(x), And(R.rng(R.id(x)), R.node(R.id(x)) == x)), R.has(x))),
            ('numbers to nodes', fa([i], And(sel(I2N.dom(R.i2n), i) == R.rng(i), z3.Implies(R.rng(i), sel(I2N.val(R.i2n), i) == R.node(i))), sel(I2N.dom(R.i2n), i), sel(I2N.val(R.i2n), i)))]


def inv(R):
    return nodeinv(R) + [('square adjacency matrix', square(R.m, R.n))]


def pre(s):
    return inv(Rel(s, s.self))


def same_nodes(s):
    A, B = Rel(s, s.self), Rel(s, s.self, True)
    return [('nodes are kept', And(A.nodes == B.nodes, A.n == B.n, A.n2i == B.n2i, A.i2n == B.i2n))]


def others(s, fields=('e',)):
    o = z3.FreshConst(REF, 'o')
    return [('other relations are kept', And(*[z3.ForAll([o], z3.Implies(o != s.self, sel(s.heap_now(*F[k]), o) == sel(s.heap(*F[k]), o))) for k in fields]))]


def distinct(nodes):
    i, j = ints('i', 'j')
    a, b = sel(NODES.arr(nodes), i), sel(NODES.arr(nodes), j)
    n = NODES.len(nodes)
    return ('the nodes are pairwise different', z3.ForAll([i, j], z3.Implies(And(i >= 0, i < n, j >= 0, j < n, a == b), i == j), patterns=[z3.MultiPattern(a, b)]))


def irreflexive(R):
    i, = ints('i')
    return z3.ForAll([i], z3.Implies(R.rng(i), Not(R.e(i, i))))


def transitive(R, distinct=False):
    i, j, k = ints('i', 'j', 'k')
    return z3.ForAll([i, j, k], z3.Implies(And(R.rng(i, j, k), R.e(i, j), R.e(j, k), *([i != j, j != k] if distinct else [])), R.e(i, k)))


def edge_update(v):
    def post(s):
        A, B = Rel(s, s.self), Rel(s, s.self, True)
        i, j = ints('i', 'j')
        return [('the named edge is set, nothing else changes', z3.ForAll([i, j], z3.Implies(A.rng(i, j), B.e(i, j) == z3.If(And(A.node(i) == s.source, A.node(j) == s.target), z3.BoolVal(v), A.e(i, j))))),
                ('square adjacency matrix', square(B.m, B.n))] + same_nodes(s) + others(s)
    return post


def known(s):
    R = Rel(s, s.self)
    return {'Exception': Not(And(R.has(s.source), R.has(s.target)))}


def post_init(s):
    R = Rel(s, s.self, True)
    i, j = ints('i', 'j')
    return [('the nodes are the given ones', And(NODES.len(R.nodes) == NODES.len(s.nodes), z3.ForAll([i], z3.Implies(R.rng(i), R.node(i) == sel(NODES.arr(s.nodes), i))))),
            ('no edges', z3.ForAll([i, j], z3.Implies(R.rng(i, j), Not(R.e(i, j)))))] + inv(R) + others(s, list(F))


def post_add_node(s):
    A, B = Rel(s, s.self), Rel(s, s.self, True)
    i, j = ints('i', 'j')
    new = Not(A.has(s.node))
    return [('one more node if it is new', B.n == A.n + z3.If(new, 1, 0)),
            ('the nodes before', z3.ForAll([i], z3.Implies(A.rng(i), B.node(i) == A.node(i)))),
            ('the new node is the last one', z3.Implies(new, B.node(A.n) == s.node)),
            ('edges are kept, none at the new node', z3.ForAll([i, j], z3.Implies(B.rng(i, j), B.e(i, j) == And(A.rng(i, j), A.e(i, j)))))] + inv(B) + others(s, ('nodes', 'n2i', 'i2n', 'n', 'e'))


def extremal(incoming):
    def post(s):
        R = Rel(s, s.self)
        r = s.result(TSet(VAL))
        x = z3.FreshConst(VAL.sort(), 'x')
        i, = ints('i')
        return [('exactly the nodes without %s edge' % ('an incoming' if incoming else 'an outgoing'),
                 z3.ForAll([x], sel(r, x) == And(R.has(x), Not(z3.Exists([i], And(R.rng(i), R.e(i, R.id(x)) if incoming else R.e(R.id(x), i)))))))]
    return post


def cover(R, i, k):
    j, = ints('j')
    return And(R.e(i, k), Not(z3.Exists([j], And(R.rng(j), i != j, j != k, R.e(i, j), R.e(j, k)))))


def post_reduction(s):
    A = Rel(s, s.self)
    r = s.result(REL)
    B = Rel(s, r, True)
    i, k = ints('i', 'k')
    return [('a new relation', And(Not(s.alloc(r)), s.alloc_now(r))),
            ('on the same nodes', And(NODES.len(B.nodes) == A.n, z3.ForAll([i], z3.Implies(A.rng(i), B.node(i) == A.node(i))))),
            ('exactly the edges that no intermediate node implies', z3.ForAll([i, k], z3.Implies(A.rng(i, k), B.e(i, k) == cover(A, i, k))))] + inv(B)


# an arbitrary relation that contains the given one and is transitive on distinct nodes: whatever closes the relation
CL = z3.Function('CL', I, I, z3.BoolSort())


def closes(R):
    i, j, k = ints('i', 'j', 'k')
    return And(z3.ForAll([i, j], z3.Implies(And(R.rng(i, j), R.e(i, j)), CL(i, j))),
               z3.ForAll([i, j, k], z3.Implies(And(R.rng(i, j, k), i != j, j != k, CL(i, j), CL(j, k)), CL(i, k)), patterns=[z3.MultiPattern(CL(i, j), CL(j, k))]))


def post_closure(s):
    A, B = Rel(s, s.self), Rel(s, s.self, True)
    i, j = ints('i', 'j')
    return [('contains the original', z3.ForAll([i, j], z3.Implies(And(A.rng(i, j), A.e(i, j)), B.e(i, j)))),
            ('contained in every relation that contains the original and is transitive on distinct nodes', z3.Implies(closes(A), z3.ForAll([i, j], z3.Implies(And(A.rng(i, j), B.e(i, j)), CL(i, j))))),
            ('transitive on distinct nodes', transitive(B, True)), ('square adjacency matrix', square(B.m, B.n))] + same_nodes(s) + others(s)


class LV:
    """relation `self` at a loop head"""
    def __init__(self, v):
        self.self = v.old('self')
        self.heap, self.heap_now = v.heap_old, v.heap


def closed_at(R, i, j, k):
    return z3.Implies(And(R.rng(i, j, k), i != j, j != k, R.e(i, j), R.e(j, k)), R.e(i, k))


def stable(v, inner):
    """nothing changed in this pass: every triple seen in it is transitive"""
    s = LV(v)
    B = Rel(s, s.self, True)
    i, j, k = ints('i', 'j', 'k')
    seen = z3.Select(v.done, i, j, k) if inner else z3.BoolVal(True)
    return ('a pass without a change leaves no open triple', z3.Implies(Not(v.v('changed')), z3.ForAll([i, j, k], z3.Implies(seen, closed_at(B, i, j, k)))))


def closing(inner):
    def f(v):
        s = LV(v)
        A, B = Rel(s, s.self), Rel(s, s.self, True)
        i, j = ints('i', 'j')
        return [('contains the original', z3.ForAll([i, j], z3.Implies(And(A.rng(i, j), A.e(i, j)), B.e(i, j)))),
                ('contained in every closure', z3.Implies(closes(A), z3.ForAll([i, j], z3.Implies(And(A.rng(i, j), B.e(i, j)), CL(i, j))))),
                ('square adjacency matrix', square(B.m, A.n)), stable(v, inner)] + others(s)
    return f


def opening(inner):
    def f(v):
        s = LV(v)
        A, B = Rel(s, s.self), Rel(s, s.self, True)
        i, j = ints('i', 'j')
        return [('contained in the original', z3.ForAll([i, j], z3.Implies(And(A.rng(i, j), B.e(i, j)), A.e(i, j)))),
                ('the named edge is not in the relation', z3.ForAll([i, j], z3.Implies(And(A.rng(i, j), A.node(i) == v.old('source'), A.node(j) == v.old('target')), Not(B.e(i, j))))),
                ('square adjacency matrix', square(B.m, A.n)), stable(v, inner)] + others(s)
    return f


def post_opened(s):
    A, B = Rel(s, s.self), Rel(s, s.self, True)
    i, j = ints('i', 'j')
    return [('contained in the original', z3.ForAll([i, j], z3.Implies(And(A.rng(i, j), B.e(i, j)), A.e(i, j)))),
            ('the named edge is removed', z3.ForAll([i, j], z3.Implies(And(A.rng(i, j), A.node(i) == s.source, A.node(j) == s.target), Not(B.e(i, j))))),
            ('transitive on distinct nodes', transitive(B, True)), ('square adjacency matrix', square(B.m, B.n))] + same_nodes(s) + others(s)


def CONTRACTS():
    me = dict(self=REL)
    two = dict(self=REL, source=VAL, target=VAL)
    R = lambda s: Rel(s, s.self)
    return [
        Contract(BR + '.__init__', dict(self=REL, nodes=NODES), pre=lambda s: [distinct(s.nodes)], post=post_init, modifies=list(F.values())),
        Contract(BR + '.add_edge', two, pre=pre, post=edge_update(True), raises=known, modifies=[F['e']]),
        Contract(BR + '.remove_edge', two, pre=pre, post=edge_update(False), raises=known, modifies=[F['e']]),
        Contract(BR + '.add_node', dict(self=REL, node=VAL), pre=pre, post=post_add_node, modifies=list(F.values())),
        Contract(BR + '.is_edge', two, pre=pre, value=lambda s: (TBool, R(s).e(R(s).id(s.source), R(s).id(s.target))), raises=known),
        Contract(BR + '.is_edge_id', dict(self=REL, i=TInt, j=TInt), pre=lambda s: pre(s) + [('numbers of nodes', R(s).rng(s.i, s.j))], value=lambda s: (TBool, R(s).e(s.i, s.j))),
        Contract(BR + '.is_irreflexive', me, pre=pre, value=lambda s: (TBool, irreflexive(R(s)))),
        Contract(BR + '.is_transitive', me, pre=pre, value=lambda s: (TBool, transitive(R(s)))),
        Contract(BR + '.is_strict_partial_order', me, pre=pre, value=lambda s: (TBool, And(irreflexive(R(s)), transitive(R(s))))),
        Contract(BR + '.get_start_nodes', me, pre=pre, post=extremal(True)),
        Contract(BR + '.get_end_nodes', me, pre=pre, post=extremal(False)),
        Contract(BR + '.add_transitive_edges', me, pre=pre, post=post_closure, modifies=[F['e']], loops={0: LoopInv(closing(False)), 1: LoopInv(closing(True))}),
        Contract(BR + '.remove_edge_without_violating_transitivity', two, pre=pre, post=post_opened, raises=known, modifies=[F['e']], loops={0: LoopInv(opening(False)), 1: LoopInv(opening(True))}),
        Contract(BR + '.get_transitive_reduction', me, pre=pre, post=post_reduction, raises=lambda s: {'ValueError': Not(irreflexive(R(s)))}, result=REL, modifies=list(F.values()), allocates=True),
    ]


E0 = z3.Function('E', I, I, z3.BoolSort())          # a strict partial order on the numbers below N
M0 = z3.Function('between', I, I, I)                # how many numbers lie between two others in it


def LEMMAS():
    N = z3.Int('N')
    i, j, k, a, b = z3.Ints('i j k a b')
    f, g = z3.Ints('f g')
    rng = lambda *xs: And(*[And(x >= 0, x < N) for x in xs])
    fa3 = lambda body: z3.ForAll([i, j, k], z3.Implies(rng(i, j, k), body))
    spo = [z3.ForAll([i], z3.Implies(rng(i), Not(E0(i, i)))), fa3(z3.Implies(And(E0(i, j), E0(j, k)), E0(i, k)))]
    inside = lambda x, lo, hi: And(rng(x), E0(lo, x), E0(x, hi))
    cov = lambda lo, hi: And(E0(lo, hi), Not(z3.Exists([j], And(rng(j), lo != j, j != hi, E0(lo, j), E0(j, hi)))))
    size = z3.ForAll([i, k, a, b], z3.Implies(And(rng(i, k, a, b), z3.ForAll([j], z3.Implies(inside(j, i, k), inside(j, a, b))), z3.Exists([j], And(inside(j, a, b), Not(inside(j, i, k))))), M0(i, k) < M0(a, b)),
                     patterns=[z3.MultiPattern(M0(i, k), M0(a, b))])
    clo = [z3.ForAll([i, k], z3.Implies(And(rng(i, k), cov(i, k)), CL(i, k))), fa3(z3.Implies(And(CL(i, j), CL(j, k)), CL(i, k)))]
    ih = z3.ForAll([i, k], z3.Implies(And(rng(i, k), E0(i, k), M0(i, k) < M0(a, b)), CL(i, k)))
    w = z3.Int('w')
    # T: the order without one of its cover edges (f, g)
    T = lambda x, y: And(E0(x, y), Not(And(x == f, y == g)))
    return [('every transitive relation containing the cover edges contains the order (induction step on the number of elements in between): no element in between',
             spo + clo + [rng(a, b), E0(a, b), cov(a, b)], CL(a, b)),
            ('... the intervals on both sides of an element in between are smaller', spo + [size, rng(a, b, w), inside(w, a, b), M0(a, w) >= 0, M0(w, b) >= 0], And(M0(a, w) < M0(a, b), M0(w, b) < M0(a, b))),
            ('... an element in between', spo + clo + [ih, rng(a, b, w), inside(w, a, b), M0(a, w) < M0(a, b), M0(w, b) < M0(a, b)], CL(a, b)),
            ('the order without one of its cover edges is transitive, so that a relation with the order as its closure contains every cover edge',
             spo + [rng(f, g), cov(f, g)], fa3(z3.Implies(And(T(i, j), T(j, k)), T(i, k)))),
            ('the cover edges belong to the order', spo + [rng(a, b), cov(a, b)], E0(a, b)),
            ('for an irreflexive relation, transitive on distinct nodes is transitive', [spo[0], fa3(z3.Implies(And(i != j, j != k, E0(i, j), E0(j, k)), E0(i, k)))], fa3(z3.Implies(And(E0(i, j), E0(j, k)), E0(i, k)))),
            ]


ASSUMPTIONS = ['nodes are pairwise different hashable values whose == and hash agree', 'add_transitive_edges and remove_edge_without_violating_transitivity: partial correctness (that their loops end is not proved; they end because each pass but the last changes the number of edges)',
               'a subset of a finite set that misses one of its elements has fewer elements (used for the induction over the elements in between)',
               'that the closure of the reduction is the order, and that the reduction is contained in every such relation, are lemmas over the postcondition of get_transitive_reduction (reduction = cover edges), the induction itself being the meta-argument']
NOTE = 'all operations of BinaryRelation that read or change edges, nodes or the order are proved for relations of any size'
