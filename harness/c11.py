"""C11 concrete oracle: relations as sets of pairs"""
import itertools
from pm4py.objects.powl.BinaryRelation import BinaryRelation
from gen import need as _need


def need(cond, key, *data):
    _need(cond, key, ' '.join(repr(d) for d in data))


BOUNDS = 'relations on at most 7 nodes (all relations on up to 3 nodes, random ones above: arbitrary, acyclic, transitive, with self-loops), random sequences of up to 12 edge and node updates'

POOLS = [['a', 'b', 'c', 'd', 'e', 'f', 'g'], [0, 1, 2, 3, 4, 5, 6], [6, 4, 2, 0, 1, 3, 5], ['', None, 0, ('a',), 'b', 1.5, frozenset()], [('x', 'y'), ('y',), (), ('x',), ('z',), ('z', 'x'), ('y', 'x')]]


def mk(nodes, E):
    r = BinaryRelation(list(nodes))
    for a, b in E:
        r.add_edge(a, b)
    return r


def edges(r):
    ns = r.get_nodes()
    return {(a, b) for a in ns for b in ns if r.is_edge(a, b)}


def closure(E):
    C = set(E)
    while True:
        n = {(a, d) for (a, b) in C for (c, d) in C if b == c} - C
        if not n:
            return C
        C |= n


def irr(nodes, E):
    return all((x, x) not in E for x in nodes)


def trans(E):
    return all((a, d) in E for (a, b) in E for (c, d) in E if b == c)


def trans_d(E):
    return all((a, d) in E for (a, b) in E for (c, d) in E if b == c and a != b and c != d)


def gen(rng, k):
    if k < 530:       # every relation on at most 3 nodes
        n = 0
        while k >= 2 ** (n * n):
            k -= 2 ** (n * n)
            n += 1
        nodes = POOLS[k % len(POOLS)][:n]
        return nodes, {p for i, p in enumerate(itertools.product(nodes, nodes)) if k >> i & 1}
    n = rng.randint(2, 7)
    nodes = rng.sample(rng.choice(POOLS), n)
    d = rng.choice([.15, .3, .5, .8])
    kind = rng.randint(0, 4)
    E = set()
    for i, j in itertools.product(range(n), range(n)):
        if rng.random() < d and (kind == 0 or (kind == 1 and i != j) or i < j):
            E.add((nodes[i], nodes[j]))
    if kind == 3:
        E = closure(E)
    if kind == 4:
        E = {(nodes[i], nodes[i + 1]) for i in range(n - 1)}
        p = nodes[:]
        rng.shuffle(p)
        nodes = p
    return nodes, E


def tests(rng, k):
    nodes, E = gen(rng, k)
    given = list(nodes)
    r = mk(nodes, E)
    need(edges(r) == E, 'edges', nodes, E, edges(r))
    need(r.is_irreflexive() == irr(nodes, E), 'is_irreflexive', nodes, E)
    need(r.is_transitive() == trans(E), 'is_transitive', nodes, E)
    need(r.is_strict_partial_order() == (irr(nodes, E) and trans(E)), 'is_strict_partial_order', nodes, E)
    need(r.get_start_nodes() == {x for x in nodes if not any(b == x for a, b in E)}, 'start nodes', nodes, E, r.get_start_nodes())
    need(r.get_end_nodes() == {x for x in nodes if not any(a == x for a, b in E)}, 'end nodes', nodes, E, r.get_end_nodes())
    need(edges(r) == E and r.get_nodes() == given, 'a test changed the relation', nodes, E)


def closing(rng, k):
    nodes, E = gen(rng, k)
    r = mk(nodes, E)
    r.add_transitive_edges()
    C = edges(r)
    need(E <= C, 'closure contains the relation', nodes, E, C)
    need(C <= closure(E), 'closure is contained in the transitive closure', nodes, E, C)
    need(trans_d(C), 'closure is transitive on distinct nodes', nodes, E, C)
    if irr(nodes, closure(E)):
        need(C == closure(E), 'closure of an acyclic relation', nodes, E, C)


def reducing(rng, k):
    nodes, E = gen(rng, k)
    if rng.random() < .6 and k >= 530:
        E = {(a, b) for a, b in E if a != b}
        if irr(nodes, closure(E)):
            E = closure(E)
    given = list(nodes)
    r = mk(nodes, E)
    if not irr(nodes, E):
        try:
            r.get_transitive_reduction()
        except ValueError:
            return
        need(False, 'reduction of a reflexive relation is refused', nodes, E)
    t = r.get_transitive_reduction()
    R = edges(t)
    need(edges(r) == E and r.get_nodes() == given, 'the reduction changed the relation', nodes, E)
    need(t.get_nodes() == given, 'nodes of the reduction', nodes, t.get_nodes())
    cover = {(a, b) for a, b in E if not any((a, c) in E and (c, b) in E for c in nodes if c != a and c != b)}
    need(R == cover, 'the reduction consists of the cover edges', nodes, E, R)
    if trans(E):
        need(closure(R) == E, 'closure of the reduction', nodes, E, R)
    # independent objects
    if nodes:
        t.add_node('new')
        t.add_edge('new', nodes[0])
        need(edges(r) == E and r.get_nodes() == given, 'a change of the reduction changed the relation', nodes, E)
        need(r.get_start_nodes() == {x for x in nodes if not any(b == x for a, b in E)}, 'start nodes after a change of the reduction', nodes, E)


def updates(rng, k):
    pool = rng.choice(POOLS)
    nodes = rng.sample(pool, rng.randint(0, 4))
    mine = list(nodes)
    r = BinaryRelation(mine)
    N, E = list(nodes), set()
    log = []
    for _ in range(rng.randint(1, 12)):
        op = rng.choice(['add', 'add', 'remove', 'node', 'opened'])
        a, b = rng.choice(pool), rng.choice(pool)
        log.append((op, a, b))
        if op == 'node':
            r.add_node(a)
            if a not in N:
                N.append(a)
        else:
            try:
                {'add': r.add_edge, 'remove': r.remove_edge, 'opened': r.remove_edge_without_violating_transitivity}[op](a, b)
                need(a in N and b in N, 'unknown nodes are refused', nodes, log)
            except Exception as e:
                if type(e).__name__ == 'Violation':
                    raise
                need(not (a in N and b in N), 'known nodes are not refused', nodes, log, repr(e))
                continue
            if op == 'add':
                E.add((a, b))
            elif op == 'remove':
                E.discard((a, b))
            else:
                now = edges(r)
                need(now <= E - {(a, b)} and trans_d(now), 'removal that keeps transitivity', nodes, log, now)
                E = now
        need(r.get_nodes() == N, 'nodes after the updates', nodes, log, r.get_nodes())
        need(edges(r) == E, 'edges after the updates', nodes, log, edges(r))
        need([[bool(r.is_edge_id(i, j)) for j in range(len(N))] for i in range(len(N))] == [[(x, y) in E for y in N] for x in N], 'edges by number', nodes, log)
        need(mine == nodes, "the caller's list of nodes changed", nodes, mine, log)
    for a, b in itertools.product(pool, pool):
        if a in N and b in N:
            continue
        try:
            r.is_edge(a, b)
        except Exception:
            continue
        need(False, 'is_edge of unknown nodes', nodes, log, a, b)


CASES = [('order tests, start and end nodes', tests, 1200), ('transitive closure', closing, 900), ('transitive reduction', reducing, 1000), ('edge and node updates', updates, 600)]
