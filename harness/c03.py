from gen import *
from pm4py.objects.petri_net.utils import petri_utils as U

BOUNDS = 'sequences of at most 25 editing operations on nets of the four arc classes'


def snapshot(net):
    return set(net.places), set(net.transitions), set(net.arcs)


class Ref:
    def __init__(self, net):
        self.net, self.P, self.T, self.A = net, [], [], []      # arcs: (arc object, src, tgt, weight)


def compare(r, what):
    net = r.net
    need(len(net.places) == len(r.P) and all(p in net.places for p in r.P), 'places', 'after %s the places are wrong' % what)
    need(len(net.transitions) == len(r.T) and all(t in net.transitions for t in r.T), 'transitions', 'after %s the transitions are wrong' % what)
    ids = {id(a): (s, t, w) for a, s, t, w in r.A}
    need(len(net.arcs) == len(ids) and all(id(a) in ids for a in net.arcs), 'arcs', 'after %s the arcs are wrong: %s instead of %s' % (what, net.arcs, [a[0] for a in r.A]))
    for a in net.arcs:
        s, t, w = ids[id(a)]
        need(a.source is s and a.target is t and a.weight == w, 'arc-content', 'arc %s changed by %s' % (a, what))
    for nodes, kind in ((r.P, 'place'), (r.T, 'transition')):
        for x in nodes:
            wi = sorted(id(a) for a, s, t, w in r.A if t is x)
            wo = sorted(id(a) for a, s, t, w in r.A if s is x)
            need(sorted(id(a) for a in x.in_arcs) == wi, 'in-arcs', 'after %s the incoming arcs of %s are %s' % (what, x, x.in_arcs))
            need(sorted(id(a) for a in x.out_arcs) == wo, 'out-arcs', 'after %s the outgoing arcs of %s are %s' % (what, x, x.out_arcs))


def edit(rng, k):
    kind = rng.choice(['plain', 'plain', 'inhibitor', 'reset', 'ri'])
    cls = {'plain': PetriNet, 'inhibitor': InhibitorNet, 'reset': ResetNet, 'ri': ResetInhibitorNet}[kind]
    r = Ref(cls('n'))
    n = 0
    for step in range(rng.randint(5, 25)):
        op = rng.choice(['p', 't', 'a', 'a', 'a', 'rp', 'rt', 'ra', 'bad', 'foreign', 'merge'])
        what = op
        if op == 'p':
            p = U.add_place(r.net, name=rng.choice([None, 'x%d' % step]))
            need(isinstance(p, PetriNet.Place), 'place-type', 'add_place returned %r' % p)
            need(not any(p is q for q in r.P), 'fresh', 'add_place returned an existing place')
            r.P.append(p)
        elif op == 't':
            l = rng.choice([None, 'a', 'b', ''])
            nm = rng.choice([None, 'y%d' % step])
            t = U.add_transition(r.net, name=nm, label=l)
            need(t.label == l and (nm is None or t.name == nm), 'transition-content', 'add_transition(%r, %r) gave %r %r' % (nm, l, t.name, t.label))
            need(not any(t is q for q in r.T), 'fresh', 'add_transition returned an existing transition')
            r.T.append(t)
        elif op == 'a' and r.P and r.T:
            p, t = rng.choice(r.P), rng.choice(r.T)
            s, x = (p, t) if rng.random() < 0.5 else (t, p)
            ty = rng.choice([None, 'inhibitor', 'reset']) if s is p else None
            ok = ty is None or kind == 'ri' or kind == ty
            w = rng.choice([1, 2, 5])
            try:
                a = U.add_arc_from_to(s, x, r.net, weight=w, type=ty)
            except Exception:
                need(not ok, 'refused', 'add_arc_from_to refused a legal arc')
                compare(r, 'refused arc')
                continue
            need(ok, 'accepted', 'an arc of type %s was accepted by %s' % (ty, kind))
            need(isinstance(a, InhibitorNet.InhibitorArc) == (ty == 'inhibitor') and isinstance(a, ResetNet.ResetArc) == (ty == 'reset'), 'arc-kind', 'wrong kind of arc')
            need(U.get_arc_type(a) == ty, 'arc-type', 'arc type %s instead of %s' % (U.get_arc_type(a), ty))
            r.A.append((a, s, x, w))
        elif op == 'bad':
            for nodes in (r.P, r.T):
                if len(nodes) > 1:
                    try:
                        U.add_arc_from_to(nodes[0], nodes[1], r.net)
                    except Exception:
                        continue
                    need(False, 'bipartite', 'an arc between two %s was accepted' % type(nodes[0]).__name__)
        elif op == 'rp' and r.P:
            p = rng.choice(r.P)
            ret = U.remove_place(r.net, p)
            need(ret is r.net, 'return', 'remove_place did not return the net')
            r.P = [q for q in r.P if q is not p]
            r.A = [a for a in r.A if a[1] is not p and a[2] is not p]
        elif op == 'rt' and r.T:
            t = rng.choice(r.T)
            ret = U.remove_transition(r.net, t)
            need(ret is r.net, 'return', 'remove_transition did not return the net')
            r.T = [q for q in r.T if q is not t]
            r.A = [a for a in r.A if a[1] is not t and a[2] is not t]
        elif op == 'ra' and r.A:
            a = rng.choice(r.A)
            U.remove_arc(r.net, a[0])
            r.A = [b for b in r.A if b[0] is not a[0]]
        elif op == 'foreign':
            f = rand_net(rng)
            U.remove_place(r.net, f.places[0])
            U.remove_transition(r.net, f.trans[0])
            need(f.places[0] in f.net.places and len(f.net.arcs) == len(f.arcs), 'foreign', 'a node of another net was removed')
            x = f.trans[0]
            need(len(x.in_arcs) == len(f.pre(x)) and len(x.out_arcs) == len(f.post(x)), 'foreign', 'arcs of another net changed')
        elif op == 'merge' and step % 3 == 0:
            others = [rand_net(rng) for _ in range(rng.randint(0, 2))]
            ret = U.merge(r.net, [o.net for o in others])
            need(ret is r.net, 'return', 'merge did not return the target')
            for o in others:
                r.P += o.places
                r.T += o.trans
                r.A += [(a, a.source, a.target, a.weight) for a in o.net.arcs]
                ro = Ref(o.net)
                ro.P, ro.T, ro.A = list(o.places), list(o.trans), [(a, a.source, a.target, a.weight) for a in o.net.arcs]
                compare(ro, 'merge (source net)')
        compare(r, what)
        n += 1
    return n


def merge_none(rng, k):
    nets = [rand_net(rng) for _ in range(rng.randint(0, 3))]
    m = U.merge(nets=[x.net for x in nets])
    need(m.places == set(p for x in nets for p in x.places) and m.transitions == set(t for x in nets for t in x.trans)
         and set(map(id, m.arcs)) == set(id(a) for x in nets for a in x.net.arcs), 'merge', 'merge without a target')


def neighbours(rng, k):
    r = rand_net(rng, rng.choice(['plain', 'ri']))
    for x in r.places + r.trans:
        for ty in (None, 'inhibitor', 'reset'):
            need(U.pre_set(x, ty) == set(s for s, t, w, kd in r.arcs if t is x and kd == ty), 'pre-set', 'pre_set(%s, %s)' % (x, ty))
            need(U.post_set(x, ty) == set(t for s, t, w, kd in r.arcs if s is x and kd == ty), 'post-set', 'post_set(%s, %s)' % (x, ty))
    for t in r.trans:
        need(U.get_transition_by_name(r.net, t.name) is t, 'by-name', 'get_transition_by_name')
    need(U.get_transition_by_name(r.net, 'none') is None, 'by-name', 'get_transition_by_name finds nothing')


def unconnected(rng, k):
    r = rand_net(rng)
    P, T, A = set(r.places), set(r.trans), list(r.arcs)
    while True:
        dp = set(p for p in P if not any(s is p or t is p for s, t, w, kd in A))
        P -= dp
        dt = set(t for t in T if not any(x is t for s, x, w, kd in A) or not any(s is t for s, x, w, kd in A))
        T -= dt
        A = [a for a in A if a[0] not in dt and a[1] not in dt]
        if not dp and not dt:
            break
    U.remove_unconnected_components(r.net)
    need(r.net.places == P and r.net.transitions == T and len(r.net.arcs) == len(A), 'unconnected', 'remove_unconnected_components')


CASES = [('editing', edit, 600), ('merge-without-target', merge_none, 60), ('neighbours', neighbours, 150), ('unconnected', unconnected, 150)]
