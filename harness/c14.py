from gen import *
import numpy as np
from pm4py.objects.petri_net.utils import incidence_matrix as IMod, consumption_matrix as CMod
from pm4py.objects.petri_net.utils import petri_utils as U
from pm4py.objects.petri_net import semantics as S
from pm4py.algo.analysis.woflan.graphs import utility as W
from pm4py.algo.analysis.woflan.place_invariants.place_invariants import compute_place_invariants

BOUNDS = 'random nets with at most 6 places and 6 transitions, weights 1..4, parallel arcs, isolated nodes, equal and unusual names'


def weird(rng):
    r = rand_net(rng, 'plain', np=6, nt=6, maxw=4, dens=rng.choice([0.0, 0.2, 0.5, 0.9]))
    if rng.random() < 0.4:          # equal names
        for x in r.places + r.trans:
            if rng.random() < 0.5:
                nm = rng.choice(['', 'x', '10', '9', 'ä'])
                if isinstance(x, PetriNet.Place):
                    x.name = nm
                else:
                    x.name = nm
    if rng.random() < 0.4:          # parallel arcs
        for _ in range(rng.randint(1, 3)):
            p, t = rng.choice(r.places), rng.choice(r.trans)
            s, x = (p, t) if rng.random() < 0.5 else (t, p)
            w = rng.randint(1, 3)
            a = PetriNet.Arc(s, x, w)
            r.net.arcs.add(a)
            s.out_arcs.add(a)
            x.in_arcs.add(a)
            r.arcs.append((s, x, w, None))
    return r


def flow(r, p, t):
    prod = sum(w for s, x, w, k in r.arcs if s is t and x is p)
    cons = sum(w for s, x, w, k in r.arcs if s is p and x is t)
    return prod, cons


def matrices(rng, k):
    r = weird(rng)
    im = rng.choice([IMod.construct, IMod.IncidenceMatrix])(r.net)
    cm = rng.choice([CMod.construct, CMod.ConsumptionMatrix])(r.net)
    for M, nm, mat in ((im, 'incidence', im.a_matrix), (cm, 'consumption', cm.c_matrix)):
        need(set(M.places) == set(r.places) and sorted(M.places.values()) == list(range(len(r.places))), nm + ':places', '%s: place indices %r' % (nm, M.places))
        need(set(M.transitions) == set(r.trans) and sorted(M.transitions.values()) == list(range(len(r.trans))), nm + ':transitions', '%s: transition indices %r' % (nm, M.transitions))
        need(len(mat) == len(r.places) and all(len(x) == len(r.trans) for x in mat), nm + ':shape', 'shape of the %s matrix' % nm)
        for p in r.places:
            for t in r.trans:
                pr, co = flow(r, p, t)
                want = pr - co if nm == 'incidence' else -co
                got = mat[M.places[p]][M.transitions[t]]
                need(got == want, nm + ':entry', '%s entry of %s and %s is %s, expected %s' % (nm, p, t, got, want), str(r.arcs))
    need(im.places == cm.places and im.transitions == cm.transitions, 'ordering', 'the two matrices order the nodes differently')
    for _ in range(3):
        m = rand_marking(rng, r.places)
        before = dict(m)
        v = im.encode_marking(m)
        need(len(v) == len(r.places) and all(v[im.places[p]] == before.get(p, 0) for p in r.places), 'encode', 'encoding of %s: %s' % (m, v))
        need(dict(m) == before, 'frame', 'the marking was changed')
        for t in r.trans:
            if r.enabled(t, before) and len(set((s, x) for s, x, w, kd in r.arcs)) == len(r.arcs):
                m2 = S.execute(t, r.net, m)
                v2 = im.encode_marking(m2)
                col = [im.a_matrix[i][im.transitions[t]] for i in range(len(r.places))]
                need([a + b for a, b in zip(v, col)] == list(v2), 'state-equation', 'firing %s in %s: %s + %s is not %s' % (t, m, v, col, v2), str(r.arcs))
    return 1


def woflan(rng, k):
    r = rand_net(rng, 'plain', np=5, nt=5, maxw=4, dens=rng.choice([0.2, 0.5, 0.9]))
    C = W.compute_incidence_matrix(r.net)
    P = sorted(r.places, key=lambda x: x.name)
    T = sorted(r.trans, key=lambda x: x.name)
    ref = np.array([[flow(r, p, t)[0] - flow(r, p, t)[1] for t in T] for p in P])
    need(C.shape == ref.shape and (C == ref).all(), 'woflan:entry', 'incidence matrix %s, expected %s' % (C.tolist(), ref.tolist()), str(r.arcs))
    sp = W.split_incidence_matrix(C, r.net)
    need(set(sp) == set(T) and all(list(sp[t]) == [x[i] for x in ref] for i, t in enumerate(T)), 'woflan:split', 'columns of the incidence matrix')
    rq = W.compute_firing_requirement(r.net)
    need(set(rq) == set(T) and all(list(rq[t]) == [-flow(r, p, t)[1] for p in P] for t in T), 'woflan:requirement', 'firing requirements')
    m = rand_marking(rng, r.places)
    v = W.convert_marking(r.net, m)
    need(list(v) == [m[p] for p in P], 'woflan:encode', 'encoding of %s: %s' % (m, list(v)))
    nx = W.enabled_markings(sp, rq, v)
    want = {t: tuple(r.fire(t, dict(m)).get(p, 0) for p in P) for t in T if r.enabled(t, dict(m))}
    need({t: tuple(x) for x, t in nx} == want and len(nx) == len(want), 'woflan:fire', 'successors of %s' % m)
    inv = compute_place_invariants(r.net)
    rank = np.linalg.matrix_rank(ref) if ref.size else 0
    need(len(inv) == len(P) - rank, 'woflan:invariants', '%d place invariants, expected %d' % (len(inv), len(P) - rank))
    for y in inv:
        need(np.abs(np.array(y).reshape(-1) @ ref).max() < 1e-6, 'woflan:invariants', '%s is no place invariant' % list(y))
    return 1


CASES = [('matrices', matrices, 500), ('woflan', woflan, 150)]
