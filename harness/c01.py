from gen import *
from pm4py.objects.petri_net import semantics as S
from pm4py.objects.petri_net.inhibitor_reset import semantics as I
from collections import Counter

BOUNDS = 'random nets with at most 4 places and 4 transitions, weights 1..3, at most 4 tokens per place'


def check(rng, k, kind):
    r = rand_net(rng, kind)
    mod = S if kind == 'plain' else I
    sem = S.ClassicSemantics() if kind == 'plain' else I.InhibitorResetSemantics()
    foreign = rand_net(rng, 'plain')
    n = 0
    for _ in range(4):
        m = rand_marking(rng, r.places)
        before = dict(m)
        want = set(t for t in r.trans if r.enabled(t, before))
        for f, nm in ((lambda: mod.enabled_transitions(r.net, m), 'enabled_transitions'), (lambda: sem.enabled_transitions(r.net, m), 'object.enabled_transitions')):
            got = f()
            need(got == want, 'enabled-set', '%s returned %s, expected %s' % (nm, got, want), (str(r.net), str(m)))
        for t in r.trans + foreign.trans[:1]:
            inn = t in r.net.transitions
            en = inn and t in want
            for f, nm in ((mod.is_enabled, 'is_enabled'), (sem.is_enabled, 'object.is_enabled')):
                need(bool(f(t, r.net, m)) == en, 'is-enabled', '%s(%s) = %s' % (nm, t, not en), (str(r.net), str(m)))
            if not inn:
                need(mod.execute(t, r.net, m) is None and sem.execute(t, r.net, m) is None, 'fire-foreign', 'a transition outside the net fired')
                continue
            exp = r.fire(t, before) if en else None
            for f, nm in ((lambda: mod.execute(t, r.net, m), 'execute'), (lambda: sem.execute(t, r.net, m), 'object.execute')):
                got = f()
                need(mdict(got) == exp, 'fire', '%s(%s) = %s, expected %s' % (nm, t, got, exp), (str(r.net), str(m)))
                need(got is not m, 'new-marking', 'the marking is not new')
                need(dict(m) == before, 'argument-changed', '%s changed the given marking' % nm, (str(r.net), str(before)))
            if en:
                for f, nm in ((lambda: mod.weak_execute(t, m), 'weak_execute'), (lambda: sem.weak_execute(t, r.net, m), 'object.weak_execute')):
                    got = f()
                    need(mdict(got) == exp, 'weak-fire', '%s(%s) = %s, expected %s' % (nm, t, got, exp), (str(r.net), str(m)))
                    need(dict(m) == before, 'argument-changed', '%s changed the given marking' % nm)
            if kind == 'plain':
                c = Counter(before)
                need(bool(S.PetriNetSemantics.is_enabled(r.net, t, c)) == en, 'generic-enabled', 'PetriNetSemantics.is_enabled(%s)' % t, (str(r.net), str(m)))
                if en:
                    got = S.PetriNetSemantics.fire(r.net, t, c)
                    need({p: x for p, x in got.items() if x} == exp, 'generic-fire', 'PetriNetSemantics.fire(%s) = %s, expected %s' % (t, got, exp), (str(r.net), str(m)))
                    need(dict(c) == before, 'argument-changed', 'PetriNetSemantics.fire changed the given marking')
            n += 1
    return n


CASES = [('plain', lambda g, k: check(g, k, 'plain'), 400), ('inhibitor', lambda g, k: check(g, k, 'inhibitor'), 200),
         ('reset', lambda g, k: check(g, k, 'reset'), 200), ('reset-inhibitor', lambda g, k: check(g, k, 'ri'), 300)]
