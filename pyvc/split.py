"""Goals about records and containers, taken apart: skolemised, split along conditionals, compared component-wise."""
import z3
from .types import sel


def _composite(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR and e.num_args() > 0 or z3.is_quantifier(e)


def _shape(e):
    """a constructor or lambda somewhere below conditionals"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return _shape(e.arg(1)) or _shape(e.arg(2))
    return _composite(e)


def split(g, hyp=(), depth=0):
    """[(hypotheses, goal)], equivalent to g in positive position"""
    hyp = list(hyp)
    if z3.is_quantifier(g) and g.is_forall():
        vs = [z3.FreshConst(g.var_sort(i), 'sk') for i in range(g.num_vars())]
        return split(z3.substitute_vars(g.body(), *reversed(vs)), hyp, depth)
    if z3.is_implies(g):
        return split(g.arg(1), hyp + [g.arg(0)], depth)
    if z3.is_and(g):
        return [x for c in g.children() for x in split(c, hyp, depth)]
    if z3.is_or(g):
        eqs = [c for c in g.children() if z3.is_eq(c) and (_shape(c.arg(0)) or _shape(c.arg(1))) or z3.is_quantifier(c) and c.is_forall()]
        if len(eqs) == 1:
            return split(eqs[0], hyp + [z3.Not(c) for c in g.children() if not c.eq(eqs[0])], depth)
        return [(hyp, g)]
    if z3.is_eq(g):
        a, b = g.arg(0), g.arg(1)
        if a.eq(b):
            return []
        if z3.is_bool(a) and depth < 3:
            return split(b, hyp + [a], depth + 1) + split(a, hyp + [b], depth + 1) if not (z3.is_quantifier(a) or z3.is_quantifier(b)) and 0 else [(hyp, g)]
        if depth > 14 or not (_shape(a) or _shape(b)):
            return [(hyp, g)]
        for x, y in ((a, b), (b, a)):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                return split(x.arg(1) == y, hyp + [c], depth + 1) + split(x.arg(2) == y, hyp + [z3.Not(c)], depth + 1)
        if z3.is_app(a) and z3.is_app(b) and _composite(a) and _composite(b) and a.decl().eq(b.decl()):
            return [x for p, q in zip(a.children(), b.children()) for x in split(p == q, hyp, depth + 1)]
        if isinstance(a.sort(), z3.ArraySortRef) and z3.is_quantifier(a) and z3.is_quantifier(b):
            v = z3.FreshConst(a.sort().domain(), 'sk')
            return split(z3.simplify(sel(a, v)) == z3.simplify(sel(b, v)), hyp, depth + 1)
    return [(hyp, g)]


def canon(e, cache):
    """bound variables renamed by height and position, so that alpha-equivalent terms are the same term"""
    k = e.get_id()
    if k in cache:
        return cache[k][1]
    if z3.is_quantifier(e):
        n = e.num_vars()
        h = _height(e, cache)
        vs = [z3.Const('cv!%d!%d' % (h, i), e.var_sort(i)) for i in range(n)]
        body = canon(z3.substitute_vars(e.body(), *reversed(vs)), cache)
        if e.is_lambda():
            r = z3.Lambda(vs, body)
        else:
            ps = []
            for i in range(e.num_patterns()):
                p = e.pattern(i)
                args = [z3.substitute_vars(a, *reversed(vs)) for a in p.children()]
                ps.append(z3.MultiPattern(*args) if len(args) > 1 else args[0])
            mk = z3.ForAll if e.is_forall() else z3.Exists
            r = mk(vs, body, patterns=ps)
    elif z3.is_app(e) and e.num_args():
        cs = e.children()
        ds = [canon(c, cache) for c in cs]
        r = e if all(a.eq(b) for a, b in zip(cs, ds)) else e.decl()(*ds)
    else:
        r = e
    cache[k] = (e, r)
    return r


def _height(e, cache):
    """nesting depth of quantifiers"""
    k = ('h', e.get_id())
    if k not in cache:
        if z3.is_quantifier(e):
            cache[k] = (e, 1 + _height(e.body(), cache))
        else:
            cache[k] = (e, max([_height(c, cache) for c in e.children()] or [0]))
    return cache[k][1]
