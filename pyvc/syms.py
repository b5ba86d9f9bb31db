"""Defined symbols for aggregates (sums, minima, list filters, choices ...).

A symbol is a function of the free constants of its defining body (closure conversion), so terms stay
closed under substitution.  Its axioms are universally quantified over these parameters and are added to an
obligation only when the symbol occurs in it (transitively)."""
import re
import z3
from .types import *

_syms = {}        # canonical key -> Sym
_by_decl = {}     # decl name -> Sym
_n = [0]


class Sym:
    def __init__(self, kind, name, params, bvars, bodies, res_sort):
        self.kind, self.name, self.params, self.bvars, self.bodies = kind, name, params, bvars, bodies
        self.res_sort = res_sort
        self.fn = z3.Function(name, *([p.sort() for p in params] + [res_sort]))

    def app(self, ps):
        return self.fn(*ps) if ps else self.fn()

    def body(self, k, ps, xs):
        return z3.substitute(self.bodies[k], *list(zip(self.params, ps)), *list(zip(self.bvars, xs)))


def free_consts(es):
    seen = set()
    out = []
    st = list(reversed(es))
    while st:
        f = st.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_quantifier(f):
            st.append(f.body())
            continue
        if z3.is_app(f):
            if f.num_args() == 0 and f.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if f.decl().name() not in _by_decl and not is_global_const(f):
                    out.append(f)
            st.extend(reversed(f.children()))
    return out


def alpha(e):
    """text of a term with bound variables named by position"""
    names = []
    seen = set()
    st = [e]
    while st:
        f = st.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_quantifier(f):
            for i in range(f.num_vars()):
                if f.var_name(i) not in names:
                    names.append(f.var_name(i))
            st.append(f.body())
        else:
            st.extend(reversed(f.children()))
    t = e.sexpr()
    if names:
        t = re.sub(r'(?<![\w!.])(%s)(?![\w!.])' % '|'.join(re.escape(n) for n in sorted(names, key=len, reverse=True)), lambda m: '?%d' % names.index(m.group(1)), t)
    return t


def define(kind, bvars, bodies, res_sort):
    """application of the symbol `kind` with the given bodies over bvars"""
    if kind != 'sum':
        bodies = [z3.simplify(b) for b in bodies]
    bset = [b.get_id() for b in bvars]
    fc = [c for c in free_consts(bodies) if c.get_id() not in bset]
    params = [z3.Const('prm!%d!%s' % (i, c.sort().name()), c.sort()) for i, c in enumerate(fc)]
    cbv = [z3.Const('bnd!%d!%s' % (i, b.sort().name()), b.sort()) for i, b in enumerate(bvars)]
    cb = [z3.substitute(b, *list(zip(fc, params)), *list(zip(bvars, cbv))) for b in bodies]
    key = (kind, tuple(alpha(c) for c in cb), tuple(b.sort().sexpr() for b in bvars), tuple(p.sort().sexpr() for p in params), res_sort.sexpr())
    if key not in _syms:
        _n[0] += 1
        s = Sym(kind, '%s!%d' % (kind, _n[0]), params, cbv, cb, res_sort)
        _syms[key] = s
        _by_decl[s.name] = s
    s = _syms[key]
    return s.app(fc)


def lin_bound(x, c):
    """(strictly 'lo' | 'hi', t): the atom c says x >= t, or x < t"""
    neg = False
    while z3.is_not(c):
        neg, c = not neg, c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2 or c.arg(0).sort() != z3.IntSort():
        return None
    k = c.decl().kind()
    d = {z3.Z3_OP_LE: lambda: c.arg(1) - c.arg(0), z3.Z3_OP_GE: lambda: c.arg(0) - c.arg(1),
         z3.Z3_OP_LT: lambda: c.arg(1) - c.arg(0) - 1, z3.Z3_OP_GT: lambda: c.arg(0) - c.arg(1) - 1}.get(k)
    if d is None or not occurs(x, c):
        return None
    d = d()                         # c is d >= 0
    if neg:
        d = -d - 1
    # keep conditional terms atomic
    ites, st = [], [d]
    while st:
        f = st.pop()
        if z3.is_app(f):
            if f.decl().kind() == z3.Z3_OP_ITE:
                if occurs(x, f):
                    return None
                if not any(f.eq(i) for i, _ in ites):
                    ites.append((f, z3.FreshConst(f.sort(), 'ite')))
            elif f.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                st.extend(f.children())
    if ites:
        d = z3.substitute(d, *ites)
        back = [(c, i) for i, c in ites]
    else:
        back = []
    d0 = z3.simplify(z3.substitute(d, (x, z3.IntVal(0))))
    co = z3.simplify(d - d0 - x)
    if is_zero(co):
        return 'lo', z3.substitute(z3.simplify(-d0), *back)
    co = z3.simplify(d - d0 + x)
    if is_zero(co):
        return 'hi', z3.substitute(z3.simplify(d0 + 1), *back)
    return None


_cap = {}


def uncap(e):
    """If(c, 0, e') where e' <= 0 whenever c: the same bound for a counter that starts at 0"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if is_zero(b):
            c, a, b = z3.Not(c), b, a
        if is_zero(a):
            k = e.get_id(), e
            if k[0] not in _cap:
                so = z3.Solver()
                so.set('rlimit', 100000)
                so.add(c, b > 0)
                _cap[k[0]] = (e, so.check() == z3.unsat)
            if _cap[k[0]][1]:
                return b
    return e


def split_eq(c):
    """conjuncts of an equality of tuples"""
    if z3.is_eq(c) and c.arg(0).sort().kind() == z3.Z3_DATATYPE_SORT and c.arg(0).sort().num_constructors() == 1:
        so = c.arg(0).sort()
        con = so.constructor(0)
        a, b = c.arg(0), c.arg(1)
        if (a.decl().eq(con) or b.decl().eq(con)) and con.name().startswith('mktup'):
            f = lambda v, i: v.arg(i) if v.decl().eq(con) else so.accessor(0, i)(v)
            return [q for i in range(con.arity()) for q in split_eq(f(a, i) == f(b, i))]
    return [c]


def _negated(l):
    return z3.is_app(l) and (l.decl().kind() == z3.Z3_OP_UMINUS or l.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(l.arg(0)) and l.arg(0).as_long() < 0)


def nonneg(t):
    """t is visibly not negative"""
    t = z3.simplify(t)
    if z3.is_int_value(t) or z3.is_rational_value(t):
        return t.as_fraction() >= 0 if z3.is_rational_value(t) else t.as_long() >= 0
    if not z3.is_app(t):
        return False
    k = t.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL):
        return all(nonneg(c) for c in t.children())
    if k == z3.Z3_OP_ITE:
        return nonneg(t.arg(1)) and nonneg(t.arg(2))
    if k == z3.Z3_OP_TO_REAL:
        return nonneg(t.arg(0))
    sy = _by_decl.get(t.decl().name())
    return sy is not None and sy.kind == 'sum' and nonneg(sy.bodies[0])


def norm_sum(x, g, e):
    """guard and summand with an integer index shifted to start at 0; conjuncts without x: separately"""
    cs = []
    for c in conj(g):
        for d in split_eq(c):
            if not any(d.eq(o) for o in cs):
                cs.append(d)
    if x.sort() == z3.IntSort():
        b = [lin_bound(x, c) for c in cs]
        lows = []
        for q in b:
            if q and q[0] == 'lo' and not any(q[1].eq(o) for o in lows):
                lows.append(q[1])
        lit = [l for l in lows if z3.is_int_value(l)]
        symb = [l for l in lows if not z3.is_int_value(l)]
        low = None
        if len(symb) == 1 and lit and _negated(symb[0]):
            low = max(lit, key=lambda l: l.as_long())        # already shifted
        elif len(symb) == 1:
            low = symb[0]
        elif not symb and lit:
            low = max(lit, key=lambda l: l.as_long())
        if low is not None:
            out = [x >= 0]
            for c, q in zip(cs, b):
                if q and q[0] == 'lo':
                    if q[1].eq(low) or z3.is_int_value(q[1]) and z3.is_int_value(low) or nonneg(low - q[1]):
                        continue
                    out.append(z3.simplify(x + low >= q[1]))
                elif q and q[0] == 'hi':
                    if any(r and r is not q and r[0] == 'hi' and not r[1].eq(q[1]) and nonneg(q[1] - r[1]) for r in b):
                        continue
                    out.append(z3.Not(uncap(z3.simplify(q[1] - low)) <= x))
                elif is_zero(low):
                    out.append(c)
                else:
                    out.append(z3.simplify(z3.substitute(c, (x, x + low))))
            if not is_zero(low):
                e = z3.simplify(z3.substitute(e, (x, x + low)))
            cs = out
    free = [c for c in cs if not occurs(x, c)]
    return free, [c for c in cs if occurs(x, c)], e


def _enum_reads(x, es):
    """the enumeration arrays F of the reads F[x]"""
    out, seen, st = [], set(), list(es)
    while st:
        f = st.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_quantifier(f):
            st.append(f.body())
        elif z3.is_app(f):
            if f.decl().kind() == z3.Z3_OP_SELECT and f.num_args() == 2 and f.arg(1).eq(x):
                F = f.arg(0)
                sy = _by_decl.get(F.decl().name()) if z3.is_app(F) else None
                if sy is not None and sy.kind in ('fsel', 'enum') and not any(F.eq(o) for o in out) and not occurs(x, F):
                    out.append(F)
            st.extend(f.children())
    return out


def unenum(x, cs, es):
    """an index into an enumeration, used only to read the enumerated element: range over the elements instead.
    Returns (y, conjuncts, expressions) or None"""
    if x.sort() != z3.IntSort():
        return None
    for F in _enum_reads(x, cs + es):
        sy = _by_decl[F.decl().name()]
        ps = F.children()
        y = z3.FreshConst(sy.bvars[0].sort(), 'y')
        cnt = sy.body(1, ps, [y])
        sub = [(z3.Select(F, x), y)]
        c2 = [z3.substitute(c, *sub) for c in cs]
        e2 = [z3.substitute(e, *sub) for e in es]
        if any(occurs(x, e) for e in e2):
            continue
        lo = hi = False
        rest, ok = [], True
        for c in c2:
            if not occurs(x, c):
                rest.append(c)
                continue
            b = lin_bound(x, c)
            if b and b[0] == 'lo' and is_zero(z3.simplify(b[1])):
                lo = True
            elif b and b[0] == 'hi' and (b[1].eq(cnt) or z3.simplify(b[1]).eq(z3.simplify(cnt)) or is_zero(z3.simplify(b[1] - cnt))):
                hi = True
            else:
                ok = False
                break
        if not (ok and lo and hi):
            continue
        g = sy.body(0, ps, [y])
        return y, conj(z3.simplify(g)) + rest, e2
    return None


PERM = {}       # name of a list constant -> (constant, list type, list term it is a permutation of)


def unsort(x, es):
    """an index into a permutation of a list, used only to read the element there: index the list itself"""
    if x.sort() != z3.IntSort() or not PERM:
        return None
    for r, t, e in PERM.values():
        if not any(occurs(r, f) for f in es) or occurs(x, e):
            continue
        N, A = t.len(r), t.arr(r)
        y = z3.FreshConst(z3.IntSort(), 'y')
        mark = z3.FreshConst(t.t.sort(), 'rd')
        sub = [(N, t.len(e)), (z3.Select(A, x), mark)]
        e2 = [z3.substitute(f, *sub) for f in es]
        bounds, rest = set(), []
        for f in e2:
            for c in conj(f):
                b = lin_bound(x, c) if occurs(x, c) else None
                if b and b[0] == 'lo' and is_zero(z3.simplify(b[1])):
                    bounds.add('lo')
                elif b and b[0] == 'hi' and is_zero(z3.simplify(b[1] - t.len(e))):
                    bounds.add('hi')
                else:
                    rest.append(c)
        if len(bounds) < 2 or any(occurs(x, c) or occurs(r, c) for c in rest):
            continue
        return y, [z3.simplify(z3.substitute(f, (mark, z3.Select(t.arr(e), y)), (x, y))) for f in e2]
    return None


def SUM(x, body, normed=False):
    b = z3.simplify(body)
    zero = z3.RealVal(0) if b.sort() == z3.RealSort() else z3.IntVal(0)
    if is_zero(b):
        return b
    g, e = z3.BoolVal(True), b
    neg = []
    # guard / value form
    while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        if is_zero(e.arg(2)):
            g, e = z3.And(g, e.arg(0)), e.arg(1)
        elif is_zero(e.arg(1)):
            g, e = z3.And(g, z3.Not(e.arg(0))), e.arg(2)
        else:
            break
    if not z3.is_true(g) and not z3.is_and(e):
        e2 = z3.simplify(z3.substitute(e, *[(c, z3.BoolVal(True)) for c in conj(z3.simplify(g)) if not z3.is_true(c)] + [(z3.BoolVal(True), z3.BoolVal(True))]))
        if not e2.eq(e):
            return SUM(x, z3.If(g, e2, zero))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
        return z3.simplify(z3.ToReal(SUM(x, z3.If(g, e.arg(0), z3.IntVal(0)))))
    if x.sort() == z3.IntSort() and not normed and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and lin_bound(x, e.arg(0)):
        # two stretches of the index range
        return z3.simplify(SUM(x, z3.If(z3.And(g, e.arg(0)), e.arg(1), zero)) + SUM(x, z3.If(z3.And(g, z3.Not(e.arg(0))), e.arg(2), zero)))
    r = unenum(x, conj(z3.simplify(g)), [e])
    if r is not None:
        y, c2, (e2,) = r
        return SUM(y, z3.If(z3.And(*c2) if len(c2) != 1 else c2[0], e2, zero))
    if normed:
        cs, free = conj(z3.simplify(g)), []
        if len(cs) == 1 and z3.is_true(cs[0]):
            cs = []
    else:
        free, cs, e = norm_sum(x, z3.simplify(g), e)
        free = [c for c in free if not z3.is_true(c)]
    if free:
        rest = SUM(x, z3.If(z3.And(*cs), e, zero) if cs else e, True)
        return z3.simplify(z3.If(z3.And(*free), rest, zero))
    cs = drop_witnessed(x, cs)
    if x.sort() == z3.IntSort():
        # one more than a bound: that summand separately
        for k, c in enumerate(cs):
            b = lin_bound(x, c) if occurs(x, c) and not z3.is_quantifier(c) else None
            if b and b[0] == 'hi' and z3.is_app(b[1]) and b[1].decl().kind() == z3.Z3_OP_ADD and any(z3.is_int_value(y) and y.as_long() == 1 for y in b[1].children()):
                t = z3.simplify(b[1] - 1)
                rest = [d for j, d in enumerate(cs) if j != k]
                at = z3.substitute(z3.If(z3.And(*rest), e, zero) if rest else e, (x, t))
                return z3.simplify(SUM(x, z3.If(z3.And(*(rest + [x < t])), e, zero), True) + at)
    if z3.is_app(e) and e.decl().name() in _by_decl and _by_decl[e.decl().name()].kind == 'sum' and occurs(x, e):
        # a sum over pairs, summed in the other order if that determines x
        sy = _by_decl[e.decl().name()]
        y = z3.FreshConst(sy.bvars[0].sort(), 'y')
        inner = SUM(x, z3.If(z3.And(*cs), sy.body(0, e.children(), [y]), zero) if cs else sy.body(0, e.children(), [y]))
        if not (z3.is_app(inner) and inner.decl().name() in _by_decl) and not occurs_sum(inner, y):
            return SUM(y, inner)
    cs.sort(key=lambda c: (c.decl().name(), z3.substitute(c, (x, z3.Const('_', x.sort()))).sexpr()) if z3.is_app(c) else ('', ''))
    g = z3.And(*cs) if len(cs) > 1 else (cs[0] if cs else z3.BoolVal(True))
    b = z3.If(g, e, zero) if cs else e
    if not z3.is_true(g):
        # linear parts separately
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ADD:
            r = zero
            for t in e.children():
                r = r + SUM(x, z3.If(g, t, zero), True)
            return z3.simplify(r)
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL and e.num_args() == 2 and (z3.is_int_value(e.arg(0)) or z3.is_rational_value(e.arg(0))):
            return e.arg(0) * SUM(x, z3.If(g, e.arg(1), zero), True)
        if (z3.is_int_value(e) or z3.is_rational_value(e)) and not e.eq(z3.simplify(zero + 1)):
            return e * SUM(x, z3.If(g, zero + 1, zero), True)
        if not occurs(x, e) and not (z3.is_int_value(e) or z3.is_rational_value(e)):
            return z3.simplify(e * SUM(x, z3.If(g, zero + 1, zero), True))
        # number of integers in an interval
        if len(cs) >= 2 and x.sort() == z3.IntSort() and not occurs(x, e):
            bl = [lin_bound(x, c) for c in cs]
            if all(bl) and all(any(b[0] == k for b in bl) for k in ('lo', 'hi')):
                lo = hi = None
                for kind, b in bl:
                    if kind == 'lo':
                        lo = b if lo is None else z3.If(b > lo, b, lo)
                    else:
                        hi = b if hi is None else z3.If(b < hi, b, hi)
                return z3.simplify(e * z3.If(hi > lo, hi - lo, z3.IntVal(0)))
        # point sum: the guard fixes x
        q = fixed_by(x, g)
        if q is not None:
            return z3.simplify(z3.If(z3.substitute(g, (x, q)), z3.substitute(e, (x, q)), zero))
    return define('sum', [x], [b], b.sort())


def occurs_sum(e, y):
    """a sum in which y occurs is a part of e"""
    if z3.is_app(e) and e.decl().name() in _by_decl and _by_decl[e.decl().name()].kind == 'sum' and occurs(y, e):
        return True
    return any(occurs_sum(c, y) for c in e.children())


def drop_witnessed(x, cs):
    """without the conjuncts `exists v. P(v)` for which x itself is a witness, given the other conjuncts"""
    out = list(cs)
    for c in cs:
        if z3.is_quantifier(c) and c.is_exists() and c.num_vars() == 1 and c.var_sort(0) == x.sort():
            rest = [d for d in out if not d.eq(c)]
            ids = [orient(d) for d in rest]
            if all(z3.is_true(d) or any(d.eq(o) for o in ids) for d in [orient(k) for k in conj(z3.simplify(z3.substitute_vars(c.body(), x)))]):
                out = rest
    return out


def is_zero(e):
    return (z3.is_int_value(e) and e.as_long() == 0) or (z3.is_rational_value(e) and e.as_fraction() == 0)


def conj(g):
    if z3.is_and(g):
        return [y for c in g.children() for y in conj(c)]
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        return [y for c in g.arg(0).children() for y in conj(z3.simplify(z3.Not(c)))]
    return [g]


def fixed_by(x, g):
    """t if the guard has a conjunct x == t"""
    for c in conj(g):
        if z3.is_eq(c):
            for p, q in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
                if p.eq(x) and not occurs(x, q):
                    return q
    if x.sort() == z3.IntSort():        # the only value between two bounds
        lo, hi = [], []
        for c in conj(g):
            b = lin_bound(x, c) if not z3.is_quantifier(c) and occurs(x, c) else None
            if b and z3.is_int_value(z3.simplify(b[1])):
                (lo if b[0] == 'lo' else hi).append(z3.simplify(b[1]))
        for a in lo:
            for b in hi:
                if b.as_long() - a.as_long() == 1:
                    return a
    return None


def orient(c):
    """equalities and disjunctions in a normal form: repeated and absorbed disjuncts dropped, constant parts out of quantifiers"""
    if z3.is_eq(c):
        a, b = c.arg(0), c.arg(1)
        if a.sort() != z3.BoolSort() and a.sexpr() > b.sexpr():
            return b == a
        return c
    if z3.is_or(c):
        ds, seen = [], set()
        for d in c.children():
            d = orient(d)
            for x in (d.children() if z3.is_or(d) else [d]):
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    ds.append(x)
        ids = {d.get_id() for d in ds}
        ds = [d for d in ds if not (z3.is_and(d) and any(y.get_id() in ids for y in conj(d)))]
        if any(z3.is_true(d) for d in ds):
            return z3.BoolVal(True)
        return ds[0] if len(ds) == 1 else z3.Or(*ds)
    if z3.is_and(c):
        cs = [orient(d) for d in c.children()]
        return z3.And(*cs)
    if z3.is_quantifier(c) and c.is_exists() and has_eq(c.body()):
        vs = [z3.FreshConst(c.var_sort(k), 'o') for k in range(c.num_vars())]
        b = z3.substitute_vars(c.body(), *reversed(vs))
        ins, out = [], []
        for d in conj(b):
            d = orient(d)
            (ins if any(occurs(v, d) for v in vs) else out).append(d)
        if out:
            return z3.And(*(out + [z3.Exists([v for v in vs if any(occurs(v, d) for d in ins)], z3.And(*ins) if len(ins) > 1 else ins[0])])) if ins else z3.And(*out)
        for v in vs:
            q = fixed_by(v, z3.And(*ins))
            if q is not None:
                rest = [w for w in vs if w is not v]
                b2 = z3.simplify(z3.substitute(z3.And(*ins), (v, q)))
                return orient(z3.Exists(rest, b2) if rest else b2)
    return c


def has_eq(b):
    return any(z3.is_eq(d) or z3.is_or(d) for d in conj(b))


def _ext(kind, xs, guard, val):
    xs = list(xs) if isinstance(xs, (list, tuple)) else [xs]
    for k, x in enumerate(xs):
        r = unenum(x, conj(z3.simplify(guard)), [z3.simplify(val)])
        if r is not None:
            xs[k] = r[0]
            return _ext(kind, xs, z3.And(*r[1]), r[2][0])
    return define(kind, xs, [guard, val], val.sort())


def MINV(x, guard, val):
    """the least val with guard (only used where there is one)"""
    return _ext('min', x, guard, val)


def MAXV(x, guard, val):
    return _ext('max', x, guard, val)


def CHOOSE(x, guard, salt=None):
    """some x satisfying guard, if any (only used where one exists); different salts: independent choices"""
    guard = orient(z3.simplify(guard))
    q = fixed_by(x, guard)
    if q is not None:
        return q
    return define('choose', [x], [guard] + ([salt] if salt is not None else []), x.sort())


def CARD(t, s):
    """number of members; adding or removing one member is counted directly"""
    if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_STORE and s.num_args() == 3:
        old = sel(s.arg(0), s.arg(1))
        if z3.is_true(s.arg(2)):
            return z3.simplify(CARD(t, s.arg(0)) + z3.If(old, z3.IntVal(0), z3.IntVal(1)))
        if z3.is_false(s.arg(2)):
            return z3.simplify(CARD(t, s.arg(0)) - z3.If(old, z3.IntVal(1), z3.IntVal(0)))
    x = z3.FreshConst(t.sort(), 'cx')
    return SUM(x, z3.If(sel(s, x), z3.IntVal(1), z3.IntVal(0)))


def HSET(t, s):
    """hash of a set: a function of its members"""
    x = z3.FreshConst(t.sort(), 'hx')
    return define('ext', [x], [sel(s, x)], z3.IntSort())


# order-preserving filter of a list: rank(i) = number of kept positions before i ; sel(j) = j-th kept position
def FILTER_SEL(i, n, guard):
    """index of the j-th i in [0,n) with guard; a function array Int->Int"""
    return define('fsel', [i], [z3.And(i >= 0, i < n, guard)], z3.ArraySort(z3.IntSort(), z3.IntSort()))


def FILTER_RANK(i, n, guard):
    return define('frank', [i], [z3.And(i >= 0, i < n, guard)], z3.ArraySort(z3.IntSort(), z3.IntSort()))


def used(es):
    """symbols occurring in the expressions, transitively through their bodies"""
    out = []
    names = set()
    seen = set()
    st = list(es)
    while st:
        f = st.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_quantifier(f):
            st.append(f.body())
            continue
        if z3.is_app(f):
            n = f.decl().name()
            if n in _by_decl and n not in names:
                names.add(n)
                out.append(_by_decl[n])
                st.extend(_by_decl[n].bodies)
            st.extend(f.children())
    out.sort(key=lambda s: int(s.name.split('!')[1]))
    return out


def _qv(params, tag):
    return [z3.Const('%s!%d!%s' % (tag, i, p.sort().name()), p.sort()) for i, p in enumerate(params)]


def _forall(vs, body, pats):
    if not vs:
        return body
    return z3.ForAll(vs, body, patterns=pats)


def axioms(es, mono=False, step=False):
    ss = used(es)
    ax = []
    for s in ss:
        p = _qv(s.params, 'p')
        a = s.app(p)
        pat = [a] if p else []
        if s.kind == 'sum':
            zero = z3.RealVal(0) if s.res_sort == z3.RealSort() else z3.IntVal(0)
            bs = s.bvars[0].sort()
            wz = z3.Function('wz!' + s.name, *([q.sort() for q in p] + [bs]))(*p)
            x = z3.Const('ax!x', bs)
            wn = z3.Function('wn!' + s.name, *([q.sort() for q in p] + [bs]))(*p)
            # all zero, or exactly one non-zero summand, or two different ones
            w2 = z3.Function('w2!' + s.name, *([q.sort() for q in p] + [bs]))(*p)
            fz, f2 = s.body(0, p, [wz]), s.body(0, p, [w2])
            ax.append(_forall(p, z3.Or(a == fz, z3.And(w2 != wz, f2 != zero, fz != zero)), pat))
            ax.append(_forall(p, z3.Or(fz != zero, z3.ForAll([x], s.body(0, p, [x]) == zero)), pat))
            # non-negative when every summand is; and then zero only if all are zero
            neg = s.body(0, p, [wn]) < zero
            ax.append(_forall(p, z3.Or(neg, a >= zero), pat))
            ax.append(_forall(p, z3.Or(neg, z3.ForAll([x], a >= s.body(0, p, [x]))), pat))
        elif s.kind in ('min', 'max'):
            ws = [z3.Function('w%d!%s' % (i, s.name), *([q.sort() for q in p] + [v.sort()]))(*p) for i, v in enumerate(s.bvars)]
            xs = [z3.Const('ax!x%d' % i, v.sort()) for i, v in enumerate(s.bvars)]
            cmp = (a <= s.body(1, p, xs)) if s.kind == 'min' else (a >= s.body(1, p, xs))
            ax.append(_forall(p, z3.ForAll(xs, z3.Implies(s.body(0, p, xs), z3.And(cmp, s.body(0, p, ws), a == s.body(1, p, ws)))), pat))
        elif s.kind == 'choose':
            x = z3.Const('ax!x', s.bvars[0].sort())
            ax.append(_forall(p, z3.ForAll([x], z3.Implies(s.body(0, p, [x]), s.body(0, p, [a]))), pat))
        elif s.kind in ('fsel', 'enum'):
            # enumeration of the members of a finite set (fsel: in increasing order); bodies: membership, number of members
            bs = s.bvars[0].sort()
            ps = [q.sort() for q in p]
            ix = lambda e: z3.Function('rk!' + s.name, *(ps + [bs, z3.IntSort()]))(*(p + [e]))
            j, k, x, y = z3.Const('ax!j', z3.IntSort()), z3.Const('ax!k', z3.IntSort()), z3.Const('ax!x', bs), z3.Const('ax!y', bs)
            cnt = s.body(1, p, [x])
            ej, ek = z3.Select(a, j), z3.Select(a, k)
            ax.append(_forall(p, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < cnt), z3.And(s.body(0, p, [ej]), ix(ej) == j)), patterns=[ej]), pat))
            ax.append(_forall(p, z3.ForAll([x], z3.Implies(s.body(0, p, [x]), z3.And(ix(x) >= 0, ix(x) < cnt, z3.Select(a, ix(x)) == x))), pat))
            if s.kind == 'fsel':
                ax.append(_forall(p, z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < cnt), ej < ek), patterns=[z3.MultiPattern(ej, ek)]), pat))
    sums = [s for s in ss if s.kind in ('sum', 'ext')]
    for i, s in enumerate(sums):
        for t in sums[i:]:
            if s.kind != t.kind or s.bvars[0].sort() != t.bvars[0].sort() or s.res_sort != t.res_sort:
                continue
            if s is t and not s.params:
                continue
            p, q = _qv(s.params, 'p'), _qv(t.params, 'q')
            w = z3.Function('wd!%s!%s' % (s.name, t.name), *([v.sort() for v in p + q] + [s.bvars[0].sort()]))(*(p + q))
            a, b = s.app(p), t.app(q)
            if p and q:
                pats = [z3.MultiPattern(a, b)]
            else:
                pats = [a] if p else [b]
            ax.append(_forall(p + q, z3.Or(a == b, s.body(0, p, [w]) != t.body(0, q, [w])), pats if p + q else []))
            if step and s.kind == 'sum':
                # sums of which the summands differ at one place only differ by that difference
                w2 = z3.Function('we!%s!%s' % (s.name, t.name), *([v.sort() for v in p + q] + [s.bvars[0].sort()]))(*(p + q))
                ax.append(_forall(p + q, z3.Or(a - s.body(0, p, [w]) == b - t.body(0, q, [w]), z3.And(w2 != w, s.body(0, p, [w2]) != t.body(0, q, [w2]))), pats if p + q else []))
                xe = z3.Const('ax!x', s.bvars[0].sort())
                ax.append(_forall(p + q, z3.Or(s.body(0, p, [w]) != t.body(0, q, [w]), z3.ForAll([xe], s.body(0, p, [xe]) == t.body(0, q, [xe]))), pats if p + q else []))
            if mono and s.kind == 'sum':
                # a sum is not below another one unless some summand is
                for f, g, sf, tf, fp, tp, o in ((a, b, s, t, p, q, 'a'), (b, a, t, s, q, p, 'b')):
                    v = z3.Function('wm%s!%s!%s' % (o, s.name, t.name), *([v.sort() for v in p + q] + [s.bvars[0].sort()]))(*(p + q))
                    ax.append(_forall(p + q, z3.Or(f >= g, sf.body(0, fp, [v]) < tf.body(0, tp, [v])), pats if p + q else []))
    sels = [s for s in ss if s.kind == 'fsel']
    for i, s in enumerate(sels):        # the positions of a list that satisfy a condition depend on which ones do, not on how it is written
        for t in sels[i:]:
            if s is t and not s.params:
                continue
            p, q = _qv(s.params, 'p'), _qv(t.params, 'q')
            w = z3.Function('wf!%s!%s' % (s.name, t.name), *([v.sort() for v in p + q] + [z3.IntSort()]))(*(p + q))
            a, b = s.app(p), t.app(q)
            pats = [z3.MultiPattern(a, b)] if p and q else [a] if p else [b]
            ax.append(_forall(p + q, z3.Or(a == b, s.body(0, p, [w]) != t.body(0, q, [w])), pats if p + q else []))
    return ax


def unshift(v, b):
    """an index that is always used as v + c becomes the variable"""
    if v.sort() != z3.IntSort():
        return None
    shifts, seen, st = {}, set(), [b]
    while st:
        f = st.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_quantifier(f):
            st.append(f.body())
            continue
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_SELECT:
            i = f.arg(1)
            if i.eq(v):
                return None
            if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ADD:
                cs = i.children()
                if sum(c.eq(v) for c in cs) == 1:
                    o = z3.Sum(*[c for c in cs if not c.eq(v)])
                    if not any(x.eq(v) for x in free_consts([o])):
                        shifts[o.get_id()] = o
        st.extend(f.children())
    if len(shifts) != 1:
        return None
    o = list(shifts.values())[0]
    if any(z3.is_var(x) for x in subterms(o)):
        return None
    w = z3.FreshConst(z3.IntSort(), 'j')
    return w, z3.simplify(z3.substitute(b, (v, w - o)))


def subterms(e):
    out, seen, st = [], set(), [e]
    while st:
        f = st.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        out.append(f)
        st.extend([f.body()] if z3.is_quantifier(f) else f.children())
    return out


def POS(e):
    """e > 0 for a term that is never negative: a sum of such terms is positive iff one of its summands is"""
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_ITE:
            a, b = POS(e.arg(1)), POS(e.arg(2))
            return None if a is None or b is None else z3.If(e.arg(0), a, b)
        if z3.is_int_value(e) and e.as_long() >= 0:
            return z3.BoolVal(e.as_long() > 0)
        if e.decl().kind() == z3.Z3_OP_TO_REAL:
            return POS(e.arg(0))
        if e.decl().kind() == z3.Z3_OP_ADD:
            ps = [POS(c) for c in e.children()]
            return None if any(p is None for p in ps) else z3.Or(*ps)
        s = _by_decl.get(e.decl().name())
        if s is not None and s.kind == 'sum' and s.res_sort == z3.IntSort():
            x = z3.FreshConst(s.bvars[0].sort(), 'x')
            b = POS(s.body(0, e.children(), [x]))
            return None if b is None else z3.Exists([x], z3.simplify(b))
    return None
