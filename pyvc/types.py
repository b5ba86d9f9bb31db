"""Type descriptors of the verified Python subset and their SMT sorts."""
import z3

z3.set_param("warning", False)

REF = z3.DeclareSort('Ref')
STR = z3.DeclareSort('Str')


class T:
    mutable = False
    name = '?'

    def sort(self):
        raise NotImplementedError

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, T) and self.name == o.name

    def __hash__(self):
        return hash(self.name)


class _Prim(T):
    def __init__(self, name, sort):
        self.name = name
        self._s = sort

    def sort(self):
        return self._s


TInt = _Prim('Int', z3.IntSort())
TReal = _Prim('Real', z3.RealSort())
TBool = _Prim('Bool', z3.BoolSort())
TStr = _Prim('Str', STR)
_us = {}


def TU(name):
    """Uninterpreted value type (activities, attribute values, ...)."""
    if name not in _us:
        _us[name] = _Prim('U:' + name, z3.DeclareSort(name))
    return _us[name]


class TRef(T):
    """Reference to a heap object; `classes` = possible (static) classes."""

    def __init__(self, *classes):
        self.classes = tuple(classes)
        self.name = 'Ref:' + '|'.join(classes)

    def sort(self):
        return REF


_cache = {}


def _san(n):
    return ''.join(c if c.isalnum() else '_' for c in n)


class TTuple(T):
    def __init__(self, *items):
        self.items = tuple(items)
        self.name = 'Tup<' + ','.join(i.name for i in items) + '>'

    def dt(self):
        key = ('tup', tuple(i.sort().sexpr() for i in self.items))
        if key not in _cache:
            d = z3.Datatype('Tup%d' % len(_cache))
            n = len(_cache)
            d.declare('mktup%d' % n, *[('t%d_%d' % (n, k), i.sort()) for k, i in enumerate(self.items)])
            _cache[key] = d.create()
        return _cache[key]

    def sort(self):
        return self.dt()

    def mk(self, *es):
        d = self.dt()
        if es and all(z3.is_app(e) and e.decl().eq(d.accessor(0, k)) and e.arg(0).eq(es[0].arg(0)) for k, e in enumerate(es)):
            return es[0].arg(0)
        return d.constructor(0)(*es)

    def get(self, e, k):
        return self.dt().accessor(0, k)(e)


class TOpt(T):
    def __init__(self, t):
        self.t = t
        self.name = 'Opt<' + t.name + '>'

    def dt(self):
        key = ('opt', self.t.sort().sexpr())
        if key not in _cache:
            n = len(_cache)
            d = z3.Datatype('Opt%d' % n)
            d.declare('none%d' % n)
            d.declare('some%d' % n, ('val%d' % n, self.t.sort()))
            _cache[key] = d.create()
        return _cache[key]

    def sort(self):
        return self.dt()

    def none(self):
        return self.dt().constructor(0)()

    def some(self, e):
        return self.dt().constructor(1)(e)

    def is_none(self, e):
        return self.dt().recognizer(0)(e)

    def val(self, e):
        return self.dt().accessor(1, 0)(e)


class TSet(T):
    mutable = True

    def __init__(self, t, frozen=False):
        self.t = t
        self.name = 'Set<' + t.name + '>'

    def sort(self):
        return z3.ArraySort(self.t.sort(), z3.BoolSort())


class TDict(T):
    mutable = True

    def __init__(self, k, v, counter=False, cls=None, dflt=None):
        self.k, self.v = k, v
        self.counter = counter      # Counter / Marking: missing keys read as 0
        self.cls = cls              # class with AST-level methods (e.g. Marking)
        self.dfltval = dflt         # defaultdict factory: function(interp)->term
        self.name = 'Dict<' + k.name + ',' + v.name + (',C' if counter else '') + ((',' + cls) if cls else '') + '>'

    def dt(self):
        key = ('dict', self.k.sort().sexpr(), self.v.sort().sexpr())
        if key not in _cache:
            n = len(_cache)
            d = z3.Datatype('Dict%d' % n)
            d.declare('mkdict%d' % n, ('dom%d' % n, z3.ArraySort(self.k.sort(), z3.BoolSort())),
                      ('map%d' % n, z3.ArraySort(self.k.sort(), self.v.sort())))
            _cache[key] = d.create()
        return _cache[key]

    def sort(self):
        return self.dt()

    def mk(self, dom, val):
        return self.dt().constructor(0)(dom, val)

    def dom(self, e):
        return _acc(self.dt(), 0, e)

    def val(self, e):
        return _acc(self.dt(), 1, e)


class TList(T):
    mutable = True

    def __init__(self, t):
        self.t = t
        self.name = 'List<' + t.name + '>'

    def dt(self):
        key = ('list', self.t.sort().sexpr())
        if key not in _cache:
            n = len(_cache)
            d = z3.Datatype('List%d' % n)
            d.declare('mklist%d' % n, ('len%d' % n, z3.IntSort()), ('arr%d' % n, z3.ArraySort(z3.IntSort(), self.t.sort())))
            _cache[key] = d.create()
        return _cache[key]

    def sort(self):
        return self.dt()

    def mk(self, n, arr):
        return self.dt().constructor(0)(n, arr)

    def len(self, e):
        return _acc(self.dt(), 0, e)

    def arr(self, e):
        return _acc(self.dt(), 1, e)


class TRec(T):
    """dictionary whose keys are literal strings of a fixed universe, each with its own value type; keys may be absent"""
    mutable = True

    def __init__(self, fields):
        self.fields = dict(sorted(fields.items()))
        self.keys = list(self.fields)
        self.name = 'Rec<' + ','.join('%s:%s' % (k, t.name) for k, t in self.fields.items()) + '>'

    def dt(self):
        key = ('rec', tuple((k, t.sort().sexpr()) for k, t in self.fields.items()))
        if key not in _cache:
            n = len(_cache)
            d = z3.Datatype('Rec%d' % n)
            cols = []
            for i, (k, t) in enumerate(self.fields.items()):
                cols += [('has%d_%s' % (n, _san(k)), z3.BoolSort()), ('fld%d_%s' % (n, _san(k)), t.sort())]
            d.declare('mkrec%d' % n, *cols)
            _cache[key] = d.create()
        return _cache[key]

    def sort(self):
        return self.dt()

    def mk(self, cols):
        """cols: key -> (present, value)"""
        return self.dt().constructor(0)(*[x for k in self.keys for x in cols[k]])

    def has(self, e, k):
        return _acc(self.dt(), 2 * self.keys.index(k), e)

    def get(self, e, k):
        return _acc(self.dt(), 2 * self.keys.index(k) + 1, e)

    def set(self, e, k, present, v):
        cols = {q: (self.has(e, q), self.get(e, q)) for q in self.keys}
        cols[k] = (present, v)
        return self.mk(cols)


class TSeq(T):
    """immutable sequence (tuple of any length): a list in normal form (default beyond the length)"""

    def __init__(self, tl):
        self.tl = tl
        self.name = 'Seq<' + tl.t.name + '>'

    def sort(self):
        return self.tl.sort()


def _acc(dt, i, e):
    """accessor with constructor folding"""
    if z3.is_app(e) and e.decl().eq(dt.constructor(0)):
        return e.arg(i)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        a, b = _acc(dt, i, e.arg(1)), _acc(dt, i, e.arg(2))
        return a if a.eq(b) else z3.If(e.arg(0), a, b)
    return dt.accessor(0, i)(e)


_dflt = {}


def default(t):
    """The normal-form value of an absent dictionary entry."""
    if t == TInt:
        return z3.IntVal(0)
    if t == TReal:
        return z3.RealVal(0)
    if t == TBool:
        return z3.BoolVal(False)
    if isinstance(t, TSet):
        return z3.K(t.t.sort(), z3.BoolVal(False))
    if isinstance(t, TDict):
        return t.mk(z3.K(t.k.sort(), z3.BoolVal(False)), z3.K(t.k.sort(), default(t.v)))
    if isinstance(t, TList):
        return t.mk(z3.IntVal(0), z3.K(z3.IntSort(), default(t.t)))
    if isinstance(t, TOpt):
        return t.none()
    if isinstance(t, TTuple):
        return t.mk(*[default(i) for i in t.items])
    if isinstance(t, TRec):
        return t.mk({k: (z3.BoolVal(False), default(x)) for k, x in t.fields.items()})
    key = t.sort().sexpr()
    if key not in _dflt:
        _dflt[key] = z3.Const('dflt!' + _san(key), t.sort())
    return _dflt[key]


GLOBAL_CONSTS = {}


def strlit(s):
    k = ('str', s)
    if k not in GLOBAL_CONSTS:
        GLOBAL_CONSTS[k] = z3.Const('str!%d!%s' % (len(GLOBAL_CONSTS), _san(s)[:20]), STR)
    return GLOBAL_CONSTS[k]


def is_global_const(e):
    n = e.decl().name()
    return n.startswith('str!') or n.startswith('dflt!') or n.startswith('glob!')


def leaves(t):
    """[(path, index types, base type)] : a value of type t as a family of functions idx -> base."""
    if isinstance(t, TSet):
        return [(('in',), (t.t,), TBool)]
    if isinstance(t, TDict):
        r = [(('dom',), (t.k,), TBool)]
        for p, ix, b in leaves(t.v):
            r.append((('val',) + p, (t.k,) + ix, b))
        return r
    if isinstance(t, TList):
        r = [(('len',), (), TInt)]
        for p, ix, b in leaves(t.t):
            r.append((('arr',) + p, (TInt,) + ix, b))
        return r
    if isinstance(t, TRec):
        r = []
        for key, ft in t.fields.items():
            r.append((('has:' + key,), (), TBool))
            for p, ix, b in leaves(ft):
                r.append((('fld:' + key,) + p, ix, b))
        return r
    return [((), (), t)]


def leaf_get(t, path, e, idx):
    """value of the leaf of e (type t) at idx"""
    idx = list(idx)
    for i, step in enumerate(path):
        if step == 'in':
            return sel(e, idx.pop(0))
        if step == 'dom':
            return sel(t.dom(e), idx.pop(0))
        if step == 'val':
            e, t = sel(t.val(e), idx.pop(0)), t.v
        elif step == 'len':
            return t.len(e)
        elif step == 'arr':
            e, t = sel(t.arr(e), idx.pop(0)), t.t
        elif step.startswith('has:'):
            return t.has(e, step[4:])
        elif step.startswith('fld:'):
            e, t = t.get(e, step[4:]), t.fields[step[4:]]
    return e


def sel(a, i):
    """select with light beta / read-over-write simplification"""
    if z3.is_quantifier(a) and a.is_lambda() and a.num_vars() == 1:
        return z3.substitute_vars(a.body(), i)
    if z3.is_app(a):
        k = a.decl().kind()
        if k == z3.Z3_OP_STORE:
            if a.arg(1).eq(i):
                return a.arg(2)
            if _distinct_vals(a.arg(1), i):
                return sel(a.arg(0), i)
            return z3.If(a.arg(1) == i, a.arg(2), sel(a.arg(0), i))
        if k == z3.Z3_OP_CONST_ARRAY:
            return a.arg(0)
        if k == z3.Z3_OP_ITE:
            x, y = sel(a.arg(1), i), sel(a.arg(2), i)
            return x if x.eq(y) else z3.If(a.arg(0), x, y)
    return z3.Select(a, i)


def _distinct_vals(a, b):
    if z3.is_int_value(a) and z3.is_int_value(b):
        return not a.eq(b)
    if a.sort() == REF and z3.is_const(a) and z3.is_const(b) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED == b.decl().kind():
        # an object created on the way differs from the arguments and from the other objects created
        x, y = sorted((a.decl().name()[:4], b.decl().name()[:4]))
        return x == 'new_' and (y[:2] == 'p!' or y == 'new_') and not a.eq(b) or y == 'new_' and x[:2] == 'p!'
    if a.sort() == REF and (a.num_args() or b.num_args()):
        return _created(a) and _at_entry(b) or _created(b) and _at_entry(a)
    return False


def _created(a):
    return z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and a.decl().name().startswith('new_')


def _at_entry(a):
    """what a field of an argument referred to when the function was called"""
    if not (z3.is_app(a) and a.decl().kind() == z3.Z3_OP_SELECT and a.num_args() == 2):
        return False
    h, r = a.arg(0), a.arg(1)
    if not (z3.is_const(h) and h.decl().kind() == z3.Z3_OP_UNINTERPRETED and h.decl().name().startswith('H!') and h.decl().name().count('!') == 1):
        return False
    return z3.is_const(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED and r.decl().name().startswith('p!') or _at_entry(r)


def build(t, fn, path=(), idx=()):
    """value of type t whose leaf (path, idx) is fn(path, idx)  (lambdas)"""
    if isinstance(t, TSet):
        x = z3.FreshConst(t.t.sort(), 'bx')
        return lam(x, fn(path + ('in',), idx + (x,)))
    if isinstance(t, TDict):
        x = z3.FreshConst(t.k.sort(), 'bx')
        return t.mk(lam(x, fn(path + ('dom',), idx + (x,))), lam(x, build(t.v, fn, path + ('val',), idx + (x,))))
    if isinstance(t, TList):
        x = z3.FreshConst(z3.IntSort(), 'bx')
        return t.mk(fn(path + ('len',), idx), lam(x, build(t.t, fn, path + ('arr',), idx + (x,))))
    if isinstance(t, TRec):
        return t.mk({k: (fn(path + ('has:' + k,), idx), build(ft, fn, path + ('fld:' + k,), idx)) for k, ft in t.fields.items()})
    return fn(path, idx)


def lam(x, body):
    # eta: lambda x. a[x]  ->  a
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_SELECT and body.arg(1).eq(x) and not occurs(x, body.arg(0)):
        return body.arg(0)
    # one name for all bound variables of a sort: equal functions are the same term
    c = z3.Const('lv!' + _san(x.sort().sexpr()), x.sort())
    return z3.Lambda([c], z3.substitute(body, (x, c)))


def occurs(c, e):
    seen = set()
    st = [e]
    while st:
        f = st.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if f.eq(c):
            return True
        st.extend(f.children())
    return False
