"""Models of builtins, container methods and a few standard-library functions."""
import ast
import z3
from . import syms
from .types import *
from .core import *


def range_source(ip, lo, hi):
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    if z3.is_int_value(n) and n.as_long() <= 8 and not getattr(ip, 'symbolic_range', False):
        return Source([], TRUE, None, concrete=[SV(TInt, z3.simplify(lo + i)) for i in range(n.as_long())])
    i = ip.fresh(z3.IntSort(), 'i')
    s = Source([i], z3.And(i >= 0, i < n), SV(TInt, z3.simplify(lo + i)), ordered=n)
    return s


class BuiltinMixin:
    def int_of(self, v):
        v = self.unopt(v)
        return self.term(v, TInt)

    def call_ext(self, name, args, kw, n):
        if name in self.w.models:
            return self.w.models[name](self, args, kw, n)
        if name == 'random.randint':
            return SV(TInt, self.fresh(z3.IntSort(), 'rnd'))
        short = name.split('.')[-1]
        if name.startswith('builtins.') or name in ('copy.copy', 'copy.deepcopy', 'collections.Counter', 'itertools.product',
                                                    'collections.defaultdict', 'statistics.mean', 'math.floor', 'math.ceil', 'typing.cast', 'time.time',
                                                    'itertools.combinations', 'typing.Counter', 'itertools.chain', 'functools.reduce'):
            m = getattr(self, 'b_' + short, None)
            if m is not None:
                return m(args, kw, n)
            if short.endswith('Error') or short.endswith('Exception') or short == 'Exception':
                return ExtV('exc:' + short)
        raise Unsupported('call of external function %s' % name)

    # ---- sizes
    def b_len(self, args, kw, n):
        v = self.unopt(args[0])
        if isinstance(v, TupV):
            return SV(TInt, z3.IntVal(len(v.items)), py=len(v.items))
        if isinstance(v, RecV):
            return SV(TInt, z3.IntVal(len(v.items)), py=len(v.items))
        if isinstance(v, Source):
            if v.one_shot:
                raise PyRaise('TypeError')
            if v.concrete is not None:
                return SV(TInt, z3.IntVal(len(v.concrete)))
            if v.ordered is not None:
                return SV(TInt, v.ordered)
            return SV(TInt, self.agg_sum(v, z3.IntVal(1)))
        if isinstance(v, Loc):
            if isinstance(v.t, TUnk):
                return SV(TInt, z3.IntVal(0), py=0)
            e = self.read(v)
            if isinstance(v.t, TList):
                return SV(TInt, z3.simplify(v.t.len(e)))
            if isinstance(v.t, TSet):
                return SV(TInt, syms.CARD(v.t.t, e))
            if isinstance(v.t, TDict):
                return SV(TInt, syms.CARD(v.t.k, v.t.dom(e)))
        if isinstance(v, SV) and isinstance(v.t, TRef):
            v = self.narrow(v)
            m = self.find_method(v, '__len__')
            if m:
                return self.call_func(m[0], [v], {}, n)
        if isinstance(v, SV) and (v.t.name, 'len') in self.w.models:
            return self.w.models[(v.t.name, 'len')](self, v)
        raise Unsupported('len of %r' % v)

    def agg_sum(self, s, w):
        """sum of w over the source"""
        body = z3.If(s.guard, w, z3.RealVal(0) if w.sort() == z3.RealSort() else z3.IntVal(0))
        for x in reversed(s.vars):
            body = syms.SUM(x, body)
        return body

    def b_sum(self, args, kw, n):
        s = self.source(args[0])
        start = args[1] if len(args) > 1 else None
        if s.concrete is not None:
            r = start or SV(TInt, z3.IntVal(0))
            for v in s.concrete:
                r = self.binop(ast.Add(), r, v)
            return r
        el = self.unopt(s.elem) if not (isinstance(s.elem, SV) and isinstance(s.elem.t, TOpt)) else None
        if el is None:
            raise Unsupported('sum of optional values')
        if not (isinstance(el, SV) and el.t in (TInt, TReal, TBool)):
            raise Unsupported('sum of non-numbers')
        t = TInt if el.t == TBool else el.t
        r = SV(t, self.agg_sum(s, self.term(el, t)))
        if start is not None:
            r = self.binop(ast.Add(), start, r)
        return r

    def b_mean(self, args, kw, n):
        v = self.unopt(args[0])
        k = self.b_len([v], {}, n)
        if not self.decide(k.e > 0):
            raise PyRaise('StatisticsError')
        t = self.b_sum([v], {}, n)
        return SV(TReal, self.term(t, TReal) / z3.ToReal(k.e))

    def b_any(self, args, kw, n):
        s = self.source(args[0])
        if s.concrete is not None:
            return SV(TBool, Or(*[self.truth(v) for v in s.concrete]))
        return SV(TBool, Exists(s.vars, And(s.guard, self.truth(s.elem))))

    def b_all(self, args, kw, n):
        s = self.source(args[0])
        if s.concrete is not None:
            return SV(TBool, And(*[self.truth(v) for v in s.concrete]))
        return SV(TBool, ForAll(s.vars, z3.Implies(s.guard, self.truth(s.elem))))

    def minmax(self, args, kw, n, ismin):
        if 'key' in kw:
            raise Unsupported('min/max with key')
        if len(args) > 1:
            vals = [self.unopt(a) for a in args]
            if (getattr(vals[0], 't', None) is not None) and (vals[0].t.name, 'minmax') in self.w.models:
                return self.w.models[(vals[0].t.name, 'minmax')](self, vals, ismin)
            t = self.join_type([self.vtype(v) for v in vals])
            if t == TBool:
                t = TInt
            if t not in (TInt, TReal):
                raise Unsupported('min/max of %s' % t)
            r = self.term(vals[0], t)
            for v in vals[1:]:
                e = self.term(v, t)
                r = z3.If(e < r, e, r) if ismin else z3.If(e > r, e, r)
            return SV(t, r)
        s = self.source(args[0])
        if s.concrete is not None:
            if not s.concrete:
                if 'default' in kw:
                    return kw['default']
                raise PyRaise('ValueError')
            if len(s.concrete) == 1:
                return s.concrete[0]
            return self.minmax(s.concrete, {}, n, ismin)
        ne = Exists(s.vars, s.guard) if s.ordered is None else s.ordered > 0
        if not self.decide(ne):
            if 'default' in kw:
                return kw['default']
            raise PyRaise('ValueError')
        el = self.unopt(s.elem)
        t = TInt if el.t == TBool else el.t
        if t not in (TInt, TReal):
            raise Unsupported('min/max of this source')
        f = syms.MINV if ismin else syms.MAXV
        return SV(t, f(s.vars, s.guard, self.term(el, t)))

    def b_min(self, args, kw, n):
        return self.minmax(args, kw, n, True)

    def b_max(self, args, kw, n):
        return self.minmax(args, kw, n, False)

    def b_abs(self, args, kw, n):
        v = self.unopt(args[0])
        if v.t == TBool:
            v = SV(TInt, self.term(v, TInt))
        return SV(v.t, z3.If(v.e >= 0, v.e, -v.e))

    def b_int(self, args, kw, n):
        v = self.unopt(args[0])
        if isinstance(v, SV) and v.t in (TInt, TBool):
            return SV(TInt, self.term(v, TInt))
        if isinstance(v, SV) and v.t == TReal:
            return SV(TInt, z3.If(v.e >= 0, z3.ToInt(v.e), -z3.ToInt(-v.e)))
        raise Unsupported('int()')

    def b_float(self, args, kw, n):
        v = self.unopt(args[0])
        if isinstance(v, SV) and v.t in (TInt, TReal, TBool):
            return SV(TReal, self.term(v, TReal))
        raise Unsupported('float()')

    def b_bool(self, args, kw, n):
        return SV(TBool, self.truth(args[0]))

    def b_floor(self, args, kw, n):
        v = self.unopt(args[0])
        return SV(TInt, z3.ToInt(self.term(v, TReal)))

    def b_round(self, args, kw, n):
        raise Unsupported('round')

    def b_str(self, args, kw, n):
        v = args[0]
        t = None
        if isinstance(v, ClassV):
            t = "<class '%s.%s'>" % (v.mod.name, v.qual)
        elif isinstance(v, ExtV) and v.name.startswith('builtins.'):
            t = "<class '%s'>" % v.name[9:]
        elif isinstance(v, SV) and isinstance(v.py, int) and not isinstance(v.py, bool):
            t = str(v.py)
        if t is not None:
            return SV(TStr, strlit(t), py=t)
        if isinstance(v, SV) and v.t == TStr:
            return v
        if isinstance(v, SV):
            f = z3.Function('str!' + v.t.sort().name(), v.t.sort(), STR)
            return SV(TStr, f(v.e))
        return SV(TStr, self.fresh(STR, 'str'))

    b_repr = b_str

    def b_id(self, args, kw, n):
        v = args[0]
        if isinstance(v, SV) and isinstance(v.t, TRef):
            r = SV(v.t, v.e)
            r.is_id = True
            return r
        raise Unsupported('id of a value')

    def b_hash(self, args, kw, n):
        v = args[0]
        if isinstance(v, Loc) and isinstance(v.t, TDict) and v.t.cls:
            m = self.find_method(v, '__hash__')
            if m:
                return self.call_func(m[0], [v], {}, n)
        if isinstance(v, Loc) and isinstance(v.t, TSet):
            return SV(TInt, syms.HSET(v.t.t, self.read(v)))
        if isinstance(v, (SV, TupV)):
            t = self.vtype(v)
            if not isinstance(t, TRef):
                return SV(TInt, z3.Function('hash!' + t.sort().name(), t.sort(), z3.IntSort())(self.term(v, t)))
        raise Unsupported('hash')

    def b_isinstance(self, args, kw, n):
        return SV(TBool, self.isinst(args[0], args[1]))

    def b_type(self, args, kw, n):
        v = args[0]
        if isinstance(v, SV) and isinstance(v.t, TRef):
            v = self.narrow(v)
            return self.class_by_key(v.t.classes[0])
        if isinstance(v, Loc):
            k = 'set' if isinstance(v.t, TSet) else 'list' if isinstance(v.t, TList) else 'dict' if isinstance(v.t, (TDict, TRec)) else v.t.kind
            return ExtV('builtins.' + k)
        if isinstance(v, RecV):
            return ExtV('builtins.dict')
        if isinstance(v, TupV):
            return ExtV('builtins.tuple')
        if isinstance(v, SV) and v.t in (TInt, TReal, TBool, TStr):
            return ExtV('builtins.' + {'Int': 'int', 'Real': 'float', 'Bool': 'bool', 'Str': 'str'}[v.t.name])
        raise Unsupported('type()')

    def b_hasattr(self, args, kw, n):
        v, k = args[0], args[1]
        if isinstance(v, SV) and isinstance(v.t, TRef) and isinstance(k, SV) and isinstance(k.py, str):
            v = self.narrow(v)
            c = v.t.classes[0]
            if self.field_owner(c, k.py) is not None or self.mro_lookup(self.class_by_key(c), k.py) is not None:
                return SV(TBool, TRUE, py=True)
        raise Unsupported('hasattr')

    def b_print(self, args, kw, n):
        return NONE

    def b_time(self, args, kw, n):
        return SV(TReal, self.fresh(z3.RealSort(), 'time'))

    def b_callable(self, args, kw, n):
        return SV(TBool, z3.BoolVal(isinstance(args[0], (FuncV, BoundV, ClassV))))

    # ---- copies & conversions
    def b_copy(self, args, kw, n):
        v = self.unopt(args[0])
        if isinstance(v, Loc):
            if isinstance(v.t, TUnk):
                return self.empty(v.t.kind, n)
            if isinstance(v.t, TDict) and v.t.cls:
                m = self.find_method(v, '__copy__')
                if m:
                    return self.call_func(m[0], [v], {}, n)
            t = v.t
            if (isinstance(t, TDict) and t.v.mutable) or (isinstance(t, TList) and t.t.mutable):
                raise Unsupported('shallow copy of a nested container')
            return self.new_cell(t, self.read(v))
        if isinstance(v, HostV):
            return v.copy(self)
        if isinstance(v, (TupV, OpaqueV)):
            return v
        if isinstance(v, RecV):
            return RecV(dict(v.items))
        if isinstance(v, ParamsV) and (v.tag or self.decide(Not(v.none()))):
            r = ParamsV(v.over, v.tag or '!copy!')
            r.src = v
            return r
        if isinstance(v, SV) and not isinstance(v.t, TRef):
            return v
        if isinstance(v, SV):
            m = self.find_method(v, '__copy__')
            if m:
                return self.call_func(m[0], [v], {}, n)
        raise Unsupported('copy of %r' % v)

    def b_deepcopy(self, args, kw, n):
        v = self.unopt(args[0])
        if isinstance(v, (HostV, ParamsV)):
            return self.b_copy([v], kw, n)
        if isinstance(v, SV) and isinstance(v.t, TRef):
            m = self.find_method(v, '__deepcopy__')
            if m:
                return self.call_func(m[0], [v, OpaqueV('memo')], {}, n)
        if isinstance(v, Loc) and not isinstance(v.t, TUnk):
            def plain(t):
                if isinstance(t, TRef):
                    return False
                for s in ('t', 'k', 'v'):
                    x = getattr(t, s, None)
                    if isinstance(x, T) and not plain(x):
                        return False
                return True
            if plain(v.t):
                return self.new_cell(v.t, self.read(v))
        if isinstance(v, SV) and not isinstance(v.t, TRef):
            return v
        raise Unsupported('deepcopy')

    def b_list(self, args, kw, n):
        if not args:
            return self.empty('list', n)
        v = args[0]
        if isinstance(v, Loc) and isinstance(v.t, TList):
            return self.new_cell(v.t, self.read(v))
        s = self.source(v)
        if s.concrete is not None:
            return self.mk_list(s.concrete) if s.concrete else self.empty('list', n)
        try:
            return self.as_loc(s)
        except Unsupported:
            s2 = Source(s.vars, s.guard, s.elem, s.ordered)
            return s2

    def b_tuple(self, args, kw, n):
        if not args:
            return TupV([])
        v = args[0]
        if isinstance(v, TupV) or isinstance(v, SV) and isinstance(v.t, TSeq):
            return v
        s = self.source(v)
        if s.concrete is not None:
            return TupV(s.concrete)
        l = self.as_loc(s)
        return SV(TSeq(l.t), self.norm_list(l.t, self.read(l)))

    def b_set(self, args, kw, n):
        if not args:
            return self.empty('set', n)
        v = args[0]
        if isinstance(v, Loc) and isinstance(v.t, TSet):
            return self.new_cell(v.t, self.read(v))
        if isinstance(v, Loc) and isinstance(v.t, TDict):
            return self.new_cell(TSet(v.t.k), v.t.dom(self.read(v)))
        return self.to_set(self.source(v), n)

    b_frozenset = b_set

    def b_dict(self, args, kw, n):
        if not args and not kw:
            return self.empty('dict', n)
        if not args:
            return RecV(dict(kw))
        v = args[0]
        if isinstance(v, Loc) and isinstance(v.t, TDict):
            t = TDict(v.t.k, v.t.v)
            return self.new_cell(t, self.read(v))
        if isinstance(v, Loc) and isinstance(v.t, TUnk):
            return self.empty('dict', n)
        if isinstance(v, RecV):
            return RecV(dict(v.items))
        s = self.source(v)
        if s.concrete is None and isinstance(s.elem, TupV):
            return self.to_dict(s, n)
        raise Unsupported('dict()')

    def b_Counter(self, args, kw, n):
        if not args:
            s = self.site(n)
            if s in self.hints:
                t = self.hints[s]
                t = TDict(t.k, t.v, counter=True, cls=t.cls)
                return self.new_cell(t, default(t))
            return self.new_cell(TUnk('counter', s), None)
        v = args[0]
        if isinstance(v, Loc) and isinstance(v.t, TDict):
            t = TDict(v.t.k, v.t.v, counter=True)
            return self.new_cell(t, self.read(v))
        s = self.source(v)
        if s.concrete is not None:
            if not s.concrete:
                return self.new_cell(TUnk('counter', self.site(n)), None)
            t = TDict(self.join_type([self.vtype(x) for x in s.concrete]), TInt, counter=True)
            k = z3.FreshConst(t.k.sort(), 'k')
            c = z3.IntVal(0)
            for x in s.concrete:
                c = c + z3.If(self.term(x, t.k) == k, 1, 0)
            return self.new_cell(t, t.mk(lam(k, c > 0), lam(k, c)))
        t = TDict(self.vtype(s.elem), TInt, counter=True)
        e = self.term(s.elem, t.k)
        k = z3.FreshConst(t.k.sort(), 'k')
        body = z3.If(And(s.guard, e == k), z3.IntVal(1), z3.IntVal(0))
        for x in reversed(s.vars):
            body = syms.SUM(x, body)
        body = z3.simplify(body)
        pos = syms.POS(body)
        return self.new_cell(t, t.mk(lam(k, body > 0 if pos is None else pos), lam(k, body)))     # every key is counted at least once

    def b_defaultdict(self, args, kw, n):
        s = self.site(n)
        f = args[0] if args else None
        if isinstance(f, FuncV) and isinstance(f.node, ast.Lambda) and not f.node.args.args:
            b = f.node.body
            kind = 'int' if isinstance(b, ast.Constant) and type(b.value) is int and b.value == 0 else 'list' if isinstance(b, ast.List) and not b.elts else \
                'dict' if isinstance(b, ast.Dict) and not b.keys else 'set' if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'set' and not b.args else None
        else:
            kind = f.name.split('.')[-1] if isinstance(f, ExtV) else None
        if kind not in ('int', 'float', 'list', 'set', 'dict') or len(args) > 1 or kw:
            raise Unsupported('defaultdict factory')
        if s in self.hints:
            t = self.hints[s]
            want = {'int': (TInt,), 'float': (TReal, TInt)}.get(kind)
            if want and t.v not in want or kind == 'list' and not isinstance(t.v, TList) or kind == 'set' and not isinstance(t.v, TSet) or kind == 'dict' and not isinstance(t.v, TDict):
                raise Unsupported('defaultdict value type')
            t = TDict(t.k, t.v, dflt=True)
            return self.new_cell(t, default(t))
        t = TUnk('defaultdict', s)
        t.factory = kind
        return self.new_cell(t, None)

    # ---- iterators
    def b_iter(self, args, kw, n):
        s = self.source(args[0])
        r = Source(s.vars, s.guard, s.elem, s.ordered, s.concrete, s.loc)
        r.filter_of = getattr(s, 'filter_of', None)
        return r

    def b_range(self, args, kw, n):
        vs = [self.int_of(a) for a in args]
        if len(vs) == 1:
            return range_source(self, z3.IntVal(0), vs[0])
        if len(vs) == 2:
            return range_source(self, vs[0], vs[1])
        st = z3.simplify(vs[2])
        if z3.is_int_value(st) and st.as_long() == -1:
            lo, hi = vs[1], vs[0]
            nn = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
            i = self.fresh(z3.IntSort(), 'i')
            return Source([i], z3.And(i >= 0, i < nn), SV(TInt, z3.simplify(hi - i)), ordered=nn)
        raise Unsupported('range with step')

    def b_enumerate(self, args, kw, n):
        s = self.source(args[0])
        start = z3.IntVal(0)
        if len(args) > 1:
            start = self.int_of(args[1])
        if 'start' in kw:
            start = self.int_of(kw['start'])
        if s.concrete is not None:
            return Source([], TRUE, None, concrete=[TupV([SV(TInt, z3.simplify(start + i)), v]) for i, v in enumerate(s.concrete)])
        if s.ordered is None:
            s = self.source(self.as_loc(s))
        return Source(s.vars, s.guard, TupV([SV(TInt, z3.simplify(start + s.vars[0])), s.elem]), ordered=s.ordered, loc=s.loc)

    def b_zip(self, args, kw, n):
        ss = [self.source(a) for a in args]
        if all(s.concrete is not None for s in ss):
            return Source([], TRUE, None, concrete=[TupV(list(t)) for t in zip(*[s.concrete for s in ss])])
        ls = [self.as_loc(s) if s.loc is None or not isinstance(s.loc.t, TList) else s.loc for s in ss]
        ns = [l.t.len(self.read(l)) for l in ls]
        nn = ns[0]
        for m in ns[1:]:
            nn = z3.If(m < nn, m, nn)
        nn = z3.simplify(nn)
        i = self.fresh(z3.IntSort(), 'i')
        return Source([i], z3.And(i >= 0, i < nn), TupV([self.elem_value(l, l.t.t, i) for l in ls]), ordered=nn)

    def b_product(self, args, kw, n):
        rep = z3.simplify(self.int_of(kw['repeat'])).as_long() if 'repeat' in kw else 1
        ss = []
        for _ in range(rep):
            for a in args:
                s = self.source(a)
                if s.concrete is None:
                    nv = [self.fresh(v.sort(), 'x') for v in s.vars]
                    sub = list(zip(s.vars, nv))
                    s = Source(nv, z3.substitute(s.guard, *sub), self.subst_val(s.elem, sub), ordered=None)
                ss.append(s)
        if any(s.concrete is not None for s in ss):
            if all(s.concrete is not None for s in ss):
                import itertools
                return Source([], TRUE, None, concrete=[TupV(list(t)) for t in itertools.product(*[s.concrete for s in ss])])
            raise Unsupported('product')
        return Source([v for s in ss for v in s.vars], And(*[s.guard for s in ss]), TupV([s.elem for s in ss]))

    def b_map(self, args, kw, n):
        f = args[0]
        s = self.source(args[1])
        if s.concrete is not None:
            return Source([], TRUE, None, concrete=[self.call(f, [v], {}, n) for v in s.concrete])
        outs, bad = self.pure(lambda: self.call(f, [s.elem], {}, n), [s.guard], s.vars)
        self.raise_in(bad, s.vars, [s.guard])
        if len(outs) == 1 and isinstance(outs[0][1], Source):
            r = Source(s.vars, s.guard, outs[0][1], ordered=s.ordered)
        else:
            r = Source(s.vars, s.guard, self.merge_vals(outs), ordered=s.ordered)
        r.one_shot = True
        return r

    def b_filter(self, args, kw, n):
        f = args[0]
        s = self.source(args[1])
        if s.concrete is not None:
            raise Unsupported('filter of concrete list')
        outs, bad = self.pure(lambda: SV(TBool, self.truth(self.call(f, [s.elem], {}, n))), [s.guard], s.vars)
        self.raise_in(bad, s.vars, [s.guard])
        r = Source(s.vars, And(s.guard, self.merge_vals(outs).e), s.elem)
        r.filter_of = True if (s.ordered is not None or getattr(s, 'filter_of', None)) else None
        r.one_shot = True
        return r

    def b_reversed(self, args, kw, n):
        s = self.source(args[0])
        if s.concrete is not None:
            return Source([], TRUE, None, concrete=list(reversed(s.concrete)))
        if s.ordered is None:
            raise Unsupported('reversed')
        i = self.fresh(z3.IntSort(), 'i')
        sub = [(s.vars[0], s.ordered - 1 - i)]
        return Source([i], z3.And(i >= 0, i < s.ordered), self.subst_val(s.elem, sub), ordered=s.ordered)

    def b_sorted(self, args, kw, n):
        s = self.source(args[0])
        if s.concrete is not None and len(s.concrete) <= 1:
            return self.mk_list(s.concrete) if s.concrete else self.empty('list', n)
        if ('sorted', getattr(self, 'fname', None)) in self.w.models:
            return self.w.models[('sorted', self.fname)](self, args, kw, n)
        l = self.as_loc(s)
        t = l.t
        e = self.read(l)
        # a permutation of the input; the order itself is specified through the key when it is numeric
        r = self.fresh(t.sort(), 'sorted')
        i, j = z3.FreshConst(z3.IntSort(), 'i'), z3.FreshConst(z3.IntSort(), 'j')
        p = self.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'perm')
        q = self.fresh(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'iperm')
        N = t.len(e)
        syms.PERM[str(r)] = (r, t, e)
        self.assume(t.len(r) == N)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(sel(p, i) >= 0, sel(p, i) < N, sel(q, sel(p, i)) == i,
                    sel(t.arr(r), i) == sel(t.arr(e), sel(p, i)))), patterns=[sel(t.arr(r), i)]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(sel(q, i) >= 0, sel(q, i) < N, sel(p, sel(q, i)) == i,
                    sel(t.arr(r), sel(q, i)) == sel(t.arr(e), i))), patterns=[sel(t.arr(e), i)]))
        res = self.new_cell(t, r)
        key = kw.get('key')
        rev = kw.get('reverse')
        desc = False
        if rev is not None:
            rb = z3.simplify(self.truth(rev))
            if not (z3.is_true(rb) or z3.is_false(rb)):
                raise Unsupported('sorted(reverse=symbolic)')
            desc = z3.is_true(rb)
        facts = [z3.And(i >= 0, i < j, j < N)]
        vi, vj = self.lift(t.t, sel(t.arr(r), i)), self.lift(t.t, sel(t.arr(r), j))
        if key is not None:
            ki, _ = self.pure(lambda: self.call(key, [vi], {}, n), facts, [i, j])
            kj, _ = self.pure(lambda: self.call(key, [vj], {}, n), facts, [i, j])
            vi, vj = self.merge_vals(ki), self.merge_vals(kj)
        le = self.lex_le(vj, vi) if desc else self.lex_le(vi, vj)
        if le is not None:
            self.assume(z3.ForAll([i, j], z3.Implies(facts[0], le), patterns=[z3.MultiPattern(sel(t.arr(r), i), sel(t.arr(r), j))]))
        return res

    def lex_le(self, a, b):
        if isinstance(a, SV) and a.t in (TInt, TReal):
            return a.e <= b.e
        if isinstance(a, TupV) and isinstance(b, TupV):
            x = self.lex_le(a.items[0], b.items[0])
            if x is None:
                return None
            return a.items[0].e <= b.items[0].e
        return None

    def subst_val(self, v, sub):
        if isinstance(v, SV):
            return SV(v.t, z3.substitute(v.e, *sub))
        if isinstance(v, TupV):
            return TupV([self.subst_val(x, sub) for x in v.items])
        if isinstance(v, Loc):
            return Loc(v.t, self.subst_place(v.place, sub))
        if isinstance(v, HostV) and v.t is not None:
            return v.t.host(z3.substitute(v.e, *sub))
        if v is NONE or isinstance(v, (ClassV, FuncV, ExtV, ModV, EnumV, OpaqueV, ParamsV, Poison, BoundV)):
            return v
        if isinstance(v, RecV):
            return RecV({k: self.subst_val(x, sub) for k, x in v.items.items()})
        if isinstance(v, Source):
            r = Source(v.vars, z3.substitute(v.guard, *sub), self.subst_val(v.elem, sub) if v.elem is not None else None,
                       z3.substitute(v.ordered, *sub) if v.ordered is not None else None,
                       [self.subst_val(x, sub) for x in v.concrete] if v.concrete is not None else None, v.loc)
            r.filter_of = getattr(v, 'filter_of', None)
            r.one_shot = v.one_shot
            return r
        raise Unsupported('substitution in %s' % type(v).__name__)

    def subst_place(self, p, sub):
        if p[0] == 'field':
            return ('field', p[1], z3.substitute(p[2], *sub))
        if p[0] == 'elem':
            return ('elem', Loc(p[1].t, self.subst_place(p[1].place, sub)), z3.substitute(p[2], *sub))
        if p[0] in ('cell', 'ro') and isinstance(self.st.cells.get(p[1]), tuple):
            t, e = self.st.cells[p[1]]
            if e is not None:
                e2 = z3.substitute(e, *sub)
                if not e2.eq(e):
                    return (p[0], self.new_cell(t, e2).place[1])
        return p

    # ------------------------------------------------------------ container methods
    def call_method(self, v, name, args, kw, n):
        v = self.unopt(v)
        if isinstance(v, HostV):
            return v.method(self, name, args, kw, n)
        if isinstance(v, Loc):
            if isinstance(v.t, TUnk):
                return self.unk_method(v, name, args, kw, n)
            if isinstance(v.t, TSet):
                return self.set_method(v, name, args, kw, n)
            if isinstance(v.t, TDict):
                return self.dict_method(v, name, args, kw, n)
            if isinstance(v.t, TList):
                return self.list_method(v, name, args, kw, n)
            if isinstance(v.t, TRec):
                return self.rec_method(v, name, args, kw, n)
        if isinstance(v, SV) and isinstance(v.t, TRef) and self.is_mapping(v):
            # the mixin methods of collections.abc.Mapping
            if name == 'get':
                try:
                    return self.getitem(v, args[0])
                except PyRaise as r:
                    if r.name != 'KeyError':
                        raise
                    return args[1] if len(args) > 1 else kw.get('default', NONE)
            s = self.source(v)
            r = Source(s.vars, s.guard, s.elem, ordered=s.ordered, concrete=s.concrete)
            if name == 'keys':
                return r
            if s.concrete is None:
                x, bad = self.pure(lambda: self.getitem(v, s.elem), [s.guard], s.vars)
                self.raise_in(bad, s.vars, [s.guard])
                x = self.merge_vals(x)
                r.elem = TupV([s.elem, x]) if name == 'items' else x
                return r
        if isinstance(v, SV) and (v.t.name, name) in self.w.models:
            return self.w.models[(v.t.name, name)](self, v, *args)
        if isinstance(v, SV) and ('.' + name) in self.w.models:
            return self.w.models['.' + name](self, v, args, kw, n)
        if isinstance(v, RecV):
            if name == 'get':
                if args[0].py in v.items:
                    return v.items[args[0].py]
                return args[1] if len(args) > 1 else NONE
            if name == 'keys':
                return Source([], TRUE, None, concrete=[SV(TStr, strlit(k), py=k) for k in v.items])
            if name == 'items':
                return Source([], TRUE, None, concrete=[TupV([SV(TStr, strlit(k), py=k), x]) for k, x in v.items.items()])
            if name == 'values':
                return Source([], TRUE, None, concrete=list(v.items.values()))
        if isinstance(v, TupV) and name == 'append':
            raise Unsupported('append to an untyped list')
        if isinstance(v, TupV) and name == 'index':
            for i, x in enumerate(v.items):
                if self.decide(self.eq(x, args[0])):
                    return SV(TInt, z3.IntVal(i))
            raise PyRaise('ValueError')
        if isinstance(v, SV) and v.t == TStr:
            if isinstance(v.py, str) and name in ('lower', 'upper', 'strip', 'replace', 'startswith', 'endswith') and all(isinstance(a, SV) and isinstance(a.py, str) for a in args):
                r = getattr(v.py, name)(*[a.py for a in args])
                return SV(TBool, z3.BoolVal(r), py=r) if isinstance(r, bool) else SV(TStr, strlit(r), py=r)
            if name in ('format', 'join', 'replace', 'lower', 'upper', 'strip'):
                return SV(TStr, self.fresh(STR, name))
        if isinstance(v, SV) and v.t == TReal and name == 'timestamp':
            return v
        raise Unsupported('method %s of %r' % (name, v))

    def unk_method(self, v, name, args, kw, n):
        k = v.t.kind
        if name in ('append', 'insert') and k == 'list':
            self.resolve(v.t, TList(self.vtype(args[-1])))
        if name == 'extend' and k == 'list':
            s = self.source(args[0])
            if s.concrete == []:
                return NONE
            self.resolve(v.t, TList(self.vtype(s.elem if s.concrete is None else s.concrete[0])))
        if name == 'add' and k == 'set':
            self.resolve(v.t, TSet(self.vtype(args[0])))
        if name in ('update', 'union', 'difference', 'intersection') and k == 'set':
            s = self.source(args[0])
            if s.concrete == []:
                return v if name != 'update' else NONE
            self.resolve(v.t, TSet(self.vtype(s.elem if s.concrete is None else s.concrete[0])))
        if name == 'update' and k in ('dict', 'counter'):
            a = args[0]
            if isinstance(a, Loc) and isinstance(a.t, TDict):
                self.resolve(v.t, TDict(a.t.k, a.t.v, counter=(k == 'counter')))
        if name in ('discard', 'clear'):
            return NONE
        if name in ('remove', 'pop'):
            raise PyRaise('KeyError')
        if name in ('keys', 'values', 'items'):
            return Source([], TRUE, None, concrete=[])
        if name == 'get':
            return args[1] if len(args) > 1 else NONE
        if name == 'copy':
            raise Unsupported('copy of an untyped empty container')
        if name == 'setdefault':
            if isinstance(args[1], Loc) and isinstance(args[1].t, TUnk) and v.t.kind == 'dict':
                self.pending = True
                v.t.inner = args[1]
                return args[1]
            self.resolve(v.t, TDict(self.vtype(args[0]), self.vtype(args[1])))
        if name == 'issubset':
            return SV(TBool, TRUE)
        raise Unsupported('method %s of an untyped empty container' % name)

    def as_set(self, v, t):
        """term of an iterable as a set of type t"""
        if isinstance(v, Loc) and isinstance(v.t, TSet):
            return self.read(v)
        if isinstance(v, Loc) and isinstance(v.t, TDict):
            return v.t.dom(self.read(v))
        if isinstance(v, Loc) and isinstance(v.t, TUnk):
            return default(t)
        return self.source_to_set(self.source(v), t)

    def set_method(self, v, name, args, kw, n):
        t = v.t
        e = self.read(v)
        if name == 'add':
            self.write(v, z3.Store(e, self.term(args[0], t.t), TRUE))
            return NONE
        if name == 'discard':
            k = self.key_ok(args[0], t.t)
            if k is not None:
                self.write(v, z3.Store(e, k, FALSE))
            return NONE
        if name == 'remove':
            k = self.key_ok(args[0], t.t)
            if k is None or not self.decide(sel(e, k)):
                raise PyRaise('KeyError')
            self.write(v, z3.Store(self.read(v), k, FALSE))
            return NONE
        if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
            r = self.new_cell(t, e)
            for a in args:
                if isinstance(a, Loc) and isinstance(a.t, TSet) and isinstance(a.t.t, TOpt) and not isinstance(t.t, TOpt):
                    r = self.set_op(name, r, a)
                    continue
                r = self.set_op(name, r, Loc(r.t, self.new_cell(r.t, self.as_set(a, r.t)).place))
            return r
        if name in ('update', 'difference_update', 'intersection_update'):
            op = {'update': 'union', 'difference_update': 'difference', 'intersection_update': 'intersection'}[name]
            for a in args:
                r = self.set_op(op, v, self.new_cell(t, self.as_set(a, t)))
                self.write(v, self.read(r))
            return NONE
        if name == 'issubset':
            x = z3.FreshConst(t.t.sort(), 'x')
            return SV(TBool, ForAll([x], z3.Implies(sel(e, x), sel(self.as_set(args[0], t), x))))
        if name == 'issuperset':
            x = z3.FreshConst(t.t.sort(), 'x')
            return SV(TBool, ForAll([x], z3.Implies(sel(self.as_set(args[0], t), x), sel(e, x))))
        if name == 'isdisjoint':
            x = z3.FreshConst(t.t.sort(), 'x')
            return SV(TBool, ForAll([x], Not(And(sel(self.as_set(args[0], t), x), sel(e, x)))))
        if name == 'copy':
            return self.new_cell(t, e)
        if name == 'clear':
            self.write(v, default(t))
            return NONE
        if name == '__hash__':
            return SV(TInt, syms.HSET(t.t, e))
        if name == 'pop':
            x = self.fresh(t.t.sort(), 'popped')
            if not self.decide(self.truth(v)):
                raise PyRaise('KeyError')
            self.assume(sel(e, x))
            self.write(v, z3.Store(e, x, FALSE))
            return self.lift(t.t, x)
        raise Unsupported('set.' + name)

    def dict_method(self, v, name, args, kw, n):
        t = v.t
        e = self.read(v)
        if name == 'keys':
            return self.new_cell(TSet(t.k), t.dom(e))
        if name == 'items':
            k = self.fresh(t.k.sort(), 'k')
            return Source([k], sel(t.dom(e), k), TupV([self.lift(t.k, k), self.elem_value(v, t.v, k)]), loc=v)
        if name == 'values':
            k = self.fresh(t.k.sort(), 'k')
            return Source([k], sel(t.dom(e), k), self.elem_value(v, t.v, k), loc=v)
        if name == 'get':
            k = self.key_ok(args[0], t.k)
            d = args[1] if len(args) > 1 else NONE
            if k is None:
                return d
            if self.decide(sel(t.dom(e), k)):
                return self.elem_value(v, t.v, k)
            return d
        if name == 'pop':
            k = self.key_ok(args[0], t.k)
            if k is not None and self.decide(sel(t.dom(e), k)):
                x = sel(t.val(e), k)
                self.write(v, t.mk(z3.Store(t.dom(e), k, FALSE), z3.Store(t.val(e), k, default(t.v))))
                return self.lift_own(t.v, x)
            if len(args) > 1:
                return args[1]
            raise PyRaise('KeyError')
        if name == 'setdefault':
            k = self.term(args[0], t.k)
            if not self.decide(sel(t.dom(e), k)):
                self.setitem(v, args[0], args[1])
            return self.elem_value(v, t.v, k)
        if name == 'update':
            a = args[0]
            if isinstance(a, Loc) and isinstance(a.t, TUnk):
                return NONE
            if isinstance(a, Loc) and isinstance(a.t, TDict) and a.t.sort() == t.sort():
                b = self.read(a)
                k = z3.FreshConst(t.k.sort(), 'k')
                if t.counter:
                    self.write(v, t.mk(lam(k, Or(sel(t.dom(e), k), sel(t.dom(b), k))), lam(k, sel(t.val(e), k) + sel(t.val(b), k))))
                else:
                    self.write(v, t.mk(lam(k, Or(sel(t.dom(e), k), sel(t.dom(b), k))), lam(k, z3.If(sel(t.dom(b), k), sel(t.val(b), k), sel(t.val(e), k)))))
                return NONE
            if t.counter:
                s = self.source(a)
                c = self.b_Counter([s if s.concrete is None else a], {}, n)
                if isinstance(c.t, TUnk):
                    return NONE
                return self.dict_method(v, 'update', [c], {}, n)
            raise Unsupported('dict.update')
        if name == 'copy':
            return self.b_copy([v], {}, n)
        if name == 'clear':
            self.write(v, default(t))
            return NONE
        raise Unsupported('dict.' + name)

    def rec_method(self, v, name, args, kw, n):
        t = v.t
        k = args[0].py if args and isinstance(args[0], SV) and isinstance(args[0].py, str) else None
        if name == 'get' and k is not None:
            if k in t.fields and self.decide(t.has(self.read(v), k)):
                return self.getitem(v, args[0])
            return args[1] if len(args) > 1 else NONE
        if name == 'keys':
            return v
        if name == 'copy' and not any(x.mutable for x in t.fields.values()):
            return self.new_cell(t, self.read(v))
        raise Unsupported('method %s of a record' % name)

    def list_method(self, v, name, args, kw, n):
        t = v.t
        e = self.read(v)
        N, A = t.len(e), t.arr(e)
        if name == 'append':
            x = self.term(args[0], t.t)
            self.escape(args[0], t.t.mutable)
            self.write(v, t.mk(z3.simplify(N + 1), z3.Store(A, N, x)))
            if t.t.mutable:
                self.redirect(args[0], Loc(t.t, ('elem', v, N)))
            return NONE
        if name == 'extend':
            o = self.as_loc(args[0] if isinstance(args[0], Loc) else self.source(args[0]))
            if isinstance(o.t, TUnk):
                return NONE
            r = self.list_concat(v, o)
            self.write(v, self.read(r))
            return NONE
        if name == 'pop':
            if args:
                i = self.index(v, args[0])
            else:
                if not self.decide(N > 0):
                    raise PyRaise('IndexError')
                i = z3.simplify(N - 1)
            x = sel(A, i)
            if not args:
                self.write(v, t.mk(i, A))
            else:
                j = z3.FreshConst(z3.IntSort(), 'j')
                self.write(v, t.mk(z3.simplify(N - 1), lam(j, z3.If(j < i, sel(A, j), sel(A, j + 1)))))
            return self.lift_own(t.t, x)
        if name == 'insert':
            i = self.int_of(args[0])
            i = z3.simplify(z3.If(i < 0, z3.If(i + N < 0, 0, i + N), z3.If(i > N, N, i)))
            x = self.term(args[1], t.t)
            j = z3.FreshConst(z3.IntSort(), 'j')
            self.write(v, t.mk(z3.simplify(N + 1), lam(j, z3.If(j < i, sel(A, j), z3.If(j == i, x, sel(A, j - 1))))))
            return NONE
        if name == 'copy':
            return self.b_copy([v], {}, n)
        if name == 'clear':
            self.write(v, default(t))
            return NONE
        if name == 'index':
            if len(args) > 1:
                raise Unsupported('list.index with bounds')
            x = self.term(args[0], t.t)
            i = z3.FreshConst(z3.IntSort(), 'i')
            g = z3.And(i >= 0, i < N, self.eq_terms(t.t, sel(A, i), x))
            if not self.decide(Exists([i], g)):
                raise PyRaise('ValueError')
            return SV(TInt, syms.MINV(i, g, i))
        if name == 'count':
            x = self.term(args[0], t.t)
            i = z3.FreshConst(z3.IntSort(), 'i')
            return SV(TInt, syms.SUM(i, z3.If(z3.And(i >= 0, i < N, sel(A, i) == x), 1, 0)))
        if name == 'sort':
            r = self.b_sorted([v], kw, n)
            self.write(v, self.read(r))
            return NONE
        if name == 'remove':
            x = self.term(args[0], t.t)
            i = z3.FreshConst(z3.IntSort(), 'i')
            g = z3.And(i >= 0, i < N, self.eq_terms(t.t, sel(A, i), x))
            if not self.decide(Exists([i], g)):
                raise PyRaise('ValueError')
            p = syms.MINV(i, g, i)
            j = z3.FreshConst(z3.IntSort(), 'j')
            self.write(v, t.mk(z3.simplify(N - 1), lam(j, z3.If(j < p, sel(A, j), sel(A, j + 1)))))
            return NONE
        raise Unsupported('list.' + name)
