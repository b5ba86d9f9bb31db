"""Sidecar contracts on functions of /repo and the verification of a function body against its contract."""
import z3
from . import src, syms
from .types import *
from .core import *
from .interp import Interp


class LoopInv:
    """clauses: function LoopView -> [(name, Bool)]; force: do not try the exact summary first"""

    def __init__(self, clauses, variant=None, force=True, unfold=None):
        self.clauses, self.variant, self.force, self.unfold = clauses, variant, force, unfold


class Spec:
    """what pre- and postconditions see: entry values (attributes), heap before / after, the result"""

    def __init__(self, ip, env, entry):
        self.ip, self.env, self.entry = ip, env, entry
        self.exit = None
        self.res = None

    def _in(self, st, fn):
        cur = self.ip.st
        self.ip.st = st
        try:
            return fn()
        finally:
            self.ip.st = cur

    def val(self, v, st):
        if isinstance(v, Loc):
            return self._in(st, lambda: self.ip.read(v))
        if isinstance(v, SV):
            return v.e
        return v

    def __getattr__(self, name):
        if name.startswith('_') or name in ('ip', 'env', 'entry', 'exit', 'res'):
            raise AttributeError(name)
        if name not in self.env:
            raise Unsupported('contract mentions %s, which is not a parameter' % name)
        return self.val(self.env[name], self.entry)

    def now(self, name):
        return self.val(self.env[name], self.exit)

    def heap(self, cls, field):
        return self._in(self.entry, lambda: self.ip.heap((cls, field)))

    def heap_now(self, cls, field):
        return self._in(self.exit, lambda: self.ip.heap((cls, field)))

    def fld(self, cls, field, ref):
        return sel(self.heap(cls, field), ref)

    def fld_now(self, cls, field, ref):
        return sel(self.heap_now(cls, field), ref)

    def result(self, t):
        """term of the result at type t"""
        return self._in(self.exit, lambda: self.ip.term(self.res, t))

    def alloc(self, r):
        a = self.entry.cells.get('alloc')
        return sel(a if a is not None else z3.Const('alloc!0', z3.ArraySort(REF, z3.BoolSort())), r)

    def alloc_now(self, r):
        a = self.exit.cells.get('alloc')
        return sel(a if a is not None else z3.Const('alloc!0', z3.ArraySort(REF, z3.BoolSort())), r)

    def isa(self, cls, r):
        return self.ip.isinst_pred(cls, r)

    def param(self, enumval, default=None):
        """symbolic algorithm parameter"""
        return self.ip.w.param_const(enumval)


class Contract:
    """value(s): closed form of the result, as (T, term) | V | None-constant ; post(s): [(name, Bool)] ; effects(s): {param | (cls, field): term}
    raises(s): {exception: condition}; anything else raised is an error; everything not in effects is unchanged."""

    def __init__(self, qual, params, pre=None, value=None, post=None, effects=None, raises=None, loops=None,
                 modular=True, result=None, note='', modifies=None, allocates=False, merge=False, tag='', keeps=(), locals=None, havoc=(), drop=(), caller=None):
        self.qual, self.params = qual, params
        self.pre, self.value, self.post, self.effects, self.raises = pre, value, post, effects, raises
        self.loops = loops or {}
        self.modular = modular
        self.result = result
        self.note = note
        self.label = qual + (' [%s]' % tag if tag else '')      # several contracts of a function: for several representations of its arguments
        self.merge = merge
        self.locals = locals or {}      # types of local lists that their displays do not determine
        self.keeps = tuple(keeps)       # arguments that the object keeps by reference (the caller does not change them afterwards)
        self.caller = caller            # the same contract in the vocabulary of the callers
        self.drop = frozenset(drop)     # local names (caches, diagnostics) whose statements are left out: their values are opaque
        self.havoc = tuple(havoc)       # arguments changed in place; the postcondition says how
        self.modifies, self.allocates = list(modifies or []), allocates

    # ---------------------------------------------------------------- caller side
    def apply_call(self, ip, env):
        """the contract's parameter vocabulary speaks about the argument given for `parameters`"""
        ps = [v for k, v in env.items() if getattr(self.params.get(k), 'is_params', False)]
        ParamsV.CALL.append((ip, ps[0] if ps else NONE))
        try:
            return self._apply_call(ip, env)
        finally:
            ParamsV.CALL.pop()

    def _apply_call(self, ip, env):
        for k, v in list(env.items()):      # **kwargs of which the contract names the members
            if k not in self.params and isinstance(v, RecV) and any(x in self.params for x in v.items):
                del env[k]
                env.update(v.items)
        env = {k: self.coerce(ip, k, v) for k, v in env.items()}
        s = Spec(ip, env, ip.st.copy())
        if self.pre:
            for name, c in self.pre(s):
                ip.oblige('precondition of %s: %s' % (self.qual.split(':')[1], name), c, 'pre')
        if self.raises:
            for exc, c in self.raises(s).items():
                if ip.decide(c):
                    raise PyRaise(exc)
        if self.effects:
            for k, e in self.effects(s).items():
                if isinstance(k, tuple):
                    ip.st.heap[k] = e
                else:
                    ip.write(env[k], e)
        for k in self.havoc:
            c = ip.fresh(env[k].t.sort(), 'hv')
            ip.write(env[k], c)
            for f in ip.nf_facts(env[k].t, c):
                ip.assume(f)
        for k in self.modifies:
            ip.st.heap[k] = ip.fresh(ip.heap0(k).sort(), 'hv')
        if self.allocates:
            al = ip.st.cells.get('alloc')
            if al is None:
                al = z3.Const('alloc!0', z3.ArraySort(REF, z3.BoolSort()))
            a2 = ip.fresh(al.sort(), 'alloc')
            x = z3.FreshConst(REF, 'x')
            ip.st.cells['alloc'] = a2
            ip.assume(z3.ForAll([x], z3.Implies(sel(al, x), sel(a2, x)), patterns=[sel(a2, x)]))
        if self.value:
            v = self.value(s)
            r = self.to_value(ip, v)
        elif self.result is not None:
            if callable(self.result) and not isinstance(self.result, T):
                r = self.result(ip, env)
            else:
                r = ip.fresh_value(self.result)
        else:
            r = NONE
        if self.post:
            s.res = r
            s.exit = ip.st.copy()
            for name, c in self.post(s):
                while z3.is_quantifier(c) and c.is_exists():
                    c = z3.substitute_vars(c.body(), *[ip.fresh(c.var_sort(i), 'ex') for i in reversed(range(c.num_vars()))])
                ip.assume(c)
        return r

    def accepts(self, env):
        """the contract is about a representation of the arguments; a call with another one is inlined"""
        for v in env.values():
            if isinstance(v, RecV) and any(x in self.params for x in v.items):
                env = dict(env, **v.items)
        if any(k not in env for k in self.params):
            return False
        for k, v in env.items():
            t = self.params.get(k)
            if isinstance(t, T) and t.mutable and isinstance(v, Loc) and not isinstance(v.t, TUnk) and v.t.sort() != t.sort() and {type(v.t), type(t)} == {TList, TRec}:
                return False
        return True

    def coerce(self, ip, k, v):
        t = self.params.get(k)
        if isinstance(t, T) and t.mutable:
            if isinstance(v, Loc) and isinstance(v.t, TUnk):
                ip.resolve(v.t, t)
            if isinstance(v, (Source, TupV)):
                return ip.new_cell(t, ip.term(v, t))
            if isinstance(v, Loc) and v.t.sort() == t.sort():
                return v
            raise Unsupported('argument %s of %s: %r' % (k, self.qual, v))
        if isinstance(t, T):
            e = ip.term(v, t)
            return SV(t, e)
        return v

    def to_value(self, ip, v):
        if isinstance(v, RecV):
            return RecV({k: self.to_value(ip, x) for k, x in v.items.items()})
        if isinstance(v, SV) and v.t.mutable:
            return ip.lift_own(v.t, v.e)
        if isinstance(v, V):
            return v
        t, e = v
        return ip.lift_own(t, e)

    # ---------------------------------------------------------------- verification
    def make_params(self, ip):
        env = {}
        for k, t in self.params.items():
            if isinstance(t, T):
                c = z3.Const('p!' + k, t.sort())
                if t.mutable:
                    env[k] = ip.new_cell(t, c)
                else:
                    env[k] = ip.lift(t, c)
                    if isinstance(t, TRef) and len(t.classes) == 1:
                        ip.assume(ip.isinst_pred(t.classes[0], c))
                    if isinstance(t, TRef):
                        a0 = z3.Const('alloc!0', z3.ArraySort(REF, z3.BoolSort()))
                        ip.assume(sel(a0, c))
                for f in ip.nf_facts(t, c):
                    ip.assume(f)
            elif callable(t):
                env[k] = t(ip)
            else:
                env[k] = t
        return env

    def generate(self, world, hints):
        ip = Interp(world)
        syms.PERM.clear()
        ip.hints = hints
        ip.cur = self
        ip.fname = self.qual
        f = ip.func_by_key(self.qual)
        # an outer frame so that expressions can be evaluated
        ip.push_frame(f.mod, f.cls, ())
        env = self.make_params(ip)
        # names of the parameters may be changed by a refactoring: bind by position
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        missing = [k for k in env if k not in names and not (a.kwarg or a.vararg)]
        if missing:
            raise Unsupported('parameter %s of the contract is not a parameter of %s' % (missing[0], self.qual))
        for fct in world.facts(ip):
            ip.assume(fct)
        st0 = ip.st.copy()
        s = Spec(ip, env, st0)
        if self.pre:
            for name, c in self.pre(s):
                ip.assume(c)
        st0 = ip.st.copy()
        s.entry = st0
        obls = [(self.label + ' :: precondition is satisfiable', list(ip.st.pc), FALSE, 'vacuity')]
        full = ip.bind_args(f, [], dict(env))
        outs = ip.explore(lambda: ip.run_body(f, full))
        if ip.pending:
            raise Unsupported('container element type is not determined')
        if not outs:
            raise Unsupported('no path through the body')
        raises = self.raises(s) if self.raises else {}
        eff = self.effects(s) if self.effects else {}
        n = 0
        for o in outs:
            n += 1
            tag = self.label + ' :: path %d :: ' % n
            pc = list(o.st.pc)

            def add(name, goal, kind='post'):
                for i, g in enumerate(conjuncts(goal)):
                    obls.append((tag + name, pc, g, kind))
            if o.kind == 'raise':
                c = raises.get(o.val, FALSE)
                add('raises %s only as specified' % o.val, c, 'raise')
                continue
            if o.kind in ('break', 'continue'):
                raise Unsupported('break outside a loop')
            ip.st = o.st
            s.exit = o.st
            s.res = o.val
            if o.st.cells.get('uninit'):
                raise Unsupported('a field may be left None')
            for exc, c in raises.items():
                add('does not return normally where %s is specified' % exc, Not(c), 'raise')
            if self.value is not None:
                v = self.value(s)
                for name, g in self.result_eq(ip, s, v):
                    add('result' + name, g)
            elif self.result is None and self.post is None:
                add('returns None', z3.BoolVal(o.val is NONE))
            if self.post:
                npc = len(ip.st.pc)
                proved = []
                for name, g in self.post(s):
                    if name.startswith('hence'):        # follows from the clauses before
                        obls.append((tag + name, pc + proved, g, 'post'))
                    else:
                        add(name, g)
                    proved.append(g)
                pc.extend(ip.st.pc[npc:])
            # frame
            ip.st = o.st
            for k, v in env.items():
                if isinstance(v, Loc) and k not in self.havoc:
                    if v.place[0] == 'cell' and v.place[1] in o.st.cells.get('kept', ()) and k not in self.keeps:
                        add('the argument %s is copied, not kept by reference' % k, FALSE, 'frame')
                    if v.place[0] == 'cell' and v.place[1] in o.st.cells:
                        t, e1 = o.st.cells[v.place[1]]
                        e0 = st0.cells[v.place[1]][1]
                        want = eff.get(k, e0)
                        for nm, g in struct_eq(t, e1, want):
                            if not z3.is_true(g):
                                add(('effect on %s%s' if k in eff else 'frame: %s unchanged%s') % (k, nm), g, 'frame')
            keys = set(o.st.heap) | set(k for k in eff if isinstance(k, tuple))
            a0 = z3.Const('alloc!0', z3.ArraySort(REF, z3.BoolSort()))
            for h in sorted(keys, key=str):
                t = world.schema[h[0]][h[1]]
                e0 = st0.heap[h] if h in st0.heap else ip.heap0(h)
                e1 = o.st.heap[h] if h in o.st.heap else ip.heap0(h)
                want = eff.get(h, e0)
                if e1.eq(want) or h in self.modifies:
                    continue
                r = z3.Const('fr!r', REF)
                for nm, g in struct_eq(t, sel(e1, r), sel(want, r)):
                    if h in eff:
                        add('effect on %s.%s%s' % (h[0].split(':')[1], h[1], nm), g, 'frame')
                    else:
                        add('frame: %s.%s unchanged%s' % (h[0].split(':')[1], h[1], nm), z3.Implies(sel(a0, r), g), 'frame')
        done = [And(*o.st.pc) for o in outs if o.kind not in ('raise',)]
        if done:
            obls.append((self.label + ' :: some normal path is satisfiable', [Or(*done)], FALSE, 'vacuity'))
        for (name, pc, g, kind) in ip.obls:
            obls.append((self.label + ' :: ' + name, pc, g, kind))
        return obls, ip

    def result_eq(self, ip, s, v):
        if v is NONE:
            return [('', z3.BoolVal(s.res is NONE) if not (isinstance(s.res, SV) and isinstance(s.res.t, TOpt)) else ip.eq(s.res, NONE))]
        if isinstance(v, TupV):
            r = s.res
            if isinstance(r, SV) and isinstance(r.t, TTuple):
                r = ip.lift(r.t, r.e)
            if not isinstance(r, TupV) or len(r.items) != len(v.items):
                return [(' has the stated shape', FALSE)]
            out = []
            for i, (x, y) in enumerate(zip(r.items, v.items)):
                s2 = Spec(s.ip, s.env, s.entry)
                s2.exit, s2.res = s.exit, x
                out += [('[%d]%s' % (i, n), g) for n, g in self.result_eq(ip, s2, y)]
            return out
        if isinstance(v, RecV):
            r = s.res
            if isinstance(r, Loc) and isinstance(r.t, TRec):
                if not set(v.items) <= set(r.t.keys):
                    return [(' has the stated keys', FALSE)]
                e = ip.read(r)
                out = [(' has the stated keys', And(*[r.t.has(e, k) == z3.BoolVal(k in v.items) for k in r.t.keys]))]
                for k in v.items:
                    s2 = Spec(s.ip, s.env, s.entry)
                    s2.exit, s2.res = s.exit, ip.lift(r.t.fields[k], r.t.get(e, k))
                    out += [('[%s]%s' % (k, n), g) for n, g in self.result_eq(ip, s2, v.items[k])]
                return out
            if not isinstance(r, RecV) or set(r.items) != set(v.items):
                return [(' has the stated keys', FALSE)]
            out = []
            for k in v.items:
                s2 = Spec(s.ip, s.env, s.entry)
                s2.exit, s2.res = s.exit, r.items[k]
                out += [('[%s]%s' % (k, n), g) for n, g in self.result_eq(ip, s2, v.items[k])]
            return out
        if isinstance(v, SV):
            v = (v.t, v.e)
        if isinstance(v, V) and not isinstance(v, Loc):
            return [('', ip.eq(s.res, v))]
        if isinstance(v, Loc):
            v = (v.t, ip.read(v))
        t, e = v
        if isinstance(s.res, Loc) and isinstance(s.res.t, TUnk):
            got = default(t)
        else:
            got = s.result(t)
        return struct_eq(t, got, e)


def conjuncts(g):
    g = z3.simplify(g)
    if z3.is_and(g):
        return [x for c in g.children() for x in conjuncts(c)]
    return [g]


def struct_eq(t, x, y, pfx=''):
    """[(name, Bool)]: equality of values of a container type, component-wise with fresh (universal) indices"""
    if x.eq(y):
        return [(pfx, TRUE)]
    if isinstance(t, TSet):
        v = z3.FreshConst(t.t.sort(), 'q')
        return [(pfx + ' (members)', sel(x, v) == sel(y, v))]
    if isinstance(t, TDict):
        v = z3.FreshConst(t.k.sort(), 'q')
        out = [(pfx + ' (keys)', sel(t.dom(x), v) == sel(t.dom(y), v))]
        for n, g in struct_eq(t.v, sel(t.val(x), v), sel(t.val(y), v), pfx + ' (values)'):
            out.append((n, z3.Implies(sel(t.dom(y), v), g)))
        return out
    if isinstance(t, TList):
        v = z3.FreshConst(z3.IntSort(), 'q')
        out = [(pfx + ' (length)', t.len(x) == t.len(y))]
        for n, g in struct_eq(t.t, sel(t.arr(x), v), sel(t.arr(y), v), pfx + ' (items)'):
            out.append((n, z3.Implies(z3.And(v >= 0, v < t.len(y)), g)))
        return out
    if isinstance(t, TRec):
        out = []
        for k, ft in t.fields.items():
            out.append((pfx + '[%s] (present)' % k, t.has(x, k) == t.has(y, k)))
            for n, g in struct_eq(ft, t.get(x, k), t.get(y, k), pfx + '[%s]' % k):
                out.append((n, z3.Implies(t.has(y, k), g)))
        return out
    if isinstance(t, TOpt) and t.t.mutable:
        out = [(pfx + ' (none)', t.is_none(x) == t.is_none(y))]
        for n, g in struct_eq(t.t, t.val(x), t.val(y), pfx):
            out.append((n, z3.Implies(Not(t.is_none(y)), g)))
        return out
    if isinstance(t, TTuple):
        out = []
        for i, it in enumerate(t.items):
            out += struct_eq(it, t.get(x, i), t.get(y, i), pfx + '[%d]' % i)
        return out
    return [(pfx, x == y)]
