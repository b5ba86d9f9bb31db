"""Verification-condition generator for a subset of Python: symbolic execution of the real AST with
re-execution per decision path, modular calls through sidecar contracts and exact summaries of loops."""
import ast
import z3
from . import src, syms
from .types import *
from .types import _acc


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, name):
        self.name = name


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class PathDead(Exception):
    pass


def wide(t):
    return TDict(t.k, TReal, counter=t.counter) if isinstance(t, TDict) else TList(TReal)


class Retype(Exception):
    """a type was inferred for an empty literal: restart"""


# ------------------------------------------------------------------ values
class V:
    pass


class SV(V):
    __slots__ = ('t', 'e', 'py', 'orig')

    def __init__(self, t, e, py=None, orig=None):
        self.t, self.e, self.py = t, e, py
        self.orig = orig        # place this optional container was read from

    def __repr__(self):
        return 'SV(%s,%s)' % (self.t, self.e)


class _None(V):
    def __repr__(self):
        return 'NONE'


NONE = _None()


class Poison(V):
    def __init__(self, why):
        self.why = why


class HostV(V):
    """value of a library type whose operations are described by a contract module: a type t with t.host(term), and methods
    getitem, setitem, delitem, method, binop, unary, compare, contains, source, copy as far as they are described"""
    t = None

    def term(self, ip, t):
        if self.t is not None and self.t == t:
            return self.e
        raise Unsupported('%s where %s expected' % (type(self).__name__, t))

    def __getattr__(self, name):
        if name in ('getitem', 'setitem', 'delitem', 'method', 'binop', 'unary', 'compare', 'contains', 'source', 'copy'):
            raise Unsupported('%s of %s' % (name, type(self).__name__))
        raise AttributeError(name)


class OpaqueV(V):
    """a value the engine does not interpret (may be passed around, not inspected)"""

    def __init__(self, tag='opaque'):
        self.tag = tag


class ParamsV(V):
    """the `parameters` dictionary of an algorithm: unknown, possibly None; read through get_param_value (C21)"""

    NONE_CONST = z3.Const('glob!prm!is_none', z3.BoolSort())

    def __init__(self, over=None, tag=''):
        self.over = dict(over or {})        # entries known to be set (own copies only)
        self.tag = tag                      # '': the parameter of the function; else another dictionary, not None

    CALL = []       # (interpreter, parameters argument) of the calls whose contract is being applied

    def none(self):
        return ParamsV.NONE_CONST if not self.tag or self.tag == "!copy!" else z3.BoolVal(False)

    def given(self, key):
        return And(Not(self.none()), z3.Const('glob!prm!given!' + ('' if self.tag == '!copy!' else self.tag) + key, z3.BoolSort()))


class TupV(V):
    def __init__(self, items):
        self.items = list(items)


class RecV(V):
    """dictionary with concrete (literal) string keys"""

    def __init__(self, items):
        self.items = items


class Loc(V):
    __slots__ = ('t', 'place')

    def __init__(self, t, place):
        self.t, self.place = t, place

    def __repr__(self):
        return 'Loc(%s,%s)' % (self.t, self.place)


class FuncV(V):
    def __init__(self, node, mod, cls=None, closure=()):
        self.node, self.mod, self.cls, self.closure = node, mod, cls, closure

    @property
    def qual(self):
        n = getattr(self.node, 'name', '<lambda>')
        return self.mod.name + ':' + ((self.cls + '.') if self.cls else '') + n


class ClassV(V):
    def __init__(self, mod, qual, node):
        self.mod, self.qual, self.node = mod, qual, node

    @property
    def key(self):
        return self.mod.name + ':' + self.qual


class ModV(V):
    def __init__(self, mod):
        self.mod = mod


class ExtV(V):
    def __init__(self, name):
        self.name = name


class EnumV(V):
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value


class BoundV(V):
    def __init__(self, recv, fn):
        self.recv, self.fn = recv, fn


class MethV(V):
    """builtin method of a value"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SuperV(V):
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class Source(V):
    """iteration source: elem(vars) for all vars with guard. ordered = n when vars == [i] ranges over [0,n)"""

    def __init__(self, vars, guard, elem, ordered=None, concrete=None, loc=None):
        self.vars, self.guard, self.elem, self.ordered, self.concrete, self.loc = vars, guard, elem, ordered, concrete, loc
        self.one_shot = False


class TUnk(T):
    mutable = True

    def __init__(self, kind, site):
        self.kind, self.site = kind, site
        self.name = 'Unk:%s@%s' % (kind, site)
        self.link = None

    def sort(self):
        raise Unsupported('element type of an empty %s is unknown' % self.kind)


def has_unk(t):
    if isinstance(t, TUnk):
        return True
    if isinstance(t, TSet) or isinstance(t, TList):
        return has_unk(t.t)
    if isinstance(t, TDict):
        return has_unk(t.v) or has_unk(t.k)
    if isinstance(t, TRec):
        return any(has_unk(x) for x in t.fields.values())
    return False


class State:
    __slots__ = ('cells', 'heap', 'frames', 'pc')

    def __init__(self):
        self.cells, self.heap, self.frames, self.pc = {}, {}, {}, []

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.heap = dict(self.heap)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.pc = list(self.pc)
        return s


class Dec:
    def __init__(self, prefix):
        self.prefix, self.taken, self.alts, self.conds = prefix, [], [], []
        self.nondet = False


class Outcome:
    def __init__(self, st, conds, kind, val, nondet):
        self.st, self.conds, self.kind, self.val, self.nondet = st, conds, kind, val, nondet

    def cond(self):
        return z3.And(*self.conds) if len(self.conds) != 1 else self.conds[0]


def And(*xs):
    xs = [x for x in xs if not z3.is_true(x)]
    if not xs:
        return z3.BoolVal(True)
    return xs[0] if len(xs) == 1 else z3.And(*xs)


def Or(*xs):
    xs = [x for x in xs if not z3.is_false(x)]
    if not xs:
        return z3.BoolVal(False)
    return xs[0] if len(xs) == 1 else z3.Or(*xs)


def Not(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    return z3.Not(x)


def _given(cs):
    """comparisons inside a conjunct that another conjunct states"""
    cmp = (z3.Z3_OP_LE, z3.Z3_OP_GE)
    at = [c for c in cs if z3.is_app(c) and c.decl().kind() in cmp]
    if not at:
        return cs
    out = []
    for c in cs:
        if any(a.eq(c) for a in at) or z3.is_not(c):
            out.append(c)
            continue
        sub, seen, st = [], set(), [c]
        while st:
            f = st.pop()
            if f.get_id() in seen or not z3.is_app(f):
                continue
            seen.add(f.get_id())
            if f.decl().kind() in cmp:
                g = z3.ArithRef.__ge__(f.arg(1), f.arg(0)) if f.decl().kind() == z3.Z3_OP_LE else z3.ArithRef.__le__(f.arg(1), f.arg(0))
                if any(f.eq(a) or g.eq(a) for a in at):
                    sub.append((f, z3.BoolVal(True)))
            st.extend(f.children())
        out.append(z3.substitute(c, *sub) if sub else c)
    return out


def Exists(vs, b):
    b = z3.simplify(b)
    if z3.is_true(b) or z3.is_false(b):
        return b
    vs = list(vs)
    cs = syms.conj(b)
    if len(cs) > 1:
        # a conjunct may be used as an assumption in the others
        new = _given(cs)
        if any(not a.eq(c) for a, c in zip(new, cs)):
            b = z3.simplify(And(*new))
    for k, v in enumerate(vs):
        r = syms.unsort(v, [b]) if occurs(v, b) else None
        if r is not None:
            vs[k] = r[0]
            return Exists(vs, r[1][0])
        r = syms.unenum(v, syms.conj(b), []) if occurs(v, b) else None
        if r is not None:
            vs[k] = r[0]
            return Exists(vs, And(*r[1]))
    b = syms.orient(b)
    for v in vs:
        q = syms.fixed_by(v, b)
        if q is not None:
            b = z3.simplify(z3.substitute(b, (v, q)))
            rest = [w for w in vs if w is not v]
            return Exists(rest, b) if rest else b
    for k, v in enumerate(vs):
        r = syms.unshift(v, b)
        if r is not None:
            vs[k], b = r
    return z3.Exists(vs, b) if vs else b


def ForAll(vs, b):
    b = z3.simplify(b)
    if z3.is_true(b) or z3.is_false(b):
        return b
    return z3.ForAll(vs, b)


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


def same_place(p, q):
    if p[0] != q[0]:
        return False
    if p[0] in ('cell', 'ro'):
        return p[1] == q[1]
    if p[0] == 'opt':
        return same_place(p[1].place, q[1].place)
    if p[0] == 'field':
        return p[1] == q[1] and p[2].eq(q[2])
    if p[0] == 'elem':
        return same_place(p[1].place, q[1].place) and p[2].sort() == q[2].sort() and p[2].eq(q[2])
    if p[0] == 'fld':
        return same_place(p[1].place, q[1].place) and p[2] == q[2]
    return False


class World:
    """class schemas (field types), parameter typing, trusted models, contracts"""

    def __init__(self):
        self.schema = {}       # class key -> {field: T}
        self.contracts = {}    # function qual -> Contract
        self.params = {}       # enum string value -> T : symbolic algorithm parameters
        self.models = {}       # qual / external name -> python function(interp, args, kwargs, node) -> V
        self.hierarchy_cache = {}
        self.assumptions = set()


class Interp:
    MAXDEPTH = 25

    def __init__(self, world):
        self.w = world
        self.hints = {}
        self.pending = False
        self.cell_site = {}
        self.pending = False
        self.reset()

    def reset(self):
        self.st = State()
        self.dec = Dec([])
        self.obls = []
        self.obl_keys = set()
        self.ctx = []           # stack of (FuncV-like info)
        self.nfresh = 0
        self.freshlog = []
        self.deckeys = []
        self.param_consts = {}
        self.fsolver = None
        self.fstack = []
        self.depth = 0
        self.under = None
        self.inlined = set()
        self.used_contracts = set()
        self.stats = {'paths': 0, 'feas': 0, 'loops_auto': 0, 'loops_inv': 0, 'side': 0}

    # ---------------------------------------------------------- fresh / cells
    def fresh(self, sort, hint='k'):
        self.nfresh += 1
        c = z3.Const('%s!%d' % (hint, self.nfresh), sort)
        self.freshlog.append(c)
        return c

    def new_cell(self, t, term, site=None):
        self.nfresh += 1
        cid = self.nfresh
        if site is not None:
            self.cell_site[cid] = site
        self.st.cells[cid] = (t, term)
        return Loc(t, ('cell', cid))

    def widen(self, loc, v):
        """a real number is stored in a container of integers: generate again with a container of reals"""
        vt = loc.t.v if isinstance(loc.t, TDict) else loc.t.t
        if vt == TInt and isinstance(v, SV) and v.t == TReal and loc.place[0] == 'cell' and loc.place[1] in self.cell_site:
            site = self.cell_site[loc.place[1]]
            if site in self.hints:
                self.hints[site] = wide(self.hints[site])
            else:
                self.hints[('wide',) + site] = True
            raise Retype()

    def read(self, loc):
        p = loc.place
        if p[0] == 'opt':
            return p[1].t.val(self.read(p[1]))
        if p[0] in ('cell', 'ro'):
            t, e = self.st.cells[p[1]]
            if e is None:
                raise Unsupported('unresolved empty container')
            return e
        if p[0] == 'field':
            return sel(self.heap(p[1]), p[2])
        if p[0] == 'elem':
            par = p[1]
            pe = self.read(par)
            if isinstance(par.t, TDict):
                return sel(par.t.val(pe), p[2])
            return sel(par.t.arr(pe), p[2])
        if p[0] == 'fld':
            return p[1].t.get(self.read(p[1]), p[2])
        raise Unsupported('place')

    def write(self, loc, e):
        p = loc.place
        for q in self.st.cells.get('frozen', ()):
            if same_place(p, q):
                raise Unsupported('mutation of a container that is shared')
        if p[0] == 'cell':
            t, _ = self.st.cells[p[1]]
            if isinstance(t, tuple):
                raise Unsupported('write through a frozen alias')
            self.st.cells[p[1]] = (t, e)
        elif p[0] == 'field':
            self.st.heap[p[1]] = z3.Store(self.heap(p[1]), p[2], e)
        elif p[0] == 'elem':
            par = p[1]
            pe = self.read(par)
            if isinstance(par.t, TDict):
                self.write(par, par.t.mk(par.t.dom(pe), z3.Store(par.t.val(pe), p[2], e)))
            else:
                self.write(par, par.t.mk(par.t.len(pe), z3.Store(par.t.arr(pe), p[2], e)))
        elif p[0] == 'opt':
            self.write(p[1], p[1].t.some(e))
        elif p[0] == 'fld':
            re = self.read(p[1])
            self.write(p[1], p[1].t.set(re, p[2], p[1].t.has(re, p[2]), e))
        elif p[0] == 'ro':
            raise Unsupported('mutation of a container of which only a copy is known here')
        else:
            raise Unsupported('place')

    def heap(self, key):
        if key not in self.st.heap:
            t = self.w.schema[key[0]][key[1]]
            self.st.heap[key] = self.heap0(key)
        return self.st.heap[key]

    def heap0(self, key):
        t = self.w.schema[key[0]][key[1]]
        return z3.Const('H!%s.%s' % (key[0].split(':')[1], key[1]), z3.ArraySort(REF, t.sort()))

    # ---------------------------------------------------------- facts & decisions
    def assume(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.st.pc.append(x)
        else:
            self.st.pc.append(c)

    def oblige(self, name, cond, kind='assert'):
        key = (tuple(tuple(d.taken) for d in self.deckeys), tuple(self.dec.taken), name, getattr(self, 'salt', 0) if self.deckeys[1:] else 0, self._obl_ord())
        if key in self.obl_keys:
            return
        self.obl_keys.add(key)
        self.obls.append((name, list(self.st.pc), cond, kind))

    def _obl_ord(self):
        self._ordc = getattr(self.dec, 'ordc', 0)
        self.dec.ordc = self._ordc + 1
        return self._ordc

    def feasible(self, cond):
        """False only if pc & cond is unsatisfiable"""
        self.stats['feas'] += 1
        if self.fsolver is None:
            self.fsolver = z3.SolverFor('ALL') if False else z3.Solver()
            self.fsolver.set('rlimit', 150000)
            self.fsolver.set('timeout', 1500)
            self.fsolver.set('auto_config', False)
            self.fsolver.set('smt.mbqi', False)
            self.fstack = []
        pc = self.st.pc
        k = 0
        while k < len(self.fstack) and k < len(pc) and self.fstack[k].eq(pc[k]):
            k += 1
        if k < len(self.fstack):
            self.fsolver.pop(len(self.fstack) - k)
            del self.fstack[k:]
        for c in pc[k:]:
            self.fsolver.push()
            self.fsolver.add(c)
            self.fstack.append(c)
        self.fsolver.push()
        self.fsolver.add(cond)
        for a in self.strlit_axioms([cond] + pc):
            self.fsolver.add(a)
        r = self.fsolver.check()
        self.fsolver.pop()
        return r != z3.unsat

    def strlit_axioms(self, es):
        lits = [c for k, c in GLOBAL_CONSTS.items() if k[0] == 'str']
        return [z3.Distinct(*lits)] if len(lits) > 1 else []

    def prove(self, facts, goal, rlimit=1500000):
        """side condition of a loop summary"""
        self.stats['side'] += 1
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        s = z3.Solver()
        s.set('rlimit', rlimit)
        s.set('timeout', 20000)
        s.set('auto_config', False)
        s.set('smt.mbqi', False)
        fs = list(facts) + [z3.Not(g)]
        for f in fs:
            s.add(f)
        for a in syms.axioms(fs) + self.strlit_axioms(fs):
            s.add(a)
        return s.check() == z3.unsat

    def decide(self, cond):
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        d = self.dec
        i = len(d.taken)
        if i < len(d.prefix):
            k, forced = d.prefix[i]
        else:
            ft = self.feasible(c)
            if not ft:
                k, forced = False, True
                # the other side may be infeasible too; then the path is dead, harmless
            else:
                ff = self.feasible(z3.Not(c))
                if not ff:
                    k, forced = True, True
                elif syms.used([c]) and self.prove(list(self.st.pc), c, 400000):
                    k, forced = True, True
                elif syms.used([c]) and self.prove(list(self.st.pc), z3.Not(c), 400000):
                    k, forced = False, True
                else:
                    d.alts.append(d.taken + [(False, False)])
                    k, forced = True, False
        d.taken.append((k, forced))
        if not forced:
            lit = c if k else z3.Not(c)
            d.conds.append(lit)
            self.st.pc.append(lit)
        return k

    def choose(self, options, nondet=False):
        """options: [(closed condition, [facts])]; forks"""
        d = self.dec
        i = len(d.taken)
        if i < len(d.prefix):
            k = d.prefix[i][0]
        else:
            ok = [j for j, (c, f) in enumerate(options) if self.feasible(And(c, *f))]
            if not ok:
                raise PathDead()
            for j in ok[1:]:
                d.alts.append(d.taken + [(j, False)])
            k = ok[0]
        d.taken.append((k, False))
        c, f = options[k]
        if nondet:
            d.nondet = True
        d.conds.append(c)
        self.assume(c)
        for x in f:
            self.assume(x)
        return k

    def explore(self, run, extra=()):
        base = self.st
        saved = self.dec
        self.deckeys.append(saved)
        outs = []
        work = [[]]
        n = 0
        savectx = list(self.ctx)
        savedepth = self.depth
        try:
            while work:
                prefix = work.pop()
                n += 1
                if n > 600:
                    raise Unsupported('too many paths')
                self.stats['paths'] += 1
                self.st = base.copy()
                for x in extra:
                    self.assume(x)
                self.dec = Dec(prefix)
                self.ctx = list(savectx)
                self.depth = savedepth
                kind, val = 'normal', None
                try:
                    val = run()
                except ReturnEx as r:
                    kind, val = 'return', r.v
                except BreakEx:
                    kind = 'break'
                except ContinueEx:
                    kind = 'continue'
                except PyRaise as r:
                    kind, val = 'raise', r.name
                except PathDead:
                    kind = 'dead'
                work.extend(reversed(self.dec.alts))
                if kind != 'dead':
                    outs.append(Outcome(self.st, list(self.dec.conds), kind, val, self.dec.nondet))
        finally:
            self.st = base
            self.dec = saved
            self.deckeys.pop()
            self.ctx = savectx
            self.depth = savedepth
        return outs

    # ---------------------------------------------------------- coercions
    def norm_list(self, t, e):
        j = z3.FreshConst(z3.IntSort(), 'j')
        n = t.len(e)
        return t.mk(n, lam(j, z3.If(z3.And(j >= 0, j < n), sel(t.arr(e), j), default(t.t))))

    def lift(self, t, e):
        """term of type t -> value (mutable terms become frozen copies)"""
        if hasattr(t, 'host'):
            return t.host(e)
        if isinstance(t, TTuple):
            return TupV([self.lift(it, t.get(e, i)) for i, it in enumerate(t.items)]) if not isinstance(e, z3.QuantifierRef) else SV(t, e)
        if t.mutable:
            return Loc(t, ('ro', self.new_cell(t, e).place[1]))
        return SV(t, e)

    def lift_own(self, t, e):
        """as lift, for a container nobody else holds"""
        return self.new_cell(t, e) if t.mutable else self.lift(t, e)

    def fresh_value(self, t):
        c = self.fresh(t.sort(), 'res')
        for f in self.nf_facts(t, c):
            self.assume(f)
        return self.lift_own(t, c)

    def escape(self, v, top=True):
        """v is stored inside a value: containers in it are reachable from two places from now on"""
        if isinstance(v, Loc) and not top:
            self.freeze(v)
        elif isinstance(v, TupV):
            for x in v.items:
                self.escape(x, False)

    def elem_value(self, loc, t, key):
        """value of an element of a container location"""
        if t.mutable:
            return Loc(t, ('elem', loc, key))
        e = sel(loc.t.val(self.read(loc)), key) if isinstance(loc.t, TDict) else sel(loc.t.arr(self.read(loc)), key)
        return self.lift(t, e)

    def term(self, v, t):
        """z3 term of value v at type t"""
        if isinstance(v, Poison):
            raise Unsupported('use of a value not tracked: ' + v.why)
        if isinstance(v, HostV) and not isinstance(t, TOpt):
            return v.term(self, t)
        if isinstance(t, TOpt):
            if v is NONE:
                return t.none()
            if isinstance(v, SV) and v.t == t:
                return v.e
            return t.some(self.term(v, t.t))
        if (t.name, 'term') in self.w.models and not (isinstance(v, SV) and v.t == t):
            return self.w.models[(t.name, 'term')](self, v)
        if isinstance(v, SV):
            if v.t == t:
                return v.e
            if isinstance(v.t, TRef) and isinstance(t, TRef):
                return v.e
            if t == TReal and v.t == TInt:
                return z3.ToReal(v.e)
            if t == TInt and v.t == TBool:
                return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
            if t == TReal and v.t == TBool:
                return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
            if isinstance(v.t, TOpt) and v.t.t == t:
                # only when it is known not to be None on this path
                if self.decide(v.t.is_none(v.e)):
                    raise PyRaise('TypeError')
                return v.t.val(v.e)
            raise Unsupported('type mismatch: %s where %s expected' % (v.t, t))
        if isinstance(v, TupV) and isinstance(t, TTuple):
            if len(v.items) != len(t.items):
                raise Unsupported('tuple arity')
            return t.mk(*[self.term(x, it) for x, it in zip(v.items, t.items)])
        if isinstance(t, TSeq) and isinstance(v, TupV):
            arr = z3.K(z3.IntSort(), default(t.tl.t))
            for i, x in enumerate(v.items):
                arr = z3.Store(arr, i, self.term(x, t.tl.t))
            return t.tl.mk(z3.IntVal(len(v.items)), arr)
        if isinstance(t, TSeq) and isinstance(v, Loc) and isinstance(v.t, TList) and v.t.sort() == t.sort():
            return self.norm_list(v.t, self.read(v))
        if isinstance(v, Loc):
            if isinstance(v.t, TUnk):
                self.resolve(v.t, t)
            if isinstance(t, TTuple) or not t.mutable:
                raise Unsupported('container where %s expected' % t)
            if v.t == t or (v.t.sort() == t.sort()):
                return self.read(v)
            if isinstance(v.t, TRec) and isinstance(t, TRec) and set(v.t.keys) <= set(t.keys):
                e = self.read(v)
                return t.mk({k: (v.t.has(e, k), self.conv(v.t.fields[k], t.fields[k], v.t.get(e, k))) if k in v.t.fields else (FALSE, default(t.fields[k])) for k in t.keys})
            raise Unsupported('type mismatch: %s where %s expected' % (v.t, t))
        if isinstance(v, TupV) and isinstance(t, TList):
            arr = z3.K(z3.IntSort(), default(t.t))
            for i, x in enumerate(v.items):
                arr = z3.Store(arr, i, self.term(x, t.t))
            return t.mk(z3.IntVal(len(v.items)), arr)
        if isinstance(v, Source):
            if isinstance(t, TSet):
                return self.source_to_set(v, t)
            if isinstance(t, TList):
                return self.source_to_list(v, t)
        if isinstance(v, EnumV):
            return self.term(v.value, t)
        if isinstance(v, RecV) and isinstance(t, TDict) and t.k == TStr:
            dom, val = t.dom(default(t)), t.val(default(t))
            for k, x in v.items.items():
                dom, val = z3.Store(dom, strlit(k), TRUE), z3.Store(val, strlit(k), self.term(x, t.v))
            return t.mk(dom, val)
        if isinstance(v, RecV) and isinstance(t, TRec) and set(v.items) <= set(t.keys):
            return t.mk({k: (TRUE, self.term(v.items[k], t.fields[k])) if k in v.items else (FALSE, default(t.fields[k])) for k in t.keys})
        raise Unsupported('cannot use %s as %s' % (type(v).__name__, t))

    def conv(self, a, b, e):
        if a == b or a.sort() == b.sort():
            return e
        if isinstance(b, TOpt) and a == b.t:
            return b.some(e)
        if a == TInt and b == TReal:
            return z3.ToReal(e)
        raise Unsupported('type mismatch: %s where %s expected' % (a, b))

    def resolve(self, unk, t):
        if has_unk(t):
            raise Unsupported('container element type is not determined')
        if self.hints.get(unk.site) == t:
            raise Unsupported('hint not used')
        if unk.site in self.hints:
            raise Unsupported('container used at two types: %s, %s' % (self.hints[unk.site], t))
        self.hints[unk.site] = t
        raise Retype()

    def vtype(self, v):
        """natural type of a value to be stored"""
        if isinstance(v, SV) or isinstance(v, HostV) and v.t is not None:
            return v.t
        if isinstance(v, Loc):
            if isinstance(v.t, TUnk):
                return v.t
            return v.t
        if isinstance(v, TupV):
            return TTuple(*[self.vtype(x) for x in v.items])
        if isinstance(v, EnumV):
            return self.vtype(v.value)
        if isinstance(v, Source):
            return TList(self.vtype(v.elem))
        if isinstance(v, Poison):
            raise Unsupported('use of a value not tracked: ' + v.why)
        if isinstance(v, RecV) and v.items:
            ts = {k: None if x is NONE else self.vtype(x) for k, x in v.items.items()}
            try:
                return TDict(TStr, self.join_type(list(ts.values())))
            except Unsupported:
                if None in ts.values():
                    raise
                return TRec(ts)
        raise Unsupported('type of %s' % type(v).__name__)

    def merge_vals(self, items):
        """[(cond, V)] -> V ; last one is the default"""
        vals = [v for _, v in items]
        if len(vals) == 1:
            return vals[0]
        if all(v is NONE for v in vals):
            return NONE
        if all(isinstance(v, (ClassV, FuncV, ExtV, ModV, EnumV, OpaqueV, ParamsV)) for v in vals):
            if all(type(v) is type(vals[0]) and getattr(v, 'key', getattr(v, 'name', getattr(v, 'qual', getattr(v, 'tag', None)))) ==
                   getattr(vals[0], 'key', getattr(vals[0], 'name', getattr(vals[0], 'qual', getattr(vals[0], 'tag', None)))) for v in vals):
                return vals[0]
        if all(isinstance(v, TupV) for v in vals) and len(set(len(v.items) for v in vals)) == 1:
            return TupV([self.merge_vals([(c, v.items[i]) for c, v in items]) for i in range(len(vals[0].items))])
        if all(isinstance(v, Loc) for v in vals) and all(same_place(v.place, vals[0].place) for v in vals):
            return vals[0]
        t = self.join_type([self.vtype(v) if v is not NONE else None for v in vals])
        e = self.term(vals[-1], t)
        for c, v in reversed(items[:-1]):
            x = self.term(v, t)
            e = x if x.eq(e) else z3.If(c, x, e)
        if t.mutable:
            for v in vals:
                if isinstance(v, Loc):
                    self.freeze(v)
        return self.lift(t, e)

    def join_type(self, ts):
        opt = any(t is None or isinstance(t, TOpt) for t in ts)
        base = []
        for t in ts:
            if t is None:
                continue
            b = t.t if isinstance(t, TOpt) else t
            if b not in base:
                base.append(b)
        if len(base) == 1:
            b = base[0]
        elif base and all(x in (TInt, TReal, TBool) for x in base):
            b = TReal if TReal in base else TInt
        elif base and all(isinstance(x, TRef) for x in base):
            cs = []
            for x in base:
                cs += [c for c in x.classes if c not in cs]
            b = TRef(*cs)
        else:
            raise Unsupported('no common type: %s' % base)
        return TOpt(b) if opt else b

    # ---------------------------------------------------------- equality / truth
    def eq(self, a, b):
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return z3.BoolVal(a.cls.key == b.cls.key and a.name == b.name)
        if isinstance(a, EnumV) or isinstance(b, EnumV):
            return FALSE
        if a is NONE or b is NONE:
            o = b if a is NONE else a
            if o is NONE:
                return TRUE
            if isinstance(o, SV) and isinstance(o.t, TOpt):
                return o.t.is_none(o.e)
            if isinstance(o, ParamsV):
                return o.none()
            if isinstance(o, OpaqueV):
                raise Unsupported('comparison of an opaque value')
            if isinstance(o, Poison):
                raise Unsupported('use of a value not tracked: ' + o.why)
            return FALSE
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items):
                return FALSE
            return And(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, SV) and isinstance(b, SV):
            if a.t == b.t or (isinstance(a.t, TRef) and isinstance(b.t, TRef)):
                return a.e == b.e
            num = (TInt, TReal, TBool)
            if a.t in num and b.t in num:
                t = self.join_type([a.t, b.t])
                return self.term(a, t) == self.term(b, t)
            if isinstance(a.t, TOpt) and not isinstance(b.t, TOpt):
                return And(Not(a.t.is_none(a.e)), self.eq(SV(a.t.t, a.t.val(a.e)), b))
            if isinstance(b.t, TOpt) and not isinstance(a.t, TOpt):
                return self.eq(b, a)
            raise Unsupported('equality of %s and %s' % (a.t, b.t))
        if isinstance(a, Loc) and isinstance(b, Loc):
            if same_place(a.place, b.place):
                return TRUE
            if isinstance(a.t, TUnk) or isinstance(b.t, TUnk):
                if isinstance(a.t, TUnk) and isinstance(b.t, TUnk):
                    return TRUE
                o = b if isinstance(a.t, TUnk) else a
                return Not(self.truth(o))
            return self.eq_terms(a.t, self.read(a), self.read(b))
        if isinstance(a, Loc) and isinstance(b, TupV) or isinstance(a, TupV) and isinstance(b, Loc):
            l = a if isinstance(a, Loc) else b
            return FALSE
        if isinstance(a, (ClassV, FuncV, ExtV)) and type(a) is type(b):
            return z3.BoolVal(getattr(a, 'key', getattr(a, 'name', None)) == getattr(b, 'key', getattr(b, 'name', None)))
        if isinstance(a, SV) and isinstance(b, TupV) and isinstance(a.t, TTuple):
            return a.e == self.term(b, a.t)
        if isinstance(b, SV) and isinstance(a, TupV) and isinstance(b.t, TTuple):
            return b.e == self.term(a, b.t)
        if isinstance(a, SV) and a.t in (TInt, TReal, TBool, TStr) and isinstance(b, (TupV, Loc)):
            return FALSE
        raise Unsupported('equality of %r and %r %s' % (a, b, getattr(a, 'why', '')))

    def eq_terms(self, t, x, y):
        if x.eq(y):
            return TRUE
        if isinstance(t, TSet):
            v = z3.FreshConst(t.t.sort(), 'ev')
            return ForAll([v], sel(x, v) == sel(y, v))
        if ('eq', t.name) in self.w.models:
            return self.w.models[('eq', t.name)](x, y)
        if isinstance(t, TDict):
            v = z3.FreshConst(t.k.sort(), 'ev')
            return And(ForAll([v], sel(t.dom(x), v) == sel(t.dom(y), v)),
                       ForAll([v], z3.Implies(sel(t.dom(x), v), self.eq_terms(t.v, sel(t.val(x), v), sel(t.val(y), v)))))
        if isinstance(t, TRec):
            return And(*[And(t.has(x, k) == t.has(y, k), z3.Implies(t.has(x, k), self.eq_terms(ft, t.get(x, k), t.get(y, k)))) for k, ft in t.fields.items()])
        if isinstance(t, TList):
            v = z3.FreshConst(z3.IntSort(), 'ev')
            return And(t.len(x) == t.len(y),
                       ForAll([v], z3.Implies(z3.And(v >= 0, v < t.len(x)), self.eq_terms(t.t, sel(t.arr(x), v), sel(t.arr(y), v)))))
        return x == y

    def truth(self, v):
        if v is NONE:
            return FALSE
        if isinstance(v, SV):
            if v.t == TBool:
                return v.e
            if v.t == TInt:
                return v.e != 0
            if v.t == TReal:
                return v.e != 0
            if v.t == TStr:
                return v.e != strlit('')
            if isinstance(v.t, TOpt):
                return And(Not(v.t.is_none(v.e)), self.truth(SV(v.t.t, v.t.val(v.e))) if not v.t.t.mutable else TRUE)
            if isinstance(v.t, TRef):
                m = self.find_method(v, '__len__')
                if m is not None:
                    r = self.call_func(m[0], [v], {}, None)
                    return r.e > 0         # a negative length is impossible
                m = self.find_method(v, '__bool__')
                if m is not None:
                    raise Unsupported('__bool__')
                return TRUE
            if (v.t.name, 'truth') in self.w.models:
                return self.w.models[(v.t.name, 'truth')](self, v)
            if isinstance(v.t, TSeq):
                return v.t.tl.len(v.e) > 0
            if v.t.name.startswith('U:'):         # any value: what makes it true is not modelled
                return z3.Function('truthy!' + v.t.name, v.t.sort(), z3.BoolSort())(v.e)
            raise Unsupported('truth value of %s' % v.t)
        if isinstance(v, Loc):
            if isinstance(v.t, TUnk):
                return FALSE
            e = self.read(v)
            if isinstance(v.t, TSet):
                x = z3.FreshConst(v.t.t.sort(), 'tv')
                return Exists([x], sel(e, x))
            if isinstance(v.t, TDict):
                x = z3.FreshConst(v.t.k.sort(), 'tv')
                return Exists([x], sel(v.t.dom(e), x))
            if isinstance(v.t, TList):
                return v.t.len(e) != 0
            if isinstance(v.t, TRec):
                return Or(*[v.t.has(e, k) for k in v.t.keys])
        if isinstance(v, TupV):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, RecV):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, Source) and not v.one_shot:
            if v.ordered is not None:
                return v.ordered != 0
            return Exists(v.vars, v.guard)
        if isinstance(v, (FuncV, ClassV, ModV, ExtV, EnumV, BoundV, Source)):
            return TRUE
        if isinstance(v, Poison):
            raise Unsupported('use of a value not tracked: ' + v.why)
        raise Unsupported('truth of %s' % type(v).__name__)

    def test(self, v):
        return self.decide(self.truth(v))
