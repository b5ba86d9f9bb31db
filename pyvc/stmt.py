"""Statements and loops."""
import ast
import os
import z3
from . import loops, syms
from .types import *
from .core import *


class LoopView:
    """what a user-supplied invariant sees"""

    def __init__(self, ip, entry, st, fid, src, done):
        self.ip, self.entry, self.st, self.fid, self.src, self.done = ip, entry, st, fid, src, done

    @property
    def outer(self):
        """number of finished iterations (or set of finished elements) of the enclosing loop"""
        return self.ip.loop_done[-1]

    @property
    def outers(self):
        return self.ip.loop_done

    def _get(self, st, name):
        f = st.frames[self.fid]
        if name not in f:
            raise Unsupported('invariant mentions %s, which is not a variable here' % name)
        v = f[name]
        if isinstance(v, Loc):
            cur = self.ip.st
            self.ip.st = st
            try:
                return self.ip.read(v)
            finally:
                self.ip.st = cur
        if isinstance(v, SV):
            return v.e
        return v

    def v(self, name):
        return self._get(self.st, name)

    def old(self, name):
        return self._get(self.entry, name)

    def at(self, name, t):
        """value of the variable at type t"""
        v = self.st.frames[self.fid].get(name)
        if v is None:
            raise Unsupported('invariant mentions %s, which is not a variable here' % name)
        cur = self.ip.st
        self.ip.st = self.st
        try:
            return self.ip.term(v, t)
        finally:
            self.ip.st = cur

    def t(self, name):
        v = self.st.frames[self.fid][name]
        return v.t

    def _alloc(self, st, r):
        a = st.cells.get('alloc')
        return sel(a if a is not None else z3.Const('alloc!0', z3.ArraySort(REF, z3.BoolSort())), r)

    def alloc(self, r):
        return self._alloc(self.st, r)

    def alloc_old(self, r):
        return self._alloc(self.entry, r)

    def heap(self, own, field):
        cur = self.ip.st
        self.ip.st = self.st
        try:
            return self.ip.heap((own, field))
        finally:
            self.ip.st = cur

    def heap_old(self, own, field):
        cur = self.ip.st
        self.ip.st = self.entry
        try:
            return self.ip.heap((own, field))
        finally:
            self.ip.st = cur


class StmtMixin:
    w_debug = bool(os.environ.get("PYVC_DEBUG"))

    def exec_block(self, body):
        for s in body:
            self.exec(s)

    def exec(self, s):
        c = self.w.contracts.get(self.ctx[-1].get('qual'))
        if c is not None and c.drop and self.droppable(s, c.drop):
            self.drop_stmt(s, c.drop)
            return
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        return m(s)

    def root(self, e):
        while isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
            e = e.value
        return e.id if isinstance(e, ast.Name) else None

    PURE = {'str', 'hash', 'len', 'copy', 'list', 'set', 'range', 'dict', 'sorted', 'tuple', 'keys', 'items', 'values'}
    MUT = {'append', 'add', 'update', 'extend', 'remove', 'discard', 'pop', 'clear'}

    def droppable(self, s, names):
        """the statement only changes objects held by the dropped names"""
        def pure(e):
            for x in ast.walk(e):
                if isinstance(x, ast.Call) and (x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, 'id', None)) not in self.PURE:
                    return False
                if isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await)):
                    return False
            return True

        def fresh(e):
            return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call, ast.Constant, ast.BinOp, ast.JoinedStr)) or self.root(e) in names or isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice)
        if isinstance(s, ast.Assign):
            return all(self.root(t) in names for t in s.targets) and pure(s.value) and (fresh(s.value) or not any(isinstance(t, ast.Name) for t in s.targets))
        if isinstance(s, ast.AugAssign):
            return self.root(s.target) in names and pure(s.value)
        if isinstance(s, ast.Delete):
            return all(self.root(t) in names for t in s.targets)
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute):
            return s.value.func.attr in self.MUT and self.root(s.value.func.value) in names and all(pure(a) for a in s.value.args)
        if isinstance(s, ast.If):
            return pure(s.test) and all(self.droppable(x, names) or isinstance(x, ast.Pass) for x in s.body + s.orelse)
        if isinstance(s, ast.For):
            inner = names | {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            mine = {id(x) for x in ast.walk(s)}
            f = self.func_by_key(self.ctx[-1]['qual']).node
            if any(isinstance(x, ast.Name) and x.id in inner - names and id(x) not in mine for x in ast.walk(f)):
                return False        # a variable that is used elsewhere
            return pure(s.iter) and all(self.droppable(x, inner) or isinstance(x, ast.Pass) for x in s.body + s.orelse)
        return False

    def drop_stmt(self, s, names):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                self.frame()[x.id] = OpaqueV('dropped')
        self.stats['dropped'] = self.stats.get('dropped', 0) + 1

    def s_Pass(self, s):
        pass

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Return(self, s):
        raise ReturnEx(self.eval(s.value) if s.value is not None else NONE)

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    def s_If(self, s):
        if self.test(self.eval(s.test)):
            self.exec_block(s.body)
        else:
            self.exec_block(s.orelse)

    def s_Assert(self, s):
        if not self.test(self.eval(s.test)):
            raise PyRaise('AssertionError')

    def s_Import(self, s):
        for a in s.names:
            nm = a.asname or a.name.split('.')[0]
            self.frame()[nm] = self.import_name(a.name if a.asname else a.name.split('.')[0], None)

    def s_ImportFrom(self, s):
        base = s.module or ''
        for a in s.names:
            self.frame()[a.asname or a.name] = self.import_name(base, a.name)

    def s_FunctionDef(self, s):
        self.frame()[s.name] = FuncV(s, self.ctx[-1]['mod'], self.ctx[-1]['cls'], self.ctx[-1]['closure'] + (self.ctx[-1]['fid'],))

    def s_Raise(self, s):
        if s.exc is None:
            raise PyRaise('Exception')
        e = s.exc
        nm = e.func if isinstance(e, ast.Call) else e
        nm = nm.attr if isinstance(nm, ast.Attribute) else getattr(nm, 'id', 'Exception')
        raise PyRaise(nm)

    def s_Try(self, s):
        try:
            self.exec_block(s.body)
        except PyRaise as r:
            for h in s.handlers:
                if self.handles(h, r.name):
                    if h.name:
                        self.frame()[h.name] = OpaqueV('exception')
                    self.exec_block(h.body)
                    break
            else:
                self.exec_block(s.finalbody)
                raise
        else:
            self.exec_block(s.orelse)
        self.exec_block(s.finalbody)

    def handles(self, h, name):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            nm = t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '?')
            if nm in ('Exception', 'BaseException') or nm == name:
                return True
            if nm == 'LookupError' and name in ('KeyError', 'IndexError'):
                return True
        return False

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                v = self.unopt(self.eval(t.value))
                k = self.eval(t.slice)
                if isinstance(v, HostV):
                    v.delitem(self, k)
                    continue
                if isinstance(v, Loc) and isinstance(v.t, TDict):
                    ke = self.term(k, v.t.k)
                    e = self.read(v)
                    if v.t.counter:
                        pass      # Counter.__delitem__ ignores missing keys
                    elif not self.decide(sel(v.t.dom(e), ke)):
                        raise PyRaise('KeyError')
                    self.write(v, v.t.mk(z3.Store(v.t.dom(e), ke, FALSE), z3.Store(v.t.val(e), ke, default(v.t.v))))
                    continue
                if isinstance(v, Loc) and isinstance(v.t, TUnk):
                    if v.t.kind == 'counter':
                        continue
                    raise PyRaise('KeyError')
                if isinstance(v, Loc) and isinstance(v.t, TList):
                    self.list_method(v, 'pop', [k], {}, s)
                    continue
                raise Unsupported('del of %r' % v)
            elif isinstance(t, ast.Name):
                self.frame().pop(t.id, None)
            else:
                raise Unsupported('del')

    # ------------------------------------------------------------ assignment
    def s_Assign(self, s):
        v = self.typed_list(s)
        if v is None:
            v = self.eval(s.value)
        for t in s.targets:
            self.bind_target(t, v)

    def typed_list(self, s):
        """a list display stored in a variable for which the contract gives the element type"""
        c = self.w.contracts.get(self.ctx[-1].get('qual'))
        if c is None or not c.locals or len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name) or not isinstance(s.value, ast.List):
            return None
        t = c.locals.get(s.targets[0].id)
        return None if t is None else self.new_cell(t, self.term(TupV([self.eval(x) for x in s.value.elts]), t))

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.bind_target(s.target, self.eval(s.value))

    def bind_target(self, t, v):
        if isinstance(t, ast.Name):
            self.frame()[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            v = self.unopt(v)
            if isinstance(v, SV) and isinstance(v.t, TTuple):
                v = self.lift(v.t, v.e)
            if isinstance(v, TupV):
                items = v.items
            else:
                s = self.source(v)
                if s.concrete is None:
                    l = self.as_loc(s)
                    nn = l.t.len(self.read(l))
                    if not self.decide(nn == len(t.elts)):
                        raise PyRaise('ValueError')
                    items = [self.elem_value(l, l.t.t, z3.IntVal(i)) for i in range(len(t.elts))]
                else:
                    items = s.concrete
            if len(items) != len(t.elts):
                raise PyRaise('ValueError')
            for x, y in zip(t.elts, items):
                self.bind_target(x, y)
            return
        if isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
            return
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            self.setitem(self.eval(t.value), self.eval(t.slice), v)
            return
        raise Unsupported('assignment target')

    def setitem(self, c, k, v):
        c = self.unopt(c)
        if isinstance(c, Loc):
            if isinstance(c.t, TUnk):
                if c.t.kind == 'dict' and isinstance(v, Loc) and isinstance(v.t, TUnk):
                    # the element type shows when the stored container is filled; until then nothing is concluded
                    self.pending = True
                    c.t.inner = v
                    return
                if c.t.kind == 'dict' and isinstance(k, SV) and isinstance(k.py, str) and v is not NONE:
                    self.resolve(c.t, TRec({k.py: self.vtype(v)}))
                if c.t.kind in ('dict', 'counter', 'defaultdict'):
                    self.resolve(c.t, TDict(self.vtype(k), self.vtype(v), counter=c.t.kind == 'counter'))
                raise PyRaise('IndexError')
            if isinstance(c.t, TDict):
                ke = self.term(k, c.t.k)
                if isinstance(v, Loc) and isinstance(v.t, TUnk):
                    ve = self.term(v, c.t.v)
                else:
                    if v is NONE and not isinstance(c.t.v, TOpt):
                        raise Unsupported('None stored in %s' % c.t)
                    self.widen(c, v)
                    ve = self.term(v, c.t.v)
                self.escape(v, c.t.v.mutable)
                e = self.read(c)
                if c.t.v.mutable:
                    self.poison_elems(c)
                self.write(c, c.t.mk(z3.Store(c.t.dom(e), ke, TRUE), z3.Store(c.t.val(e), ke, ve)))
                if c.t.v.mutable:
                    self.redirect(v, Loc(c.t.v, ('elem', c, ke)))
                return
            if isinstance(c.t, TList):
                i = self.index(c, k)
                self.widen(c, v)
                ve = self.term(v, c.t.t)
                self.escape(v, c.t.t.mutable)
                e = self.read(c)
                if c.t.t.mutable:
                    self.poison_elems(c)
                self.write(c, c.t.mk(c.t.len(e), z3.Store(c.t.arr(e), i, ve)))
                if c.t.t.mutable:
                    self.redirect(v, Loc(c.t.t, ('elem', c, i)))
                return
        if isinstance(c, Loc) and isinstance(c.t, TRec):
            key = self.rec_key(c, k)
            ft = c.t.fields.get(key)
            site = self.cell_site.get(c.place[1]) if c.place[0] == 'cell' else None
            if ft is None or v is NONE and not isinstance(ft, TOpt) or isinstance(v, SV) and v.t == TReal and ft == TInt:
                if site is None:
                    raise Unsupported('new key of a record')
                nt = self.vtype(v) if ft is None else self.join_type([None if v is NONE else self.vtype(v), ft])
                if has_unk(nt):
                    raise Unsupported('container element type is not determined')
                self.hints[site] = TRec(dict(c.t.fields, **{key: nt}))
                raise Retype()
            ve = self.term(v, ft)
            self.escape(v, ft.mutable)
            self.write(c, c.t.set(self.read(c), key, TRUE, ve))
            if ft.mutable:
                for f in self.st.frames.values():
                    for q, x in list(f.items()):
                        if isinstance(x, Loc) and x.place[0] == 'fld' and same_place(x.place, ('fld', c, key)):
                            f[q] = Poison('alias of a replaced container element')
                self.redirect(v, Loc(ft, ('fld', c, key)))
            return
        if isinstance(c, RecV):
            if isinstance(k, SV) and k.py is not None:
                if getattr(c, 'pending', False):
                    cur = c.items.get(k.py)
                    if isinstance(cur, Loc) and isinstance(cur.t, TUnk):
                        self.resolve(cur.t, self.vtype(v))
                    return
                if getattr(self, 'in_loop', 0):
                    if getattr(c, 'site', None) is None or c.site in self.hints:
                        raise Unsupported('record update in a loop')
                    cur = c.items.get(k.py)
                    if isinstance(cur, Loc) and isinstance(cur.t, TUnk):
                        self.resolve(cur.t, self.vtype(v))
                    self.hints[c.site] = True
                    raise Retype()
                c.items[k.py] = v
                return
        if isinstance(c, ParamsV) and isinstance(k, EnumV) and isinstance(k.value, SV):
            k = k.value
        if isinstance(c, ParamsV) and isinstance(k, SV) and isinstance(k.py, str) and c.tag:
            if getattr(self, 'in_loop', 0):
                raise Unsupported('record update in a loop')
            c.over[k.py] = v
            return
        if isinstance(c, HostV):
            return c.setitem(self, k, v)
        if isinstance(c, OpaqueV):
            return      # the engine never interprets what such a value holds
        if isinstance(c, TupV):
            raise Unsupported('item assignment to an untyped list')
        if isinstance(c, SV) and isinstance(c.t, TRef):
            c = self.narrow(c)
            mk = (c.t.classes[0], '__setitem__')
            if mk in self.w.models:
                return self.w.models[mk](self, c, k, v)
            m = self.find_method(c, '__setitem__')
            if m:
                return self.call_func(m[0], [c, k, v], {}, None)
        raise Unsupported('item assignment to %r' % (c,))

    def poison_elems(self, c):
        for f in self.st.frames.values():
            for k, x in list(f.items()):
                if isinstance(x, Loc) and x.place[0] == 'elem' and same_place(x.place[1].place, c.place):
                    f[k] = Poison('alias of a replaced container element')

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id)
            v = self.eval(s.value)
            if isinstance(cur, Loc) and not (isinstance(cur.t, TDict) and cur.t.cls):
                if isinstance(cur.t, (TList,)) or isinstance(cur.t, TUnk) and cur.t.kind == 'list':
                    self.call_method(cur, 'extend', [v], {}, s)
                    return
                if isinstance(cur.t, TSet) or isinstance(cur.t, TUnk) and cur.t.kind == 'set':
                    nm = {ast.BitOr: 'update', ast.Sub: 'difference_update', ast.BitAnd: 'intersection_update'}.get(type(s.op))
                    if nm:
                        self.call_method(cur, nm, [v], {}, s)
                        return
                if self.counter_aug(cur, s.op, v):
                    return
            self.frame()[t.id] = self.binop(s.op, cur, v)
            return
        if isinstance(t, ast.Subscript):
            c = self.eval(t.value)
            k = self.eval(t.slice)
            v = self.eval(s.value)
            c2 = self.unopt(c)
            if isinstance(c2, Loc) and isinstance(c2.t, TUnk) and c2.t.kind in ('counter', 'defaultdict'):
                self.resolve(c2.t, TDict(self.vtype(k), TInt if not (isinstance(v, SV) and v.t == TReal) else TReal, counter=c2.t.kind == 'counter'))
            cur = self.getitem(c, k)
            if isinstance(cur, Loc):
                if isinstance(cur.t, TList):
                    self.call_method(cur, 'extend', [v], {}, s)
                    return
                nm = {ast.BitOr: 'update', ast.Sub: 'difference_update', ast.BitAnd: 'intersection_update'}.get(type(s.op))
                if isinstance(cur.t, TSet) and nm:
                    self.call_method(cur, nm, [v], {}, s)
                    return
            self.setitem(c, k, self.binop(s.op, cur, v))
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.binop(s.op, cur, self.eval(s.value)))
            return
        raise Unsupported('augmented assignment')

    def counter_aug(self, cur, op, v):
        """counter += counter, counter -= counter: entries that are not positive afterwards disappear"""
        iscnt = lambda x: isinstance(x, Loc) and (isinstance(x.t, TDict) and x.t.counter or isinstance(x.t, TUnk) and x.t.kind == 'counter')
        if not isinstance(op, (ast.Add, ast.Sub)) or not iscnt(cur) or not iscnt(v):
            return False
        if isinstance(v.t, TUnk):
            if isinstance(cur.t, TUnk):
                return True
            self.resolve(v.t, cur.t)
        if isinstance(cur.t, TUnk):
            self.resolve(cur.t, v.t)
        t = cur.t
        if v.t.k != t.k or v.t.v != TInt or t.v != TInt:
            return False
        a, b = self.read(cur), self.read(v)
        q = z3.FreshConst(t.k.sort(), 'q')
        x, y = sel(t.val(a), q), sel(t.val(b), q)        # absent entries are 0 (normal form)
        n = z3.simplify(x + y if isinstance(op, ast.Add) else x - y)
        self.write(cur, t.mk(lam(q, n > 0), lam(q, z3.If(n > 0, n, z3.IntVal(0)))))
        return True

    # ------------------------------------------------------------ loops
    def s_For(self, s):
        inv = self.find_inv(s)
        if inv is not None and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range':
            self.symbolic_range = True       # not unrolled: an invariant is given
        try:
            it = self.source(self.eval(s.iter))
        finally:
            self.symbolic_range = False
        if it.concrete is not None:
            for v in it.concrete:
                self.bind_target(s.target, v)
                try:
                    self.exec_block(s.body)
                except BreakEx:
                    break
                except ContinueEx:
                    continue
            else:
                self.exec_block(s.orelse)
            return
        if inv is not None and inv.force:
            return self.loop_inv(s, it, inv)
        omark = len(self.obls)
        try:
            return self.auto_for(s, it)
        except Unsupported as u:
            if inv is None:
                raise
            self.auto_reason = str(u)
        del self.obls[omark:]
        return self.loop_inv(s, it, inv)

    def find_inv(self, s):
        c = self.w.contracts.get(self.ctx[-1].get('qual'))
        if c is None or not c.loops:
            return None
        f = self.func_by_key(self.ctx[-1]['qual'])
        return c.loops.get(loops.index(c.qual, f.node, s))

    def modified(self, st0, outs, base):
        """cells / heap fields / variables of base changed on some path"""
        mods = {}
        for o in outs:
            for c, v in base.cells.items():
                if c in ('frozen', 'kept'):
                    continue
                if c == 'uninit':
                    if o.st.cells.get(c) != v:
                        raise Unsupported('field set to None in a loop')
                    continue
                w = o.st.cells.get(c)
                if not self.same_cell(st0.cells[c], w) and not (c == 'alloc' and w is not None and w.eq(st0.cells[c])):
                    mods[('cell', c)] = v
            if 'uninit' in o.st.cells and 'uninit' not in base.cells:
                raise Unsupported('field set to None in a loop')
            if 'alloc' in o.st.cells and 'alloc' not in base.cells:
                mods[('cell', 'alloc')] = None
            for h, e in o.st.heap.items():
                b = st0.heap[h] if h in st0.heap else self.heap0(h)
                if not e.eq(b):
                    mods[('heap', h)] = b
            for fid, f in base.frames.items():
                of = o.st.frames.get(fid, {})
                for name, v in of.items():
                    bv = st0.frames[fid].get(name)
                    if not self.same_val(bv, v):
                        mods[('var', fid, name)] = v
        return mods

    def same_val(self, a, b):
        if a is b:
            return True
        if a is None or b is None:
            return False
        if type(a) is not type(b):
            return False
        if isinstance(a, SV):
            return a.t == b.t and a.e.eq(b.e)
        if isinstance(a, HostV):
            return a.t is not None and a.t == b.t and a.e.eq(b.e)
        if isinstance(a, Loc):
            return same_place(a.place, b.place)
        if isinstance(a, TupV):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (ClassV, FuncV, ExtV, ModV, EnumV, OpaqueV, ParamsV)):
            return getattr(a, 'key', getattr(a, 'name', getattr(a, 'qual', None))) == getattr(b, 'key', getattr(b, 'name', getattr(b, 'qual', None))) and not isinstance(a, FuncV)
        if isinstance(a, Poison):
            return True
        return False

    def run_loop_body(self, s, it):
        self.bind_target(s.target, it.elem)
        self.loop_done = getattr(self, 'loop_done', []) + [it.vars[0] if len(it.vars) == 1 else None]
        try:
            self.exec_block(s.body)
        finally:
            self.loop_done = self.loop_done[:-1]

    def nf_facts(self, t, e):
        """normal form of a value: entries outside the domain are default; list lengths are non-negative"""
        out = []
        if isinstance(t, TDict):
            k = z3.FreshConst(t.k.sort(), 'nk')
            out.append(z3.ForAll([k], z3.Or(sel(t.dom(e), k), sel(t.val(e), k) == default(t.v)), patterns=[sel(t.val(e), k)]))
            if t.v.mutable:
                for f in self.nf_facts(t.v, sel(t.val(e), k)):
                    out.append(z3.ForAll([k], f))
        if isinstance(t, TList):
            out.append(t.len(e) >= 0)
            if t.t.mutable:
                k = z3.FreshConst(z3.IntSort(), 'ni')
                for f in self.nf_facts(t.t, sel(t.arr(e), k)):
                    out.append(z3.ForAll([k], f))
        if isinstance(t, TSeq):
            out.append(t.tl.len(e) >= 0)
        if isinstance(t, TRec):
            for k, ft in t.fields.items():
                out.append(Or(t.has(e, k), t.get(e, k) == default(ft)))
                if ft.mutable or isinstance(ft, TSeq):
                    out += self.nf_facts(ft, t.get(e, k))
        return out

    def stable_leaves(self, mods, pre, outs, base):
        """{modkey: [leaf paths no iteration changes]} for locations of which other parts change"""
        r = {}
        for m, p in pre.items():
            if p is None or p[0] is None or m[0] not in ('cell', 'heap'):
                continue
            t, P = p[:2]
            if isinstance(t, TList) and m[0] == 'cell' and not all(self.same_len(t, P, o.st.cells[m[1]][1]) for o in outs):
                continue
            lv = leaves(t)
            if len(lv) < 2:
                continue
            st = []
            for path, ixt, bt in lv:
                hx = z3.FreshConst(REF, 'hx')
                idx = [z3.FreshConst(x.sort(), 'ix') for x in ixt]

                def get(e):
                    return z3.simplify(leaf_get(t, path, sel(e, hx) if m[0] == 'heap' else e, idx))
                B = get(P)
                fs = [get(o.st.heap[m[1]] if m[0] == 'heap' else o.st.cells[m[1]][1]) for o in outs]
                if all(f.eq(B) or B.num_args() and self.same_entry(f, B) for f in fs):
                    st.append(path)
            if st and len(st) < len(lv):
                r[m] = st
        return r

    def same_entry(self, f, B):
        """an entry rewritten with its own value"""
        if not (z3.is_app(f) and f.decl().kind() == z3.Z3_OP_ITE):
            return False
        return self.prove([], f == B)

    def mixed(self, m, t, e0, c, stable):
        """value with the stable leaves of e0 and the other leaves of c"""
        def fn(path, idx, a, b):
            return leaf_get(t, path, a if path in stable else b, idx)
        if m[0] == 'heap':
            r = z3.FreshConst(REF, 'hr')
            return lam(r, build(t, lambda path, idx: fn(path, idx, sel(e0, r), sel(c, r))))
        return build(t, lambda path, idx: fn(path, idx, e0, c))

    def havoc_state(self, base, mods, tag, mix={}):
        """copy of base with the modified parts replaced by fresh constants -> (state, {modkey: (type, const)}, facts)"""
        st = base.copy()
        pre, facts = {}, []
        for m in mods:
            if m[0] == 'cell':
                if m[1] == 'alloc':
                    c = self.fresh(z3.ArraySort(REF, z3.BoolSort()), 'alloc')
                    st.cells['alloc'] = c
                    pre[m] = (None, c)
                    continue
                t, e = base.cells[m[1]]
                if e is None:
                    raise Unsupported('untyped container modified in a loop')
                c = self.fresh(t.sort(), tag + 'c')
                st.cells[m[1]] = (t, self.mixed(m, t, e, c, mix[m]) if m in mix else c)
                facts += self.nf_facts(t, c)
                pre[m] = (t, c, st.cells[m[1]][1])
            elif m[0] == 'heap':
                t = self.w.schema[m[1][0]][m[1][1]]
                c = self.fresh(z3.ArraySort(REF, t.sort()), tag + 'h')
                st.heap[m[1]] = self.mixed(m, t, mods[m], c, mix[m]) if m in mix else c
                pre[m] = (t, c, st.heap[m[1]])
            else:
                _, fid, name = m
                bv = base.frames[fid].get(name)
                ty = self.var_types.get(m)
                if bv is None or ty is None:
                    st.frames[fid][name] = Poison('variable %s at loop entry' % name)
                    pre[m] = None
                    continue
                c = self.fresh(ty.sort(), tag + '_' + name)
                if isinstance(ty, TSeq) or ty.mutable:
                    facts += self.nf_facts(ty, c)
                st.frames[fid][name] = (self.bind_own if ty.mutable else self.lift_in)(st, ty, c)
                pre[m] = (ty, c)
        return st, pre, facts

    def lift_in(self, st, t, e):
        cur = self.st
        self.st = st
        try:
            return self.lift(t, e)
        finally:
            self.st = cur

    def replay_key(self, s, base):
        """identifies this execution of a loop among the replays of the paths through the function"""
        if getattr(self, 'in_loop', 0) or self.deckeys[1:]:
            return None
        n = self.dec.loopc = getattr(self.dec, 'loopc', 0) + 1
        return id(s), n, tuple(self.dec.taken), len(base.cells), len(base.frames), len(base.pc)

    def known_mods(self, rkey, base):
        """the modified locations found when a path with the same beginning was explored; cells and frames are
        numbered anew on every path, in the same order"""
        if not hasattr(self, 'replays'):
            self.replays = {}
        if rkey is None or rkey not in self.replays:
            return None
        cells, frames = sorted(c for c in base.cells if isinstance(c, int)), sorted(base.frames)
        keys, types = self.replays[rkey][1]
        mods = {}
        self.var_types = getattr(self, 'var_types', {})
        for m in keys:
            if m[0] == 'cell':
                c = m[1] if isinstance(m[1], str) else cells[m[1][0]]
                if c != 'alloc' and base.cells[c][1] is None:
                    return None
                mods[('cell', c)] = base.cells.get(c)
            elif m[0] == 'heap':
                mods[m] = base.heap[m[1]] if m[1] in base.heap else self.heap0(m[1])
            else:
                mods[('var', frames[m[1]], m[2])] = base.frames[frames[m[1]]].get(m[2])
        for (f, name), t in types.items():
            self.var_types[('var', frames[f], name)] = t
        return mods

    def remember_mods(self, rkey, s, base, mods):
        if rkey is None:
            return
        cells, frames = sorted(c for c in base.cells if isinstance(c, int)), sorted(base.frames)
        keys, types = [], {}
        for m in mods:
            if m[0] == 'cell':
                if isinstance(m[1], str):
                    keys.append(m)
                elif m[1] in base.cells:
                    keys.append(('cell', (cells.index(m[1]),)))
            elif m[0] == 'heap':
                keys.append(m)
            elif m[1] in base.frames:
                keys.append(('var', frames.index(m[1]), m[2]))
                if self.var_types.get(m) is not None:
                    types[(frames.index(m[1]), m[2])] = self.var_types[m]
        self.replays[rkey] = (s, (keys, types))

    def seed_mods(self, s, base):
        """what an earlier pass over this loop found to be modified, as far as it exists in this state"""
        mods = {}
        for m in self.seeds.get(id(s), ()):
            if m[0] == 'cell':
                if m[1] == 'alloc' and m[1] not in base.cells:
                    mods[m] = None
                elif m[1] in base.cells and (m[1] == 'alloc' or base.cells[m[1]][1] is not None):
                    mods[m] = base.cells[m[1]]
            elif m[0] == 'heap':
                mods[m] = base.heap[m[1]] if m[1] in base.heap else self.heap0(m[1])
            elif m[1] in base.frames and base.frames[m[1]].get(m[2]) is not None and self.var_types.get(m) is not None:
                mods[m] = base.frames[m[1]][m[2]]
        return mods

    def discover(self, s, it, base, body):
        """fixpoint of the set of modified locations; returns (mods, outs, pre, st0)"""
        if not hasattr(self, 'seeds'):
            self.seeds, self.keep_nodes = {}, []
        self.keep_nodes.append(s)
        seeded = {}
        if getattr(self, 'in_loop', 0):
            self.var_types = getattr(self, 'var_types', {})
            seeded = self.seed_mods(s, base)
        mods = dict(seeded)
        self.var_types = getattr(self, 'var_types', {})
        vt_saved = dict(self.var_types)
        self.in_loop = getattr(self, 'in_loop', 0) + 1
        try:
            mix = {}
            for rnd in range(10):
                omark = len(self.obls)
                self.salt = getattr(self, 'salt', 0) + 1
                mark = len(self.freshlog)
                st0, pre, facts = self.havoc_state(base, mods, 'pre', mix)
                cur = self.st
                self.st = st0
                try:
                    outs = self.explore(body, facts + ([it.guard] if it is not None else []))
                finally:
                    self.st = cur
                m2 = self.modified(st0, outs, base)
                # types of modified variables
                changed = False
                for m, v in m2.items():
                    if m[0] == 'var':
                        bv = base.frames[m[1]].get(m[2])
                        if bv is None:
                            continue
                        if isinstance(v, Poison):
                            continue
                        ty = self.var_type(bv, [o.st.frames[m[1]].get(m[2]) for o in outs], st0.frames[m[1]].get(m[2]), base)
                        if ty != self.var_types.get(m):
                            self.var_types[m] = ty
                            changed = True
                new = {k: v for k, v in m2.items() if k not in mods}
                if seeded and any(k not in m2 for k in seeded):
                    seeded, mods = {}, {}           # not modified here: start again
                    del self.obls[omark:]
                    continue
                if not new and not changed:
                    self.seeds[id(s)] = list(mods)
                    if not mix and it is not None and outs:
                        mix = self.stable_leaves(mods, pre, outs, base)
                        if mix:
                            del self.obls[omark:]
                            continue
                    return mods, outs, pre, st0, mark
                del self.obls[omark:]
                mods.update(new)
            raise Unsupported('loop: modified set does not stabilise')
        finally:
            self.in_loop -= 1

    def sole(self, st, loc):
        """is the container held by one variable only"""
        n = 0
        for f in st.frames.values():
            for v in f.values():
                if isinstance(v, Loc):
                    p = v.place
                    while p[0] in ('elem', 'opt'):
                        p = p[1].place
                    n += p == loc.place
                elif isinstance(v, (TupV, RecV, Source, BoundV)):
                    return False
        return n == 1

    def var_type(self, bv, vals, pv=None, base=None):
        try:
            ts = []
            if isinstance(bv, Loc) and all(isinstance(v, Loc) for v in vals) and base is not None and (bv.place[0] == 'ro' or bv.place[0] == 'cell' and self.sole(base, bv)):
                # a variable rebound to containers the iteration makes itself
                own = lambda v: isinstance(pv, Loc) and v.place == pv.place or v.place[0] == 'cell' and v.place[1] not in base.cells
                if all(own(v) for v in vals):
                    ts = [v.t for v in vals if not isinstance(v.t, TUnk)]
                    if ts and all(t == ts[0] for t in ts):
                        if isinstance(bv.t, TUnk):
                            self.resolve(bv.t, ts[0])
                        return ts[0] if bv.t == ts[0] else None
                return None
            for v in [bv] + vals:
                if v is None or isinstance(v, Poison):
                    return None
                if v is NONE:
                    ts.append(None)
                elif isinstance(v, SV):
                    ts.append(v.t)
                elif isinstance(v, TupV):
                    ts.append(self.vtype(v))
                else:
                    return None
            return self.join_type(ts)
        except Unsupported:
            return None

    def bind_own(self, st, t, e):
        cur = self.st
        self.st = st
        try:
            return self.lift_own(t, e)
        finally:
            self.st = cur

    def loop_inv(self, s, it, inv):
        """classical treatment with a user-supplied inductive invariant"""
        self.stats['loops_inv'] += 1
        base = self.st
        isfor = it is not None
        if isfor and not it.vars:
            raise Unsupported('invariant for a loop over a literal sequence')
        if isfor and it.ordered is None:
            it_sorts = [v.sort() for v in it.vars]
            many = len(it.vars) > 1

            def doneset():
                return self.fresh(z3.ArraySort(*it_sorts, z3.BoolSort()), 'done')

            def isdone(d, ys):
                return z3.Select(d, *ys) if many else sel(d, ys[0])

            def empty():
                if not many:
                    return z3.K(it_sorts[0], FALSE)
                ys = [z3.FreshConst(t, 'y') for t in it_sorts]
                return z3.Lambda(ys, FALSE)

            def mark_done(d, xs):
                return z3.Store(d, *xs, TRUE)
        for name, v in list(self.frame().items()):
            if isinstance(v, Source) and v.concrete is None and v.ordered is not None and not v.one_shot and len(v.vars) == 1 and v.loc is None:
                l = self.as_loc(v)          # a range kept in a variable
                self.frame()[name] = Loc(l.t, ('ro', l.place[1]))

        def body_disc():
            if isfor:
                self.run_loop_body(s, it)
            else:
                if not self.test(self.eval(s.test)):
                    raise PathDead()
                self.exec_block(s.body)
        omark = len(self.obls)
        nested = getattr(self, 'only_mods', 0)      # an enclosing loop with invariant only wants to know what this one modifies
        self.only_mods = nested + 1
        try:
            rkey = self.replay_key(s, base)
            mods = self.known_mods(rkey, base)
            if mods is None:
                mods = self.discover(s, it, base, body_disc)[0]
                self.remember_mods(rkey, s, base, mods)
        finally:
            self.only_mods = nested
        del self.obls[omark:]
        entry = base.copy()
        fid = self.ctx[-1]['fid']
        if isfor:
            if it.ordered is not None:
                done0 = z3.IntVal(0)
            else:
                done0 = empty()
        else:
            done0 = None
        # entry
        self.seg = getattr(self, 'seg', 0)
        for name, c in inv.clauses(LoopView(self, entry, base, fid, it, done0)):
            self.oblige('loop invariant holds on entry: ' + name, c, 'inv')
        st, pre, facts = self.havoc_state(base, mods, 'inv')
        # keep variables: unify poisons
        self.st.cells, self.st.heap, self.st.frames = st.cells, st.heap, st.frames
        for f in facts:
            self.assume(f)
        if isfor:
            if it.ordered is not None:
                d = self.fresh(z3.IntSort(), 'done')
                self.assume(z3.And(d >= 0, d <= it.ordered))
            else:
                d = doneset()
                ys = [z3.FreshConst(t, 'y') for t in it_sorts]
                g = z3.substitute(it.guard, *zip(it.vars, ys))
                self.assume(z3.ForAll(ys, z3.Implies(isdone(d, ys), g), patterns=[isdone(d, ys)]))
        else:
            d = None
        cur = self.st.copy()
        for name, c in inv.clauses(LoopView(self, entry, cur, fid, it, d)):
            self.assume(c)
        for c in (inv.unfold(LoopView(self, entry, cur, fid, it, d)) if inv.unfold else []):
            self.assume(c)          # trigger terms of definitional axioms
        if isfor:
            if it.ordered is not None:
                opts = [(d < it.ordered, []), (d == it.ordered, [])]
            else:
                ys = [z3.FreshConst(t, 'y') for t in it_sorts]
                g = z3.substitute(it.guard, *zip(it.vars, ys))
                more = z3.Exists(ys, z3.And(g, z3.Not(isdone(d, ys))))
                x = [self.fresh(t, 'cur') for t in it_sorts]
                opts = [(more, [z3.substitute(it.guard, *zip(it.vars, x)), z3.Not(isdone(d, x))]),
                        (z3.ForAll(ys, isdone(d, ys) == g, patterns=[isdone(d, ys)]), [])]
            if nested:
                opts = opts[1:]
            k = self.choose(opts)
            if k == 0 and not nested:
                elem = self.subst_val(it.elem, [(it.vars[0], d)] if it.ordered is not None else list(zip(it.vars, x)))
                self.bind_target(s.target, elem)
                self.loop_done = getattr(self, 'loop_done', []) + [d]
                try:
                    self.exec_block(s.body)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
                finally:
                    self.loop_done = self.loop_done[:-1]
                d2 = d + 1 if it.ordered is not None else mark_done(d, x)
                for name, c in inv.clauses(LoopView(self, entry, self.st, fid, it, d2)):
                    self.oblige('loop invariant is preserved: ' + name, c, 'inv')
                raise PathDead()
            self.exec_block(s.orelse)
            return
        # while
        if self.test(self.eval(s.test)):
            if inv.variant is not None:
                v0 = inv.variant(LoopView(self, entry, self.st.copy(), fid, it, d))
            try:
                self.exec_block(s.body)
            except ContinueEx:
                pass
            except BreakEx:
                return
            for name, c in inv.clauses(LoopView(self, entry, self.st, fid, it, d)):
                self.oblige('loop invariant is preserved: ' + name, c, 'inv')
            if inv.variant is not None:
                v1 = inv.variant(LoopView(self, entry, self.st, fid, it, d))
                self.oblige('loop variant decreases', z3.And(v1 < v0, v0 >= 0), 'inv')
            raise PathDead()
        self.exec_block(s.orelse)

    def s_While(self, s):
        inv = self.find_inv(s)
        if inv is None:
            raise Unsupported('while loop without invariant')
        self.loop_inv(s, None, inv)

    # ------------------------------------------------------------ automatic exact summaries
    def auto_for(self, s, it):
        self.stats['loops_auto'] += 1
        base = self.st
        mods, outs, pre, st0, mark = self.discover(s, it, base, lambda: self.run_loop_body(s, it))
        if it.one_shot:
            pass
        outs = [o for o in outs if not (o.kind == 'raise' and self.prove(list(base.pc) + [it.guard], Not(o.cond())))]
        cont = [o for o in outs if o.kind in ('normal', 'continue')]
        exits = [o for o in outs if o.kind in ('break', 'return', 'raise')]
        if any(o.nondet for o in outs) and len(outs) > 1:
            if self.w_debug:
                for o in outs:
                    print('OUT', o.kind, o.val, o.nondet, [z3.simplify(c) for c in o.conds])
            raise Unsupported('non-deterministic choice inside a loop body')
        # closedness
        prec = [p[1] for p in pre.values() if p is not None]
        okc = set(c.get_id() for c in prec) | set(v.get_id() for v in it.vars)
        made = set(c.get_id() for c in self.freshlog[mark:]) - okc

        def check_closed(e, what):
            for c in syms.free_consts([e]):
                if c.get_id() in made:
                    raise Unsupported('%s depends on a value chosen inside the loop body' % what)
            return e
        # iteration must not change what it iterates over
        same_keys = None
        if it.loc is not None:
            p = it.loc.place
            root = p
            while root[0] in ('elem', 'opt'):
                root = root[1].place
            key = ('cell', root[1]) if root[0] in ('cell', 'ro') else ('heap', root[1])
            if key in pre and pre[key] is not None:
                self.iter_unchanged(it, st0, outs, base)
                if key[0] == 'cell' and it.loc.place is root and isinstance(it.loc.t, TDict):
                    same_keys = key
        preids = {c.get_id(): k for k, c in ((k, p[1]) for k, p in pre.items() if p is not None)}
        for o in outs:
            for c in o.conds:
                check_closed(c, 'control flow')
        stable = self.stable_reads(cont + exits, pre, base, it, preids)

        def stab(e):
            return z3.substitute(e, *stable) if stable else e
        # merged final values
        facts = list(base.pc) + [it.guard]
        for k, p in pre.items():
            if p is not None and p[0] is not None and k[0] in ('cell', 'var'):
                facts += self.nf_facts(p[0], p[1])
        self.loop_facts = facts
        self.base_pc = base.pc
        summ = {}       # modkey -> function(prefix guard fn) -> term
        order = []
        pend = []
        for k, p in pre.items():
            if p is None:
                continue
            pend.append(k)

        def finals(k):
            r = []
            for o in cont:
                if k[0] == 'cell':
                    e = o.st.cells[k[1]] if k[1] == 'alloc' else o.st.cells[k[1]][1]
                elif k[0] == 'heap':
                    e = o.st.heap[k[1]]
                else:
                    v = o.st.frames[k[1]].get(k[2])
                    cur = self.st
                    self.st = o.st
                    try:
                        e = self.term(v, p_type(k))
                    finally:
                        self.st = cur
                r.append((stab(o.cond()), stab(e)))
            return r

        def p_type(k):
            return pre[k][0]

        def basev(k):
            if k[0] == 'cell':
                return base.cells[k[1]] if k[1] == 'alloc' else base.cells[k[1]][1]
            if k[0] == 'heap':
                return base.heap[k[1]] if k[1] in base.heap else self.heap0(k[1])
            return self.term(base.frames[k[1]][k[2]], pre[k][0])
        if any(k == ('cell', 'alloc') for k in pend):
            raise Unsupported('object creation inside a loop')
        failed = {}
        self.named = {}
        if cont:
            progress = True
            while pend and progress:
                progress = False
                for k in list(pend):
                    try:
                        self.same_keys = same_keys
                        f = self.summarize(k, pre, finals(k), basev(k), it, summ, check_closed, preids)
                    except Unsupported as u:
                        failed[k] = str(u)
                        continue
                    summ[k] = f
                    pend.remove(k)
                    progress = True
        else:
            for k in list(pend):
                summ[k] = (lambda k: (lambda prefix: basev(k)))(k)
                pend.remove(k)
        bad = []
        for k in pend:
            if k[0] == 'var':
                continue
            raise Unsupported('loop effect on %s not summarised: %s' % (k[0], failed.get(k)))
        # a poisoned variable must not influence anything summarised
        badc = set(pre[k][1].get_id() for k in pend)

        def check_bad(e):
            if badc:
                for c in syms.free_consts([e]):
                    if c.get_id() in badc:
                        raise Unsupported('depends on variable %s carried between iterations' % preids[c.get_id()][2])
            return e
        full = lambda vs: TRUE
        # exits
        exits = [o for o in exits if not self.exit_impossible(o, stab, it, base, pre, summ, pend, preids)]
        if exits:
            return self.finish_exits(s, it, base, pre, summ, pend, cont, exits, check_bad, preids, mods)
        for o in cont:
            for c in o.conds:
                check_bad(c) if any(True for _ in ()) else None
        for k in self.named:
            if k in summ and self.in_loop == 0:
                e = self.name_index(k, pre, it, basev(k))
                summ[k] = (lambda e: (lambda prefix: e))(e)
        self.apply_summary(base, summ, pend, pre, full, mods)
        self.exec_block(s.orelse)

    def stable_reads(self, outs, pre, base, it, preids):
        """reads of a heap field at an object no iteration writes: equal to the value before the loop"""
        subs = []
        yv = [z3.FreshConst(v.sort(), 'y') for v in it.vars]
        ren = list(zip(it.vars, yv))
        for k, p in pre.items():
            if p is None or k[0] != 'heap':
                continue
            P = p[1]
            idx, ok = [], True
            for o in outs:
                e = o.st.heap.get(k[1])
                while e is not None and not e.eq(P) and not (len(p) > 2 and e.eq(p[2])):
                    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE:
                        idx.append(e.arg(1))
                        e = e.arg(0)
                    else:
                        ok = False
                        break
            if not ok or any(c.get_id() in preids for i in idx for c in syms.free_consts([i])):
                continue
            es = []
            for o in outs:
                es += list(o.conds) + list(o.st.heap.values()) + [c[1] for c in o.st.cells.values() if isinstance(c, tuple) and len(c) == 2 and z3.is_expr(c[1])]
            seen = set()
            touched = set(i.get_id() for i in idx)
            for r in self.reads_of(es, P):
                j = r.arg(1)
                if j.get_id() in seen or j.get_id() in touched or any(c.get_id() in preids for c in syms.free_consts([j])):
                    continue
                seen.add(j.get_id())
                g = And(*[Not(j == z3.substitute(i, *ren)) for i in idx])
                if self.prove(list(base.pc) + [it.guard, z3.substitute(it.guard, *ren)], g):
                    b = base.heap[k[1]] if k[1] in base.heap else self.heap0(k[1])
                    subs.append((r, sel(b, j)))
        return subs

    def reads_of(self, es, arr):
        """ground select terms on arr"""
        out, seen, st = [], set(), list(es)
        while st:
            f = st.pop()
            if f.get_id() in seen:
                continue
            seen.add(f.get_id())
            if z3.is_quantifier(f):
                st.append(f.body())
                continue
            if z3.is_app(f):
                if f.decl().kind() == z3.Z3_OP_SELECT and f.arg(0).eq(arr) and not self.has_var(f.arg(1)):
                    out.append(f)
                st.extend(f.children())
        return out

    def has_var(self, e):
        st = [e]
        while st:
            f = st.pop()
            if z3.is_var(f) or z3.is_quantifier(f):
                return True
            st.extend(f.children())
        return False

    def exit_impossible(self, o, stab, it, base, pre, summ, pend, preids):
        """unordered iteration: the exit cannot be taken after any set of other iterations"""
        c = stab(o.cond())
        used = [preids[x.get_id()] for x in syms.free_consts([c]) if x.get_id() in preids]
        if not used:
            return self.prove(list(base.pc) + [it.guard], Not(c))
        if it.ordered is not None or any(k not in summ for k in used):
            return False
        xs = it.vars
        D = z3.FreshConst(z3.ArraySort(*[x.sort() for x in xs], z3.BoolSort()), 'done')
        ys = [z3.FreshConst(x.sort(), 'y') for x in xs]
        at = (lambda vs: sel(D, vs[0])) if len(xs) == 1 else (lambda vs: z3.Select(D, *vs))
        facts = list(base.pc) + [it.guard, z3.ForAll(ys, z3.Implies(at(ys), z3.substitute(it.guard, *zip(xs, ys)))), z3.Not(at(xs))]
        c2 = z3.substitute(c, *[(pre[k][1], summ[k](at)) for k in set(used)])
        return self.prove(facts, Not(c2))

    def only_of(self, v, xs):
        """the value is made of the given constants alone"""
        if isinstance(v, TupV):
            return all(self.only_of(x, xs) for x in v.items)
        ids = {x.get_id() for x in xs}
        return isinstance(v, SV) and all(c.get_id() in ids for c in syms.free_consts([v.e]))

    def iter_unchanged(self, it, st0, outs, base):
        cur = self.st
        try:
            for o in outs:
                self.st = st0.copy()
                a = self.read(it.loc)
                self.st = o.st
                b = self.read(it.loc)
                if a.eq(b):
                    continue
                hyp = []
                if isinstance(it.loc.t, TDict):
                    k = z3.FreshConst(it.loc.t.k.sort(), 'k')
                    g = sel(it.loc.t.dom(a), k) == sel(it.loc.t.dom(b), k)
                    # by induction over the iterations: the keys were still those before the loop
                    self.st = base
                    h = sel(it.loc.t.dom(a), k) == sel(it.loc.t.dom(self.read(it.loc)), k)
                    hyp = [h, z3.ForAll([k], h)]
                    if len(it.vars) == 1 and it.vars[0].sort() == k.sort() and self.prove([], sel(it.loc.t.dom(self.read(it.loc)), it.vars[0]) == it.guard):
                        hyp += [sel(it.loc.t.dom(a), it.vars[0])]
                elif isinstance(it.loc.t, TSet):
                    k = z3.FreshConst(it.loc.t.t.sort(), 'k')
                    g = sel(a, k) == sel(b, k)
                else:
                    g = a == b
                if not self.prove(list(o.st.pc) + hyp, g):
                    if self.w_debug:
                        print('ITER', z3.simplify(g), '\nGUARD', it.guard, '\nHYP', hyp[:1])
                    raise Unsupported('container changed while iterated over')
                if not isinstance(it.loc.t, TDict):
                    continue
                # values may change: elements read from it must not be used
                if it.elem is not None and isinstance(it.elem, TupV) and not self.only_of(it.elem, it.vars):
                    raise Unsupported('dictionary values changed while iterated over')
        finally:
            self.st = cur

    def summarize(self, k, pre, fin, basee, it, summ, check_closed, preids):
        """function prefix -> closed term for the value of location k after the iterations selected by prefix"""
        if k[0] == 'heap':
            t = pre[k][0]

            class _HT(T):
                pass
            lv = [((('h',) + p), (TRef('x'),) + ix, b) for p, ix, b in leaves(t)]
        else:
            t = pre[k][0]
            lv = leaves(t)
        P = pre[k][1]
        Pm = pre[k][2] if len(pre[k]) > 2 else P        # unchanged parts show the value before the loop

        def lget(path, e, idx):
            if k[0] == 'heap':
                return leaf_get(t, path[1:], sel(e, idx[0]), idx[1:])
            return leaf_get(t, path, e, idx)
        # list append pattern
        if isinstance(t, TList) and k[0] in ('cell', 'var') and not all(self.same_len(t, Pm, e) for _, e in fin):
            return self.summ_list(k, t, Pm, fin, basee, it, summ, check_closed, pre, preids)
        if isinstance(t, TList) and k[0] == 'heap':
            f = self.summ_heap_list(k, t, Pm, fin, basee, it, summ, check_closed, pre, preids)
            if f is not None:
                return f
        if isinstance(t, TDict) and isinstance(t.v, TList) and k[0] in ('cell', 'var') and len(it.vars) == 1:
            f = self.summ_groups(k, t, Pm, fin, basee, it, summ, check_closed, pre, preids)
            if f is not None:
                return f
        leaf_fns = {}
        try:
            for path, ixt, bt in lv:
                if k == self.same_keys and path == ('dom',):
                    leaf_fns[path] = lambda prefix, ix: lget(('dom',), basee, ix)
                    continue
                idx = [z3.FreshConst(x.sort(), 'ix') for x in ixt]
                es = [(c, z3.simplify(lget(path, e, idx))) for c, e in fin]
                B = z3.simplify(lget(path, Pm, idx))
                L = es[-1][1]
                for c, e in reversed(es[:-1]):
                    L = e if e.eq(L) else z3.If(c, e, L)
                L = z3.simplify(L)
                check_closed(L, 'a loop effect')
                leaf_fns[path] = self.leaf_summary(k, path, idx, bt, L, B, P, pre, it, summ, preids,
                                                   lambda idx2, path=path: lget(path, basee, idx2), leaf_fns, lget, fin)
        except Unsupported as u:
            try:
                leaf_fns = self.disjoint_touch(k, lv, fin, Pm, basee, it, summ, pre, preids, check_closed, lget)
            except Unsupported as u2:
                raise Unsupported('%s; %s' % (u, u2))

        def value(prefix):
            def fn(path, idx):
                return leaf_fns[path](prefix, list(idx))
            if k[0] == 'heap':
                r = z3.FreshConst(REF, 'hr')
                return lam(r, build(t, lambda path, idx: fn(('h',) + path, (r,) + tuple(idx))))
            return build(t, fn)
        return value

    def same_len(self, t, P, e):
        return z3.simplify(t.len(e)).eq(z3.simplify(t.len(P)))

    def selects_of(self, e, arr):
        out, seen, st = [], set(), [e]
        while st:
            f = st.pop()
            if f.get_id() in seen:
                continue
            seen.add(f.get_id())
            if z3.is_app(f):
                if f.decl().kind() == z3.Z3_OP_SELECT and f.arg(0).eq(arr):
                    out.append(f)
                st.extend(f.children())
        return out

    def disjoint_touch(self, k, lv, fin, P, basee, it, summ, pre, preids, check_closed, lget):
        """every index is touched by at most one iteration: the final value is that iteration's update of the entry value"""
        groups = {}
        for path, ixt, bt in lv:
            groups.setdefault(tuple(x.sort().sexpr() for x in ixt), []).append((path, ixt, bt))
        fns = {}
        for ix, paths in groups.items():
            idx = [z3.FreshConst(x.sort(), 'ix') for x in paths[0][1]]
            rows = []
            T = FALSE
            for path, ixt, bt in paths:
                es = [(c, z3.simplify(lget(path, e, idx))) for c, e in fin]
                B = z3.simplify(lget(path, P, idx))
                L = es[-1][1]
                for c, e in reversed(es[:-1]):
                    L = e if e.eq(L) else z3.If(c, e, L)
                L = z3.simplify(L)
                check_closed(L, 'a loop effect')
                if k == self.same_keys and path == ('dom',):
                    L = B
                tch, _ = self.split_overwrite(L, B)
                rows.append((path, L, B))
                T = Or(T, tch)
            T = z3.simplify(T)
            T = self.subst_known(T, it, pre, summ, preids, own=k)
            if any(preids.get(c.get_id()) == k for c in syms.free_consts([T])):
                raise Unsupported('which entries are touched depends on the contents')
            xv = it.vars
            yv = [z3.FreshConst(v.sort(), 'y') for v in xv]
            sub = list(zip(xv, yv))
            if not z3.is_false(T):
                if not self.prove(list(self.loop_facts) + [T, z3.substitute(it.guard, *sub), z3.substitute(T, *sub)],
                                  And(*[a == b for a, b in sub])):
                    raise Unsupported('an entry may be touched by several iterations')
            for path, L, B in rows:
                if L.eq(B):
                    fns[path] = (lambda path: (lambda prefix, ixs: lget(path, basee, ixs)))(path)
                    continue
                L2 = self.subst_known(L, it, pre, summ, preids, own=k)
                ph = [(b, z3.FreshConst(b.sort(), 'bv'), q) for q, _, b in rows]
                # reads at an index known to be the touched one
                for _, _, b in rows:
                    if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_SELECT:
                        for r in self.selects_of(L2, b.arg(0)):
                            if not r.eq(b) and self.prove(list(self.loop_facts) + [T], r.arg(1) == b.arg(1)):
                                L2 = z3.substitute(L2, (r, b))
                L2 = z3.substitute(L2, *[(b, c) for b, c, q in ph])
                if any(preids.get(c.get_id()) == k for c in syms.free_consts([L2])):
                    raise Unsupported('an update reads other entries')

                def f(prefix, ixs, path=path, L2=L2, ph=ph):
                    si = list(zip(idx, ixs))
                    zs = [z3.FreshConst(v.sort(), 'z') for v in xv]
                    sz = list(zip(xv, zs))
                    g = z3.simplify(And(z3.substitute(it.guard, *sz), prefix(zs), z3.substitute(T, *(sz + si))))
                    ch = []
                    cur = g
                    for n, zv in enumerate(zs):
                        c = syms.CHOOSE(zv, Exists(zs[n + 1:], cur) if zs[n + 1:] else cur)
                        ch.append(c)
                        cur = z3.substitute(cur, (zv, c))
                    val = z3.substitute(L2, *[(c, lget(q, basee, ixs)) for b, c, q in ph])
                    val = z3.substitute(val, *(list(zip(xv, ch)) + si))
                    if k == self.same_keys and self.prove(list(self.base_pc) + [Not(Exists(zs, g))], val == lget(path, basee, ixs)):
                        return z3.simplify(val)
                    return z3.simplify(z3.If(Exists(zs, g), val, lget(path, basee, ixs)))
                fns[path] = f
        return fns

    def subst_known(self, e, it, pre, summ, preids, own=None):
        """replace pre-iteration constants of already summarised locations (ordered loops) by their prefix value"""
        fc = [c for c in syms.free_consts([e]) if c.get_id() in preids]
        sub = []
        for c in fc:
            k = preids[c.get_id()]
            if own is not None and k == own:
                continue
            if k in summ and it.ordered is not None:
                i = it.vars[0]
                sub.append((c, summ[k](lambda vs, i=i: vs[0] < i)))
            else:
                raise Unsupported('depends on another location changed by the loop (%s)' % (k,))
        return self.prune_ites(z3.simplify(z3.substitute(e, *sub)), it.guard) if sub else e

    def prune_ites(self, e, guard):
        """without case distinctions that linear arithmetic decides during an iteration"""
        conds, seen, st = [], set(), [e]
        while st:
            f = st.pop()
            if f.get_id() in seen or not z3.is_app(f):
                continue
            seen.add(f.get_id())
            if f.decl().kind() == z3.Z3_OP_ITE and z3.is_int(f) and f.arg(0).decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_NOT):
                conds.append(f)
            st.extend(f.children())
        sub = []
        for c in conds:
            for v in (c.arg(1), c.arg(2)):
                q = z3.Solver()
                q.set('timeout', 200)
                q.add(guard, c != v)
                if q.check() == z3.unsat:
                    sub.append((c, v))
                    break
        if not sub:
            return e
        r = z3.simplify(z3.substitute(e, *sub))
        return r if r.eq(e) else self.prune_ites(r, guard)

    def any_prefix(self, e, it, summ, preids):
        """the condition in terms of the values before the loop, if it is the same whatever has been iterated over already"""
        pf = z3.Function('pfx!%d' % self.fresh_salt(), *([v.sort() for v in it.vars] + [z3.BoolSort()]))
        sub = []
        for c in syms.free_consts([e]):
            if c.get_id() in preids:
                if preids[c.get_id()] not in summ:
                    if __import__('os').environ.get('PYVC_DEBUG'):
                        print('EXIT', e, preids[c.get_id()], list(summ))
                    raise Unsupported('loop exit depends on what earlier iterations did (unordered)')
                sub.append((c, summ[preids[c.get_id()]](lambda vs: pf(*vs))))
        r = z3.simplify(z3.substitute(e, *sub))
        r = z3.simplify(syms.orient(r))
        st, seen = [r], set()
        while st:
            f = st.pop()
            if f.get_id() in seen:
                continue
            seen.add(f.get_id())
            if z3.is_quantifier(f):
                st.append(f.body())
            elif z3.is_app(f):
                if f.decl().eq(pf):
                    raise Unsupported('loop exit depends on what earlier iterations did (unordered)')
                st.extend(f.children())
        return r

    def leaf_summary(self, k, path, idx, bt, L, B, P, pre, it, summ, preids, basef, done, lget, fin):
        if L.eq(B) or path and path[-1] == 'len' and self.same_entry(L, B):
            return lambda prefix, ix: basef(ix)
        ids = [x for x in idx]
        xv = it.vars
        facts = self.loop_facts
        if (path == ('val',) and k[0] == 'cell' or path == ('h', 'val') and k[0] == 'heap') and it.ordered is not None and len(xv) == 1 and isinstance(pre[k][0], TDict):
            L = self.index_template(k, idx, L, B, P, pre, it, fin, lget)
        L = self.subst_known(L, it, pre, summ, preids, own=k)
        dflt_pre = self.default_pre(k, pre)

        def inst(e, ix):
            return z3.substitute(e, *list(zip(ids, ix))) if ids else e

        def has_pre(e):
            return any(c.get_id() in preids for c in syms.free_consts([e]))
        if k[0] == 'cell' and path in (('val',), ('dom',)) and getattr(pre[k][0], 'counter', False):
            f = self.drain(k, path, ids, L, B, P, pre, it, fin, lget, basef, has_pre)
            if f is not None:
                return f
        if bt in (TInt, TReal):
            d = z3.simplify(L - B)
            d0 = z3.simplify(z3.substitute(L, (P, dflt_pre)) - z3.substitute(B, (P, dflt_pre))) if has_pre(d) else d
            def counting():
                # a counter without negative entries that only grows
                return k[0] == 'cell' and path == ('val',) and getattr(pre[k][0], 'counter', False) and self.prove(facts + [B >= 0], And(L >= 0, L == B + d0)) and self.prove(list(self.base_pc), basef(idx) >= 0)
            if not has_pre(d0) and (d0.eq(d) or self.prove(facts, L == B + d0) or counting()):
                if z3.is_app(d0) and d0.decl().kind() == z3.Z3_OP_ITE and k[0] == 'cell' and getattr(pre[k][0], 'counter', False):
                    # an entry that is skipped when nothing is to be added
                    for x in (1, 2):
                        if z3.is_int_value(d0.arg(x)) and d0.arg(x).as_long() == 0 and self.prove(facts, d0.arg(3 - x) == d0):
                            d0 = d0.arg(3 - x)
                            break
                def f(prefix, ix):
                    nv = [z3.FreshConst(v.sort(), 's') for v in xv]
                    sub = list(zip(xv, nv)) + list(zip(ids, ix))
                    zero = z3.RealVal(0) if bt == TReal else z3.IntVal(0)
                    body = z3.If(And(z3.substitute(it.guard, *sub), prefix(nv)), z3.substitute(d0, *sub), zero)
                    for v in reversed(nv):
                        body = syms.SUM(v, body)
                    return z3.simplify(basef(ix) + body)
                return f
        if bt == TBool:
            e0 = z3.simplify(z3.substitute(L, (P, dflt_pre)))
            if not has_pre(e0) and self.prove(facts, L == z3.Or(B, e0)):
                def f(prefix, ix):
                    nv = [z3.FreshConst(v.sort(), 's') for v in xv]
                    sub = list(zip(xv, nv)) + list(zip(ids, ix))
                    return z3.simplify(Or(basef(ix), Exists(nv, And(z3.substitute(it.guard, *sub), prefix(nv), z3.substitute(e0, *sub)))))
                return f
            full = self.full_pre(k, pre, path)
            if full is not None:
                e1 = z3.simplify(z3.substitute(L, (P, full)))
                if not has_pre(e1) and self.prove(facts, L == z3.And(B, e1)):
                    def f(prefix, ix):
                        nv = [z3.FreshConst(v.sort(), 's') for v in xv]
                        sub = list(zip(xv, nv)) + list(zip(ids, ix))
                        return z3.simplify(And(basef(ix), ForAll(nv, z3.Implies(And(z3.substitute(it.guard, *sub), prefix(nv)), z3.substitute(e1, *sub)))))
                    return f
            # support template: dom[k] <-> val[k] != 0
            if path and path[-1] == 'dom' and k[0] in ('cell', 'var'):
                vp = path[:-1] + ('val',)
                if vp in done or True:
                    r = self.support_template(k, path, vp, ids, L, B, P, pre, it, fin, basef, lget, done, summ, preids)
                    if r is not None:
                        return r
        # overwrite
        tch, e = self.split_overwrite(L, B)
        if not has_pre(tch) and not has_pre(e):
            if len(xv) == 1 and it.ordered is not None:
                i = xv[0]

                def f(prefix, ix):
                    j = z3.FreshConst(z3.IntSort(), 'j')
                    sub = [(i, j)] + list(zip(ids, ix))
                    g = z3.simplify(And(z3.substitute(it.guard, *sub), prefix([j]), z3.substitute(tch, *sub)))
                    if z3.is_true(z3.simplify(tch)) and not has_prefix(prefix):
                        last = it.ordered - 1
                        return z3.If(it.ordered > 0, z3.substitute(e, (i, last), *list(zip(ids, ix))), basef(ix))
                    if z3.is_true(z3.simplify(tch)) and getattr(prefix, 'bound', None) is not None:
                        last = prefix.bound - 1
                        return z3.If(prefix.bound > 0, z3.substitute(e, (i, last), *list(zip(ids, ix))), basef(ix))
                    last = syms.MAXV(j, g, j)
                    return z3.If(Exists([j], g), z3.substitute(e, (i, last), *list(zip(ids, ix))), basef(ix))

                def has_prefix(prefix):
                    return not z3.is_true(prefix([z3.IntVal(0)])) or getattr(prefix, 'bound', None) is not None
                return f
            if len(xv) == 1:
                y = z3.FreshConst(xv[0].sort(), 'y')
                g2, t2, e2 = [z3.substitute(q, (xv[0], y)) for q in (it.guard, tch, e)]
                if self.prove(list(facts) + [tch, g2, t2], e == e2):
                    def f(prefix, ix):
                        z = z3.FreshConst(xv[0].sort(), 'z')
                        sub = [(xv[0], z)] + list(zip(ids, ix))
                        g = z3.simplify(And(z3.substitute(it.guard, *sub), prefix([z]), z3.substitute(tch, *sub)))
                        if not occurs(xv[0], e):
                            return z3.If(Exists([z], g), inst(e, ix), basef(ix))
                        ch = syms.CHOOSE(z, g)
                        return z3.If(Exists([z], g), z3.substitute(e, (xv[0], ch), *list(zip(ids, ix))), basef(ix))
                    return f
                if it.ordered is None and self.in_loop == 0 and len(self.deckeys) <= 1:
                    # several iterations may write the entry: the last one does, whichever that is (any order of iteration)
                    salt = z3.IntVal(self.fresh_salt())

                    def f(prefix, ix):
                        z = z3.FreshConst(xv[0].sort(), 'z')
                        sub = [(xv[0], z)] + list(zip(ids, ix))
                        g = z3.simplify(And(z3.substitute(it.guard, *sub), prefix([z]), z3.substitute(tch, *sub)))
                        ch = syms.CHOOSE(z, g, salt)
                        return z3.If(Exists([z], g), z3.substitute(e, (xv[0], ch), *list(zip(ids, ix))), basef(ix))
                    return f
        if self.w_debug: print('LEAF', path, bt, 'L', L, 'B', B, 'facts', facts, 'pre', preids)
        raise Unsupported('effect on leaf %s is not an accumulation' % (path,))

    def fresh_salt(self):
        self.nsalt = getattr(self, 'nsalt', 0) + 1
        return self.nsalt

    def index_template(self, k, idx, L, B, P, pre, it, fin, lget):
        """d[x_i] = f(len(d)) in iteration i, the x_i being new and different keys: len(d) is the initial size plus i"""
        t = pre[k][0]
        tch, _ = self.split_overwrite(L, B)
        tch = z3.simplify(tch)
        h = k[0] == 'heap'
        if h:
            r0 = syms.fixed_by(idx[0], tch)
            if r0 is None:
                return L
            at = lambda m: sel(m, r0)
        else:
            at = lambda m: m
        ki = idx[-1]
        card = syms.CARD(t.k, t.dom(at(P)))
        if not occurs(card, L):
            return L
        q = syms.fixed_by(ki, tch)
        if q is None:
            return L
        dp = ('h', 'dom') if h else ('dom',)
        D = lget(dp, fin[-1][1], idx)
        for c, e in reversed(fin[:-1]):
            D = z3.If(c, lget(dp, e, idx), D)
        if not self.prove(self.loop_facts, D == z3.Or(lget(dp, P, idx), And(ki == q, idx[0] == r0 if h else TRUE))):
            return L
        i, j = it.vars[0], z3.FreshConst(z3.IntSort(), 'j')
        base = at((self.st.heap[k[1]] if k[1] in self.st.heap else self.heap0(k[1])) if h else self.st.cells[k[1]][1])
        new = Not(sel(t.dom(base), q))
        inj = z3.Implies(z3.substitute(it.guard, (i, j)), Or(i == j, Not(q == z3.substitute(q, (i, j)))))
        if not (self.prove(list(self.st.pc) + [it.guard], new) and self.prove(list(self.st.pc) + [it.guard], inj)):
            return L
        L2 = z3.simplify(z3.substitute(L, (card, syms.CARD(t.k, t.dom(base)) + i)))
        kx = z3.FreshConst(t.k.sort(), 'k')
        if self.in_loop == 0 and self.prove(list(self.st.pc), Not(sel(t.dom(base), kx))):
            # the value in iteration i as a function of i, and the key: the final dictionary can be described by its inverse
            v = self.split_overwrite(L2, B)[1]
            if not any(occurs(z, v) for z in idx):
                self.named[k] = (r0 if h else None, q, v)
        return L2

    def name_index(self, k, pre, it, basee):
        """fresh dictionary characterised by: entry of key_i is v_i, and every key is some key_i with v_i as value"""
        r0, q, v = self.named[k]
        t = pre[k][0]
        i = it.vars[0]
        c = self.fresh(t.sort(), 'index')
        j, kx = z3.FreshConst(z3.IntSort(), 'j'), z3.FreshConst(t.k.sort(), 'k')
        g, qj, vj = [z3.substitute(e, (i, j)) for e in (it.guard, q, v)]
        inv = z3.Function('at!' + c.decl().name(), t.k.sort(), z3.IntSort())
        # values equal to the position need no inverse function
        same = self.prove([], vj == j)
        pos = sel(t.val(c), kx) if same else inv(kx)
        gk, qk, vk = [z3.substitute(e, (i, pos)) for e in (it.guard, q, v)]
        pats = [qj] if z3.is_app(qj) and qj.num_args() else []
        self.assume(z3.ForAll([j], z3.Implies(g, And(sel(t.dom(c), qj), sel(t.val(c), qj) == vj)), patterns=pats))
        self.assume(z3.ForAll([kx], z3.Implies(sel(t.dom(c), kx), And(gk, qk == kx, sel(t.val(c), kx) == vk)), patterns=[sel(t.dom(c), kx)]))
        for f in self.nf_facts(t, c):
            self.assume(f)
        self.assume(syms.CARD(t.k, t.dom(c)) == it.ordered)
        return c if r0 is None else z3.Store(basee, r0, c)

    def base_under(self, c, B):
        """B where an index of it is known to equal something"""
        ix = {}
        e = B
        while z3.is_app(e) and e.num_args():
            if e.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(e.arg(1)):
                ix[e.arg(1).get_id()] = e.arg(1)
            e = e.arg(0)
        sub = []
        for g in syms.conj(c):
            if z3.is_eq(g):
                for x, y in ((g.arg(0), g.arg(1)), (g.arg(1), g.arg(0))):
                    if x.get_id() in ix and not occurs(x, y):
                        sub.append((x, y))
                        break
        return z3.substitute(B, *sub) if sub else B

    def split_overwrite(self, L, B):
        """L as (touched, value) with L == If(touched, value, B)"""
        if L.eq(B):
            return FALSE, L
        if z3.is_app(L) and L.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = L.children()
            ta, ea = self.split_overwrite(a, self.base_under(c, B))
            tb, eb = self.split_overwrite(b, B)
            if z3.is_false(ta) and z3.is_false(tb):
                return FALSE, L
            if z3.is_false(ta):
                return z3.simplify(And(Not(c), tb)), eb
            if z3.is_false(tb):
                return z3.simplify(And(c, ta)), ea
            return z3.simplify(z3.If(c, ta, tb)), (ea if ea.eq(eb) else z3.If(c, ea, eb))
        if L.sort() == z3.BoolSort() and z3.is_app(L):
            # boolean structure around B
            lt = z3.simplify(z3.substitute(L, (B, TRUE)))
            lf = z3.simplify(z3.substitute(L, (B, FALSE)))
            return z3.simplify(lt == lf), lt
        return TRUE, L

    def default_pre(self, k, pre):
        t = pre[k][0]
        if k[0] == 'heap':
            return z3.K(REF, default(t))
        return default(t)

    def full_pre(self, k, pre, path):
        t = pre[k][0]
        if path and path[-1] not in ('in', 'dom') and path != () and not (path[-1] in ('val', 'arr')):
            return None

        def fn(p, idx):
            if p == (path[1:] if k[0] == 'heap' else path):
                return TRUE
            return leaf_get(t, p, default(t), idx)
        try:
            v = build(t, fn)
        except Exception:
            return None
        return z3.K(REF, v) if k[0] == 'heap' else v

    def drain(self, k, path, ids, L, B, P, pre, it, fin, lget, basef, has_pre):
        """a counter with no negative entries from which every iteration takes what does not depend on earlier ones, dropping entries that are not positive"""
        if path == ('val',):
            LV, BV = L, B
        else:
            LV, BV = z3.simplify(lget(('val',), fin[-1][1], ids)), lget(('val',), P, ids)
            for c, e in reversed(fin[:-1]):
                LV = z3.If(c, z3.simplify(lget(('val',), e, ids)), LV)
        if not (z3.is_app(LV) and LV.decl().kind() == z3.Z3_OP_ITE):
            return None
        zero = [x for x in (1, 2) if z3.is_int_value(LV.arg(x)) and LV.arg(x).as_long() == 0]
        if not zero:
            return None
        c = z3.simplify(BV - LV.arg(3 - zero[0]))
        if has_pre(c) or z3.is_int_value(c):
            return None
        rest = z3.If(BV - c > 0, BV - c, z3.IntVal(0))
        facts = list(self.loop_facts)
        if not (self.prove(facts, c >= 0) and self.prove(facts, LV == rest)):
            return None
        base = lambda ix: self.base_leaf(k, ('val',), ix, pre, lget)
        if not self.prove(list(self.base_pc), base(ids) >= 0):
            return None
        if path == ('dom',) and not self.prove(facts, L == (BV - c > 0)):
            return None
        xv = it.vars

        def taken(prefix, ix):
            nv = [z3.FreshConst(v.sort(), 's') for v in xv]
            sub = list(zip(xv, nv)) + list(zip(ids, ix))
            body = z3.If(And(z3.substitute(it.guard, *sub), prefix(nv)), z3.substitute(c, *sub), z3.IntVal(0))
            for v in reversed(nv):
                body = syms.SUM(v, body)
            return z3.simplify(base(ix) - body)

        def f(prefix, ix):
            n = taken(prefix, ix)
            if path == ('val',):
                return z3.If(n > 0, n, z3.IntVal(0))
            nv = [z3.FreshConst(v.sort(), 's') for v in xv]
            some = Exists(nv, And(z3.substitute(it.guard, *list(zip(xv, nv))), prefix(nv)))
            return z3.If(some, n > 0, basef(ix))
        return f

    def support_template(self, k, path, vp, ids, L, B, P, pre, it, fin, basef, lget, done, summ, preids):
        # value leaf must be a base leaf directly under this dictionary
        cand = [p for p in [vp] if any(q == vp for q, _, _ in leaves(pre[k][0]))]
        if not cand:
            return None
        es = [(c, z3.simplify(lget(vp, e, ids))) for c, e in fin]
        LV = es[-1][1]
        for c, e in reversed(es[:-1]):
            LV = e if e.eq(LV) else z3.If(c, e, LV)
        q = [z3.FreshConst(i.sort(), 'q') for i in ids]
        sup = z3.ForAll(q, lget(path, P, q) == (lget(vp, P, q) != 0))
        q2 = [z3.FreshConst(i.sort(), 'q') for i in ids]
        base_ok = self.prove(self.st.pc, basef(q2) == (self.base_leaf(k, vp, q2, pre, lget) != 0))
        if not base_ok:
            return None
        if not self.prove(list(self.loop_facts) + [sup], L == (LV != 0)):
            return None

        def f(prefix, ix):
            if vp not in done:
                raise Unsupported('support template before values')
            return done[vp](prefix, ix) != 0
        return f

    def base_leaf(self, k, vp, ix, pre, lget):
        if k[0] == 'cell':
            return lget(vp, self.st.cells[k[1]][1], ix)
        return lget(vp, self.term(self.st.frames[k[1]][k[2]], pre[k][0]), ix)

    def unappend(self, t, P, e):
        """elements appended to P to obtain e, or None"""
        out = []
        for _ in range(6):
            if e.eq(P):
                return list(reversed(out))
            if z3.is_app(e) and e.decl().eq(t.dt().constructor(0)):
                n, a = z3.simplify(e.arg(0)), e.arg(1)
                if n.eq(z3.simplify(t.len(P))) and a.eq(t.arr(P)):
                    return list(reversed(out))
                if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE and z3.simplify(a.arg(1)).eq(z3.simplify(n - 1)):
                    out.append(a.arg(2))
                    n2 = z3.simplify(n - 1)
                    if a.arg(0).eq(t.arr(P)) and n2.eq(z3.simplify(t.len(P))):
                        return list(reversed(out))
                    e = t.mk(n2, a.arg(0))
                    continue
            return None
        return None

    def summ_list(self, k, t, P, fin, basee, it, summ, check_closed, pre, preids):
        rows = []
        for c, e in fin:
            a = self.unappend(t, P, e)
            if a is None or len(a) > 1:
                raise Unsupported('list effect is not a single append')
            rows.append((c, a))
        kept = [(c, a[0]) for c, a in rows if a]
        if not kept:
            return lambda prefix: basee
        for c, e in kept:
            check_closed(e, 'an appended element')
        always = len(kept) == len(rows)
        E = kept[-1][1]
        for c, e in reversed(kept[:-1]):
            E = e if e.eq(E) else z3.If(c, e, E)
        G = TRUE if always else Or(*[c for c, _ in kept])
        E = self.subst_known(z3.simplify(E), it, pre, summ, preids)
        G = self.subst_known(z3.simplify(G), it, pre, summ, preids)
        if len(it.vars) != 1:
            raise Unsupported('list built by a nested iteration')
        x = it.vars[0]
        n0, a0 = t.len(basee), t.arr(basee)

        def f(prefix):
            j = z3.FreshConst(z3.IntSort(), 'j')
            if it.ordered is not None and z3.is_true(G):
                n = it.ordered if not hasattr(prefix, 'bound') else prefix.bound
                if not hasattr(prefix, 'bound') and not z3.is_true(prefix([x])):
                    raise Unsupported('list prefix')
                return t.mk(z3.simplify(n0 + n), lam(j, z3.simplify(z3.If(j < n0, sel(a0, j), z3.substitute(E, (x, j - n0))))))
            y = z3.FreshConst(x.sort(), 'y')
            g = z3.simplify(And(z3.substitute(And(it.guard, G), (x, y)), prefix([y])))
            cnt = syms.SUM(y, z3.If(g, z3.IntVal(1), z3.IntVal(0)))
            if it.ordered is not None or getattr(it, 'filter_of', None):
                fs = syms.define('fsel', [y], [g, cnt], z3.ArraySort(z3.IntSort(), z3.IntSort()))
            else:
                fs = syms.define('enum', [y], [g, cnt], z3.ArraySort(z3.IntSort(), y.sort()))
            return t.mk(z3.simplify(n0 + cnt), lam(j, z3.simplify(z3.If(j < n0, sel(a0, j), z3.substitute(E, (x, sel(fs, j - n0)))))))
        return f

    def summ_heap_list(self, k, t, P, fin, basee, it, summ, check_closed, pre, preids):
        """appends to the list of one object, which is the same in all iterations"""
        ref, rows = None, []
        P = z3.simplify(P)
        for c, e in fin:
            e = z3.simplify(e)
            new = None
            while z3.is_app(e) and e.decl().kind() == z3.Z3_OP_STORE and not e.eq(P):
                if ref is None:
                    ref = e.arg(1)
                if not ref.eq(e.arg(1)):
                    return None
                new = e.arg(2) if new is None else new
                e = e.arg(0)
            if not e.eq(P):
                return None
            rows.append((c, new))
        if ref is None or any(c.get_id() in preids or any(c.eq(v) for v in it.vars) for c in syms.free_consts([ref])):
            return None
        check_closed(ref, 'an object')
        cur = z3.simplify(sel(P, ref))
        f = self.summ_list(k, t, cur, [(c, cur if e is None else e) for c, e in rows], z3.simplify(sel(basee, ref)), it, summ, check_closed, pre, preids)
        return lambda prefix: z3.Store(basee, ref, f(prefix))

    def summ_groups(self, k, t, P, fin, basee, it, summ, check_closed, pre, preids):
        """d[key].append(x): every list collects, in order, the elements of the iterations with its key"""
        tl = t.v
        rows = []
        key = None
        empty = default(tl)
        for c, e in fin:
            dom, val = z3.simplify(t.dom(e)), z3.simplify(t.val(e))
            dom0, val0 = z3.simplify(t.dom(P)), z3.simplify(t.val(P))
            if dom.eq(dom0) and val.eq(val0):
                continue
            q = lst = None
            while z3.is_app(val) and val.decl().kind() == z3.Z3_OP_STORE and not val.eq(val0):
                if q is None:
                    q, lst = val.arg(1), val.arg(2)
                elif not q.eq(val.arg(1)):
                    return None
                val = val.arg(0)
            if q is None or not val.eq(val0):
                return None
            if key is None:
                key = q
            elif not key.eq(q):
                return None
            while z3.is_app(dom) and dom.decl().kind() == z3.Z3_OP_STORE and not dom.eq(dom0):
                if not dom.arg(1).eq(q) or not z3.is_true(dom.arg(2)):
                    return None
                dom = dom.arg(0)
            if not dom.eq(dom0):
                return None
            if z3.simplify(t.dom(e)).eq(dom0) and not self.prove(list(self.loop_facts) + [c], sel(t.dom(P), q)):
                return None
            a = self.unappend(tl, z3.simplify(sel(t.val(P), q)), lst)
            if a is None:
                if not self.prove(list(self.loop_facts) + [c], Not(sel(t.dom(P), q))):
                    return None
                a = self.unappend(tl, z3.simplify(empty), lst)
            if a is None or len(a) > 1:
                return None
            rows.append((c, a))
        if key is None:
            return None
        check_closed(key, 'a key')
        for _, a in rows:
            for x in a:
                check_closed(x, 'an appended element')

        def cut(cs):
            return self.subst_known(z3.simplify(Or(*cs)), it, pre, summ, preids)
        key = self.subst_known(key, it, pre, summ, preids)
        T = cut([c for c, _ in rows])
        G = cut([c for c, a in rows if a]) if any(a for _, a in rows) else FALSE
        T, G = [TRUE if not z3.is_true(c) and self.prove(list(self.loop_facts), c) else c for c in (T, G)]
        es = [(c, a[0]) for c, a in rows if a]
        E = None
        if es:
            E = es[-1][1]
            for c, e in reversed(es[:-1]):
                E = e if e.eq(E) else z3.If(c, e, E)
            E = self.subst_known(z3.simplify(E), it, pre, summ, preids)
        x = it.vars[0]
        ordered = it.ordered is not None or getattr(it, 'filter_of', None)

        def f(prefix):
            kx, j = z3.FreshConst(t.k.sort(), 'k'), z3.FreshConst(z3.IntSort(), 'j')
            y = z3.FreshConst(x.sort(), 'y')
            inst = lambda e: z3.substitute(e, (x, y))
            pf = And(inst(it.guard), prefix([y]))
            base = sel(t.val(basee), kx)
            n0, a0 = z3.simplify(tl.len(base)), tl.arr(base)
            dom = Or(sel(t.dom(basee), kx), Exists([y], z3.simplify(And(pf, inst(T), inst(key) == kx))))
            if E is None:
                return t.mk(lam(kx, z3.simplify(dom)), t.val(basee))
            if not occurs(x, key) and z3.is_true(G) and it.ordered is not None and (hasattr(prefix, 'bound') or z3.is_true(prefix([x]))):
                # one key for all iterations
                n = getattr(prefix, 'bound', it.ordered)
                el = z3.substitute(E, (x, j - n0))
            else:
                g = z3.simplify(And(pf, inst(G), inst(key) == kx))
                n = syms.SUM(y, z3.If(g, z3.IntVal(1), z3.IntVal(0)))
                fs = syms.define('fsel' if ordered else 'enum', [y], [g, n], z3.ArraySort(z3.IntSort(), y.sort()))
                el = z3.substitute(E, (x, sel(fs, j - n0)))
            in_new = And(j >= n0, j < n0 + n)
            arr = lam(j, z3.simplify(z3.If(in_new, el, sel(a0, j))))
            new = tl.mk(z3.simplify(n0 + n), arr)
            if not occurs(x, key):
                base0, new = z3.substitute(base, (kx, key)), z3.simplify(z3.substitute(new, (kx, key)))
                return t.mk(lam(kx, z3.simplify(dom)), lam(kx, z3.If(kx == key, new, base)))
            return t.mk(lam(kx, z3.simplify(dom)), lam(kx, new))
        return f

    def apply_summary(self, base, summ, pend, pre, prefix, mods):
        """update base in place"""
        for k, f in summ.items():
            e = f(prefix)
            if k[0] == 'cell':
                base.cells[k[1]] = (base.cells[k[1]][0], e)
            elif k[0] == 'heap':
                base.heap[k[1]] = e
            else:
                cur = self.st
                base.frames[k[1]][k[2]] = self.bind_own(base, pre[k][0], e)
        for m in mods:
            if m[0] == 'var' and (m not in summ):
                base.frames[m[1]][m[2]] = Poison('variable %s after a loop' % m[2])

    def finish_exits(self, s, it, base, pre, summ, pend, cont, exits, check_bad, preids, mods):
        ordered = it.ordered is not None
        xs = it.vars

        def known(e):
            check_bad(e)
            if any(c.get_id() in preids for c in syms.free_consts([e])):
                if not ordered:
                    return self.any_prefix(e, it, summ, preids)
                return self.subst_known(e, it, pre, summ, preids)
            return e
        conds = [z3.simplify(known(o.cond())) for o in exits]
        anyexit = z3.simplify(Or(*conds))
        # options
        complete = ForAll(xs, z3.Implies(it.guard, Not(anyexit)))
        # group exits with the same outcome and no effect
        same = all(o.kind == exits[0].kind for o in exits) and self.simple_outcomes(exits, st0_mods=pre, base=base, xs=xs)
        if same and not pre_nonvar(pre, summ):
            groups = [(anyexit, exits[0])]
        else:
            groups = list(zip(conds, exits))
        opts = [(complete, [])]
        subs = []
        for c, o in groups:
            if ordered:
                i = xs[0]
                j = z3.FreshConst(z3.IntSort(), 'j')
                g = z3.simplify(And(it.guard, c, ForAll([j], z3.Implies(z3.And(j >= 0, j < i), Not(z3.substitute(anyexit, (i, j)))))))
                x0 = self.fresh(z3.IntSort(), 'exit')
                # some iteration exits iff there is a first one that does
                opts.append((Exists([i], And(it.guard, c) if c.eq(anyexit) else g), [z3.substitute(g, (i, x0))]))
                pf = (lambda b: (lambda vs: vs[0] < b))(x0)
                pf.bound = x0
                subs.append(([(i, x0)], pf))
            else:
                nv = [self.fresh(v.sort(), 'exit') for v in xs]
                sub = list(zip(xs, nv))
                f = [z3.substitute(it.guard, *sub), z3.substitute(c, *sub)]
                pf = None
                if pre_nonvar(pre, summ):
                    if len(xs) != 1:
                        raise Unsupported('early exit of a nested iteration')
                    D = self.fresh(z3.ArraySort(xs[0].sort(), z3.BoolSort()), 'done')
                    y = z3.FreshConst(xs[0].sort(), 'y')
                    f.append(z3.ForAll([y], z3.Implies(sel(D, y), And(z3.substitute(it.guard, (xs[0], y)), Not(z3.substitute(anyexit, (xs[0], y)))))))
                    f.append(z3.Not(sel(D, nv[0])))
                    pf = (lambda D: (lambda vs: sel(D, vs[0])))(D)
                opts.append((Exists(xs, And(it.guard, c)), f))
                subs.append((sub, pf))
        k = self.choose(opts, nondet=(not ordered and len(groups) > 1))
        if k == 0:
            self.apply_summary(base, summ, pend, pre, lambda vs: TRUE, mods)
            self.exec_block(s.orelse)
            return
        c, o = groups[k - 1]
        sub, pf = subs[k - 1]
        # state at the exit: effects of the exit path on top of the prefix summary
        full = list(sub)
        for m, p in pre.items():
            if p is None or m in pend:
                continue
            full.append((p[1], summ[m](pf) if pf is not None else self.base_of(m, base, pre)))
        st = o.st
        new = base
        for cid, v in st.cells.items():
            if cid in ('frozen', 'uninit', 'kept'):
                new.cells[cid] = v
            elif cid == 'alloc':
                new.cells[cid] = z3.substitute(v, *full)
            else:
                t, e = v
                new.cells[cid] = (t, z3.substitute(e, *full) if e is not None else None)
        for h, e in st.heap.items():
            new.heap[h] = z3.substitute(e, *full)
        cur = self.st
        self.st = new
        try:
            badc = [pre[m][1] for m in pend]
            for fid in list(new.frames):
                if fid in st.frames:
                    fr = {}
                    for name, v in st.frames[fid].items():
                        try:
                            w = self.subst_val(v, full)
                            if isinstance(w, SV) and any(occurs(b, w.e) for b in badc):
                                w = Poison('variable %s after a loop' % name)
                        except Unsupported:
                            w = Poison('variable %s after a loop' % name)
                        fr[name] = w
                    new.frames[fid] = fr
            val = None
            if o.kind == 'return':
                val = self.subst_val(o.val, full)
        finally:
            self.st = cur
        if o.kind == 'return':
            raise ReturnEx(val)
        if o.kind == 'raise':
            raise PyRaise(o.val)
        return      # break

    def base_of(self, m, base, pre):
        if m[0] == 'cell':
            return base.cells[m[1]][1] if m[1] != 'alloc' else base.cells['alloc']
        if m[0] == 'heap':
            return base.heap[m[1]] if m[1] in base.heap else self.heap0(m[1])
        return self.term(base.frames[m[1]][m[2]], pre[m][0])

    def simple_outcomes(self, exits, st0_mods, base, xs):
        """all exits have the same constant outcome"""
        v0 = exits[0].val
        for o in exits:
            if o.kind == 'return':
                if v0 is NONE and o.val is NONE:
                    continue
                if isinstance(v0, SV) and isinstance(o.val, SV) and v0.t == o.val.t and v0.e.eq(o.val.e) and not syms.free_consts([v0.e]):
                    continue
                return False
            if o.kind == 'raise' and o.val != v0:
                return False
            if o.kind == 'break':
                # equal states required: only if nothing was modified before the break
                for fid, f in base.frames.items():
                    for name, v in o.st.frames.get(fid, {}).items():
                        w = exits[0].st.frames[fid].get(name)
                        if not self.same_val(v, w):
                            return False
                return len(exits) == 1 or not st0_mods
        return True


def pre_nonvar(pre, summ):
    return any(k in summ for k in pre)
