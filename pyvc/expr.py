"""Expressions, calls, classes and builtin models."""
import ast
import z3
from . import src, syms
from .types import *
from .core import *

NOTHING = TU('Nothing')      # element type of a set display with only None

EXT_MODULES_OK = {'copy', 'collections', 'itertools', 'math', 'time', 'random', 'sys', 'datetime', 'typing'}


def has_quant(e):
    seen, st = set(), [e]
    while st:
        f = st.pop()
        if f.get_id() in seen:
            continue
        seen.add(f.get_id())
        if z3.is_quantifier(f):
            return True
        st.extend(f.children())
    return False


class ExprMixin:
    # ------------------------------------------------------------ names
    def frame(self):
        return self.st.frames[self.ctx[-1]['fid']]

    def lookup(self, name):
        c = self.ctx[-1]
        f = self.st.frames[c['fid']]
        if name in f:
            return f[name]
        for fid in reversed(c['closure']):
            if fid in self.st.frames and name in self.st.frames[fid]:
                return self.st.frames[fid][name]
        v = self.resolve_global(c['mod'], name)
        if v is not None:
            return v
        return ExtV('builtins.' + name)

    def resolve_global(self, mod, name, depth=0):
        if depth > 12:
            return None
        if name not in mod.defs:
            return None
        d = mod.defs[name]
        if isinstance(d, ast.FunctionDef):
            return FuncV(d, mod)
        if isinstance(d, ast.ClassDef):
            return ClassV(mod, name, d)
        if d[0] == 'import':
            return self.import_name(d[1], d[2], depth)
        if d[0] == 'value':
            return self.eval_static(mod, d[1], None)
        return None

    def import_name(self, base, attr, depth=0):
        m = src.module(base) if base.split('.')[0] in ('pm4py', 'ghost') else None
        if m is None:
            return ExtV(base + ('.' + attr if attr else ''))
        if attr is None:
            return ModV(m)
        v = self.resolve_global(m, attr, depth + 1)
        if v is not None:
            return v
        sm = src.module(base + '.' + attr)
        if sm is not None:
            return ModV(sm)
        return ExtV(base + '.' + attr)

    def eval_static(self, mod, node, cls):
        """module- or class-level constant"""
        fid = self.push_frame(mod, cls, ())
        try:
            return self.eval(node)
        finally:
            self.ctx.pop()
            del self.st.frames[fid]

    def push_frame(self, mod, cls, closure):
        self.nfresh += 1
        fid = self.nfresh
        self.st.frames[fid] = {}
        self.ctx.append({'mod': mod, 'cls': cls, 'fid': fid, 'closure': tuple(closure)})
        return fid

    def class_by_key(self, key):
        m, q = key.split(':')
        mod = src.module(m)
        if mod is None:
            raise Unsupported('module %s not found' % m)
        node = None
        for i, part in enumerate(q.split('.')):
            node = mod.defs.get(part) if i == 0 else src.find_in_class(node, part)
            if not isinstance(node, ast.ClassDef):
                raise Unsupported('class %s not found' % key)
        return ClassV(mod, q, node)

    def func_by_key(self, key):
        m, q = key.split(':')
        mod = src.module(m)
        if mod is None:
            raise Unsupported('module %s not found' % m)
        parts = q.split('.')
        if len(parts) == 1:
            n = mod.defs.get(parts[0])
            if isinstance(n, tuple) and n[0] == 'import':
                v = self.resolve_global(mod, parts[0])
                if isinstance(v, FuncV):
                    return v
            if not isinstance(n, ast.FunctionDef):
                raise Unsupported('function %s not found' % key)
            return FuncV(n, mod)
        c = self.class_by_key(m + ':' + '.'.join(parts[:-1]))
        r = self.mro_lookup(c, parts[-1])
        if r is None or not isinstance(r[0], ast.FunctionDef):
            raise Unsupported('method %s not found' % key)
        return FuncV(r[0], r[1].mod, r[1].qual)

    def bases(self, c):
        out = []
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            v = None
            # nested class names resolve in module or through attribute access
            try:
                v = self.static_class_expr(c.mod, b)
            except Unsupported:
                v = None
            out.append(v)
        return out

    def static_class_expr(self, mod, b):
        if isinstance(b, ast.Name):
            return self.resolve_global(mod, b.id)
        if isinstance(b, ast.Attribute):
            o = self.static_class_expr(mod, b.value)
            if isinstance(o, ModV):
                return self.resolve_global(o.mod, b.attr)
            if isinstance(o, ClassV):
                r = self.mro_lookup(o, b.attr)
                if r is not None and isinstance(r[0], ast.ClassDef):
                    return ClassV(r[1].mod, r[1].qual + '.' + b.attr, r[0])
            if isinstance(o, ExtV):
                return ExtV(o.name + '.' + b.attr)
        return None

    def mro(self, c, seen=None):
        """approximate MRO: depth-first, left to right, last duplicate kept (C3-like for the classes here)"""
        out = [c]
        for b in self.bases(c):
            if isinstance(b, ClassV):
                out += self.mro(b)
        res = []
        for i, x in enumerate(out):
            if not any(y.key == x.key for y in out[i + 1:]):
                res.append(x)
        return res

    def mro_lookup(self, c, name):
        for k in self.mro(c):
            n = src.find_in_class(k.node, name)
            if n is None:
                pre = '_' + k.qual.split('.')[-1].lstrip('_') + '__'
                if name.startswith(pre):
                    n = src.find_in_class(k.node, name[len(pre) - 2:])     # private names are stored mangled
            if n is not None:
                return n, k
        return None

    def is_enum(self, c):
        return any(isinstance(b, ExtV) and b.name.split('.')[-1] in ('Enum', 'IntEnum') for k in self.mro(c) for b in self.bases(k)) or \
            any(isinstance(b, ast.Name) and b.id == 'Enum' for b in c.node.bases)

    def is_mapping(self, v):
        return any(isinstance(b, ExtV) and b.name.split('.')[-1] in ('Mapping', 'MutableMapping')
                   for k in self.mro(self.class_by_key(v.t.classes[0])) for b in self.bases(k))

    def mangle(self, name):
        cls = self.ctx[-1]['cls']
        if cls and name.startswith('__') and not name.endswith('__'):
            return '_' + cls.split('.')[-1].lstrip('_') + name
        return name

    def isinst(self, v, c):
        """z3 Bool: v is an instance of class value c"""
        if isinstance(c, TupV):
            return Or(*[self.isinst(v, x) for x in c.items])
        if isinstance(v, SV) and isinstance(v.t, TOpt):
            return And(Not(v.t.is_none(v.e)), self.isinst(SV(v.t.t, v.t.val(v.e)), c))
        if isinstance(v, SV) and (v.t.name, 'isinstance') in self.w.models:
            return self.w.models[(v.t.name, 'isinstance')](self, v, c)
        if isinstance(v, SV) and isinstance(v.t, TRef):
            if isinstance(c, ExtV):
                return FALSE if c.name.split('.')[-1] in ('dict', 'list', 'str', 'int', 'float', 'set', 'tuple', 'Enum', 'DataFrame') else self._uns('isinstance of ' + c.name)
            res = []
            yes = True
            maybe = False
            for k in v.t.classes:
                kc = self.class_by_key(k)
                if any(x.key == c.key for x in self.mro(kc)):
                    maybe = True
                else:
                    yes = False
                    if any(x.key == k for x in self.mro(c)):
                        maybe = True
            if not maybe:
                return FALSE
            if yes:
                return TRUE
            return self.isinst_pred(c.key, v.e)
        if isinstance(v, EnumV):
            if isinstance(c, ExtV):
                return z3.BoolVal(c.name.split('.')[-1] == 'Enum')
            return z3.BoolVal(isinstance(c, ClassV) and c.key == v.cls.key)
        if isinstance(c, ClassV):
            if isinstance(v, Loc) and isinstance(v.t, TDict) and v.t.cls:
                return z3.BoolVal(any(x.key == c.key for x in self.mro(self.class_by_key(v.t.cls))))
            if isinstance(v, (SV, Loc, TupV, RecV)) or v is NONE:
                if isinstance(v, SV) and v.t not in (TInt, TReal, TBool, TStr):
                    raise Unsupported('isinstance of an abstract value')
                return FALSE
        if isinstance(c, ExtV):
            n = c.name.split('.')[-1]
            if isinstance(v, SV) and v.t in (TInt, TReal, TBool, TStr):
                return z3.BoolVal({'Int': n == 'int', 'Real': n == 'float', 'Bool': n in ('bool', 'int'), 'Str': n == 'str'}[v.t.name])
            if isinstance(v, Loc):
                k = 'set' if isinstance(v.t, TSet) else 'list' if isinstance(v.t, TList) else 'dict' if isinstance(v.t, (TDict, TRec)) else v.t.kind
                if n in ('set', 'list', 'dict', 'str', 'int', 'float', 'tuple', 'Enum', 'DataFrame'):
                    return z3.BoolVal(n == k)
                if n in ('Counter',) and k == 'dict':
                    return z3.BoolVal(v.t.counter)
            if isinstance(v, RecV):
                return z3.BoolVal(n == 'dict')
            if isinstance(v, TupV):
                return z3.BoolVal(n == 'tuple')
            if v is NONE:
                return FALSE
        raise Unsupported('isinstance')

    def _uns(self, m):
        raise Unsupported(m)

    def isinst_pred(self, key, e):
        f = z3.Function('is!' + key.split(':')[1], REF, z3.BoolSort())
        return f(e)

    # ------------------------------------------------------------ attributes
    def find_method(self, v, name):
        """(FuncV, ...) for a class-level function of the (single) class of v"""
        if isinstance(v, SV) and isinstance(v.t, TRef):
            ks = v.t.classes
            if len(ks) == 1:
                r = self.mro_lookup(self.class_by_key(ks[0]), name)
                if r and isinstance(r[0], ast.FunctionDef):
                    return FuncV(r[0], r[1].mod, r[1].qual), r[0]
            else:
                found = []
                for k in ks:
                    r = self.mro_lookup(self.class_by_key(k), name)
                    found.append(r)
                if all(f is None for f in found):
                    return None
                raise Unsupported('method %s of a union type' % name)
        if isinstance(v, Loc) and isinstance(v.t, TDict) and v.t.cls:
            r = self.mro_lookup(self.class_by_key(v.t.cls), name)
            if r and isinstance(r[0], ast.FunctionDef):
                return FuncV(r[0], r[1].mod, r[1].qual), r[0]
        return None

    def narrow(self, v):
        """split a reference of a union type by class"""
        if isinstance(v, SV) and isinstance(v.t, TRef) and len(v.t.classes) > 1:
            ks = list(v.t.classes)
            for k in ks[:-1]:
                if self.decide(self.isinst_pred(k, v.e)):
                    return SV(TRef(k), v.e)
            return SV(TRef(ks[-1]), v.e)
        return v

    def field_owner(self, clskey, field):
        for k in self.mro(self.class_by_key(clskey)):
            if k.key in self.w.schema and field in self.w.schema[k.key]:
                return k.key
        return None

    def getattr(self, v, name):
        if isinstance(v, Poison):
            raise Unsupported('use of a value not tracked: ' + v.why)
        if isinstance(v, SV) and isinstance(v.t, TOpt):
            if self.decide(v.t.is_none(v.e)):
                raise PyRaise('AttributeError')
            v = self.opt_value(v)
        if isinstance(v, SV) and isinstance(v.t, TRef):
            v = self.narrow(v)
            name = self.mangle(name)
            k = v.t.classes[0]
            own = self.field_owner(k, name)
            if own is not None:
                return self.get_field(v, own, name)
            r = self.mro_lookup(self.class_by_key(k), name)
            if r is None:
                if (k, name) in self.w.models:
                    return self.w.models[(k, name)](self, v)
                if name in ('keys', 'values', 'items', 'get') and self.is_mapping(v):
                    return MethV(v, name)
                raise Unsupported('attribute %s of %s' % (name, k))
            n, kc = r
            if isinstance(n, ast.FunctionDef):
                deco = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
                if 'property' in deco:
                    return self.call_func(FuncV(n, kc.mod, kc.qual), [v], {}, None)
                if 'staticmethod' in deco:
                    return FuncV(n, kc.mod, kc.qual)
                if 'classmethod' in deco:
                    return BoundV(self.class_by_key(k), FuncV(n, kc.mod, kc.qual))
                return BoundV(v, FuncV(n, kc.mod, kc.qual))
            if isinstance(n, tuple) and n[0] == 'value':
                e = n[1]
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'property':
                    g = src.find_in_class(kc.node, e.args[0].id)
                    return self.call_func(FuncV(g, kc.mod, kc.qual), [v], {}, None)
                return self.eval_static(kc.mod, e, kc.qual)
            if isinstance(n, ast.ClassDef):
                return ClassV(kc.mod, kc.qual + '.' + name, n)
            raise Unsupported('attribute ' + name)
        if isinstance(v, ModV):
            r = self.resolve_global(v.mod, name)
            if r is not None:
                return r
            sm = src.module(v.mod.name + '.' + name)
            if sm is not None:
                return ModV(sm)
            raise Unsupported('module attribute %s.%s' % (v.mod.name, name))
        if isinstance(v, ExtV):
            sm = None
            if v.name + '.' + name == 'sys.maxsize':
                return SV(TInt, z3.IntVal(2 ** 63 - 1))
            return ExtV(v.name + '.' + name)
        if isinstance(v, ClassV):
            if name == '__name__':
                return SV(TStr, strlit(v.qual.split('.')[-1]), py=v.qual.split('.')[-1])
            r = self.mro_lookup(v, name)
            if r is None:
                raise Unsupported('class attribute %s.%s' % (v.qual, name))
            n, kc = r
            if isinstance(n, ast.ClassDef):
                return ClassV(kc.mod, kc.qual + '.' + name, n)
            if isinstance(n, ast.FunctionDef):
                deco = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
                if 'classmethod' in deco:
                    return BoundV(v, FuncV(n, kc.mod, kc.qual))
                return FuncV(n, kc.mod, kc.qual)
            if self.is_enum(v):
                return EnumV(v, name, self.eval_static(kc.mod, n[1], kc.qual))
            return self.eval_static(kc.mod, n[1], kc.qual)
        if isinstance(v, EnumV):
            if name == 'value':
                return v.value
            if name == 'name':
                return SV(TStr, strlit(v.name), py=v.name)
        if isinstance(v, SuperV):
            cs = self.mro(v.recvcls)
            i = [c.key for c in cs].index(v.cls.key)
            for k in cs[i + 1:]:
                n = src.find_in_class(k.node, name)
                if isinstance(n, ast.FunctionDef):
                    return BoundV(v.recv, FuncV(n, k.mod, k.qual))
            raise Unsupported('super().%s' % name)
        if isinstance(v, Loc) and isinstance(v.t, TDict) and v.t.cls:
            m = self.find_method(v, name)
            if m:
                return BoundV(v, m[0])
        if isinstance(v, (Loc, TupV, RecV, Source, SV)):
            if isinstance(v, SV) and (v.t.name, name) in self.w.models:
                return self.w.models[(v.t.name, name)](self, v)
            return MethV(v, name)
        if isinstance(v, OpaqueV):
            return OpaqueV(v.tag + '.' + name)
        if isinstance(v, HostV):
            return MethV(v, name)
        if v is NONE:
            raise PyRaise('AttributeError')
        raise Unsupported('attribute %s of %s' % (name, type(v).__name__))

    def get_field(self, v, own, name):
        t = self.w.schema[own][name]
        key = (own, name)
        if callable(t) and not isinstance(t, T):
            return t(self, v)
        if any(u[0] == key for u in self.st.cells.get('uninit', ())):
            raise Unsupported('read of %s.%s which may be None' % (own, name))
        if t.mutable:
            return Loc(t, ('field', key, v.e))
        if isinstance(t, TOpt) and t.t.mutable:
            return SV(t, sel(self.heap(key), v.e), orig=('field', key, v.e))
        return self.lift(t, sel(self.heap(key), v.e))

    def setattr(self, v, name, val):
        if isinstance(v, SV) and isinstance(v.t, TOpt):
            if self.decide(v.t.is_none(v.e)):
                raise PyRaise('AttributeError')
            v = SV(v.t.t, v.t.val(v.e))
        if isinstance(v, SV) and isinstance(v.t, TRef):
            v = self.narrow(v)
            name = self.mangle(name)
            k = v.t.classes[0]
            own = self.field_owner(k, name)
            if own is None:
                r = self.mro_lookup(self.class_by_key(k), name)
                if r and isinstance(r[0], tuple) and isinstance(r[0][1], ast.Call) and isinstance(r[0][1].func, ast.Name) and r[0][1].func.id == 'property':
                    args = r[0][1].args
                    if len(args) < 2:
                        raise PyRaise('AttributeError')
                    g = src.find_in_class(r[1].node, args[1].id)
                    self.call_func(FuncV(g, r[1].mod, r[1].qual), [v, val], {}, None)
                    return
                if name in self.w.schema.get('ignored:' + k, ()):
                    return
                raise Unsupported('assignment to untracked attribute %s of %s' % (name, k))
            t = self.w.schema[own][name]
            if callable(t) and not isinstance(t, T):
                return          # uninterpreted field: writes are not tracked
            if isinstance(val, OpaqueV):
                raise Unsupported('opaque value stored in tracked field')
            key = (own, name)
            un = self.st.cells.get('uninit', ())
            if val is NONE and t.mutable:
                # no container yet: the field must be assigned again before it is read
                self.st.cells['uninit'] = tuple(u for u in un if not (u[0] == key and u[1].eq(v.e))) + ((key, v.e),)
                return
            e = self.term(val, t)
            if un:
                self.st.cells['uninit'] = tuple(u for u in un if not (u[0] == key and u[1].eq(v.e)))
            self.st.heap[key] = z3.Store(self.heap(key), v.e, e)
            if isinstance(t, TOpt) and t.t.mutable:
                self.redirect(val, Loc(t.t, ('opt', Loc(t, ('field', key, v.e)))))
            else:
                self.redirect(val, Loc(t, ('field', key, v.e)) if t.mutable else None)
            self.escape(val, False if not t.mutable and not isinstance(t, TOpt) else True)
            return
        raise Unsupported('attribute assignment on %s' % type(v).__name__)

    def rec_key(self, v, k):
        """literal key of a record; a computed key makes it an ordinary dictionary"""
        if isinstance(k, EnumV):
            k = k.value
        if isinstance(k, SV) and isinstance(k.py, str):
            return k.py
        if v.place[0] == 'cell' and v.place[1] in self.cell_site and isinstance(k, SV) and k.t == TStr:
            self.hints[self.cell_site[v.place[1]]] = TDict(TStr, self.join_type(list(v.t.fields.values())))
            raise Retype()
        raise Unsupported('computed key of a record')

    def redirect(self, val, newloc):
        """val was stored at newloc: variables holding it become aliases of that place"""
        if not (isinstance(val, Loc) and newloc is not None):
            return
        if val.place[0] != 'cell':
            self.freeze(val)
            return
        if newloc.place[0] in ('field', 'opt'):
            self.st.cells['kept'] = self.st.cells.get('kept', ()) + (val.place[1],)
        n = 0
        for f in self.st.frames.values():
            for k, x in list(f.items()):
                if isinstance(x, Loc) and same_place(x.place, val.place):
                    f[k] = Loc(x.t, newloc.place)
                    n += 1
        t, e = self.st.cells[val.place[1]]

    def freeze(self, val):
        """a container reachable from two places: further mutation of it is not modelled"""
        self.st.cells['frozen'] = self.st.cells.get('frozen', ()) + (val.place,)

    # ------------------------------------------------------------ expressions
    def eval(self, n):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        self.curnode = n
        return m(n)

    def e_Constant(self, n):
        v = n.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return SV(TBool, z3.BoolVal(v), py=v)
        if isinstance(v, int):
            return SV(TInt, z3.IntVal(v), py=v)
        if isinstance(v, float):
            return SV(TReal, z3.RealVal(repr(v)), py=v)
        if isinstance(v, str):
            return SV(TStr, strlit(v), py=v)
        return OpaqueV('const')

    def e_Name(self, n):
        v = self.lookup(n.id)
        return v

    def e_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr)

    def e_Tuple(self, n):
        return TupV([self.eval(x) for x in n.elts])

    def site(self, n):
        return (self.ctx[-1]['mod'].name, n.lineno, n.col_offset)

    def empty(self, kind, n):
        s = self.site(n)
        if s in self.hints:
            t = self.hints[s]
            return self.new_cell(t, default(t), s)
        t = TUnk(kind, s)
        return self.new_cell(t, None)

    def e_List(self, n):
        if not n.elts:
            return self.empty('list', n)
        vals = [self.eval(x) for x in n.elts]
        return self.mk_list(vals)

    def mk_list(self, vals):
        try:
            t = self.join_type([None if v is NONE else self.vtype(v) for v in vals])
        except Unsupported:
            return TupV(vals)
        if has_unk(t):
            return TupV(vals)
        arr = z3.K(z3.IntSort(), default(t))
        for i, v in enumerate(vals):
            arr = z3.Store(arr, i, self.term(v, t))
        return self.new_cell(TList(t), TList(t).mk(z3.IntVal(len(vals)), arr))

    def e_Set(self, n):
        vals = [self.eval(x) for x in n.elts]
        if all(v is NONE for v in vals):
            t = TOpt(NOTHING)
        else:
            t = self.join_type([None if v is NONE else self.vtype(v) for v in vals])
        e = default(TSet(t))
        for v in vals:
            e = z3.Store(e, self.term(v, t), TRUE)
        return self.new_cell(TSet(t), e)

    def e_Dict(self, n):
        if not n.keys:
            return self.empty('dict', n)
        ks = [self.eval(k) for k in n.keys]
        vs = [self.eval(v) for v in n.values]
        if all(isinstance(k, EnumV) for k in ks) and len({self.vtype(v) if not isinstance(v, (Loc, V)) or isinstance(v, SV) else None for v in vs if v is not NONE}) > 1:
            ks = [k.value if isinstance(k.value, SV) else k for k in ks]        # parameters of an algorithm, by the names of its Parameters
        if all((isinstance(k, SV) and k.py is not None and isinstance(k.py, str)) for k in ks):
            r = RecV(dict((k.py, v) for k, v in zip(ks, vs)))
            r.site = ('rec', self.site(n))
            if r.site in self.hints:
                t = self.hints[r.site]
                if not isinstance(t, T) and any(isinstance(v, Loc) and has_unk(v.t) for v in vs):
                    self.pending = r.pending = True     # the uses below determine the types of its entries
                    return r
                if not isinstance(t, T):
                    t = TRec({k: self.vtype(v) for k, v in r.items.items()})
                e = self.term(r, t)
                for v in vs:
                    self.escape(v, False)
                return self.new_cell(t, e, r.site)
            return r
        if any(isinstance(v, Loc) and isinstance(v.t, TUnk) for v in vs):
            d = self.empty('dict', n)
            for k, v in zip(ks, vs):
                self.setitem(d, k, v)
            return d
        kt = self.join_type([self.vtype(k) for k in ks])
        vt = self.join_type([None if v is NONE else self.vtype(v) for v in vs])
        t = TDict(kt, vt)
        dom, val = t.dom(default(t)), t.val(default(t))
        for k, v in zip(ks, vs):
            ke = self.term(k, kt)
            dom = z3.Store(dom, ke, TRUE)
            val = z3.Store(val, ke, self.term(v, vt))
        return self.new_cell(t, t.mk(dom, val))

    def e_JoinedStr(self, n):
        return SV(TStr, self.fresh(STR, 'fstr'))

    def merged(self, run):
        """the value of a side-effect free choice as one term instead of one path per alternative"""
        if not getattr(self.cur, 'merge', False):
            return run()
        base = self.st
        npc, nob = len(base.pc), len(self.obls)
        outs = self.explore(run)
        if len(outs) == 1 and outs[0].kind == 'normal' and not outs[0].conds:
            del self.obls[nob:]
            return run()
        vals = [o.val for o in outs]
        ok = outs and all(o.kind == 'normal' and not o.nondet for o in outs)
        for o in outs:
            ok = ok and all(self.same_cell(base.cells[c], o.st.cells.get(c)) or base.cells[c] is o.st.cells.get(c) for c in base.cells)
            ok = ok and all(o.st.heap[h].eq(base.heap[h] if h in base.heap else self.heap0(h)) for h in o.st.heap)
        fresh = lambda v: isinstance(v, Loc) and v.place[0] == 'cell' and v.place[1] not in base.cells
        prim = ok and all(isinstance(v, SV) and v.t in (TBool, TInt, TReal, TStr) and v.t == vals[0].t for v in vals)
        cont = ok and all(fresh(v) for v in vals)
        if not (prim or cont):
            del self.obls[nob:]
            return run()
        for o in outs:
            for c, v in o.st.cells.items():
                if c not in base.cells:
                    base.cells[c] = v
        extra = [(o.cond(), And(*o.st.pc[npc:])) for o in outs]
        if cont:
            ts = [v.t for v in vals if not isinstance(v.t, TUnk)]
            if not ts:
                del self.obls[nob:]
                return run()
            for v in vals:
                if isinstance(v.t, TUnk):
                    self.resolve(v.t, ts[0])
            if any(v.t != ts[0] for v in vals):
                del self.obls[nob:]
                return run()
        es = [o.st.cells[o.val.place[1]][1] if cont else o.val.e for o in outs]
        e = es[-1]
        for o, x in reversed(list(zip(outs, es))[:-1]):
            e = x if x.eq(e) else z3.If(o.cond(), x, e)
        self.assume(Or(*[And(*[c]) for c, _ in extra]))
        for c, f in extra:
            self.assume(z3.simplify(z3.Implies(c, f)))
        return self.new_cell(ts[0], e) if cont else SV(vals[0].t, z3.simplify(e))

    def e_IfExp(self, n):
        return self.merged(lambda: self.if_exp(n))

    def e_BoolOp(self, n):
        return self.merged(lambda: self.bool_op(n))

    def if_exp(self, n):
        if self.test(self.eval(n.test)):
            return self.eval(n.body)
        return self.eval(n.orelse)

    def bool_op(self, n):
        isand = isinstance(n.op, ast.And)
        # forking keeps the exact short-circuit value
        for x in n.values[:-1]:
            v = self.eval(x)
            t = self.test(v)
            if isand and not t:
                return v if not (isinstance(v, SV) and v.t == TBool) else SV(TBool, FALSE)
            if not isand and t:
                return v if not (isinstance(v, SV) and v.t == TBool) else SV(TBool, TRUE)
        return self.eval(n.values[-1])

    def e_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(v, HostV):
            return v.unary(self, n.op)
        if isinstance(n.op, ast.Not):
            return SV(TBool, Not(self.truth(v)))
        if isinstance(n.op, ast.USub) and isinstance(v, SV):
            if v.t == TBool:
                v = SV(TInt, self.term(v, TInt))
            if v.t in (TInt, TReal):
                return SV(v.t, z3.simplify(-v.e))
        if isinstance(n.op, ast.UAdd) and isinstance(v, SV) and v.t in (TInt, TReal):
            return v
        raise Unsupported('unary operator')

    def opt_value(self, v):
        if v.t.t.mutable and v.orig is not None and self.read(Loc(v.t, v.orig)).eq(v.e):
            return Loc(v.t.t, ('opt', Loc(v.t, v.orig)))
        return self.lift(v.t.t, v.t.val(v.e))

    def unopt(self, v):
        if isinstance(v, SV) and isinstance(v.t, TOpt):
            if self.decide(v.t.is_none(v.e)):
                raise PyRaise('TypeError')
            return self.opt_value(v)
        if isinstance(v, SV) and isinstance(v.t, TSeq):
            return self.new_cell(v.t.tl, v.e)
        if isinstance(v, Poison):
            raise Unsupported('use of a value not tracked: ' + v.why)
        return v

    def e_BinOp(self, n):
        return self.binop(n.op, self.eval(n.left), self.eval(n.right))

    DUNDER = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.BitAnd: '__and__', ast.BitOr: '__or__'}

    def binop(self, op, a, b):
        a, b = self.unopt(a), self.unopt(b)
        if isinstance(a, HostV):
            return a.binop(self, op, b)
        if isinstance(a, Loc) and isinstance(a.t, TDict) and a.t.cls and type(op) in self.DUNDER:
            m = self.find_method(a, self.DUNDER[type(op)])
            if m:
                return self.call_func(m[0], [a, b], {}, None)
        if isinstance(a, SV) and isinstance(b, SV):
            num = (TInt, TReal, TBool)
            if a.t in num and b.t in num:
                if isinstance(op, ast.Div):
                    x, y = self.term(a, TReal), self.term(b, TReal)
                    pos = syms.POS(z3.simplify(y))
                    if self.decide(y == 0 if pos is None else Not(pos)):
                        raise PyRaise('ZeroDivisionError')
                    return SV(TReal, x / y)
                t = TReal if TReal in (a.t, b.t) else TInt
                x, y = self.term(a, t), self.term(b, t)
                if isinstance(op, ast.Add):
                    return SV(t, z3.simplify(x + y))
                if isinstance(op, ast.Sub):
                    return SV(t, z3.simplify(x - y))
                if isinstance(op, ast.Mult):
                    return SV(t, x * y)
                if isinstance(op, (ast.FloorDiv, ast.Mod)):
                    if self.decide(y == 0):
                        raise PyRaise('ZeroDivisionError')
                    if t == TInt:
                        q = z3.If(y > 0, x / y, (-x) / (-y))       # SMT div is Euclidean; floor for positive divisors
                        if isinstance(op, ast.FloorDiv):
                            return SV(TInt, q)
                        return SV(TInt, x - y * q)
                    if isinstance(op, ast.FloorDiv):
                        return SV(TReal, z3.ToReal(z3.ToInt(x / y)))
                    return SV(TReal, x - y * z3.ToReal(z3.ToInt(x / y)))
                if isinstance(op, ast.Pow) and isinstance(b.py, int) and 0 <= b.py <= 3:
                    r = z3.IntVal(1) if t == TInt else z3.RealVal(1)
                    for _ in range(b.py):
                        r = r * x
                    return SV(t, r)
                raise Unsupported('operator on numbers')
            if a.t == TStr and isinstance(op, ast.Mod):
                return SV(TStr, self.fresh(STR, 'fmt'))
            if a.t == TStr and b.t == TStr and isinstance(op, ast.Add):
                f = z3.Function('strcat', STR, STR, STR)
                if a.py is not None and b.py is not None:
                    return SV(TStr, strlit(a.py + b.py), py=a.py + b.py)
                return SV(TStr, f(a.e, b.e))
        if isinstance(a, SV) and a.t == TStr and isinstance(op, ast.Mod):
            return SV(TStr, self.fresh(STR, 'fmt'))
        if isinstance(a, TupV) and isinstance(b, TupV) and isinstance(op, ast.Add):
            return TupV(a.items + b.items)
        if isinstance(a, SV) and isinstance(op, ast.Add) and (a.t.name, 'add') in self.w.models:
            return self.w.models[(a.t.name, 'add')](self, a, b)
        if isinstance(a, (Loc, Source)) and isinstance(b, (Loc, Source)):
            la, lb = self.as_loc(a), self.as_loc(b)
            if isinstance(la.t, TUnk) and isinstance(lb.t, TUnk):
                return la
            if isinstance(la.t, TUnk):
                self.resolve(la.t, lb.t)
            if isinstance(lb.t, TUnk):
                self.resolve(lb.t, la.t)
            if isinstance(la.t, TSet) and isinstance(lb.t, TSet):
                name = {ast.BitOr: 'union', ast.BitAnd: 'intersection', ast.Sub: 'difference', ast.BitXor: 'symmetric_difference'}.get(type(op))
                if name:
                    return self.set_op(name, la, lb)
            if isinstance(la.t, TList) and isinstance(lb.t, TList) and isinstance(op, ast.Add):
                return self.list_concat(la, lb)
            if isinstance(la.t, TDict) and la.t.counter and not la.t.cls:
                c = self.new_cell(la.t, self.read(la))
                if self.counter_aug(c, op, lb):
                    return c
        if isinstance(a, TupV) and isinstance(b, SV) and isinstance(op, ast.Mult) and isinstance(b.py, int):
            return TupV(a.items * b.py)
        if isinstance(a, Loc) and isinstance(a.t, TList) and isinstance(op, ast.Mult) and isinstance(b, SV) and b.t == TInt:
            e = self.read(a)
            if z3.is_int_value(z3.simplify(a.t.len(e))) and z3.simplify(a.t.len(e)).as_long() == 1:
                n = z3.If(b.e > 0, b.e, z3.IntVal(0))
                return self.new_cell(a.t, a.t.mk(n, z3.K(z3.IntSort(), sel(a.t.arr(e), z3.IntVal(0)))))
        for k in (a, b):
            if isinstance(k, SV) and (k.t.name, type(op).__name__) in self.w.models:
                return self.w.models[(k.t.name, type(op).__name__)](self, a, b)
        raise Unsupported('operator %s on %r, %r' % (type(op).__name__, a, b))

    def list_concat(self, la, lb):
        t = la.t
        x, y = self.read(la), self.read(lb)
        if la.t.sort() != lb.t.sort():
            raise Unsupported('list concatenation of different types')
        j = z3.FreshConst(z3.IntSort(), 'j')
        arr = lam(j, z3.If(j < t.len(x), sel(t.arr(x), j), sel(t.arr(y), j - t.len(x))))
        return self.new_cell(t, t.mk(t.len(x) + t.len(y), arr))

    def as_options(self, l, o):
        """the set l as a set of values of the option type o"""
        e = self.read(l)
        if l.t.t == o:
            return e
        v = z3.FreshConst(o.sort(), 'ov')
        if l.t.t == TOpt(NOTHING):
            return lam(v, And(o.is_none(v), sel(e, l.t.t.none())))
        return lam(v, And(Not(o.is_none(v)), sel(e, o.val(v))))

    def set_op(self, name, la, lb):
        t = la.t
        x, y = self.read(la), self.read(lb)
        if t.t != lb.t.t and (isinstance(t.t, TOpt) or isinstance(lb.t.t, TOpt)):
            bs = set(k.t if isinstance(k, TOpt) else k for k in (t.t, lb.t.t)) - {NOTHING}
            if len(bs) == 1:
                o = TOpt(bs.pop())
                t, x, y = TSet(o), self.as_options(la, o), self.as_options(lb, o)
        if x.sort() != y.sort():
            raise Unsupported('set operation on different types')
        v = z3.FreshConst(t.t.sort(), 'sv')
        a, b = sel(x, v), sel(y, v)
        r = {'union': Or(a, b), 'intersection': And(a, b), 'difference': And(a, Not(b)),
             'symmetric_difference': a != b}[name]
        return self.new_cell(t, lam(v, r))

    def e_Compare(self, n):
        left = self.eval(n.left)
        res = []
        for op, rn in zip(n.ops, n.comparators):
            right = self.eval(rn)
            if isinstance(left, HostV) and not isinstance(op, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) and right is not NONE:
                if len(n.ops) > 1:
                    raise Unsupported('chained comparison')
                return left.compare(self, op, right)
            res.append(self.compare(op, left, right))
            left = right
        return SV(TBool, And(*res))

    def compare(self, op, a, b):
        if isinstance(op, ast.Is) or isinstance(op, ast.IsNot):
            if a is NONE or b is NONE:
                r = self.eq(a, b)
            elif isinstance(a, (ClassV, ExtV)) or isinstance(b, (ClassV, ExtV)):
                r = self.eq_cls(a, b)
            elif isinstance(a, SV) and isinstance(b, SV) and isinstance(a.t, TRef) and isinstance(b.t, TRef):
                r = a.e == b.e
            elif isinstance(a, SV) and isinstance(b, SV) and a.t == TBool and b.t == TBool:
                r = a.e == b.e
            elif isinstance(a, SV) and isinstance(b, SV) and a.t.name.startswith('U:') and a.t == b.t:
                # one object: equal; equal values need not be one object
                r = And(a.e == b.e, Or(z3.BoolVal(a.e.eq(b.e)), z3.Function('same!' + a.t.name, a.t.sort(), a.t.sort(), z3.BoolSort())(a.e, b.e)))
            elif any(isinstance(x, SV) and isinstance(self.unopt(y), SV) and self.unopt(y).t.name.startswith('U:') and isinstance(x.py, bool) for x, y in ((a, b), (b, a))):
                x, y = (a, b) if isinstance(a, SV) and isinstance(a.py, bool) else (b, a)
                y = self.unopt(y)
                r = z3.Function('is!%s!%s' % (x.py, y.t.name), y.t.sort(), z3.BoolSort())(y.e)
            else:
                raise Unsupported('is')
            return r if isinstance(op, ast.Is) else Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else Not(r)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.py_eq(a, b)
            return r if isinstance(op, ast.Eq) else Not(r)
        a, b = self.unopt(a), self.unopt(b)
        if isinstance(a, Loc) and isinstance(a.t, TDict) and a.t.cls:
            nm = {ast.LtE: '__le__', ast.GtE: '__ge__', ast.Lt: '__lt__', ast.Gt: '__gt__'}[type(op)]
            m = self.find_method(a, nm)
            if m:
                return self.truth(self.call_func(m[0], [a, b], {}, None))
            raise Unsupported('comparison of multisets without method')
        num = (TInt, TReal, TBool)
        if isinstance(a, SV) and isinstance(b, SV) and a.t in num and b.t in num:
            t = TReal if TReal in (a.t, b.t) else TInt
            x, y = self.term(a, t), self.term(b, t)
            return {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
        if isinstance(a, (Loc, Source)) and isinstance(b, (Loc, Source)):
            a, b = self.as_loc(a), self.as_loc(b)
            if isinstance(a.t, TSet) and isinstance(b.t, TSet):
                if isinstance(op, (ast.Gt, ast.GtE)):
                    a, b = b, a
                v = z3.FreshConst(a.t.t.sort(), 'sv')
                sub = ForAll([v], z3.Implies(sel(self.read(a), v), sel(self.read(b), v)))
                if isinstance(op, (ast.LtE, ast.GtE)):
                    return sub
                return And(sub, Not(self.eq(a, b)))
        if isinstance(a, SV) and (a.t.name, 'cmp') in self.w.models:
            return self.w.models[(a.t.name, 'cmp')](self, op, a, b)
        raise Unsupported('comparison of %r, %r' % (a, b))

    def eq_cls(self, a, b):
        def nm(v):
            if isinstance(v, ClassV):
                return v.key
            if isinstance(v, ExtV):
                return v.name.split('.')[-1]
            raise Unsupported('is')
        return z3.BoolVal(nm(a) == nm(b))

    def py_eq(self, a, b):
        """== with user-defined __eq__"""
        if getattr(a, 'is_id', False) and getattr(b, 'is_id', False):
            return a.e == b.e
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Loc) and isinstance(x.t, TDict) and x.t.cls and isinstance(y, Loc):
                m = self.find_method(x, '__eq__')
                if m:
                    return self.truth(self.call_func(m[0], [x, y], {}, None))
            if isinstance(x, SV) and isinstance(x.t, TRef) and isinstance(y, SV) and isinstance(y.t, TRef):
                x = self.narrow(x)
                m = self.find_method(x, '__eq__')
                if m:
                    return self.truth(self.call_func(m[0], [x, y], {}, None))
        return self.eq(a, b)

    def contains(self, c, x):
        if isinstance(c, SV) and isinstance(c.t, TOpt):
            c = self.unopt(c)
        if isinstance(c, Loc):
            if isinstance(c.t, TUnk):
                return FALSE
            e = self.read(c)
            if isinstance(c.t, TSet):
                t = self.key_ok(x, c.t.t)
                return FALSE if t is None else sel(e, t)
            if isinstance(c.t, TDict):
                t = self.key_ok(x, c.t.k)
                return FALSE if t is None else sel(c.t.dom(e), t)
            if isinstance(c.t, TList):
                t = self.key_ok(x, c.t.t)
                if t is None:
                    return FALSE
                i = z3.FreshConst(z3.IntSort(), 'ii')
                return Exists([i], z3.And(i >= 0, i < c.t.len(e), self.eq_terms(c.t.t, sel(c.t.arr(e), i), t)))
        if isinstance(c, TupV):
            return Or(*[self.eq(x, y) for y in c.items])
        if isinstance(c, Loc) and isinstance(c.t, TRec):
            key = self.rec_key(c, x)
            return c.t.has(self.read(c), key) if key in c.t.fields else FALSE
        if isinstance(c, RecV):
            if isinstance(x, SV) and x.py is not None:
                return z3.BoolVal(x.py in c.items)
            if isinstance(x, EnumV):
                return FALSE
        if isinstance(c, Source):
            return Exists(c.vars, And(c.guard, self.eq(c.elem, x)))
        if isinstance(c, SV) and isinstance(c.t, TRef):
            m = self.find_method(c, '__contains__')
            if m:
                return self.truth(self.call_func(m[0], [c, x], {}, None))
            if self.is_mapping(c):
                # collections.abc.Mapping.__contains__
                try:
                    self.getitem(c, x)
                except PyRaise as r:
                    if r.name != 'KeyError':
                        raise
                    return FALSE
                return TRUE
        if isinstance(c, SV) and isinstance(c.py, str) and isinstance(x, SV) and isinstance(x.py, str):
            return z3.BoolVal(x.py in c.py)
        if isinstance(c, SV) and (c.t.name, 'contains') in self.w.models:
            return self.w.models[(c.t.name, 'contains')](self, c, x)
        if isinstance(c, HostV):
            return c.contains(self, x)
        if isinstance(c, OpaqueV) and ('opaque', 'contains') in self.w.models:
            return self.w.models[('opaque', 'contains')](self, c, x)
        raise Unsupported('membership in %r' % c)

    def key_ok(self, x, t):
        """term of x as a key of type t; None if x can never equal one"""
        if isinstance(x, SV) and isinstance(x.t, TOpt) and not isinstance(t, TOpt):
            if self.decide(x.t.is_none(x.e)):
                return None
            x = self.lift(x.t.t, x.t.val(x.e))
        if x is NONE and not isinstance(t, TOpt):
            return None
        if isinstance(x, EnumV):
            return None
        if isinstance(x, SV) and x.t in (TStr,) and t in (TInt, TReal, TBool):
            return None
        if isinstance(x, TupV) and isinstance(t, TTuple) and len(x.items) != len(t.items):
            return None
        return self.term(x, t)

    def e_Subscript(self, n):
        v = self.eval(n.value)
        if isinstance(n.slice, ast.Slice):
            return self.slice(v, n.slice)
        return self.getitem(v, self.eval(n.slice))

    def getitem(self, v, k):
        v = self.unopt(v)
        if isinstance(v, HostV):
            return v.getitem(self, k)
        if isinstance(v, Loc):
            if isinstance(v.t, TUnk):
                if getattr(v.t, 'inner', None) is not None:
                    return v.t.inner
                if v.t.kind == 'defaultdict':
                    self.pending = True
                    si = v.t.site + ('inner',)
                    kind = getattr(v.t, 'factory', None)
                    if kind in ('int', 'float'):
                        self.resolve(v.t, TDict(self.vtype(k), TInt if kind == 'int' else TReal))
                    if si in self.hints:
                        self.resolve(v.t, TDict(self.vtype(k), self.hints[si]))
                    if kind not in ('list', 'set', 'dict'):
                        raise Unsupported('defaultdict of unknown type')
                    return self.new_cell(TUnk(kind, si), None)
                raise PyRaise('KeyError' if v.t.kind == 'dict' else 'IndexError')
            if isinstance(v.t, TDict):
                ke = self.key_ok(k, v.t.k)
                if ke is None:
                    if v.t.counter:
                        return SV(TInt, z3.IntVal(0))
                    raise PyRaise('KeyError')
                if v.t.counter and not v.t.dfltval:
                    e = self.read(v)
                    return SV(v.t.v, sel(v.t.val(e), ke))       # normal form: absent -> 0
                if v.t.dfltval:
                    e = self.read(v)
                    if not self.decide(sel(v.t.dom(e), ke)):
                        self.write(v, v.t.mk(z3.Store(v.t.dom(e), ke, TRUE), z3.Store(v.t.val(e), ke, default(v.t.v))))
                    return self.elem_value(v, v.t.v, ke)
                if not self.decide(sel(v.t.dom(self.read(v)), ke)):
                    raise PyRaise('KeyError')
                return self.elem_value(v, v.t.v, ke)
            if isinstance(v.t, TList):
                i = self.index(v, k)
                return self.elem_value(v, v.t.t, i)
            if isinstance(v.t, TRec):
                key = self.rec_key(v, k)
                if key not in v.t.fields or not self.decide(v.t.has(self.read(v), key)):
                    raise PyRaise('KeyError')
                ft = v.t.fields[key]
                return Loc(ft, ('fld', v, key)) if ft.mutable else self.lift(ft, v.t.get(self.read(v), key))
        if isinstance(v, TupV):
            k = self.unopt(k)
            if isinstance(k, SV) and z3.is_int_value(z3.simplify(k.e)):
                i = z3.simplify(k.e).as_long()
                if -len(v.items) <= i < len(v.items):
                    return v.items[i]
                raise PyRaise('IndexError')
            if isinstance(k, SV) and k.t == TInt:
                n = len(v.items)
                for j in range(n):
                    if self.decide(Or(k.e == j, k.e == j - n)):
                        return v.items[j]
                raise PyRaise('IndexError')
        if isinstance(v, SV) and isinstance(v.t, TTuple):
            return self.getitem(self.lift(v.t, v.e), k)
        if isinstance(v, RecV):
            if isinstance(k, SV) and k.py is not None:
                if k.py in v.items:
                    return v.items[k.py]
                raise PyRaise('KeyError')
        if isinstance(v, SV) and isinstance(v.t, TRef):
            v = self.narrow(v)
            mk = (v.t.classes[0], '__getitem__')
            if mk in self.w.models:
                return self.w.models[mk](self, v, k)
            m = self.find_method(v, '__getitem__')
            if m:
                return self.call_func(m[0], [v, k], {}, None)
        if isinstance(v, SV) and (v.t.name, 'getitem') in self.w.models:
            return self.w.models[(v.t.name, 'getitem')](self, v, k)
        if isinstance(v, Source):
            if v.ordered is not None and not v.one_shot:
                return self.getitem(self.as_loc(v), k)
            if v.ordered is None and not v.one_shot and v.concrete is None and isinstance(k, SV) and z3.is_int_value(z3.simplify(k.e)) and z3.simplify(k.e).as_long() == 0:
                # the first element of a list made from a set: some element
                if not self.decide(z3.Exists(v.vars, v.guard)):
                    raise PyRaise('IndexError')
                x = [self.fresh(y.sort(), 'first') for y in v.vars]
                self.assume(z3.substitute(v.guard, *zip(v.vars, x)))
                return self.subst_val(v.elem, list(zip(v.vars, x)))
        if isinstance(v, ClassV):
            return v        # Generic[...] subscripts
        if isinstance(v, ExtV):
            return v
        raise Unsupported('subscript of %r' % v)

    def index(self, loc, k):
        k = self.unopt(k)
        if not (isinstance(k, SV) and k.t in (TInt, TBool)):
            raise Unsupported('list index type')
        e = self.read(loc)
        n = loc.t.len(e)
        i = self.term(k, TInt)
        si = z3.simplify(i)
        if z3.is_int_value(si) and si.as_long() < 0:
            j = z3.simplify(n + si)
            if not self.decide(j >= 0):
                raise PyRaise('IndexError')
            return j
        if self.decide(z3.And(i >= 0, i < n)):
            return i
        if self.decide(z3.And(i < 0, i + n >= 0)):
            return i + n
        raise PyRaise('IndexError')

    def slice(self, v, s):
        if s.step is not None:
            raise Unsupported('slice with step')
        v = self.unopt(v)
        if isinstance(v, TupV):
            lo = self.eval(s.lower) if s.lower else None
            hi = self.eval(s.upper) if s.upper else None
            a = z3.simplify(lo.e).as_long() if lo else None
            b = z3.simplify(hi.e).as_long() if hi else None
            return TupV(v.items[a:b])
        if isinstance(v, Source):
            v = self.as_loc(v)
        if isinstance(v, SV) and isinstance(v.t, TRef):
            own = self.field_owner(v.t.classes[0], '_list')
            if own:
                v = self.get_field(v, own, '_list')
        if isinstance(v, SV) and isinstance(v.t, TSeq):
            l = self.slice(self.new_cell(v.t.tl, v.e), s)
            return SV(v.t, self.norm_list(v.t.tl, self.read(l)))
        if isinstance(v, Loc) and isinstance(v.t, TList):
            e = self.read(v)
            n = v.t.len(e)

            def norm(x, dflt):
                if x is None:
                    return dflt
                y = self.unopt(self.eval(x))
                i = self.term(y, TInt)
                i = pick(i < 0, i + n, i)
                return pick(i < 0, z3.IntVal(0), pick(i > n, n, i))

            def pick(c, a, b):
                c = z3.simplify(c)
                if z3.is_true(c) or z3.is_false(c):
                    return z3.simplify(a if z3.is_true(c) else b)
                for x, r in ((Not(c), b), (c, a)):
                    q = z3.Solver()
                    q.set('timeout', 300)
                    q.add(*[f for f in self.st.pc if not has_quant(f)], n >= 0, Not(x))
                    if q.check() == z3.unsat:
                        return z3.simplify(r)
                return z3.simplify(z3.If(c, a, b))
            lo, hi = norm(s.lower, z3.IntVal(0)), norm(s.upper, n)
            j = z3.FreshConst(z3.IntSort(), 'j')
            return self.new_cell(v.t, v.t.mk(pick(hi >= lo, hi - lo, z3.IntVal(0)), lam(j, sel(v.t.arr(e), z3.simplify(j + lo)))))
        raise Unsupported('slice')

    def e_Lambda(self, n):
        return FuncV(n, self.ctx[-1]['mod'], self.ctx[-1]['cls'], self.ctx[-1]['closure'] + (self.ctx[-1]['fid'],))

    def e_NamedExpr(self, n):
        v = self.eval(n.value)
        self.frame()[n.target.id] = v
        return v

    def e_Starred(self, n):
        raise Unsupported('starred')

    # ------------------------------------------------------------ iteration sources
    def source(self, v):
        v = self.unopt(v) if not isinstance(v, Source) else v
        if isinstance(v, Source):
            return v
        if isinstance(v, HostV):
            return v.source(self)
        if isinstance(v, TupV):
            return Source([], TRUE, None, concrete=list(v.items))
        if isinstance(v, Loc):
            if isinstance(v.t, TUnk):
                return Source([], TRUE, None, concrete=[])
            e = self.read(v)
            if isinstance(v.t, TSet):
                x = self.fresh(v.t.t.sort(), 'x')
                return Source([x], sel(e, x), self.lift(v.t.t, x), loc=v)
            if isinstance(v.t, TDict):
                x = self.fresh(v.t.k.sort(), 'k')
                return Source([x], sel(v.t.dom(e), x), self.lift(v.t.k, x), loc=v)
            if isinstance(v.t, TList):
                n = z3.simplify(v.t.len(e))
                if z3.is_int_value(n) and n.as_long() <= 8:
                    return Source([], TRUE, None, concrete=[self.elem_value(v, v.t.t, z3.IntVal(i)) for i in range(n.as_long())])
                i = self.fresh(z3.IntSort(), 'i')
                return Source([i], z3.And(i >= 0, i < n), self.elem_value(v, v.t.t, i), ordered=n, loc=v)
        if isinstance(v, SV) and isinstance(v.t, TTuple):
            return self.source(self.lift(v.t, v.e))
        if isinstance(v, SV) and isinstance(v.t, TRef):
            v = self.narrow(v)
            m = self.find_method(v, '__iter__')
            if m:
                r = self.call_func(m[0], [v], {}, None)
                s = self.source(r)
                s.one_shot = False
                return s
        if isinstance(v, RecV):
            return Source([], TRUE, None, concrete=[SV(TStr, strlit(k), py=k) for k in v.items])
        if isinstance(v, ClassV) and self.is_enum(v):
            return Source([], TRUE, None, concrete=[self.getattr(v, t.id) for st in v.node.body if isinstance(st, ast.Assign) for t in st.targets])
        if isinstance(v, SV) and (v.t.name, 'iter') in self.w.models:
            return self.source(self.w.models[(v.t.name, 'iter')](self, v))
        raise Unsupported('iteration over %r' % (v,))

    def as_loc(self, v):
        """a location holding the list / set described by a source"""
        if isinstance(v, Loc):
            return v
        if isinstance(v, Source):
            t = TList(self.vtype(v.elem)) if v.concrete is None else None
            if t is None:
                return self.mk_list(v.concrete)
            return self.new_cell(t, self.source_to_list(v, t))
        if isinstance(v, TupV):
            return self.mk_list(v.items)
        raise Unsupported('container expected')

    def source_to_list(self, s, t):
        if s.concrete is not None:
            return self.term(TupV(s.concrete), t)
        e = self.term(s.elem, t.t)
        j = z3.FreshConst(z3.IntSort(), 'j')
        if s.ordered is not None:
            return t.mk(s.ordered, lam(j, z3.substitute(e, (s.vars[0], j))))
        if len(s.vars) == 1 and getattr(s, 'filter_of', None) is not None:
            i = s.vars[0]
            cnt = syms.SUM(i, z3.If(z3.simplify(s.guard), z3.IntVal(1), z3.IntVal(0)))
            fs = syms.define('fsel', [i], [s.guard, cnt], z3.ArraySort(z3.IntSort(), z3.IntSort()))
            return t.mk(cnt, lam(j, z3.substitute(e, (i, sel(fs, j)))))
        if len(s.vars) == 1:
            # arbitrary enumeration of an unordered source
            x = s.vars[0]
            cnt = syms.SUM(x, z3.If(z3.simplify(s.guard), z3.IntVal(1), z3.IntVal(0)))
            en = syms.define('enum', [x], [s.guard, cnt], z3.ArraySort(z3.IntSort(), x.sort()))
            return t.mk(cnt, lam(j, z3.substitute(e, (x, sel(en, j)))))
        raise Unsupported('list of a nested iteration')

    def source_to_set(self, s, t):
        if s.concrete is not None:
            e = default(t)
            for v in s.concrete:
                e = z3.Store(e, self.term(v, t.t), TRUE)
            return e
        y = z3.FreshConst(t.t.sort(), 'y')
        e = self.term(s.elem, t.t)
        return lam(y, self.exists_eq(s, e, y, TRUE))

    def exists_eq(self, s, e, y, extra):
        """exists vars. guard & e == y & extra, eliminating a variable equal to e"""
        if len(s.vars) == 1 and e.eq(s.vars[0]):
            return z3.substitute(And(s.guard, extra), (s.vars[0], y))
        return Exists(s.vars, And(s.guard, extra, e == y))

    # ------------------------------------------------------------ comprehensions
    def pure(self, run, facts, vars):
        """explore run() under facts; returns ([(cond, V)], raise condition); no side effects allowed"""
        base = self.st
        ids = set(base.cells)
        outs = self.explore(run, facts)
        good, bad = [], []
        newcells = {}
        for o in outs:
            for c in ids:
                if base.cells[c] is not o.st.cells.get(c) and not self.same_cell(base.cells[c], o.st.cells.get(c)):
                    raise Unsupported('side effect in a comprehension')
            for h in o.st.heap:
                if not o.st.heap[h].eq(base.heap[h] if h in base.heap else self.heap0(h)):
                    raise Unsupported('side effect in a comprehension')
            if o.kind == 'raise':
                bad.append((o.val, o.cond()))
                continue
            for c, v in o.st.cells.items():
                if c not in ids:
                    newcells[c] = v
            good.append((o.cond(), o.val, o.nondet))
        self.st.cells.update(newcells)
        if len(good) > 1 and any(n for _, _, n in good):
            raise Unsupported('non-deterministic choice inside a comprehension')
        return [(c, v) for c, v, _ in good], bad

    def same_cell(self, a, b):
        if b is None:
            return False
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == 2 and len(b) == 2 and isinstance(a[0], T):
            return (a[1] is None and b[1] is None) or (a[1] is not None and b[1] is not None and a[1].eq(b[1]))
        return a == b

    def comp_source(self, gens, elt_fns):
        """Source over the generators with element value(s) from elt_fns (list of callables); one value per fn"""
        fid = self.push_frame(self.ctx[-1]['mod'], self.ctx[-1]['cls'], self.ctx[-1]['closure'] + (self.ctx[-1]['fid'],))
        try:
            return self._comp(gens, 0, elt_fns, [], [], [])
        finally:
            self.ctx.pop()

    def _comp(self, gens, gi, elt_fns, vars, guards, meta):
        raise_conds = []
        # evaluated in place; everything under `pure` with the guards as facts
        if gi == len(gens):
            raise AssertionError
        g = gens[gi]

        def ev_iter():
            return self.source(self.eval(g.iter))
        if gi == 0:
            s = ev_iter()
        else:
            mark = len(self.freshlog)
            outs, bad = self.pure(ev_iter, guards, vars)
            self.raise_in(bad, vars, guards)
            if len(outs) != 1:
                s = self.merge_sources(outs)
            else:
                s = outs[0][1]
        if s.concrete is not None:
            # union of the concrete elements: only supported as last generator, expanded
            res = []
            for item in s.concrete:
                self.bind_target(g.target, item)
                res.append(self._comp_rest(gens, gi, g, elt_fns, vars, guards, meta))
            return ('union', res)
        if s.one_shot:
            s.one_shot = False
        self.bind_target(g.target, s.elem)
        return self._comp_rest(gens, gi, g, elt_fns, vars + s.vars, guards + [s.guard], meta + [s])

    def merge_sources(self, outs):
        raise Unsupported('iteration over a conditional value in a comprehension')

    def raise_in(self, bad, vars, guards):
        for name, c in bad:
            if vars:
                cc = Exists(vars, And(*guards, c))
            else:
                cc = And(*guards, c)
            if self.decide(cc):
                raise PyRaise(name)

    def _comp_rest(self, gens, gi, g, elt_fns, vars, guards, meta):
        guards = list(guards)
        for cnode in g.ifs:
            outs, bad = self.pure(lambda: SV(TBool, self.truth(self.eval(cnode))), guards, vars)
            self.raise_in(bad, vars, guards)
            if not outs:
                guards.append(FALSE)
                continue
            c = self.merge_vals(outs).e
            guards.append(z3.simplify(c))
        if gi + 1 < len(gens):
            return self._comp(gens, gi + 1, elt_fns, vars, guards, meta + ['if'] * len(g.ifs))
        vals = []
        for f in elt_fns:
            outs, bad = self.pure(f, guards, vars)
            self.raise_in(bad, vars, guards)
            if not outs:
                raise PathDead()
            vals.append(self.merge_vals(outs))
        srcs = [m for m in meta if isinstance(m, Source)]
        ordered = None
        filt = None
        if len(srcs) == 1 and len(vars) == len(srcs[0].vars):
            if not g.ifs:
                ordered = srcs[0].ordered
                filt = getattr(srcs[0], 'filter_of', None)
            elif srcs[0].ordered is not None or getattr(srcs[0], 'filter_of', None) is not None:
                filt = True
        r = Source(vars, And(*guards), vals[0] if len(vals) == 1 else TupV(vals), ordered=ordered)
        r.filter_of = filt
        r.nested_ordered = all(isinstance(m, Source) and (m.ordered is not None or getattr(m, 'filter_of', None)) for m in srcs)
        return r

    def flat_union(self, r):
        """list of Sources / concrete values"""
        if isinstance(r, tuple) and r[0] == 'union':
            out = []
            for x in r[1]:
                out += self.flat_union(x)
            return out
        return [r]

    def comp_value(self, n, elts):
        r = self.comp_source(n.generators, [(lambda e=e: self.eval(e)) for e in elts])
        if isinstance(r, tuple):
            parts = self.flat_union(r)
            if len(parts) == 1:
                return parts[0]
            # concrete expansion: all parts are single (no vars)
            if all(not p.vars for p in parts):
                if all(z3.is_true(z3.simplify(p.guard)) for p in parts):
                    return Source([], TRUE, None, concrete=[p.elem for p in parts])
                out = []
                for p in parts:
                    if self.decide(p.guard):
                        out.append(p.elem)
                return Source([], TRUE, None, concrete=out)
            if not parts:
                return Source([], TRUE, None, concrete=[])
            raise Unsupported('comprehension over a concrete outer list')
        return r

    def e_ListComp(self, n):
        s = self.comp_value(n, [n.elt])
        if s.concrete is not None:
            return self.mk_list(s.concrete) if s.concrete else self.empty('list', n)
        if s.ordered is not None or getattr(s, 'filter_of', None) is not None:
            try:
                return self.as_loc(s)
            except Unsupported:
                return s
        return s

    def e_GeneratorExp(self, n):
        s = self.comp_value(n, [n.elt])
        s.one_shot = True
        return s

    def e_SetComp(self, n):
        s = self.comp_value(n, [n.elt])
        return self.to_set(s, n)

    def to_set(self, s, n):
        if s.concrete is not None:
            if not s.concrete:
                return self.empty('set', n)
            t = TSet(self.join_type([None if v is NONE else self.vtype(v) for v in s.concrete]))
        else:
            t = TSet(self.vtype(s.elem))
        return self.new_cell(t, self.source_to_set(s, t))

    def e_DictComp(self, n):
        s = self.comp_value(n, [n.key, n.value])
        return self.to_dict(s, n)

    def to_dict(self, s, n):
        if s.concrete is not None:
            ks = [x.items[0] for x in s.concrete]
            vs = [x.items[1] for x in s.concrete]
            if not ks:
                return self.empty('dict', n)
            if all((isinstance(k, SV) and isinstance(k.py, str)) for k in ks):
                return RecV(dict((k.py, v) for k, v in zip(ks, vs)))
            kt, vt = self.join_type([self.vtype(k) for k in ks]), self.join_type([None if v is NONE else self.vtype(v) for v in vs])
            t = TDict(kt, vt)
            dom, val = t.dom(default(t)), t.val(default(t))
            for k, v in zip(ks, vs):
                dom, val = z3.Store(dom, self.term(k, kt), TRUE), z3.Store(val, self.term(k, kt), self.term(v, vt))
            return self.new_cell(t, t.mk(dom, val))
        kv, vv = s.elem.items
        t = TDict(self.vtype(kv), self.vtype(vv))
        ke, ve = self.term(kv, t.k), self.term(vv, t.v)
        k = z3.FreshConst(t.k.sort(), 'k')
        dom = self.exists_eq(s, ke, k, TRUE)
        if len(s.vars) == 1 and ke.eq(s.vars[0]):
            val = z3.If(dom, z3.substitute(ve, (s.vars[0], k)), default(t.v))
        elif len(s.vars) == 1:
            x = s.vars[0]
            # the value of the key must not depend on which element produced it
            y = z3.FreshConst(x.sort(), 'y')
            g2, k2, v2 = [z3.substitute(z, (x, y)) for z in (s.guard, ke, ve)]
            if not self.prove(self.st.pc + [s.guard, g2, ke == k2], ve == v2):
                raise Unsupported('dictionary comprehension with ambiguous keys')
            val = z3.If(dom, z3.substitute(ve, (x, syms.CHOOSE(x, And(s.guard, ke == k)))), default(t.v))
        else:
            raise Unsupported('dictionary comprehension over several variables')
        if ('wide',) + self.site(n) in self.hints:
            return self.new_cell(wide(t), wide(t).mk(lam(k, dom), lam(k, z3.ToReal(val))))
        return self.new_cell(t, t.mk(lam(k, dom), lam(k, val)), self.site(n))

    # ------------------------------------------------------------ calls
    def e_Call(self, n):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            sv = SuperV.__new__(SuperV)
            cls = self.ctx[-1]['cls']
            sv.cls = self.class_by_key(self.ctx[-1]['mod'].name + ':' + cls)
            f = self.frame()
            sv.recv = f[list(f)[0]]
            sv.recvcls = self.class_by_key(sv.recv.t.classes[0])
            return sv
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.eval(a.value)
                if isinstance(s, TupV):
                    args += s.items
                    continue
                if isinstance(f, ExtV) and f.name.endswith('.zip'):
                    raise Unsupported('zip(*x)')
                raise Unsupported('star argument')
            args.append(self.eval(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                if isinstance(d, RecV):
                    kw.update(d.items)
                elif isinstance(d, Loc) and isinstance(d.t, TUnk):
                    pass
                else:
                    raise Unsupported('** argument')
            else:
                kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw, n)

    def call(self, f, args, kw, n):
        if isinstance(f, Poison):
            raise Unsupported('call of a value not tracked')
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw, n)
        if isinstance(f, BoundV):
            return self.call_func(f.fn, [f.recv] + list(args), kw, n)
        if isinstance(f, ClassV):
            return self.construct(f, args, kw, n)
        if isinstance(f, MethV):
            return self.call_method(f.recv, f.name, args, kw, n)
        if isinstance(f, ExtV):
            return self.call_ext(f.name, args, kw, n)
        if isinstance(f, OpaqueV) and 'call:' + f.tag in self.w.models:
            return self.w.models['call:' + f.tag](self, args, kw, n)
        raise Unsupported('call of %r' % f)

    def construct(self, c, args, kw, n):
        if c.key in self.w.models:
            return self.w.models[c.key](self, args, kw, n)
        names = [b.name.split('.')[-1] for k in self.mro(c) for b in self.bases(k) if isinstance(b, ExtV)]
        if 'Counter' in names or 'dict' in names:
            t = self.w.schema.get(c.key)
            if not isinstance(t, TDict):
                raise Unsupported('constructor of ' + c.key)
            if not args:
                return self.new_cell(t, default(t))
            a = args[0]
            if isinstance(a, Loc) and isinstance(a.t, TDict) and a.t.sort() == t.sort():
                return self.new_cell(t, self.read(a))
            if isinstance(a, Loc) and isinstance(a.t, TUnk):
                return self.new_cell(t, default(t))
            raise Unsupported('constructor argument of ' + c.key)
        if c.key not in self.w.schema:
            raise Unsupported('instance of ' + c.key)
        if self.mro_lookup(c, '__slots__') or self.mro_lookup(c, '__new__'):
            raise Unsupported('class with __slots__/__new__')
        r = self.fresh(REF, 'new_' + c.qual.split('.')[-1])
        al = self.st.cells.get('alloc')
        if al is None:
            al = z3.Const('alloc!0', z3.ArraySort(REF, z3.BoolSort()))
        self.assume(Not(sel(al, r)))
        self.st.cells['alloc'] = z3.Store(al, r, TRUE)
        for k in self.mro(c):
            self.assume(self.isinst_pred(k.key, r))
        for k in self.w.schema.get('disjoint', {}).get(c.key, ()):
            self.assume(Not(self.isinst_pred(k, r)))
        v = SV(TRef(c.key), r)
        m = self.mro_lookup(c, '__init__')
        if m:
            self.call_func(FuncV(m[0], m[1].mod, m[1].qual), [v] + list(args), kw, n)
        return v

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        vals = list(args)
        for i, nm in enumerate(names):
            if i < len(vals):
                env[nm] = vals[i]
        if len(vals) > len(names):
            if a.vararg is None:
                raise PyRaise('TypeError')
            env[a.vararg.arg] = TupV(vals[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = TupV([])
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    raise PyRaise('TypeError')
                env[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            env[a.kwarg.arg] = RecV(extra)
        elif extra:
            raise PyRaise('TypeError')
        dn = names[len(names) - len(a.defaults):]
        for nm, d in zip(dn, a.defaults):
            if nm not in env:
                env[nm] = self.eval_static(f.mod, d, f.cls) if not f.closure else self.eval(d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval_static(f.mod, d, f.cls)
        for nm in names:
            if nm not in env:
                raise PyRaise('TypeError')
        return env

    def call_func(self, f, args, kw, n):
        q = f.qual
        if q in self.w.models:
            return self.w.models[q](self, args, kw, n)
        if q in self.w.contracts and not isinstance(f.node, ast.Lambda):
            c = self.w.contracts[q]
            c = c.caller or c
            if c.modular:
                env = self.bind_args(f, args, kw)
                if c.accepts(env):
                    self.used_contracts.add(q)
                    return c.apply_call(self, env)
        if not isinstance(f.node, ast.Lambda):
            self.inlined.add(q)
        if self.depth > self.MAXDEPTH or sum(1 for c in self.ctx if c.get('qual') == q) > 0 and not isinstance(f.node, ast.Lambda):
            raise Unsupported('recursive call of %s' % q)
        env = self.bind_args(f, args, kw)
        return self.run_body(f, env)

    def run_body(self, f, env):
        fid = self.push_frame(f.mod, f.cls, f.closure)
        self.ctx[-1]['qual'] = f.qual
        self.st.frames[fid].update(env)
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                raise Unsupported('generator function')
            for d in f.node.decorator_list:
                nm = d.func if isinstance(d, ast.Call) else d
                nm = nm.attr if isinstance(nm, ast.Attribute) else getattr(nm, 'id', '?')
                if nm not in ('staticmethod', 'classmethod', 'property', 'deprecated', 'setter', 'abstractmethod'):
                    raise Unsupported('decorator ' + nm)
            try:
                self.exec_block(f.node.body)
            except ReturnEx as r:
                return r.v
            return NONE
        finally:
            self.depth -= 1
            self.ctx.pop()
