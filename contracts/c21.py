"""C21 Algorithm parameters resolve by key with the stated precedence."""
import z3
from pyvc.types import *
from pyvc.core import And, Or, Not, ExtV, SV, Unsupported
from pyvc.contract import Contract

M = 'pm4py.util.exec_utils'
VAL = TU('PyVal')            # any Python value: strings, enumeration members, numbers, None ...
PARAMS = TOpt(TDict(VAL, VAL))
D = PARAMS.t
is_member = z3.Function('is_enum_member', VAL.sort(), z3.BoolSort())
value_of = z3.Function('enum_value', VAL.sort(), VAL.sort())
truthy = z3.Function('truthy', VAL.sort(), z3.BoolSort())


def setup(w):
    def isinst(ip, v, c):
        if isinstance(c, ExtV) and c.name.split('.')[-1] == 'Enum':
            return is_member(v.e)
        raise Unsupported('isinstance')
    w.models[(VAL.name, 'isinstance')] = isinst
    w.models[(VAL.name, 'truth')] = lambda ip, v: truthy(v.e)
    w.models[(VAL.name, 'value')] = lambda ip, v: SV(VAL, value_of(v.e))


def unroll(x):
    return z3.If(is_member(x), value_of(x), x)


def post_get(s):
    r = s.result(VAL)
    ps = s.parameters
    d = D
    m = PARAMS.val(ps)
    has = lambda k: And(Not(PARAMS.is_none(ps)), sel(d.dom(m), k))
    k = z3.FreshConst(VAL.sort(), 'k')
    named = z3.Exists([k], And(has(k), unroll(k) == unroll(s.p)))
    k2 = z3.FreshConst(VAL.sort(), 'k')
    return [
        ('stored under the key itself', z3.Implies(has(s.p), r == unroll(sel(d.val(m), s.p)))),
        ('else stored under a key with the same name', z3.Implies(And(Not(has(s.p)), named),
            z3.Exists([k2], And(has(k2), unroll(k2) == unroll(s.p), r == unroll(sel(d.val(m), k2)))))),
        ('else the default', z3.Implies(And(Not(has(s.p)), Not(named)), r == unroll(s.default))),
    ]


def CONTRACTS():
    return [
        Contract(M + ':unroll', dict(value=VAL), value=lambda s: (VAL, unroll(s.value))),
        Contract(M + ':get_param_value', dict(p=VAL, parameters=PARAMS, default=VAL), post=post_get, result=VAL),
        Contract(M + ':get_variant', dict(variant=VAL), value=lambda s: (VAL, unroll(s.variant))),
    ]


NOTE = 'Proved for all dictionaries, keys and defaults: a parameter is looked up by the enumeration member, then by its string value, then the default is used, presence (not truth) deciding; unrolling and variant resolution likewise.'
BOUNDED = 'random dictionaries with enumeration members, their string names and falsy values'
