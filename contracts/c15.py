"""C15 Streaming directly-follows discovery equals batch discovery."""
from .log import *
from .c06 import one
from pyvc import syms
from pyvc.core import TupV

M = 'pm4py.streaming.algo.discovery.dfg.variants.frequency'
SD = M + ':StreamingDfgDiscovery'
ALGO = TRef(SD)
STRS = TDict(TStr, TStr)
CNT = TDict(TStr, TInt)
SPAIR = TTuple(TStr, TStr)
SDFG = TDict(SPAIR, TInt)
F = {k: (SD, k) for k in ('case_dict', 'dfg', 'activities', 'start_activities', 'activity_key', 'case_id_key', '_lock')}
LOCK = TU('Lock')
S = TStr.sort()
text = z3.Function('text', VAL.sort(), S)               # str(value)
pair = z3.Function('pair_text', S, S, S)                # str of a pair of strings
first, second = z3.Function('pair_first', S, S), z3.Function('pair_second', S, S)


def facts(ip):
    a, b = z3.Consts('a! b!', S)
    return definition() + [z3.ForAll([a, b], And(first(pair(a, b)) == a, second(pair(a, b)) == b), patterns=[pair(a, b)])]


def setup(w):
    w.schema[SD] = {'parameters': lambda ip, v: ParamsV(tag='self!'), 'case_dict': STRS, 'dfg': CNT, 'activities': CNT, 'start_activities': CNT, 'activity_key': TStr, 'case_id_key': TStr, '_lock': LOCK}
    w.facts = facts

    def m_str(ip, args, kw, n):
        v = args[0]
        if isinstance(v, SV) and v.t == VAL:
            return SV(TStr, text(v.e))
        if isinstance(v, SV) and v.t == TStr:
            return v
        t = getattr(v, 'items', None)
        if t is not None and len(t) == 2:
            return SV(TStr, pair(*[ip.term(x, TStr) for x in t]))
        if isinstance(v, SV) and isinstance(v.t, TRef):
            return SV(TStr, ip.fresh(S, 'shown'))
        raise Unsupported('str')
    w.models['builtins.str'] = m_str

    def m_eval(ip, args, kw, n):
        e = ip.term(args[0], TStr)
        return ip.lift(SPAIR, SPAIR.mk(first(e), second(e)))
    w.models['builtins.eval'] = m_eval
    def gpv(ip, args, kw, n):       # every kind of dictionary behaves as one
        if isinstance(args[0], EnumV) and isinstance(args[0].value, SV) and args[0].value.py == 'dict_variant':
            return OpaqueV('dict variant')
        return get_param_value(ip, args, kw, n)
    w.models['pm4py.util.exec_utils:get_param_value'] = gpv
    w.models['.acquire'] = w.models['.release'] = lambda ip, v, args, kw, n: NONE
    w.models['threading.Lock'] = lambda ip, a, k, n: SV(LOCK, ip.fresh(LOCK.sort(), 'lock'))
    w.models['traceback.print_exc'] = lambda ip, a, k, n: NONE
    w.models['pm4py.streaming.util.dictio.generator:apply'] = lambda ip, a, k, n: ip.b_dict([], {}, n)
    w.models['logging.warning'] = lambda ip, a, k, n: NONE


def keys(s):
    return sel(s.heap(*F['case_id_key']), s.self), sel(s.heap(*F['activity_key']), s.self)


def process(s):
    L = Log(s)
    me, e = s.self, s.event
    kc, ka = keys(s)
    ok = And(L.has(e, kc), L.has(e, ka))
    case, act = text(L.val(e, kc)), text(L.val(e, ka))
    h = {k: s.heap(*F[k]) for k in ('case_dict', 'dfg', 'activities', 'start_activities')}
    cd = sel(h['case_dict'], me)
    known = sel(STRS.dom(cd), case)

    def inc(f, key, cond):
        d = sel(h[f], me)
        return z3.Store(h[f], me, z3.If(And(ok, cond), CNT.mk(z3.Store(CNT.dom(d), key, TRUE), z3.Store(CNT.val(d), key, z3.If(sel(CNT.dom(d), key), sel(CNT.val(d), key) + 1, 1))), d))
    return {F['activities']: inc('activities', act, TRUE), F['start_activities']: inc('start_activities', act, Not(known)), F['dfg']: inc('dfg', pair(sel(STRS.val(cd), case), act), known),
            F['case_dict']: z3.Store(h['case_dict'], me, z3.If(ok, STRS.mk(z3.Store(STRS.dom(cd), case, TRUE), z3.Store(STRS.val(cd), case, act)), cd))}


def get(s, f):
    return sel(s.heap(*F[f]), s.self)


def pair_keys(s):
    x = z3.FreshConst(S, 'x')
    d = get(s, 'dfg')
    return fa([x], z3.Implies(sel(CNT.dom(d), x), x == pair(first(x), second(x))), sel(CNT.dom(d), x))


def ends(cd):
    """number of cases that map to each activity"""
    a, c = z3.FreshConst(S, 'a'), z3.FreshConst(S, 'c')
    g = And(sel(STRS.dom(cd), c), sel(STRS.val(cd), c) == a)
    return CNT.mk(z3.Lambda([a], z3.Exists([c], g)), lam(a, syms.SUM(c, one(g))))


def unpaired(d):
    p = z3.FreshConst(SPAIR.sort(), 'p')
    k = pair(SPAIR.get(p, 0), SPAIR.get(p, 1))
    return SDFG.mk(z3.Lambda([p], sel(CNT.dom(d), k)), z3.Lambda([p], sel(CNT.val(d), k)))


def current(s):
    return TupV([SV(SDFG, unpaired(get(s, 'dfg'))), SV(CNT, get(s, 'activities')), SV(CNT, get(s, 'start_activities')), SV(CNT, ends(get(s, 'case_dict')))])


# ---------------------------------------------------------------- streams
IS = z3.IntSort()
HS = z3.ArraySort(REF, ATTRS.sort())
sig = [EVS.sort(), HS, S, S]
last = z3.Function('last_event_of_case', *sig, IS, S, IS)       # index of the last event of a case among the first k events, -1 if there is none
AT = z3.Function('STREAM!at', *sig, IS, z3.BoolSort())          # where the definition is unfolded (true everywhere)


class Ev:
    """the events of the stream as the algorithm reads them"""

    def __init__(self, events, h, kc, ka):
        self.a = (events, h, kc, ka)

    def attrs(self, k):
        return sel(self.a[1], sel(EVS.arr(self.a[0]), k))

    def ok(self, k):
        d = ATTRS.dom(self.attrs(k))
        return And(sel(d, self.a[2]), sel(d, self.a[3]))

    def case(self, k):
        return text(sel(ATTRS.val(self.attrs(k)), self.a[2]))

    def act(self, k):
        return text(sel(ATTRS.val(self.attrs(k)), self.a[3]))

    def last(self, k, c):
        return last(*self.a, k, c)

    def here(self, k):
        """event k follows an event of its case"""
        return self.last(k, self.case(k)) >= 0

    def before(self, k):
        return self.act(self.last(k, self.case(k)))


def definition():
    a = [z3.FreshConst(x, 'q') for x in sig]
    k, c = z3.FreshConst(IS, 'k'), z3.FreshConst(S, 'c')
    e = Ev(*a)
    return [z3.ForAll(a + [k], AT(*a, k), patterns=[AT(*a, k)]), z3.ForAll(a + [c], e.last(z3.IntVal(0), c) == -1, patterns=[e.last(z3.IntVal(0), c)]),
            z3.ForAll(a + [k], z3.Implies(k >= 0, z3.ForAll([c], e.last(k + 1, c) == z3.If(And(e.ok(k), e.case(k) == c), k, e.last(k, c)), patterns=[e.last(k + 1, c)])), patterns=[AT(*a, k)])]


def stream_of(s):
    me = s.algo
    return Ev(s.events, s.heap(*D), sel(s.heap(*F['case_id_key']), me), sel(s.heap(*F['activity_key']), me))


def upto(e, n):
    """the four dictionaries after the first n events"""
    a, b, c = [z3.FreshConst(S, x) for x in 'abc']
    k = z3.FreshConst(IS, 'k')
    g = And(k >= 0, k < n, e.ok(k))

    def cnt(key, x, cond):
        return CNT.mk(z3.Lambda([x], z3.Exists([k], And(g, cond, key == x))), lam(x, syms.SUM(k, one(And(g, cond, key == x)))))
    return {'activities': cnt(e.act(k), a, TRUE), 'start_activities': cnt(e.act(k), a, Not(e.here(k))), 'dfg': cnt(pair(e.before(k), e.act(k)), a, e.here(k)),
            'case_dict': STRS.mk(z3.Lambda([c], e.last(n, c) >= 0), z3.Lambda([c], e.act(e.last(n, c))))}


def same(t, x, y):
    a = z3.FreshConst(S, 'a')
    return And(z3.ForAll([a], sel(t.dom(x), a) == sel(t.dom(y), a)), z3.ForAll([a], z3.Implies(sel(t.dom(x), a), sel(t.val(x), a) == sel(t.val(y), a))))


def last_is_last(e, n):
    k, c, j = z3.FreshConst(IS, 'k'), z3.FreshConst(S, 'c'), z3.FreshConst(IS, 'j')
    l = e.last(k, c)
    return z3.ForAll([k, c], z3.Implies(And(k >= 0, k <= n), And(l >= -1, l < k, z3.Implies(l >= 0, And(e.ok(l), e.case(l) == c)),
                                                                fa([j], z3.Implies(And(j >= 0, j > l, j < k, e.ok(j)), e.case(j) != c), e.attrs(j)))), patterns=[l])


def inv(l):
    me = l.old('algo')
    e = Ev(l.old('events'), l.heap_old(*D), sel(l.heap_old(*F['case_id_key']), me), sel(l.heap_old(*F['activity_key']), me))
    want = upto(e, l.done)
    r = [(f, same(STRS if f == 'case_dict' else CNT, sel(l.heap(*F[f]), me), want[f])) for f in want]
    o = z3.FreshConst(REF, 'o')
    r += [('other objects: ' + f, fa([o], z3.Implies(o != me, sel(l.heap(*F[f]), o) == sel(l.heap_old(*F[f]), o)), sel(l.heap(*F[f]), o))) for f in want]
    x = z3.FreshConst(S, 'x')
    d = sel(l.heap(*F['dfg']), me)
    r += [('keys are texts of pairs', fa([x], z3.Implies(sel(CNT.dom(d), x), x == pair(first(x), second(x))), sel(CNT.dom(d), x)))]
    return r + [('the last event of a case', last_is_last(e, l.done))]


def unfold(l):
    me = l.old('algo')
    return [AT(l.old('events'), l.heap_old(*D), sel(l.heap_old(*F['case_id_key']), me), sel(l.heap_old(*F['activity_key']), me), l.done)]


def empty_at(s):
    x = z3.FreshConst(S, 'x')
    return [('nothing received yet: ' + f, z3.ForAll([x], Not(sel((STRS if f == 'case_dict' else CNT).dom(sel(s.heap(*F[f]), s.algo)), x)))) for f in ('case_dict', 'dfg', 'activities', 'start_activities')]


RES = TTuple(SDFG, CNT, CNT, CNT)


def reported(s, e=None):
    e = e or stream_of(s)
    n = EVS.len(s.events)
    r = s.result(RES)
    k, j, p, a, c = z3.FreshConst(IS, 'k'), z3.FreshConst(IS, 'j'), z3.FreshConst(SPAIR.sort(), 'p'), z3.FreshConst(S, 'a'), z3.FreshConst(S, 'c')
    x, y = SPAIR.get(p, 0), SPAIR.get(p, 1)
    want = upto(e, n)
    got = [RES.get(r, i) for i in range(4)]
    g = And(k >= 0, k < n, e.ok(k))
    succ = And(g, e.here(k), e.before(k) == x, e.act(k) == y)
    fin = And(e.last(n, c) >= 0, e.act(e.last(n, c)) == a)
    return [('the last event of a case', last_is_last(e, n)),
            ('directly-follows pairs', z3.ForAll([p], sel(SDFG.dom(got[0]), p) == z3.Exists([k], succ))),
            ('directly-follows frequencies', z3.ForAll([p], z3.Implies(sel(SDFG.dom(got[0]), p), sel(SDFG.val(got[0]), p) == syms.SUM(k, one(succ))))),
            ('activity counts', same(CNT, got[1], want['activities'])),
            ('start activities', same(CNT, got[2], want['start_activities'])),
            ('end activities', z3.ForAll([a], sel(CNT.dom(got[3]), a) == z3.Exists([c], fin))),
            ('end activity counts', z3.ForAll([a], z3.Implies(sel(CNT.dom(got[3]), a), sel(CNT.val(got[3]), a) == syms.SUM(c, one(fin)))))]


def started(s):
    o = s.result(ALGO)
    r = [('keys from the parameters', And(sel(s.heap_now(*F['case_id_key']), o) == prm('pm4py:param:case_id_key', TStr, 'case:concept:name'), sel(s.heap_now(*F['activity_key']), o) == prm('pm4py:param:activity_key', TStr, 'concept:name')))]
    x = z3.FreshConst(S, 'x')
    return r + [('nothing received yet: ' + f, z3.ForAll([x], Not(sel((STRS if f == 'case_dict' else CNT).dom(sel(s.heap_now(*F[f]), o)), x)))) for f in ('case_dict', 'dfg', 'activities', 'start_activities')]


def from_parameters(s):
    kc, ka = z3.Const('case key', S), z3.Const('activity key', S)      # arbitrary: whatever the parameters say
    given = And(kc == prm('pm4py:param:case_id_key', TStr, 'case:concept:name'), ka == prm('pm4py:param:activity_key', TStr, 'concept:name'))
    return [(n, z3.Implies(given, f)) for n, f in reported(s, Ev(s.events, s.heap(*D), kc, ka))]


def CONTRACTS():
    return [
        Contract(M + ':apply', dict(parameters=params), post=started, result=ALGO, allocates=True, modifies=list(F.values())),
        Contract(SD + '._process', dict(self=ALGO, event=EVENT), effects=process),
        Contract(SD + '._current_result', dict(self=ALGO), pre=lambda s: [('keys are texts of pairs', pair_keys(s))], value=lambda s: current(s)),
        Contract('ghost.c15:received', dict(algo=ALGO, events=EVS), pre=empty_at, post=reported, modifies=[F[f] for f in ('case_dict', 'dfg', 'activities', 'start_activities')], result=RES, loops={0: LoopInv(inv, unfold=unfold)}),
        Contract('ghost.c15:discovered', dict(parameters=params, events=EVS), post=from_parameters, modifies=list(F.values()), result=RES, allocates=True),
    ]


NOTE = 'creation, receive and get proved for every finite stream: the reported numbers are sums over the received events, each compared with the last earlier event of its case'
ASSUMPTIONS = ['the dictionary kinds (dict, ThreadSafeDict) behave as dictionaries; the redis one is not considered',
               'str of a pair of strings and eval of that text are inverse (a pair_text function with projections)', 'str of an attribute value is an uninterpreted function of the value',
               'a stream is the sequence of receive calls; threading.Lock serialises them (LiveEventStream hands events to a thread pool and may reorder them before)',
               'traceback.print_exc and logging.warning have no effect on the result',
               'the batch numbers of the prefix log are stated over the stream: an event and the last earlier event of its case are consecutive in the trace of that case (definition of the prefix log)']
BOUNDED = 'bounded: ThreadSafeDict, text round trips of odd activity names, concurrent feeding threads, agreement with the batch functions on logs'
