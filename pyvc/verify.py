"""Generation and discharge of all obligations of a set of contracts."""
import multiprocessing as mp
import os, signal, sys, time, traceback
import z3
from . import syms
from .core import *
from .types import GLOBAL_CONSTS
from .split import split, canon

_JOBS = []
# overall limits (seconds): generation of all obligations, solving of all obligations
GEN_LIMIT = float(os.environ.get('PYVC_GEN_LIMIT', '260'))
SOLVE_LIMIT = float(os.environ.get('PYVC_SOLVE_LIMIT', '380'))
_DEADLINE = [None]


class GenTimeout(BaseException):
    pass

CONFIGS = [
    {'rlimit': 6000000, 'opts': {}},
    {'rlimit': 20000000, 'opts': {'smt.random_seed': 7, 'smt.qi.eager_threshold': 100.0}},
    {'rlimit': 20000000, 'opts': {'smt.relevancy': 0, 'smt.random_seed': 3}},
    {'rlimit': 30000000, 'opts': {'smt.arith.solver': 2, 'smt.random_seed': 11}},
]
QUICK = [dict(c, rlimit=1000000) for c in CONFIGS]
MONO = {'rlimit': 6000000, 'opts': {}, 'mono': True}
STEP = {'rlimit': 6000000, 'opts': {}, 'step': True}
LINEAR = {'rlimit': 6000000, 'opts': {}, 'linear': True}
VAC = {'rlimit': 3000000, 'opts': {}}


def strlit_axioms():
    lits = [c for k, c in GLOBAL_CONSTS.items() if k[0] == 'str']
    return [z3.Distinct(*lits)] if len(lits) > 1 else []


def linear(f, cache):
    """products and quotients of terms as uninterpreted functions"""
    k = f.get_id()
    if k in cache:
        return cache[k][1]
    r = f
    if z3.is_app(f) and f.num_args():
        cs = [linear(c, cache) for c in f.children()]
        op = f.decl().kind()
        num = lambda c: z3.is_int_value(c) or z3.is_rational_value(c)
        if op in (z3.Z3_OP_DIV, z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not num(cs[1]):
            r = z3.Function('nl!%d!%s' % (op, f.sort()), f.sort(), f.sort(), f.sort())(*cs)
        elif op == z3.Z3_OP_MUL and sum(not num(c) for c in cs) > 1:
            g = z3.Function('nl!%d!%s' % (op, f.sort()), f.sort(), f.sort(), f.sort())
            r = cs[0]
            for c in cs[1:]:
                r = r * c if num(r) else c * r if num(c) else g(r, c)
        elif any(a.get_id() != b.get_id() for a, b in zip(cs, f.children())):
            r = f.decl()(*cs)
    cache[k] = (f, r)
    return r


def check(pc, goal, cfg, timeout=60000):
    s = z3.Solver()
    s.set('auto_config', False)
    s.set('smt.mbqi', False)
    s.set('rlimit', cfg['rlimit'])
    s.set('timeout', timeout)
    for k, v in cfg['opts'].items():
        s.set(k, v)
    cache = {}
    fs = [canon(f, cache) for f in list(pc) + [z3.Not(goal)]]
    if cfg.get('linear'):
        lc = {}
        fs = [linear(f, lc) for f in fs]
    for f in fs + syms.axioms(fs, cfg.get('mono', False), cfg.get('step', False)) + strlit_axioms():
        s.add(f)
    r = s.check()
    st = {k: v for k, v in s.statistics()}
    return str(r), st.get('rlimit count', 0), (s.reason_unknown() if str(r) == 'unknown' else '')


def solve(i):
    name, pc, goal, kind = _JOBS[i]
    t0 = time.time()
    try:
        if kind == 'vacuity':
            r, n, why = check(pc, goal, VAC)
            return i, ('failed' if r == 'unsat' else 'discharged'), time.time() - t0, r
        if z3.is_true(z3.simplify(goal)):
            return i, 'discharged', time.time() - t0, 'trivial'
        why = ''
        if kind == 'lemma' and check(pc, goal, MONO, 20000)[0] == 'unsat':
            return i, 'discharged', time.time() - t0, 'z3, monotone sums'
        for g in witnessed(pc, goal):
            parts = split(g)
            if all(pieces(pc, h, x) for h, x in parts):
                return i, 'discharged', time.time() - t0, 'z3, with the named witness'
        for k, cfg in enumerate(QUICK):
            if check(pc, goal, cfg, 10000)[0] == 'unsat':
                return i, 'discharged', time.time() - t0, 'z3#q%d' % k
            if k == 0:
                gs = z3.simplify(goal)
                if not linear(gs, {}).eq(gs) and check(pc, gs, dict(LINEAR, rlimit=1000000), 10000)[0] == 'unsat':
                    return i, 'discharged', time.time() - t0, 'z3, linear'
        parts = split(goal)
        if len(parts) > 1 and all(pieces(pc, h, g, QUICK[:2]) for h, g in parts):
            return i, 'discharged', time.time() - t0, 'z3, component-wise'
        for k, cfg in enumerate(CONFIGS):
            left = _DEADLINE[0] - time.time() if _DEADLINE[0] else 60
            if left < 1:
                return i, 'failed', time.time() - t0, 'unknown (time limit of the check)'
            r, n, why = check(pc, goal, cfg, int(1000 * min(60, left)))
            if r == 'unsat':
                return i, 'discharged', time.time() - t0, 'z3#%d' % k
            if r == 'sat':
                return i, 'failed', time.time() - t0, 'sat'
            if k == 0:
                gs = z3.simplify(goal)
                if not linear(gs, {}).eq(gs) and check(pc, gs, LINEAR, 20000)[0] == 'unsat':
                    return i, 'discharged', time.time() - t0, 'z3, linear'
                if any(y.kind == 'sum' for y in syms.used(list(pc) + [goal])) and check(pc, goal, STEP, 20000)[0] == 'unsat':
                    return i, 'discharged', time.time() - t0, 'z3, sums differing at one place'
                parts = split(goal)
                if len(parts) > 1 and all(pieces(pc, h, g) for h, g in parts):
                    return i, 'discharged', time.time() - t0, 'z3, component-wise'
        return i, 'failed', time.time() - t0, 'unknown ' + why
    except z3.Z3Exception as e:
        return i, 'failed', time.time() - t0, 'error %s' % e


def witnessed(pc, goal):
    """an existential goal whose pattern is a marker predicate, for the terms the hypotheses mark (each instance implies the goal)"""
    if z3.is_quantifier(goal) and goal.is_exists() and goal.num_vars() == 1 and goal.num_patterns() == 1:
        p = goal.pattern(0).children()[0]
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.num_args() == 1 and z3.is_var(p.arg(0)):
            for f in pc:
                if z3.is_app(f) and f.decl().eq(p.decl()) and f.num_args() == 1:
                    yield z3.substitute_vars(goal.body(), f.arg(0))


def pieces(pc, hyp, goal, cfgs=None):
    goal = z3.simplify(goal)
    if z3.is_true(goal):
        return True
    sks = [c for c in syms.free_consts([goal] + list(hyp)) if str(c).startswith('sk!')]
    ground = [f for f in pc if not z3.is_quantifier(f)] + list(hyp)
    for f in pc:
        if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1:
            ground += [z3.simplify(z3.substitute_vars(f.body(), c)) for c in sks if c.sort() == f.var_sort(0)]
    cfgs = cfgs or CONFIGS[:2]
    r = check(ground, goal, cfgs[0], 10000)[0]
    if r == 'unsat':
        return True
    for cfg in cfgs:
        left = _DEADLINE[0] - time.time() if _DEADLINE[0] else 60
        if left < 1:
            return False
        r = check(list(pc) + hyp, goal, cfg, int(1000 * min(30, left)))[0]
        if r == 'unsat':
            return True
        if os.environ.get('PYVC_SPLIT'):
            print('PIECE', r, str(goal)[:3000], [str(h)[:300] for h in hyp], flush=True)
        if r == 'sat':
            return False
    return False


class FuncResult:
    def __init__(self, qual):
        self.qual = qual
        self.unsupported = None
        self.obls = []      # (name, status, time, how)
        self.inlined = set()
        self.used = set()
        self.gen_s = 0.0
        self.stats = {}


def _alarm(*a):
    raise GenTimeout()


def generate(world, c, left=GEN_LIMIT):
    r = FuncResult(c.label)
    t0 = time.time()
    hints = {}
    obls = []
    if left < 1:
        r.unsupported = 'time limit of the generation of obligations'
        return r, obls
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, min(left, 150))
    try:
        for _ in range(60):
            try:
                obls, ip = c.generate(world, hints)
                break
            except Retype:
                continue
        else:
            raise Unsupported('type inference does not terminate')
        r.inlined, r.used, r.stats = ip.inlined, ip.used_contracts, ip.stats
    except GenTimeout:
        r.unsupported, obls = 'time limit of the generation of obligations', []
    except Unsupported as u:
        r.unsupported = str(u)
        if os.environ.get('PYVC_TRACE'):
            print(''.join(traceback.format_exc().splitlines(True)[-30:]))
    except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError) as e:
        # the engine met source it was not built for
        r.unsupported = 'engine: %s: %s' % (type(e).__name__, e)
        if os.environ.get('PYVC_TRACE'):
            print(''.join(traceback.format_exc().splitlines(True)[-30:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r.gen_s = time.time() - t0
    return r, obls


def _work(arg):
    """one function in its own process: generate, then solve"""
    world_fn, idx = arg
    raise NotImplementedError


def run(world, contracts, procs=8, verbose=False, extra=(), thorough=False):
    """verify all contracts; returns [FuncResult]"""
    global _JOBS
    res = []
    jobs = []
    owner = []
    end = time.time() + GEN_LIMIT
    for c in contracts:
        r, obls = generate(world, c, end - time.time())
        res.append(r)
        for o in obls:
            jobs.append(o)
            owner.append(r)
        if verbose:
            print('%-90s %3d obligations %5.1fs %s' % (c.label, len(obls), r.gen_s, r.unsupported or ''), flush=True)
    if extra:
        r = FuncResult('lemmas')
        res.append(r)
        for name, facts, goal in extra:
            jobs.append(('lemma :: ' + name, list(facts), goal, 'lemma'))
            owner.append(r)
    _JOBS = jobs
    _DEADLINE[0] = time.time() + SOLVE_LIMIT * (2 if thorough else 1)
    if jobs:
        ctx = mp.get_context('fork')
        with ctx.Pool(procs, maxtasksperchild=1) as pool:      # every obligation is solved from the same state: same answer on every run
            for i, st, t, how in pool.imap_unordered(solve, range(len(jobs)), chunksize=1):
                owner[i].obls.append((jobs[i][0], st, t, how, jobs[i][3]))
                if verbose and st != 'discharged':
                    print('   FAILED', jobs[i][0], how, '%.1fs' % t, flush=True)
    return res
