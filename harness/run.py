"""Runs the concrete contract oracle of one property on the real code (under /opt/venv/bin/python).
usage: run.py PID --out OUT.json [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, importlib, json, multiprocessing as mp, os, random, sys, time, traceback, warnings, signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
warnings.filterwarnings('ignore')

MOD = None


class Violation(Exception):
    """the real code broke the contract on a concrete input"""

    def __init__(self, key, msg, data=None):
        Exception.__init__(self, msg)
        self.key, self.msg, self.data = key, msg, data


class CaseTimeout(Exception):
    pass


def one(name, fn, seed, k, limit=60):
    rng = random.Random('%s:%s:%s' % (seed, name, k))
    try:
        signal.signal(signal.SIGALRM, lambda *a: (_ for _ in ()).throw(CaseTimeout()))
        signal.alarm(limit)
        n = fn(rng, k)
        signal.alarm(0)
        return (name, k, None, n if isinstance(n, int) and not isinstance(n, bool) else 1)
    except CaseTimeout:
        return (name, k, None, 0)
    except Exception as e:
        signal.alarm(0)
        key = getattr(e, 'key', None) if type(e).__name__ == 'Violation' else None
        if key is None:
            key = name + ':exception:' + type(e).__name__
        return (name, k, {'key': key, 'case': name, 'k': k, 'seed': seed, 'msg': str(e)[:3000],
                          'data': repr(getattr(e, 'data', None))[:4000], 'trace': traceback.format_exc()[-3000:]}, 1)


def worker(args):
    name, idx, seed, ks, deadline = args
    fn = MOD.CASES[idx][1]
    out = []
    done = 0
    checks = 0
    for k in ks:
        if time.time() > deadline and done >= 5:      # a few cases of every chunk even on a slow machine
            break
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            r = one(name, fn, seed, k)
        done += 1
        checks += r[3]
        if r[2] is not None:
            out.append(r[2])
            if len(out) >= 3:
                break
    return name, done, checks, out


def main():
    global MOD
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--out')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--procs', type=int, default=4)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--replay')
    a = ap.parse_args()
    t0 = time.time()
    MOD = importlib.import_module(a.pid.lower())
    if a.replay:
        d = json.load(open(a.replay))
        v = d['failing_input']
        for c in MOD.CASES:
            if c[0] == v['case']:
                r = one(c[0], c[1], v['seed'], v['k'])
                print(json.dumps(r[2], indent=1))
                sys.exit(1 if r[2] else 0)
        sys.exit(2)
    budget = a.budget or (45.0 if a.tier == 'quick' else 500.0)
    mult = 1 if a.tier == 'quick' else 12
    jobs = []
    deadline = time.time() + budget
    for i, c in enumerate(MOD.CASES):
        n = c[2] * mult if len(c) < 4 else c[2]
        ks = list(range(n))
        chunks = max(1, min(a.procs * 2, n // 5 or 1))
        for j in range(chunks):
            jobs.append((c[0], i, a.seed, ks[j::chunks], deadline))
    res = {'cases': {}, 'violations': [], 'checks': 0}
    planned = {c[0]: (c[2] * mult if len(c) < 4 else c[2]) for c in MOD.CASES}
    with mp.get_context('fork').Pool(a.procs) as p:
        for name, done, checks, out in p.imap_unordered(worker, jobs):
            res['cases'][name] = res['cases'].get(name, 0) + done
            res['checks'] += checks
            res['violations'] += out
    res['planned'] = planned
    res['wall_s'] = time.time() - t0
    res['bounds'] = getattr(MOD, 'BOUNDS', '')
    json.dump(res, open(a.out, 'w') if a.out else sys.stdout, indent=1)


if __name__ == '__main__':
    sys.modules['run'] = sys.modules['__main__']
    main()
