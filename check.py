#!/usr/bin/env python3
"""check.py PID [quick|thorough] : decides one property.

1. generates every proof obligation of the property's contracts from the current source of /repo and discharges
   them with z3 (deciding step);
2. runs the contracts as a concrete oracle on the real code (replay of violations, bounded stand-in for functions
   that are outside the verifier's reach)."""
import importlib, json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
PYREAL = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0':     # the same terms in the same order on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    pid = sys.argv[1].upper()
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    hout = os.path.join(HERE, 'evidence', '.%s.harness.json' % pid)
    if os.path.exists(hout):
        os.remove(hout)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    env['PYTHONPATH'] = os.environ.get('VERIF_REPO', '/repo')
    hp = None
    if os.path.exists(os.path.join(HERE, 'harness', pid.lower() + '.py')):
        hp = subprocess.Popen([PYREAL, os.path.join(HERE, 'harness', 'run.py'), pid, '--out', hout, '--tier', tier, '--seed', seed],
                              env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, cwd='/tmp')
    # ---- obligations
    from pyvc import verify
    from contracts import base
    mod = importlib.import_module('contracts.' + pid.lower())
    cs = mod.CONTRACTS()
    w = base.world(mod)
    for c in cs:
        w.contracts.setdefault(c.qual, c)
    uses = base.extra_contracts(mod)
    for c in uses:
        w.contracts.setdefault(c.qual, c)
    tg = time.time()
    extra = list(getattr(mod, 'LEMMAS', lambda: [])())
    res = verify.run(w, cs, extra=extra, thorough=(tier == 'thorough'))
    tsolve = time.time() - tg
    hres = None
    herr = ''
    if hp is not None:
        try:
            _, e = hp.communicate(timeout=780)
            herr = e.decode()[-3000:]
        except subprocess.TimeoutExpired:
            hp.kill()
        if os.path.exists(hout):
            try:
                hres = json.load(open(hout))
            except ValueError:
                hres = None
            os.remove(hout)
    known = [k for k in json.load(open(os.path.join(HERE, 'known_findings.json'))) if k.get('status') == 'open' and k['property'] == pid]
    # ---- outcome
    from pyvc import loops, interp
    inv = {c.label: c.qual for c in cs if c.loops}
    for r in res:
        if r.qual in inv and any(o[1] != 'discharged' for o in r.obls) and loops.moved(inv[r.qual], interp.Interp(w).func_by_key(inv[r.qual]).node):
            # the invariants were written for other loops: nothing is decided about this function until they are adapted
            r.unsupported = '%d obligations fail after the number of loops changed: the loop invariants need to be adapted' % sum(o[1] != 'discharged' for o in r.obls)
            r.obls = []
    total = sum(len(r.obls) for r in res)
    failed = [(r.qual, o) for r in res for o in r.obls if o[1] != 'discharged']
    uns = [(r.qual, r.unsupported) for r in res if r.unsupported]
    names = [r.qual for r in res if not r.unsupported and r.qual != 'lemmas']
    code = 0
    lines = []
    viol = []
    knownhit = set()
    if hres:
        for v in hres['violations']:
            kf = [k for k in known if k['key'] == v['key']]
            if kf:
                knownhit.add(kf[0]['key'])
                continue
            viol.append(v)
    for k in known:
        lines.append('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rp = os.path.join('replay', pid + '.json')
    obl_json = [{'function': q, 'obligation': o[0], 'status': o[1], 'answer': o[3]} for q, o in failed]
    if viol:
        json.dump({'property': pid, 'failing_input': viol[0], 'other_failing_inputs': viol[1:6], 'failed_obligations': obl_json,
                   'replay_cmd': 'PYTHONPATH=/repo %s %s/harness/run.py %s --replay %s/%s' % (PYREAL, HERE, pid, HERE, rp)},
                  open(os.path.join(HERE, rp), 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        code = 1
    elif failed:
        json.dump({'property': pid, 'failed_obligations': obl_json, 'verifier': 'z3 (python API), see pyvc/verify.py',
                   'note': 'the verifier did not accept these obligations, generated from the current source; no failing input was found by the concrete oracle',
                   'replay_cmd': 'cd %s && python3-vt check.py %s' % (HERE, pid)}, open(os.path.join(HERE, rp), 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        code = 1
    if hp is not None and hres is None:
        print('harness gave no result: ' + herr, file=sys.stderr)
        if code == 0:
            # a tree whose code cannot even be imported or run does not satisfy the property
            json.dump({'property': pid, 'failing_input': {'msg': 'the code under test could not be exercised', 'stderr': herr}}, open(os.path.join(HERE, rp), 'w'), indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
            code = 1
    # ---- evidence
    inl = sorted(set(x for r in res for x in r.inlined) - set(names))
    used = sorted(set(x for r in res for x in r.used) - set(names))
    assumed = list(getattr(mod, 'ASSUMPTIONS', [])) + base.ASSUMPTIONS
    trusted = list(base.TRUSTED) + ['assumed contract (discharged under another property): ' + q for q in used]
    cov = {
        'obligations': total,
        'discharged': total - len(failed),
        'checker_cmd': 'cd /verif && python3-vt check.py %s' % pid,
        'trusted_base': trusted + assumed,
        'backend': 'z3 %s' % __import__('z3').get_version_string(),
        'functions_under_contract': [{'function': r.qual, 'obligations': len(r.obls), 'discharged': sum(1 for o in r.obls if o[1] == 'discharged'),
                                      'solver_s': round(sum(o[2] for o in r.obls), 3), 'generation_s': round(r.gen_s, 3),
                                      'loops_summarised_exactly': r.stats.get('loops_auto', 0), 'loops_by_invariant': r.stats.get('loops_inv', 0),
                                      'side_conditions_proved': r.stats.get('side', 0)} for r in res if not r.unsupported and r.qual != 'lemmas'],
        'lemmas': [o[0] for r in res if r.qual == 'lemmas' for o in r.obls],
        'functions_inlined_into_those_proofs': inl,
        'contracts_used_from_other_properties': used,
        'functions_outside_the_verifier_now': [{'function': q, 'reason': u} for q, u in uns],
        'vacuity_checks': sum(1 for r in res for o in r.obls if o[4] == 'vacuity'),
        'solver_s': round(sum(o[2] for r in res for o in r.obls), 2),
        'verification_wall_s': round(tsolve, 2),
        'bounded_oracle': {'label': 'bounded, not counted as proved', 'what': getattr(mod, 'BOUNDED', ''),
                           'cases': hres['cases'] if hres else {}, 'planned': hres.get('planned') if hres else {}, 'checks': hres['checks'] if hres else 0,
                           'bounds': hres['bounds'] if hres else '', 'violations': len(viol), 'known_findings_seen': sorted(knownhit)},
    }
    level = json_level(pid)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(seed), 'level': level, 'coverage': cov,
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + (len(failed) if not viol else 0)}
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions under contract, %d/%d obligations discharged, %d outside the verifier, oracle: %s cases; %.1fs' % (
        pid, len(names), total - len(failed), total, len(uns), sum(hres['cases'].values()) if hres else 0, time.time() - t0))
    for q, o in failed[:20]:
        print('  not discharged: %s [%s]' % (o[0], o[3]))
    for q, u in uns:
        print('  outside the verifier: %s: %s' % (q, u))
    for v in viol[:3]:
        print('  failing input: %s case %s/%s: %s' % (v['key'], v['case'], v['k'], v['msg'][:400]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    os._exit(code)


def json_level(pid):
    try:
        m = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
        for c in m['checks']:
            if c['property'] == pid:
                return c['level']
    except Exception:
        pass
    return 'proof'


if __name__ == '__main__':
    main()
