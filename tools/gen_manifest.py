"""writes MANIFEST.json: the claimed checks (contracts/cXX.py present) and the properties that are not claimed"""
import json, os, importlib, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
NA = {
    'N01': 'the serialisers go through XML/JSON libraries, pandas and the file system: no contract on their behaviour is available, so no obligation about a round trip can be generated',
    'N02': 'the miner works on pandas/networkx structures with recursive cut detection over mutable graphs; the statement needs language semantics of unbounded process trees, outside the SMT fragment of the verifier',
    'N03': 'the analysis uses linear-algebra libraries and a coverability graph held in networkx objects; soundness of the verdict is a liveness statement over unbounded markings with no contract within reach',
    'N04': 'language preservation of recursive graph translations needs inductive reasoning about firing sequences of two different models, outside the reach of the verifier',
    'N05': 'the conversions are performed by pandas (grouping, sorting, typed columns), for which no contracts exist',
    'N06': 'the distance is computed by an external linear-programming solver on floating point numbers',
}
NOTES = {}
checks = []
na = []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    pid = p['id']
    if os.path.exists(os.path.join(H, 'contracts', pid.lower() + '.py')):
        mod = importlib.import_module('contracts.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': 'python3-vt check.py %s quick' % pid,
            'thorough_cmd': 'python3-vt check.py %s thorough' % pid,
            'technique': 'contract-based deductive verification: VCs generated from the real source, discharged by z3',
            'level': getattr(mod, 'LEVEL', 'proof'),
            'level_note': getattr(mod, 'NOTE', '') or 'Contracts on the real functions, every obligation discharged by z3 for all inputs; trusted: the VC generator /verif/pyvc and its models of Python builtins, z3, mathematical integers/reals for machine numbers. A bounded concrete oracle of the same contracts supplies failing inputs; it is not counted as proved.'})
    else:
        na.append({'property': pid, 'reason': NA.get(pid) or getattr(sys.modules[__name__], 'REASON', {}).get(pid, 'contracts for this property are not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3; print(z3.get_version_string())"', 'checks': checks, 'not_applicable': na,
           'notes': 'see DESIGN.md'}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
