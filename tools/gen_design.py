"""writes DESIGN.md: tools/design_head.md, one section per property from its contract module, tools/design_tail.md"""
import ast, importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import gen_manifest


def bounds(pid):
    p = os.path.join(H, 'harness', pid.lower() + '.py')
    if not os.path.exists(p):
        return ''
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUNDS':
            return ast.literal_eval(n.value)
    return ''


def lines(x):
    return [x] if isinstance(x, str) else list(x)


out = [open(os.path.join(H, 'tools', 'design_head.md')).read().rstrip(), '']
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    pid = p['id']
    out += ['### %s %s' % (pid, p['title']), '']
    if not os.path.exists(os.path.join(H, 'contracts', pid.lower() + '.py')):
        out += ['*Not applicable:* ' + gen_manifest.NA.get(pid, 'not built'), '']
        continue
    m = importlib.import_module('contracts.' + pid.lower())
    out += [getattr(m, 'NOTE', ''), '']
    fs = {}
    for c in m.CONTRACTS():
        mod, f = c.label.split(':', 1)
        fs.setdefault(mod.replace('pm4py.', '', 1), []).append(f)
    out += ['* *Under contract (P):* ' + '; '.join('`%s`: %s' % (k, ', '.join(v)) for k, v in fs.items()) + '.']
    if hasattr(m, 'LEMMAS'):
        try:
            ls = [x[0] for x in m.LEMMAS()]
            out += ['* *Lemmas over the contracts (%d):* %s.' % (len(ls), '; '.join(ls[:14]) + (' …' if len(ls) > 14 else ''))]
        except Exception:
            out += ['* *Lemmas over the contracts:* see the module.']
    if getattr(m, 'ASSUMPTIONS', None):
        out += ['* *Assumed:* ' + '; '.join(lines(m.ASSUMPTIONS)) + '.']
    b = lines(getattr(m, 'BOUNDED', None) or [])
    if b:
        out += ['* *Bounded only (B):* ' + '; '.join(b) + '.']
    if bounds(pid):
        out += ['* *Oracle on the real code:* %s.' % bounds(pid)]
    out.append('')
out.append(open(os.path.join(H, 'tools', 'design_tail.md')).read().rstrip())
caught = json.load(open(os.path.join(H, 'tools', 'caught.json')))
out += ['', '| seeded bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', i, 'meta.json')))
    c = caught.get(i)
    by = 'not run yet'
    if c:
        by = []
        if c['obligations']:
            by.append('obligation(s) ' + '; '.join('`%s`' % o for o in c['obligations'][:2]))
        elif c['degraded']:
            by.append('the changed function leaves the verifier\'s subset, bounded oracle')
        by.append('failing input `%s`' % '`, `'.join(c['input']) if c['input'] else 'no failing input found')
        by = 'caught: ' + ', '.join(by) if c['caught'] else 'NOT CAUGHT'
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], by))
open(os.path.join(H, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(out), 'lines')
