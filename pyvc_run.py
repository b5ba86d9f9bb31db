import sys, importlib, os
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
from pyvc.core import World
from pyvc import verify
pid = sys.argv[1].lower()
mod = importlib.import_module('contracts.' + pid)
from contracts import base
w = base.world(mod)
cs = mod.CONTRACTS()
for c in cs: w.contracts.setdefault(c.qual, c)
for c in base.extra_contracts(mod): w.contracts.setdefault(c.qual, c)
only = sys.argv[2:] 
cs = [c for c in cs if not only or any(o in c.qual for o in only)]
res = verify.run(w, cs, verbose=True, extra=(getattr(mod,"LEMMAS",lambda:[])() if not only else ()))
n = sum(len(r.obls) for r in res); d = sum(1 for r in res for o in r.obls if o[1] == 'discharged')
print(n, d, 'max time', max([o[2] for r in res for o in r.obls] or [0]))
if os.environ.get('PYVC_SLOW'):
    for t, r, o in sorted(((o[2], r.name if hasattr(r, 'name') else '', o) for r in res for o in r.obls), key=lambda x: -x[0])[:8]:
        print('SLOW %.1f' % t, r, o[0], o[1], o[3:])
