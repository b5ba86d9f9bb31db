import sys
sys.path.insert(0,'/verif')
import importlib
from pyvc import verify, syms
from contracts import base
pid, sub, pat = sys.argv[1:4]
mod=importlib.import_module('contracts.'+pid)
w=base.world(mod); cs=mod.CONTRACTS()
for c in cs: w.contracts.setdefault(c.qual, c)
for c in base.extra_contracts(mod): w.contracts.setdefault(c.qual, c)
for c in cs:
    if sub in c.qual:
        r,obls=verify.generate(w,c)
        if r.unsupported: print('UNS', r.unsupported)
        for n,pc,g,k in obls:
            if pat in n:
                print('=====',n)
                for x in pc: print('  |',str(x).replace('\n',' ')[:1500])
                print('  |-',str(g).replace('\n',' ')[:6000])
                for s in syms.used(pc+[g]): print('   ',s.name,s.params,str(s.bodies).replace('\n',' '))
