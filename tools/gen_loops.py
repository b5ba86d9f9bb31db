#!/usr/bin/env python3
"""records the loops of the functions that have loop invariants (run after writing invariants) -> contracts/loops.json"""
import glob, importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from contracts import base
from pyvc import loops
from pyvc.interp import Interp
out = {}
for f in sorted(glob.glob(HERE + '/contracts/c??.py')):
    mod = importlib.import_module('contracts.' + os.path.basename(f)[:-3])
    w = base.world(mod)
    ip = Interp(w)
    for c in list(mod.CONTRACTS()) + list(base.extra_contracts(mod)):
        if c.loops:
            out[c.qual] = [loops.signature(x) for x in loops.loops_of(ip.func_by_key(c.qual).node)]
json.dump(out, open(loops.BASE, 'w'), indent=1, sort_keys=True)
print(len(out), 'functions')
