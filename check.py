#!/usr/bin/env python3
import sys, os, importlib.util, glob
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'vx')); sys.path.insert(0, os.path.join(V, 'checks'))
import lib
mods = {}
for f in sorted(glob.glob(os.path.join(V, 'checks', '*.py'))):
    n = os.path.basename(f)[:-3]
    if n.startswith('_'): continue
    sp = importlib.util.spec_from_file_location(n.replace('-', '_'), f)
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    mods[m.ID] = m
ids = [i for i in mods if not sys.argv[1:] or any(i == a or mods[i].__name__.startswith(a) for a in sys.argv[1:])]
if not ids: print('no such check'); sys.exit(2)
sys.exit(lib.main(mods, sorted(ids)))
