#!/usr/bin/env python3-vt
"""run one proof task in-process and list every obligation: runtask.py C23 sort [budget]"""
import sys, importlib, time, cProfile
sys.path.insert(0, '/verif')
from vcg.build import Build
from vcg import task
p = importlib.import_module('props.' + sys.argv[1])
bld = Build(crc=False); bld.configure()
import os
prof = os.environ.get('PROF')
fn = [f for n, f in p.TASKS if n == sys.argv[2]][0]
if prof:
    pr = cProfile.Profile(); pr.enable()
r = task.run_task(bld.dir, bld.crc, sys.argv[2], fn, 'quick', float(sys.argv[3]) if len(sys.argv) > 3 else 240, {})
if prof:
    pr.disable()
    import pstats
    pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
for o in r['obs']:
    print(o['status'], o['time'], o['label'], o['where'], o['backend'], str(o['model'])[:80])
print(r['status'], r['error'])
