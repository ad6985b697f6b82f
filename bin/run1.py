"""development driver: run the cases of one property sequentially and print everything"""
import sys, os
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
import importlib, time
from engine import spec, frontend, loops
if os.environ.get('DBG'): loops.DEBUG = True
importlib.import_module('props.' + sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ''
progs = {}
for c in spec.CASES:
    if pat not in c.name or c.prop != sys.argv[1]: continue
    key = (c.files, c.extra)
    if key not in progs: progs[key] = frontend.load(c.files, c.extra)
    r = spec.run_case(c, progs[key])
    bad = [o for o in r.obls if not o[1]]
    print('%-28s %-4s obls=%d bad=%d triv=%d covers=%d  %.1fs q=%d  %s' % (c.name, 'OK' if not bad and not r.err else 'FAIL', len(r.obls), len(bad), r.trivial, r.covers, r.time, r.stats['queries'], r.err or ''))
    if r.err and hasattr(r,'tb'): print(r.tb)
    for f in r.failed: print('     FAILED', f['obligation'], '|', f['goal'][:600], f['model'])
    for n in r.notes: print('     note', n[:400])
    if os.environ.get('V'):
        for o in r.obls: print('       ', o[1], o[0])
