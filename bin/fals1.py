"""development driver: concrete self-test of the cases of one property"""
import sys, os, importlib, tempfile, shutil
sys.path.insert(0, '/verif'); sys.setrecursionlimit(20000)
os.environ['HVDBG'] = '1'
from engine import spec, falsify
importlib.import_module('props.' + sys.argv[1])
pat = sys.argv[2] if len(sys.argv) > 2 else ''
sec = float(sys.argv[3]) if len(sys.argv) > 3 else 4
d = tempfile.mkdtemp(prefix='hvf')
try:
    so, err = falsify.build_lib(d, sorted({f for c in spec.CASES if c.prop == sys.argv[1] for f in c.files}))
    print(so, err[:300])
    from concurrent.futures import ThreadPoolExecutor
    cs = [c for c in spec.CASES if c.prop == sys.argv[1] and pat in c.name]
    def f(c):
        return c, falsify.run(c.prop, c.name, so, d, sec)
    with ThreadPoolExecutor(8) as ex:
        for c, r in ex.map(f, cs):
            print('%-30s %s' % (c.name, str(r)[:900]), getattr(falsify.run, 'stats', None))
finally:
    shutil.rmtree(d)
