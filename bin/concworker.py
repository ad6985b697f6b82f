"""native side of engine/falsify.py (runs with the address sanitizer preloaded)"""
import sys, os, json, random, time, ctypes
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
os.environ.pop('LD_PRELOAD', None)
import importlib
from engine import spec, frontend, conc, terms
from engine.mem import Unsupported


def out(d):
    sys.__stdout__.write('\n@@' + json.dumps(d, default=str) + '\n')
    sys.__stdout__.flush()


def main():
    terms.UNROLL[0] = 1
    job = json.load(open(sys.argv[1]))
    importlib.import_module('props.' + job['prop'])
    c = [c for c in spec.CASES if c.name == job['case'] and c.prop == job['prop']][0]
    prog = frontend.load(c.files, c.extra)
    lib = ctypes.CDLL(job['so'])
    lib.hv_block.restype = ctypes.c_void_p
    lib.hv_block.argtypes = [ctypes.c_size_t, ctypes.c_size_t]
    lib.hv_mark.restype = lib.hv_find.restype = lib.hv_next.restype = ctypes.c_long
    lib.hv_find.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
    lib.hv_next.argtypes = [ctypes.c_long, ctypes.c_void_p, ctypes.c_void_p]
    lib.hv_live.argtypes = [ctypes.c_long]
    lib.hv_free.argtypes = [ctypes.c_void_p]
    t_end = time.time() + job['seconds']
    k = 0
    st = {'rounds': 0, 'checked': 0, 'rejected': 0, 'calls': 0}
    hints = job['hints'] or [{}]
    consts = [x for x in job['consts'] if 0 < x <= (1 << 20)]
    while time.time() < t_end and st['rounds'] < 400:
        k += 1
        seed = job['one'] if job['one'] is not None else job['seed'] + k * 104729
        rnd = random.Random(seed)
        cx = conc.CCX(lib, prog, rnd, hints[rnd.randrange(len(hints))], consts)
        started = []
        def log(d):
            if not started:
                out({'round': seed, 'k': k})
                started.append(1)
            out(d)
        cx.log = log
        try:
            c.fn(cx)
        except conc.Reject:
            st['rejected'] += 1
            cx.release()
            if st['rejected'] > 200000:
                break
            continue
        except spec.Stop:
            pass
        except Unsupported as e:
            out({'unsupported': str(e)})
            return
        st['rounds'] += 1
        st['checked'] += cx.checked
        st['calls'] += cx.calls
        if cx.failures:
            out({'violation': cx.failures[:3], 'dims': cx.dims, 'style': cx.style})
            return
        cx.release()
        if job['one'] is not None:
            break
    out({'stats': st})


main()
