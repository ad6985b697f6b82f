"""verify one case in a process of its own: caseworker.py PROP CASE OUT.pickle"""
import sys, os, pickle, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from engine import spec, frontend, solver


def main():
    prop, case, out = sys.argv[1:4]
    importlib.import_module('props.' + prop)
    c = [c for c in spec.CASES if c.name == case and c.prop == prop][0]
    if os.environ.get('VERIF_TIER') == 'thorough':
        solver.CVC5_CHECK[0] = True
    r = spec.run_case(c)
    r.internal = c.internal
    with open(out + '.tmp', 'wb') as f:
        pickle.dump(r.__dict__, f)
    os.rename(out + '.tmp', out)


main()
