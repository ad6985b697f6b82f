"""C18: factorials and transform sizes."""
from engine.spec import *
from engine.terms import *

MP = ['modules/process/src/c_src/mathprocess.c']
DF = ['modules/algorithm/src/dft.c']


@case('C18', 'hypercv_factorial[negative]', MP, ['hypercv_factorial'])
def neg(cx):
    n = cx.dim('n', -IMAX - 1)
    cx.require(Lt(n, 0))
    for o in cx.call('hypercv_factorial', cx.int(n)):
        o.ensure(Eq(o.iret(), -1), 'the factorial of a negative number is reported as -1')
        o.no_leak([])


def fact(n, want):
    @case('C18', 'hypercv_factorial[%d]' % n, MP, ['hypercv_factorial'])
    def run(cx):
        for o in cx.call('hypercv_factorial', cx.int(P(n))):
            o.ensure(Eq(o.iret(), want), 'the result is the factorial')
            o.no_leak([])


f = 1
for n in range(21):
    f *= max(n, 1)
    fact(n, f)

# all numbers 2^a 3^b 5^c, b <= 14, up to the largest that fits
SMOOTH = sorted(2 ** a * 3 ** b * 5 ** c for a in range(32) for b in range(15) for c in range(15) if 2 ** a * 3 ** b * 5 ** c <= 2125764000)


@case('C18', 'get_optimal_DFT_size', DF, ['get_optimal_DFT_size'])
def size(cx):
    n = cx.dim('size', -IMAX - 1)
    for o in cx.call('get_optimal_DFT_size', cx.int(n)):
        r = o.iret()
        k = o.index('k', P(len(SMOOTH)))
        t = Tab(SMOOTH, k)
        ok = And(Le(0, n), Lt(n, SMOOTH[-1]))
        o.ensure(Implies(Not(ok), Eq(r, -1)), 'sizes without an answer give -1')
        prev = Ite(Eq(k, 0), -1, Tab(SMOOTH, Ite(Eq(k, 0), 0, k - 1)))
        o.ensure(Implies(And(ok, Le(n, t), Lt(prev, n)), Eq(r, t)), 'the result is the first product of powers of 2, 3 and 5 that is large enough')
        o.no_leak([])
