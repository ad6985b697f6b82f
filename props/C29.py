"""C29: wavelet filter banks: coefficients, ownership, release."""
from fractions import Fraction
from engine.spec import *
from engine.terms import *

ASSUME = ('the coefficient tables of dwt.c are not overwritten: they are file-local and only reachable through file-local structures that no function of the file writes',)
DWT = ['modules/process/src/c_src/dwt.c']
LO_R3 = [0.3327, 0.8069, 0.4599, -0.1350, -0.0854, 0.0352]
B = [0.0030, -0.0091, -0.0168, 0.0747, 0.0313, -0.3012, -0.0265, 0.9516]
H = [0.1768, 0.5303]
Z = [0] * 6
# the coefficients by the time the transform applies them (reversed)
BANKS = {1: ('db3', LO_R3, LO_R3[::-1]), 2: ('bior3.7', B + B[::-1], Z + [H[0], H[1], H[1], H[0]] + Z)}
FIELDS = {8: 'LO_D', 16: 'HI_D', 24: 'LO_R', 32: 'HI_R'}


def expected(t):
    """analysis low pass a, synthesis low pass s; the high passes are the other low pass with alternating signs"""
    name, a, s = BANKS[t]
    return {8: a, 24: s, 16: [(-1) ** k * x for k, x in enumerate(s)], 32: [(-1) ** (k + 1) * x for k, x in enumerate(a)]}


def bank(t):
    @case('C29', 'set_wavelet_base[%s]' % BANKS[t][0], DWT, ['set_wavelet_base'])
    def run(cx):
        for o in cx.call('set_wavelet_base', cx.int(P(t))):
            b, off = o.target()
            o.ensure(And(Eq(off, 0), Le(40, b.size)), 'the result has room for the bank')
            n = len(expected(t)[8])
            o.ensure(Eq(o.rd(b, P(0), 'i32'), n), 'the number of coefficients')
            kept = [b]
            for k, want in expected(t).items():
                d, e = o.target(o.read(b, P(k), 'ptr'), FIELDS[k])
                o.ensure(And(Eq(e, 0), Le(8 * n, d.size)), FIELDS[k] + ' has room for the coefficients')
                for i, v in enumerate(want):
                    o.ensure(Eq(o.rd(d, P(8 * i), 'f64'), P(Fraction(v))), 'coefficient %d of %s' % (i, FIELDS[k]))
                o.ensure(FALSE if d in kept else TRUE, FIELDS[k] + ' is an array of its own')
                kept.append(d)
            o.no_leak(kept)

    @case('C29', 'set_wavelet_base, wavelet_base_free[%s]' % BANKS[t][0], DWT, ['set_wavelet_base', 'wavelet_base_free'])
    def release(cx):
        for o in cx.call('set_wavelet_base', cx.int(P(t))):
            for q in o.then('wavelet_base_free', o.ret):
                q.no_leak([])


bank(1)
bank(2)


def struct_of(cx, name, size, fields):
    """a structure whose pointer fields own arrays or are NULL"""
    owned, cells = [], {}
    for k, present in fields.items():
        if present:
            a = cx.reg(cx.mkblk('%s.%d' % (name, k), P(cx.dim('n%d' % k, 1, 2 ** 20)) * 8, 'heap', 'input:%s%d' % (name, k), 16, 5))
            owned.append(a)
            cells[k] = (8, 'ptr', PV.to(a))
        else:
            cells[k] = (8, 'ptr', NULL)
    b = cx.reg(cx.mkblk(name, P(size), 'heap', 'input:' + name, 16), cells)
    return b, owned


def frees(fn, size, ks, mask):
    @case('C29', '%s[%s]' % (fn, ''.join('01'[bool(mask >> i & 1)] for i in range(len(ks)))), DWT, [fn])
    def run(cx):
        b, owned = struct_of(cx, 'object', size, {k: mask >> i & 1 for i, k in enumerate(ks)})
        for o in cx.call(fn, PV.to(b)):
            for x in [b] + owned:
                o.ensure(o.freed(x), '%s is released' % x.name)


for m in range(16):
    frees('wavelet_base_free', 40, (8, 16, 24, 32), m)
for m in range(4):
    frees('wt_info_free', 32, (16, 24), m)


@case('C29', 'release of NULL', DWT, ['wavelet_base_free', 'wt_info_free'])
def null(cx):
    for fn in ('wavelet_base_free', 'wt_info_free'):
        for o in cx.call(fn, NULL):
            o.no_leak([])
