"""C19: colour conversions."""
from fractions import Fraction
from engine.spec import *
from engine.terms import *

CT = ['modules/process/src/c_src/colortransform.c', 'modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c']


def spread(name, val):
    @case('C19', name, CT, [name])
    def run(cx):
        s = cx.sm('src', 1, 1)
        cx.fits(s.R, s.C, P(3))
        cx.require(Le(s.R * s.C * 3, IMAX - 256))
        for o in cx.call(name, s.p):
            r = o.sm()
            r.shape(s.R, s.C, 1, 3)
            o.ensure(Eq(r.elem_size, 1), 'result->elem_size')
            q = o.fork()
            i, k = q.index('i', s.R * s.C), q.index('k', 3)
            q.congr(r.data, r.doff + i * 3 + k, 'i8', val(q.srd(s.data, i, 'i8')), 'each of the three channels follows the pixel')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.no_leak([r.b, r.data])


spread('sm_binary2rgb', lambda x: x * 255)
spread('sm_gray2rgb', lambda x: x)


def mx(a, b):
    return Ite(Lt(a, b), b, a)


GRAY = {1: lambda r, g, b: mx(mx(r, g), b),
        2: lambda r, g, b: Floor(r * Fraction(0.299) + g * Fraction(0.587) + b * Fraction(0.114)),
        None: lambda r, g, b: Floor((r + g + b) * Fraction(1, 3) + Fraction(1, 2))}


def gray(m):
    @case('C19', 'sm_rgb2gray[%s]' % {1: 'maximum', 2: 'weighted', None: 'average'}[m], CT, ['sm_rgb2gray'])
    def run(cx):
        s = cx.sm('src', 1, 3)
        if m is None:
            v = cx.dim('method', -IMAX - 1)
            cx.require(Ne(v, 1), Ne(v, 2))
        else:
            v = P(m)
        for o in cx.call('sm_rgb2gray', s.p, cx.int(v)):
            r = o.sm()
            r.shape(s.R, s.C, 1, 1)
            o.ensure(Eq(r.elem_size, 1), 'result->elem_size')
            q = o.fork()
            i = q.index('i', s.R * s.C)
            px = [q.srd(s.data, i * 3 + k, 'i8') for k in range(3)]
            q.ensure(Eq(q.rd(r.data, r.doff + i, 'i8', False), GRAY[m](*px)), 'every pixel is the grey level of its colour')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.no_leak([r.b, r.data])


for m in (1, 2, None):
    gray(m)


@case('C19', 'sm_bgr2rgb', CT, ['sm_bgr2rgb'])
def bgr(cx):
    s = cx.sm('src', 1, 3)
    d = cx.sm('dst', 1, 3, rows=s.R, cols=s.C)
    for o in cx.call('sm_bgr2rgb', s.p, d.p):
        q = o.fork()
        i = q.index('i', s.R * s.C)
        for k in range(3):
            q.ensure(veq(q, q.read(d.data, i * 3 + k, 'i8'), q.src(s.data, i * 3 + 2 - k)), 'channel %d is channel %d of the source' % (k, 2 - k))
        o.unchanged(s.blk)
        o.unchanged(s.data)
        o.unchanged(d.blk)
        o.no_leak([])
