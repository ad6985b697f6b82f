"""C10: image borders."""
from engine.spec import *
from engine.terms import *

FI = ['modules/process/src/c_src/filter.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/hypermat.c']
CONSTANT, REPLICATE, REFLECT, WRAP, REFLECT_101 = range(5)
NAMES = {REPLICATE: 'replicate', REFLECT: 'reflect', WRAP: 'wrap', REFLECT_101: 'reflect 101', CONSTANT: 'constant'}


def outside(t, p, n):
    """where position p is taken from"""
    if t == REPLICATE:
        return Ite(Lt(p, 0), 0, n - 1)
    if t == WRAP:
        return Mod(p, n)
    if t == REFLECT:
        q = Mod(p, 2 * n)
        return Ite(Lt(q, n), q, 2 * n - 1 - q)
    if t == REFLECT_101:
        q = Mod(p, 2 * n - 2)
        return Ite(Lt(q, n), q, 2 * n - 2 - q)


def border(t, p, n):
    return Ite(And(Le(0, p), Lt(p, n)), p, outside(t, p, n))


def interp(t):
    @case('C10', 'hypercv_border_Interpolate[%s]' % NAMES[t], FI, ['hypercv_border_Interpolate'], internal=True)
    def run(cx):
        n = cx.dim('len', 2 if t == REFLECT_101 else 1)
        p = cx.dim('p', -IMAX)
        cx.require(Le(-2 ** 30, p), Le(p, 2 ** 30), Le(n, 2 ** 29))
        if t in (REFLECT, REFLECT_101):
            cx.invariant(lambda v, v0: Eq(border(t, v, n), border(t, v0, n)))
            cx.invariant(lambda v, v0: Or(Lt(v, 0), Le(n, v)))
            cx.variant(lambda v: Ite(Lt(v, 0), -2 * v, 2 * v - n))
        for o in cx.call('hypercv_border_Interpolate', cx.int(p), cx.int(n), cx.int(P(t))):
            o.ensure(Eq(o.iret(), border(t, p, n)), 'the position outside the image is mapped to the documented one')
            o.no_leak([])


for t in (REPLICATE, REFLECT, WRAP, REFLECT_101):
    interp(t)


@case('C10', 'hypercv_border_Interpolate[one element]', FI, ['hypercv_border_Interpolate'], internal=True)
def one(cx):
    p = cx.dim('p', -IMAX)
    for o in cx.call('hypercv_border_Interpolate', cx.int(p), cx.int(P(1)), cx.int(P(REFLECT_101))):
        o.ensure(Eq(o.iret(), 0), 'an image of one element has only that one')


def make_border(t):
    @case('C10', 'hypercv_copy_make_border[%s]' % NAMES[t], FI, ['hypercv_copy_make_border'])
    def run(cx):
        ch = cx.dim('ch')
        s = cx.sm('src', 1, ch)
        e = [cx.dim(x, 0) for x in ('top', 'bottom', 'left', 'right')]
        top, bottom, left, right = e
        for x in e + [s.R, s.C]:
            cx.require(Le(x, 2 ** 28))
        R, C = s.R + top + bottom, s.C + left + right
        cx.require(Le(R * C * ch, IMAX - 256))
        v = cx.dim('value', 0, 255)
        for o in cx.call('hypercv_copy_make_border', s.p, cx.int(top), cx.int(bottom), cx.int(left), cx.int(right), cx.int(P(t)), IV(v, 8, 'u')):
            r = o.sm()
            r.shape(R, C, 1, ch)
            r.room(R * C * ch)
            q = o.fork()
            i, j, c = q.index('i', R), q.index('j', C), q.index('c', ch)
            y, x = i - top, j - left
            if t == CONSTANT:
                inside = And(Le(0, y), Lt(y, s.R), Le(0, x), Lt(x, s.C))
                want = Ite(inside, q.srd(s.data, (y * s.C + x) * ch + c, 'i8'), v)
            else:
                want = q.srd(s.data, (Border(t, y, s.R) * s.C + Border(t, x, s.C)) * ch + c, 'i8')
            q.ensure(Eq(q.rd(r.data, r.doff + (i * C + j) * ch + c, 'i8'), want), 'every pixel is that of the source or its documented extension')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.no_leak([r.b, r.data])


for t in NAMES:
    make_border(t)
