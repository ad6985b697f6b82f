"""C26: one level down and up an image pyramid."""
from engine.spec import *
from engine.terms import *
from engine.builtins import round_even
from contracts.core import BORDERS

PY = ['modules/process/src/c_src/GeometricTransformation.c', 'modules/process/src/c_src/filter.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/hypermat.c',
      'modules/process/src/c_src/imageprocess.c']
W = (1, 4, 6, 4, 1)


def clamp(v, lo, hi):
    return Ite(Lt(hi, v), hi, Ite(Lt(v, lo), lo, v))


def sat(v):
    return Ite(Lt(255, v), 255, Ite(Lt(v, 0), 0, round_even(v)))


def smooth(at, i, j, R, C, den):
    """row i, column j of at after the binomial filter over 5x5 pixels, weights over den*den, borders replicated"""
    w = [P(Fraction(x, den)) for x in W]
    line = lambda r: clamp(sum((w[a] * at(r, Border(1, j + a - 2, C)) for a in range(5)), ZERO), 0, 255)
    return sat(clamp(sum((w[b] * line(Border(1, i + b - 2, R)) for b in range(5)), ZERO), 0, 255))


def down(ch):
    @case('C26', 'hypercv_pyramid_down[%d]' % ch, PY, ['hypercv_pyramid_down'])
    def run(cx):
        s = cx.sm('src', 1, ch)
        r, c = FDiv(s.R + 1, 2), FDiv(s.C + 1, 2)
        d = cx.sm('dst', 1, ch, rows=r, cols=c)
        cx.require(Le(2, s.R), Le(2, s.C), Le(s.R * s.C * ch * 4, IMAX - 256))
        for o in cx.call('hypercv_pyramid_down', s.p, d.p):
            for m in range(ch):
                q = o.fork()
                i, j = q.index('i', r), q.index('j', c)
                at = lambda y, x: q.srd(s.data, (y * s.C + x) * ch + m, 'i8')
                q.ensure(Eq(q.rd(d.data, (i * c + j) * ch + m, 'i8'), smooth(at, 2 * i, 2 * j, s.R, s.C, 16)), 'channel %d is every second pixel of the smoothed source' % m)
            for x in (s.blk, s.data, d.blk):
                o.unchanged(x)
            o.no_leak([])


def up(ch):
    @case('C26', 'hypercv_pyramid_up[%d]' % ch, PY, ['hypercv_pyramid_up'])
    def run(cx):
        s = cx.sm('src', 1, ch)
        r, c = 2 * s.R, 2 * s.C
        d = cx.sm('dst', 1, ch, rows=r, cols=c)
        cx.require(Le(2, s.R), Le(2, s.C), Le(s.R * s.C * ch * 16, IMAX - 256))
        for o in cx.call('hypercv_pyramid_up', s.p, d.p):
            for m in range(ch):
                q = o.fork()
                i, j = q.index('i', r), q.index('j', c)
                at = lambda y, x: Ite(And(Eq(Mod(y, 2), 0), Eq(Mod(x, 2), 0)), q.srd(s.data, (FDiv(y, 2) * s.C + FDiv(x, 2)) * ch + m, 'i8'), 0)
                q.ensure(Eq(q.rd(d.data, (i * c + j) * ch + m, 'i8'), smooth(at, i, j, r, c, 8)), 'channel %d is the smoothed source with zeros between its pixels' % m)
            for x in (s.blk, s.data, d.blk):
                o.unchanged(x)
            o.no_leak([])


for ch in (1, 3):
    down(ch)
    up(ch)
