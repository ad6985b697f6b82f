"""C22: marking points on an image."""
from engine.spec import *
from engine.terms import *
import struct

DF = ['modules/highgui/src/draw.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/hypermat.c']
K = 2 ** 29


def mark(ch):
    @case('C22', 'draw_POINT[%d]' % ch, DF, ['draw_POINT'])
    def run(cx):
        s = cx.sm('src', 1, ch)
        d = cx.sm('dst', 1, ch, rows=s.R, cols=s.C)
        cx.require(Le(s.R, K), Le(s.C, K))
        n, h = cx.dim('n', 0, 2 ** 27), cx.dim('size', 0, K)
        pts = cx.obj('points', n * 8, content=small, signed={4: 's'}, lohi={'i32': (-K, K)})
        r, g, b = [cx.dim(c, 0, 255) for c in 'rgb']
        for o in cx.call('draw_POINT', s.p, d.p, PV.to(pts), cx.int(n), IV(r + g * 256 + b * 65536, 24, 'u'), cx.int(h)):
            hh = Floor(h * Inv(P(2)))
            i, j, c = o.index('i', s.R), o.index('j', s.C), o.index('c', P(ch))
            t = Sym('t', INT, 0)
            near = lambda q, k: And(Le(-hh, j - q.srd(pts, k * 8, 'i32')), Le(j - q.srd(pts, k * 8, 'i32'), hh),
                                    Le(-hh, i - q.srd(pts, k * 8 + 4, 'i32')), Le(i - q.srd(pts, k * 8 + 4, 'i32'), hh))
            color = r if ch == 1 else Ite(Eq(c, 0), b, Ite(Eq(c, 1), g, r))
            at = (i * s.C + j) * ch + c
            hit = Not(Eq(Sum(t, n, Ite(near(o, t), 1, 0)), 0))
            o.ensure(Eq(o.rd(d.data, at, 'i8'), Ite(hit, color, o.srd(s.data, at, 'i8'))), 'exactly the pixels of the squares around the points have the colour')
            for x in (s.blk, s.data, d.blk, pts):
                o.unchanged(x)
            o.no_leak([])


def small(r, n):
    return b''.join(struct.pack('<i', r.randrange(-3, 9)) for _ in range(n // 4))


mark(1)
mark(3)


def line(ch):
    @case('C22', 'draw_line[%d]' % ch, DF, ['draw_line'])
    def run(cx):
        s = cx.sm('src', 1, ch)
        d = cx.sm('dst', 1, ch, rows=s.R, cols=s.C)
        m = 2 ** 14
        cx.require(Le(s.R, m), Le(s.C, m))
        x1, y1, x2, y2 = [cx.dim(n, -m, m) for n in ('x1', 'y1', 'x2', 'y2')]
        h = cx.dim('thickness', 0, m)
        cx.require(Ne(x1, x2))
        r, g, b = [cx.dim(c, 0, 255) for c in 'rgb']
        for o in cx.call('draw_line', s.p, d.p, pair(x1, y1), pair(x2, y2), IV(r + g * 256 + b * 65536, 24, 'u'), cx.int(h)):
            hh = Floor(h * Inv(P(2)))
            i, j, c = o.index('i', s.R), o.index('j', s.C), o.index('c', P(ch))
            t = Sym('t', INT, 0)
            k = cx.inexact((y2 - y1) * Inv(x2 - x1))
            y = lambda x: Trunc(k * x + y1 - k * x1 + Fraction(1, 2))
            near = lambda x: And(Le(-hh, j - x), Le(j - x, hh), Eq(i, y(x)))
            color = r if ch == 1 else Ite(Eq(c, 0), r, Ite(Eq(c, 1), g, b))
            at = (i * s.C + j) * ch + c
            hit = Not(Eq(Sum(t, s.C, Ite(near(t), 1, 0)), 0))
            o.ensure(Eq(o.rd(d.data, at, 'i8'), Ite(hit, color, o.srd(s.data, at, 'i8'))), 'exactly the pixels of the line have the colour')
            for x in (s.blk, s.data, d.blk):
                o.unchanged(x)
            o.no_leak([])


def Trunc(v):
    return Ite(Lt(v, 0), -Floor(-v), Floor(v))


line(1)
line(3)
