"""C24: discrete Fourier transform."""
from engine.spec import *
from engine.terms import *
from engine.builtins import round_even

DF = ['modules/algorithm/src/dft.c']
TAU = P(2 * Fraction(3.1415926))
TY = {1: ('i8', 1), 12: ('i16', 2)}


def sums(o, s, dt, i, j, move=False):
    """real and imaginary part of the transform of plane s at (i, j)"""
    tag, z = TY[dt]
    x, y = Sym('x', INT, 0), Sym('y', INT, 0)
    w = TAU * (i * x * Inv(s.R) + j * y * Inv(s.C))
    v = o.srd(s.data, (x * s.C + y) * z, tag, False)
    if move:
        v = v * Ite(Eq(Mod(x + y, 2), 0), 1, -1)
    two = lambda b: Sum(x, s.R, Sum(y, s.C, b))
    return two(v * Cos(w)), -two(v * Sin(w))


def fwd(fn, dt, tagname):
    @case('C24', fn + tagname, DF, [fn])
    def run(cx):
        s = cx.sm('src', dt, 1, signed={2: 'u'} if dt == 12 else None)
        re, im = cx.sm('re', 4, 1, rows=s.R, cols=s.C), cx.sm('im', 4, 1, rows=s.R, cols=s.C)
        for o in cx.call(fn, s.p, re.p, im.p):
            q = o.fork()
            i, j = q.index('i', s.R), q.index('j', s.C)
            a, b = sums(q, s, dt, i, j)
            q.ensure(Eq(q.rd(re.data, (i * s.C + j) * 4, 'f32'), a), 'the real part is the cosine sum')
            q.ensure(Eq(q.rd(im.data, (i * s.C + j) * 4, 'f32'), b), 'the imaginary part is the negative sine sum')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.unchanged(re.blk)
            o.unchanged(im.blk)
            o.no_leak([])


fwd('hypercv_dft_uchar', 1, '')
fwd('hypercv_dft_ushort', 12, '')
fwd('hypercv_dft', 1, '[byte]')
fwd('hypercv_dft', 12, '[short]')


def sat(v):
    return Ite(Lt(255, v), 255, Ite(Lt(v, 0), 0, round_even(v)))


@case('C24', 'hypercv_dft_frespectrum', DF, ['hypercv_dft_frespectrum'])
def spectrum(cx):
    s = cx.sm('src', 1, 1)
    d = cx.sm('dst', 1, 1, rows=s.R, cols=s.C)
    for o in cx.call('hypercv_dft_frespectrum', s.p, d.p):
        q = o.fork()
        i, j = q.index('i', s.R), q.index('j', s.C)
        a, b = sums(q, s, 1, i, j, True)
        q.ensure(Eq(q.rd(d.data, i * s.C + j, 'i8'), sat(Sqrt(a * a + b * b) * Inv(Sqrt(s.R * s.C)))), 'every pixel is the scaled magnitude of the centred transform')
        o.unchanged(s.blk)
        o.unchanged(s.data)
        o.unchanged(d.blk)
        o.no_leak([])


def inv(fn, dt, tagname):
    tag, z = TY[dt]

    @case('C24', fn + tagname, DF, [fn])
    def run(cx):
        d = cx.sm('dst', dt, 1, signed={2: 'u'} if dt == 12 else None)
        re, im = cx.sm('re', 4, 1, rows=d.R, cols=d.C, content=few), cx.sm('im', 4, 1, rows=d.R, cols=d.C, content=few)
        for o in cx.call(fn, re.p, im.p, d.p):
            q = o.fork()
            i, j = q.index('i', d.R), q.index('j', d.C)
            x, y = Sym('x', INT, 0), Sym('y', INT, 0)
            w = TAU * (i * x * Inv(d.R) + j * y * Inv(d.C))
            p = (x * d.C + y) * 4
            v = Sum(x, d.R, Sum(y, d.C, q.srd(re.data, p, 'f32') * Cos(w) - q.srd(im.data, p, 'f32') * Sin(w))) * Inv(d.R * d.C)
            top = 255 if dt == 1 else 65535
            q.ensure(Eq(q.rd(d.data, (i * d.C + j) * z, tag, False), Ite(Lt(top, v), top, Ite(Lt(v, 0), 0, round_even(v)))), 'every element is the rounded and saturated inverse sum')
            o.unchanged(re.blk)
            o.unchanged(im.blk)
            o.unchanged(re.data)
            o.unchanged(im.data)
            o.unchanged(d.blk)
            o.no_leak([])


def few(r, n):
    import struct
    return struct.pack('<%df' % (n // 4), *[r.randrange(-400, 1600) / 4.0 for _ in range(n // 4)])


inv('hypercv_idft_uchar', 1, '')
inv('hypercv_idft_ushort', 12, '')
inv('hypercv_idft', 1, '[byte]')
inv('hypercv_idft', 12, '[short]')


@case('C24', 'hypercv_magnitude', DF, ['hypercv_magnitude'])
def magnitude(cx):
    re = cx.sm('re', 4, 1, content=few)
    im, d = cx.sm('im', 4, 1, rows=re.R, cols=re.C, content=few), cx.sm('dst', 4, 1, rows=re.R, cols=re.C)
    for o in cx.call('hypercv_magnitude', re.p, im.p, d.p):
        q = o.fork()
        i = q.index('i', re.R * re.C)
        a, b = q.srd(re.data, i * 4, 'f32'), q.srd(im.data, i * 4, 'f32')
        q.ensure(Eq(q.rd(d.data, i * 4, 'f32'), Sqrt(a * a + b * b)), 'every element is the magnitude of the complex sample')
        o.unchanged(re.blk)
        o.unchanged(im.blk)
        o.unchanged(re.data)
        o.unchanged(im.data)
        o.unchanged(d.blk)
        o.no_leak([])
