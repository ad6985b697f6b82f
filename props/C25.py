"""C25: spectral distances and matching."""
from engine.spec import *
from engine.terms import *

SP = ['modules/process/src/c_src/spectralprocess.c', 'modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c']


def few(r, n):
    import struct
    return struct.pack('<%df' % (n // 4), *[r.randrange(-40, 41) / 4.0 for _ in range(n // 4)])


def vec(o, b, k=P(0)):
    return o.srd(b, k * 4, 'f32')


def mag(x):
    return Ite(Le(0, x), x, -x)


def angle(n, x, y):
    """x, y: component functions"""
    t = Sym('t', INT, 0)
    xy = Sum(t, n, mag(x(t) * y(t)))
    xx, yy = Sum(t, n, x(t) * x(t)), Sum(t, n, y(t) * y(t))
    return App('math.acos', [xy * Inv(Sqrt(xx * yy))], REAL)


def two(cx):
    n = cx.dim('n', 1)
    cx.fits(n, P(4))
    return n, cx.obj('x', n * 4, content=few), cx.obj('y', n * 4, content=few)


@case('C25', 'spectral_angle_mapper', SP, ['spectral_angle_mapper'])
def sam(cx):
    n, x, y = two(cx)
    for o in cx.call('spectral_angle_mapper', PV.to(x), PV.to(y), cx.int(n)):
        o.ensure(Eq(o.ret.p, angle(n, lambda t: vec(o, x, t), lambda t: vec(o, y, t))), 'the result is the angle between the spectra')
        o.unchanged(x)
        o.unchanged(y)
        o.no_leak([])


@case('C25', 'euclidean_distance', SP, ['euclidean_distance'])
def dist(cx):
    n, x, y = two(cx)
    for o in cx.call('euclidean_distance', PV.to(x), PV.to(y), cx.int(n)):
        t = Sym('t', INT, 0)
        d = lambda t: vec(o, x, t) - vec(o, y, t)
        o.ensure(Eq(o.ret.p, Sqrt(Sum(t, n, d(t) * d(t)))), 'the result is the euclidean distance')
        o.unchanged(x)
        o.unchanged(y)
        o.no_leak([])


@case('C25', 'spectrum_SAM_match', SP, ['spectrum_SAM_match'])
def match(cx):
    h = cx.hm('src', 'bip', dt=4, content=few)
    s = cx.obj('spectrum', h.B * 4, content=few)
    lim = cx.real('threshold')
    for o in cx.call('spectrum_SAM_match', h.p, PV.to(s), cx.flt(lim)):
        r = o.sm()
        r.shape(h.L, h.S, 1, 1)
        r.room(h.L * h.S)
        q = o.fork()
        i, j = q.index('i', h.L), q.index('j', h.S)
        a = angle(h.B, lambda t: q.srd(h.data, ((i * h.S + j) * h.B + t) * 4, 'f32'), lambda t: vec(q, s, t))
        q.ensure(Eq(q.rd(r.data, r.doff + i * h.S + j, 'i8'), Ite(Le(lim, a), 1, 0)), 'a pixel is marked when its angle reaches the threshold')
        o.unchanged(h.blk)
        o.unchanged(h.data)
        o.unchanged(s)
        o.no_leak([r.b, r.data])
