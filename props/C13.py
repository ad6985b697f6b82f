"""C13: statistics of vectors, planes and cubes."""
from engine.spec import *
from engine.terms import *

MP = ['modules/process/src/c_src/mathprocess.c']
SP = ['modules/process/src/c_src/spectralprocess.c', 'modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c']
SMF = ['modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/hypermat.c', 'modules/process/src/c_src/colortransform.c']


def total(o, x, n, z, tag, sg, f=lambda v: v):
    t = Sym('t', INT, 0)
    return Sum(t, n, f(o.srd(x, t * z, tag, sg)))


def mean(ty, z, tag, sg, content):
    @case('C13', 'mean_' + ty, MP, ['mean_' + ty])
    def run(cx):
        n = cx.dim('n')
        cx.fits(n, P(z))
        x = cx.obj('x', n * z, content=content, signed={z: 's' if sg else 'u'} if tag[0] == 'i' else None)
        for o in cx.call('mean_' + ty, PV.to(x), cx.int(n)):
            o.ensure(Eq(o.ret.p, total(o, x, n, z, tag, sg) * Inv(n)), 'the result is the arithmetic mean')
            o.unchanged(x)
            o.no_leak([])


for a in (('double', 8, 'f64', None, 5), ('float', 4, 'f32', None, 4), ('uint', 4, 'i32', False, 13), ('int', 4, 'i32', True, 3), ('short', 2, 'i16', True, 2),
          ('ushort', 2, 'i16', False, 12), ('uchar', 1, 'i8', False, 1), ('char', 1, 'i8', True, 1)):
    mean(*a)


TY = {1: ('i8', 1, False), 2: ('i16', 2, True), 12: ('i16', 2, False), 3: ('i32', 4, True), 4: ('f32', 4, None)}


def plane(cx, dt):
    tag, z, sg = TY[dt]
    return cx.sm('mat', dt, 1, signed={z: 's' if sg else 'u'} if sg is not None else None), tag, z, sg


def sm_mean(dt):
    @case('C13', 'simple_mat_mean[type %d]' % dt, SMF, ['simple_mat_mean'])
    def run(cx):
        s, tag, z, sg = plane(cx, dt)
        n = s.R * s.C
        for o in cx.call('simple_mat_mean', s.p):
            o.ensure(Eq(o.ret.p, total(o, s.data, n, z, tag, sg) * Inv(n)), 'the result is the arithmetic mean')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.no_leak([])

    @case('C13', 'simple_mat_variance[type %d]' % dt, SMF, ['simple_mat_variance'])
    def run2(cx):
        s, tag, z, sg = plane(cx, dt)
        n = s.R * s.C
        for o in cx.call('simple_mat_variance', s.p):
            m = total(o, s.data, n, z, tag, sg) * Inv(n)
            o.ensure(Eq(o.ret.p, total(o, s.data, n, z, tag, sg, lambda v: (m - v) * (m - v)) * Inv(n)), 'the result is the variance')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.no_leak([])


for dt in TY:
    sm_mean(dt)


def avg(r, g, b):
    return FDiv(2 * (r + g + b) + 3, 6)


def level(o, s, ch, p):
    """grey level of pixel p"""
    if ch == 1:
        return o.srd(s.data, p, 'i8')
    return avg(*[o.srd(s.data, p * 3 + k, 'i8') for k in range(3)])


def stats(ch):
    nm = {1: 'grey', 3: 'colour'}[ch]

    @case('C13', 'simple_mat_grayscale_statistics[%s]' % nm, SMF, ['simple_mat_grayscale_statistics'])
    def run(cx):
        s = cx.sm('mat', 1, ch)
        g = cx.obj('gray_statist', P(1024), content=3, signed={4: 's'})
        for o in cx.call('simple_mat_grayscale_statistics', s.p, PV.to(g)):
            q = o.fork()
            v = q.index('v', P(256))
            t = Sym('t', INT, 0)
            q.ensure(Eq(q.rd(g, v * 4, 'i32', True), Sum(t, s.R * s.C, Ite(Eq(level(q, s, ch, t), v), 1, 0))), 'entry v counts the pixels of grey level v')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.no_leak([])

    @case('C13', 'simple_mat_entropy[%s]' % nm, SMF, ['simple_mat_entropy'])
    def run2(cx):
        s = cx.sm('mat', 1, ch)
        for o in cx.call('simple_mat_entropy', s.p):
            t, v = Sym('t', INT, 0), Sym('v', INT, 0)
            n = Sum(t, s.R * s.C, Ite(Eq(level(o, s, ch, t), v), 1, 0))
            p = n * Inv(s.R * s.C)
            lg = lambda x: App('math.log', [x], REAL)
            o.ensure(Eq(o.ret.p, -Sum(v, P(256), Ite(Eq(n, 0), 0, p * lg(p) * Inv(lg(P(2)))))), 'the result is the entropy of the grey levels')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.no_leak([])

    @case('C13', 'simple_mat_contrast_ratio[%s]' % nm, SMF, ['simple_mat_contrast_ratio'])
    def run3(cx):
        s = cx.sm('mat', 1, ch)
        cx.require(Le(2, s.R), Le(2, s.C), Le(4 * s.R * s.C, 2 ** 31 - 1))
        for o in cx.call('simple_mat_contrast_ratio', s.p):
            i, j = Sym('i', INT, 0), Sym('j', INT, 0)
            g = lambda a, b: level(o, s, ch, a * s.C + b)
            sq = lambda x: x * x
            e = Ite(Eq(j, 0), 0, sq(g(i, j) - g(i, j - 1))) + Ite(Eq(j, s.C - 1), 0, sq(g(i, j) - g(i, j + 1))) + \
                Ite(Eq(i, 0), 0, sq(g(i, j) - g(i - 1, j))) + Ite(Eq(i, s.R - 1), 0, sq(g(i, j) - g(i + 1, j)))
            tot = Sum(i, s.R, Sum(j, s.C, e))
            o.ensure(Eq(o.ret.p, tot * Inv(4 * (s.C - 2) * (s.R - 2) + 6 * (s.R - 2) + 6 * (s.C - 2) + 8)), 'the result is the mean square difference of neighbours')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.no_leak([])


for ch in (1, 3):
    stats(ch)


@case('C13', 'hyper_mat_mean', SP, ['hyper_mat_mean'])
def hm_mean(cx):
    h = cx.hm('src', 'bip', dt=4)
    d = cx.sm('dst', 4, 1, rows=h.L, cols=h.S)
    for o in cx.call('hyper_mat_mean', h.p, d.p):
        q = o.fork()
        i, j = q.index('i', h.L), q.index('j', h.S)
        t = Sym('t', INT, 0)
        q.ensure(Eq(q.rd(d.data, (i * h.S + j) * 4, 'f32'), Sum(t, h.B, q.srd(h.data, ((i * h.S + j) * h.B + t) * 4, 'f32')) * Inv(h.B)),
                 'every element is the mean of the spectrum of its pixel')
        o.unchanged(h.blk)
        o.unchanged(h.data)
        o.unchanged(d.blk)
        o.no_leak([])


def spectrum(fn, what):
    @case('C13', fn, SP, [fn])
    def run(cx):
        n = cx.dim('n')
        cx.fits(n, P(4))
        x = cx.obj('x', n * 4, content=4)
        for o in cx.call(fn, PV.to(x), cx.int(n)):
            m = total(o, x, n, 4, 'f32', None) * Inv(n)
            v = total(o, x, n, 4, 'f32', None, lambda a: (a - m) * (a - m)) * Inv(n)
            want = {'sp_average': m, 'sp_variance': v, 'sp_standard_deviation': App('math.sqrt', [v], REAL, 0)}[fn]
            o.ensure(Eq(o.ret.p, want), 'the result is the %s of the spectrum' % what)
            o.unchanged(x)
            o.no_leak([])


for a in (('sp_average', 'mean'), ('sp_variance', 'variance'), ('sp_standard_deviation', 'standard deviation')):
    spectrum(*a)

EE = ['modules/algorithm/src/EdgeSignalEnergy.c', 'modules/process/src/c_src/filter.c', 'modules/process/src/c_src/imageprocess.c', 'modules/core/src/c_src/simplemat.c',
      'modules/core/src/c_src/hypermat.c']


@case('C13', 'cal_edge_signal_energy', EE, ['cal_edge_signal_energy'])
def energy(cx):
    s = cx.sm('mat', 1, 1)
    cx.require(Le(s.R, 2 ** 29), Le(s.C, 2 ** 29), Le(s.R * s.C * 4, IMAX - 256))
    for o in cx.call('cal_edge_signal_energy', s.p):
        t, u = Sym('t', INT, 0), Sym('u', INT, 0)
        v = lambda a, b: o.srd(s.data, Border(4, t + a, s.R) * s.C + Border(4, u + b, s.C), 'i8')
        # the two masks together: 0 in the corners, -2 at the sides, 8 in the centre, over 6
        w = (8 * v(0, 0) - 2 * v(-1, 0) - 2 * v(1, 0) - 2 * v(0, -1) - 2 * v(0, 1)) * Inv(P(6))
        o.ensure(Eq(o.ret.p, Sum(t, s.R, Sum(u, s.C, w * w)) * Inv(s.R) * Inv(s.C)), 'the result is the mean square of the edge signal')
        o.unchanged(s.blk)
        o.unchanged(s.data)
        o.no_leak([])
