"""C11: filters."""
from engine.spec import *
from engine.terms import *
from engine.builtins import round_even

FI = ['modules/process/src/c_src/filter.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/hypermat.c']
GR = ['modules/process/src/c_src/gradient.c']


def few(r, n):
    import struct
    return struct.pack('<%df' % (n // 4), *[r.randrange(-40, 41) / 4.0 for _ in range(n // 4)])


def half(n):
    return FDiv(n, 2)


def filt(t, ch):
    @case('C11', 'hypercv_filter2D[%s][%d]' % (BORDERS[t], ch), FI, ['hypercv_filter2D'])
    def run(cx):
        s = cx.sm('src', 1, ch)
        d = cx.sm('dst', 4, ch, rows=s.R, cols=s.C, content=few)
        m, n = cx.dim('k_rows'), cx.dim('k_cols')
        cx.fits(m, n, P(4))
        cx.require(Le(m, 2 ** 14), Le(n, 2 ** 14), Le(s.R, 2 ** 29), Le(s.C, 2 ** 29))
        k = cx.obj('kernel', m * n * 4, content=few)
        for o in cx.call('hypercv_filter2D', s.p, d.p, PV.to(k), cx.int(m), cx.int(n), cx.int(P(t))):
            q = o.fork()
            i, j = q.index('i', s.R), q.index('j', s.C)
            for c in range(ch):
                a, b = Sym('a', INT, 0), Sym('b', INT, 0)
                src = q.srd(s.data, (Border(t, i + a - half(m), s.R) * s.C + Border(t, j + b - half(n), s.C)) * ch + c, 'i8')
                w = Sum(a, m, Sum(b, n, q.srd(k, (a * n + b) * 4, 'f32') * src))
                off = ((i * s.C + j) * ch + c) * 4
                q.ensure(Eq(q.rd(d.data, off, 'f32'), q.srd(d.data, off, 'f32') + w), 'the weighted sum of the neighbourhood is added to channel %d' % c)
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.unchanged(d.blk)
            o.unchanged(k)
            o.no_leak([])


def clamp(v, lo, hi):
    return Ite(Lt(hi, v), hi, Ite(Lt(v, lo), lo, v))


def sat(v):
    return Ite(Lt(255, v), 255, Ite(Lt(v, 0), 0, round_even(v)))


def blur(t, ch):
    @case('C11', 'hypercv_gaussian_blur_with_kernel[%s][%d]' % (BORDERS[t], ch), FI, ['hypercv_gaussian_blur_with_kernel'])
    def run(cx):
        s = cx.sm('src', 1, ch)
        d = cx.sm('dst', 1, ch, rows=s.R, cols=s.C)
        kx, ky = cx.sm('kx', 4, 1, rows=P(1), content=few), cx.sm('ky', 4, 1, rows=P(1), content=few)
        cx.require(Le(kx.C, 2 ** 14), Le(ky.C, 2 ** 14), Le(s.R * s.C * ch * 4, IMAX - 256))
        for o in cx.call('hypercv_gaussian_blur_with_kernel', s.p, d.p, kx.p, ky.p, cx.int(P(t))):
            q = o.fork()
            i, j = q.index('i', s.R), q.index('j', s.C)
            for c in range(ch):
                a, b = Sym('a', INT, 0), Sym('b', INT, 0)
                line = lambda r: clamp(Sum(a, kx.C, q.srd(kx.data, a * 4, 'f32') * q.srd(s.data, (r * s.C + Border(t, j + a - half(kx.C), s.C)) * ch + c, 'i8')), 0, 255)
                w = Sum(b, ky.C, q.srd(ky.data, b * 4, 'f32') * line(Border(t, i + b - half(ky.C), s.R)))
                q.ensure(Eq(q.rd(d.data, (i * s.C + j) * ch + c, 'i8'), sat(clamp(w, 0, 255))), 'channel %d is filtered along the rows, then along the columns' % c)
            for x in (s.blk, s.data, d.blk, kx.blk, kx.data, ky.blk, ky.data):
                o.unchanged(x)
            o.no_leak([])


def laplace(t, size):
    @case('C11', 'hypercv_laplacian[%s][%s]' % (BORDERS[t], 'size 2' if size else 'other size'), GR, ['hypercv_laplacian'])
    def run(cx):
        s = cx.sm('src', 1, 1)
        d = cx.sm('dst', 1, 1, rows=s.R, cols=s.C)
        k = P(2) if size else cx.dim('k_size')
        if not size:
            cx.require(Ne(k, 2))
        cx.require(Le(s.R, 2 ** 29), Le(s.C, 2 ** 29))
        for o in cx.call('hypercv_laplacian', s.p, d.p, cx.int(k), cx.int(P(t))):
            q = o.fork()
            i, j = q.index('i', s.R), q.index('j', s.C)
            v = lambda a, b: q.srd(s.data, Border(t, i + a, s.R) * s.C + Border(t, j + b, s.C), 'i8')
            w = v(-1, 0) + v(1, 0) + v(0, -1) + v(0, 1) - 4 * q.srd(s.data, i * s.C + j, 'i8')
            q.ensure(Eq(q.rd(d.data, i * s.C + j, 'i8'), sat(w * (2 if size else 1))), 'every pixel is the saturated Laplacian of the source')
            for x in (s.blk, s.data, d.blk):
                o.unchanged(x)
            o.no_leak([])


def mag(x):
    return Ite(Le(0, x), x, -x)


def sobel(t):
    @case('C11', 'hypercv_sobel[%s]' % BORDERS[t], GR, ['hypercv_sobel'])
    def run(cx):
        s = cx.sm('src', 1, 1)
        d = cx.sm('dst', 1, 1, rows=s.R, cols=s.C)
        lim = cx.dim('threshold', -IMAX)
        cx.require(Le(s.R, 2 ** 29), Le(s.C, 2 ** 29))
        for o in cx.call('hypercv_sobel', s.p, d.p, cx.int(lim), cx.int(P(t))):
            q = o.fork()
            i, j = q.index('i', s.R), q.index('j', s.C)
            v = lambda a, b: q.srd(s.data, Border(t, i + a, s.R) * s.C + Border(t, j + b, s.C), 'i8')
            gx = v(-1, 1) + 2 * v(0, 1) + v(1, 1) - v(-1, -1) - 2 * v(0, -1) - v(1, -1)
            gy = v(-1, -1) + 2 * v(-1, 0) + v(-1, 1) - v(1, -1) - 2 * v(1, 0) - v(1, 1)
            q.ensure(Eq(q.rd(d.data, i * s.C + j, 'i8'), Ite(Or(Lt(lim, mag(gx)), Lt(lim, mag(gy))), 255, 0)), 'pixels are set where a gradient exceeds the threshold')
            for x in (s.blk, s.data, d.blk):
                o.unchanged(x)
            o.no_leak([])


for t in BORDERS:
    for ch in (1, 3):
        filt(t, ch)
        blur(t, ch)
    laplace(t, False)
    laplace(t, True)
    sobel(t)


@case('C11', 'hypercv_meanblur', FI, ['hypercv_meanblur'])
def meanblur(cx):
    s = cx.sm('src', 1, 1)
    d = cx.sm('dst', 1, 1, rows=s.R, cols=s.C)
    z = cx.dim('size')
    cx.require(Le(s.R, 2 ** 29), Le(s.C, 2 ** 29), Le(z, 2 ** 11))
    cx.witness(half(z))
    for o in cx.call('hypercv_meanblur', s.p, d.p, cx.int(z)):
        q = o.fork()
        i, j = q.index('i', s.R), q.index('j', s.C)
        a, b = Sym('a', INT, 0), Sym('b', INT, 0)
        y, x = i + a - half(z), j + b - half(z)
        inside = And(Le(0, y), Lt(y, s.R), Le(0, x), Lt(x, s.C))
        two = lambda v: Sum(a, z, Sum(b, z, Ite(inside, v, 0)))
        q.congr(d.data, i * s.C + j, 'i8', FDiv(two(q.srd(s.data, y * s.C + x, 'i8')), two(1)), 'every pixel is the mean of the window around it')
        for x in (s.blk, s.data, d.blk):
            o.unchanged(x)
        o.no_leak([])


def kern(n, sg):
    """element i of the Gaussian kernel of n elements, before scaling"""
    s = ((n - 1) * Fraction(1, 2) - 1) * Fraction(0.3) + Fraction(0.8) if sg is None else sg

    def at(i):
        x = i - (n - 1) * Fraction(1, 2)
        return App('math.exp', [x * x * Inv(s * s) * Fraction(-1, 2)], REAL)
    return at


def scaled(n, at, i):
    t = Sym('t', INT, 0)
    return at(i) * Inv(Sum(t, n, at(t)))


SMALL = {1: [1], 3: [1, 2, 1], 5: [1, 4, 6, 4, 1], 7: [2, 7, 14, 18, 14, 7, 2]}


def gk(ktype, given):
    @case('C11', 'gaussian_kernel[%s][%s]' % ('float' if ktype == 4 else 'double', 'sigma' if given else 'no sigma'), FI, ['gaussian_kernel'])
    def run(cx):
        z, tag = (4, 'f32') if ktype == 4 else (8, 'f64')
        n, sg = cx.dim('n'), cx.real('sigma')
        cx.require(Le(n, 2 ** 20), Lt(0, sg) if given else And(Le(sg, 0), Or(Lt(7, n), Eq(Mod(n, 2), 0))))
        for o in cx.call('gaussian_kernel', cx.int(n), FV(sg, 64), cx.int(P(ktype))):
            r = o.sm()
            r.shape(1, n, ktype, 1)
            r.room(n * z)
            q = o.fork()
            i = q.index('i', n)
            q.ensure(Eq(q.rd(r.data, r.doff + i * z, tag), scaled(n, kern(n, sg if given else None), i)), 'the kernel is the normalised Gaussian')
            o.no_leak([r.b, r.data])


def gk_small(n, w, ktype):
    @case('C11', 'gaussian_kernel[%s][%d]' % ('float' if ktype == 4 else 'double', n), FI, ['gaussian_kernel'])
    def run(cx):
        z, tag = (4, 'f32') if ktype == 4 else (8, 'f64')
        sg = cx.real('sigma')
        cx.require(Le(sg, 0))
        for o in cx.call('gaussian_kernel', cx.int(P(n)), FV(sg, 64), cx.int(P(ktype))):
            r = o.sm()
            r.shape(1, n, ktype, 1)
            r.room(P(n * z))
            for i in range(n):
                o.ensure(Eq(o.rd(r.data, r.doff + i * z, tag), P(Fraction(w[i], sum(w)))), 'element %d is the binomial weight' % i)
            o.no_leak([r.b, r.data])


for kt in (4, 5):
    gk(kt, True)
    gk(kt, False)
    for n, w in SMALL.items():
        gk_small(n, w, kt)


def whole_blur(t, ch, both):
    @case('C11', 'hypercv_gaussian_blur[%s][%d][%s]' % (BORDERS[t], ch, 'two sigmas' if both else 'one sigma'), FI, ['hypercv_gaussian_blur'])
    def run(cx):
        s = cx.sm('src', 1, ch)
        d = cx.sm('dst', 1, ch, rows=s.R, cols=s.C)
        hw, hh = cx.dim('half_width', 0), cx.dim('half_height', 0)
        w, h = 2 * hw + 1, 2 * hh + 1
        s1, s2 = cx.real('sigma1'), cx.real('sigma2')
        cx.require(Lt(0, s1), Lt(0, s2) if both else Le(s2, 0))
        cx.require(Le(hw, 2 ** 13), Le(hh, 2 ** 13), Le(s.R * s.C * ch * 4, IMAX - 256))
        for o in cx.call('hypercv_gaussian_blur', s.p, d.p, cx.int(w), cx.int(h), FV(s1, 64), FV(s2, 64), cx.int(P(t))):
            q = o.fork()
            i, j = q.index('i', s.R), q.index('j', s.C)
            kx, ky = kern(w, s1), kern(h, s2 if both else s1)
            for c in range(ch):
                a, b = Sym('a', INT, 0), Sym('b', INT, 0)
                line = lambda r: clamp(Sum(a, w, scaled(w, kx, a) * q.srd(s.data, (r * s.C + Border(t, j + a - hw, s.C)) * ch + c, 'i8')), 0, 255)
                v = Sum(b, h, scaled(h, ky, b) * line(Border(t, i + b - hh, s.R)))
                q.ensure(Eq(q.rd(d.data, (i * s.C + j) * ch + c, 'i8'), sat(clamp(v, 0, 255))), 'channel %d is filtered by the two Gaussians' % c)
            for x in (s.blk, s.data, d.blk):
                o.unchanged(x)
            o.no_leak([])


for t in BORDERS:
    whole_blur(t, 1, True)
whole_blur(4, 3, False)
