"""C02: the C++ image class HyMat: creation, copying, conversion between layouts, sub-images, release."""
from engine.spec import *
from engine.terms import *

F = ['@props/cxx/hymat.cpp', 'modules/core/src/c_src/hypermat.c']
HPP = 'modules/core/include/cxx_include/hypermat.hpp'
FMT = {'bsq': 0, 'bil': 1, 'bip': 2}
SIZE = 56


def addr(il, S, L, B, E, i, j, k, t):
    e = (k * L + i) * S + j if il == 'bsq' else (i * B + k) * S + j if il == 'bil' else (i * S + j) * B + k
    return e * E + t


class HyV:
    """HyMat object read from the post-state"""

    def __init__(self, o, b, off=0, what='result'):
        r = lambda k, t='i32': o.rd(b, off + k, t)
        self.o, self.b, self.off, self.what = o, b, off, what
        self.lines, self.samples, self.bands, self.dt, self.format = r(0), r(4), r(8), r(12), r(16)
        self.il = [o.rd(b, off + 20 + i, 'i8') for i in range(3)]
        self.esz, self.dsz = r(40), r(48, 'i64')

    def area(self):
        self.data, self.doff = self.o.target(self.o.read(self.b, self.off + 24, 'ptr'), self.what + '.data')
        self.wave, self.woff = self.o.target(self.o.read(self.b, self.off + 32, 'ptr'), self.what + '.wavelength')
        return self

    def shape(self, S, L, B, dt, E, il):
        o, w = self.o, self.what
        for g, v, n in ((self.samples, S, 'samples'), (self.lines, L, 'lines'), (self.bands, B, 'bands'), (self.dt, dt, 'dataType'), (self.esz, E, 'elemSize'),
                        (self.dsz, P(S) * L * B * E, 'dataSize'), (self.format, FMT[il], 'format')):
            o.ensure(Eq(g, v), '%s.%s' % (w, n))
        for i, c in enumerate(il):
            o.ensure(Eq(self.il[i], ord(c)), '%s.interleave[%d] == %r' % (w, i, c))

    def room(self, n, nw):
        o = self.o
        o.ensure(And(Le(0, self.doff), Le(self.doff + n, self.data.size)), self.what + '.data holds the image')
        o.ensure(And(Le(0, self.woff), Le(self.woff + nw * 4, self.wave.size)), self.what + '.wavelength holds one value per band')


class HY:
    pass


def hy(cx, name, il, data='heap'):
    """a well formed HyMat"""
    h = HY()
    h.il = il
    h.S, h.L, h.B = cx.dim(name + '.S'), cx.dim(name + '.L'), cx.dim(name + '.B')
    h.dt, h.E = cx.dtype(name + '.dt', name + '.E')
    cx.fits(h.S, h.L, h.B, h.E)
    cx.require(Le(h.B * 4, IMAX))
    h.n = h.S * h.L * h.B * h.E
    h.data = cx.reg(cx.mkblk(name + '.data', h.n, 'heap', 'input:' + name, 16, h.dt))
    h.wave = cx.reg(cx.mkblk(name + '.wave', h.B * 4, 'heap', 'input:' + name + '.w', 16, 4))
    cells = {0: (4, 'i32', IV(h.L, 32)), 4: (4, 'i32', IV(h.S, 32)), 8: (4, 'i32', IV(h.B, 32)), 12: (4, 'i32', IV(h.dt, 32)),
             16: (4, 'i32', IV(P(FMT[il]), 32)), 24: (8, 'ptr', PV.to(h.data)), 32: (8, 'ptr', PV.to(h.wave)), 40: (4, 'i32', IV(h.E, 32)), 48: (8, 'i64', IV(h.n, 64))}
    for i, c in enumerate(il):
        cells[20 + i] = (1, 'i8', IV(P(ord(c)), 8, 'u'))
    h.blk = cx.reg(cx.mkblk(name, SIZE, 'arg', 'input:' + name + '.hdr', 8), cells)
    h.p = PV.to(h.blk)
    h.blocks = (h.blk, h.data, h.wave)
    return h


def raw(cx, name='m'):
    """storage for an object that is not constructed yet"""
    b = cx.reg(cx.mkblk(name, SIZE, 'arg', 'undef', 8))
    return b, PV.to(b)


def zero(o, b, off, n, desc):
    q = o.fork()
    i = q.index('z', n)
    q.ensure(Eq(q.rd(b, off + i, 'i8'), 0), desc)


def sizes(cx):
    S, L, B = cx.dim('S'), cx.dim('L'), cx.dim('B')
    dt, E = cx.dtype()
    cx.fits(S, L, B, E)
    cx.require(Le(B * 4, IMAX))
    return S, L, B, dt, E


def same(o, v, il, h, desc):
    q = o.fork()
    i, j, k, t = q.index('i', h.L), q.index('j', h.S), q.index('k', h.B), q.index('t', h.E)
    got = q.read(v.data, v.doff + addr(il, h.S, h.L, h.B, h.E, i, j, k, t), 'i8')
    q.ensure(veq(q, got, q.src(h.data, addr(h.il, h.S, h.L, h.B, h.E, i, j, k, t))), desc)


def waves(o, v, n, w, woff=0, desc='the wavelength of every band is kept'):
    q = o.fork()
    k = q.index('w', n)
    q.ensure(veq(q, q.read(v.wave, v.woff + k * 4, 'f32'), q.src(w, P(woff) * 4 + k * 4, 'f32')), desc)


@case('C02', 'get_elemsize', F, ['_ZL12get_elemsizei'], internal=True)
def elemsize(cx):
    for k, v in VALID_DT.items():
        for o in cx.call('_ZL12get_elemsizei', cx.int(k)):
            o.ensure(Eq(o.iret(), v), 'element size of data type %d is %d' % (k, v))


@case('C02', 'HyMat()', F, ['hv_HyMat_init'])
def init(cx):
    b, p = raw(cx)
    for o in cx.call('hv_HyMat_init', p):
        v = HyV(o, b)
        for g, n in ((v.samples, 'samples'), (v.lines, 'lines'), (v.bands, 'bands'), (v.dsz, 'dataSize')):
            o.ensure(Eq(g, 0), n + ' is 0')
        o.no_leak([])
        for q in o.then('hv_HyMat_empty', p):
            q.ensure(Eq(q.iret(), 1), 'a new image is empty')
        for q in o.then('hv_HyMat_release', p):
            q.no_leak([])


def make(fn, il, how):
    @case('C02', '%s[%s]' % (fn, il), F, ['hv_HyMat_' + how])
    def run(cx):
        S, L, B, dt, E = sizes(cx)
        data = wave = None
        args = []
        if how in ('wrap', 'wrap_wave', 'create_data'):
            data = cx.reg(cx.mkblk('data', S * L * B * E, 'heap', 'input:d', 16, dt))
            args.append(PV.to(data))
        if how in ('wrap_wave', 'create_data'):
            wave = cx.reg(cx.mkblk('wave', B * 4, 'heap', 'input:w', 16, 4))
            args.append(PV.to(wave))
        old = ()
        if how.startswith('create'):
            h = hy(cx, 'old', 'bip')
            b, p, old = h.blk, h.p, h.blocks[1:]
        else:
            b, p = raw(cx)
        for o in cx.call('hv_HyMat_' + how, p, cx.int(S), cx.int(L), cx.int(B), cx.int(dt), cx.int(FMT[il]), *args):
            v = HyV(o, b).area()
            v.shape(S, L, B, dt, E, il)
            v.room(S * L * B * E, B)
            for x in old:
                o.ensure(o.freed(x), 'the former storage is released')
            if data is not None:
                o.ensure(And(Eq(P(int(v.data is data)), 1), Eq(v.doff, 0)), 'the image uses the data supplied')
                o.unchanged(data)
            else:
                zero(o, v.data, v.doff, S * L * B * E, 'the data are zero')
            if wave is not None:
                o.ensure(And(Eq(P(int(v.wave is wave)), 1), Eq(v.woff, 0)), 'the image uses the wavelengths supplied')
                o.unchanged(wave)
            else:
                zero(o, v.wave, v.woff, B * 4, 'the wavelengths are zero')
            o.ensure(Eq(P(int(v.wave is v.data)), 0), 'data and wavelengths are apart')
            o.no_leak([v.data, v.wave])
            for q in o.then('hv_HyMat_empty', p):
                q.ensure(Eq(q.iret(), 0), 'the image is not empty')
            for q in o.then('hv_HyMat_release', p):
                q.ensure(q.freed(v.data), 'release() frees the data')
                q.ensure(q.freed(v.wave), 'release() frees the wavelengths')
                q.no_leak([])


for il in FMT:
    make('HyMat(sizes)', il, 'make')
    make('HyMat(sizes, data)', il, 'wrap')
    make('HyMat(sizes, data, wavelengths)', il, 'wrap_wave')
    make('create(sizes)', il, 'create')
    make('create(sizes, data, wavelengths)', il, 'create_data')


def copy(il):
    @case('C02', 'copy[%s]' % il, F, ['hv_HyMat_copy'])
    def run(cx):
        h = hy(cx, 'm', il)
        b, p = raw(cx, 'r')
        for o in cx.call('hv_HyMat_copy', p, h.p):
            v = HyV(o, b).area()
            v.shape(h.S, h.L, h.B, h.dt, h.E, il)
            v.room(h.n, h.B)
            o.ensure(Eq(P(int(v.data in h.blocks or v.wave in h.blocks)), 0), 'the copy has storage of its own')
            same(o, v, il, h, 'every sample is copied')
            waves(o, v, h.B, h.wave)
            for x in h.blocks:
                o.unchanged(x)
            o.no_leak([v.data, v.wave])


def convert(a, b):
    @case('C02', 'convertTo[%s to %s]' % (a, b), F, ['hv_HyMat_convertTo'])
    def run(cx):
        h = hy(cx, 'm', a)
        for o in cx.call('hv_HyMat_convertTo', h.p, cx.int(FMT[b])):
            v = HyV(o, h.blk).area()
            v.shape(h.S, h.L, h.B, h.dt, h.E, b)
            v.room(h.n, h.B)
            same(o, v, b, h, 'sample (i,j,k) is preserved')
            waves(o, v, h.B, h.wave)
            o.no_leak([v.data, v.wave])


def free_fn(a, b, lay):
    fn = '%s2%s' % (a, b)

    @case('C02', 'hypercv::%s[%s image]' % (fn, lay), F, ['hv_' + fn])
    def run(cx):
        h = hy(cx, 'm', lay)
        r, p = raw(cx, 'r')
        for o in cx.call('hv_' + fn, p, h.p):
            v = HyV(o, r).area()
            v.shape(h.S, h.L, h.B, h.dt, h.E, b)
            v.room(h.n, h.B)
            o.ensure(Eq(P(int(v.data in h.blocks or v.wave in h.blocks)), 0), 'the result has storage of its own')
            same(o, v, b, h, 'sample (i,j,k) of the result is sample (i,j,k) of the source')
            waves(o, v, h.B, h.wave)
            for x in h.blocks:
                o.unchanged(x)
            o.no_leak([v.data, v.wave])


for a in FMT:
    copy(a)
    for b in FMT:
        convert(a, b)
        if a != b:
            free_fn(a, b, a)
            if a != 'bil':
                free_fn(a, b, b)


def sub(il):
    @case('C02', 'range[%s]' % il, F, ['hv_HyMat_range'])
    def run(cx):
        h = hy(cx, 'm', il)
        b, p = raw(cx, 'r')
        r0, c0, b0 = [cx.dim(n, 0) for n in ('r0', 'c0', 'b0')]
        nr, nc, nb = [cx.dim(n) for n in ('nr', 'nc', 'nb')]
        cx.require(Le(r0 + nr, h.L), Le(c0 + nc, h.S), Le(b0 + nb, h.B))
        cx.fits(nc, nr, nb, h.E)
        a = [cx.int(x) for x in (r0, c0, b0, r0 + nr, c0 + nc, b0 + nb)]
        for o in cx.call('hv_HyMat_range', p, h.p, *a):
            v = HyV(o, b).area()
            v.shape(nc, nr, nb, h.dt, h.E, il)
            v.room(nc * nr * nb * h.E, nb)
            o.ensure(Eq(P(int(v.data in h.blocks or v.wave in h.blocks)), 0), 'the sub-image has storage of its own')
            q = o.fork()
            i, j, k, t = q.index('i', nr), q.index('j', nc), q.index('k', nb), q.index('t', h.E)
            got = q.read(v.data, v.doff + addr(il, nc, nr, nb, h.E, i, j, k, t), 'i8')
            q.ensure(veq(q, got, q.src(h.data, addr(il, h.S, h.L, h.B, h.E, r0 + i, c0 + j, b0 + k, t))), 'sample (i,j,k) is sample (r0+i,c0+j,b0+k) of the source')
            waves(o, v, nb, h.wave, b0)
            for x in h.blocks:
                o.unchanged(x)
            o.no_leak([v.data, v.wave])


for a in FMT:
    sub(a)


@case('C02', 'CopyData', F, ['hv_HyMat_CopyData'])
def copydata(cx):
    h = hy(cx, 'm', 'bsq')
    n = cx.dim('n', 0)
    m = Ite(Eq(n, 0), h.n, n)
    cx.require(Le(m, h.n))
    d = cx.reg(cx.mkblk('d', m, 'heap', 'input:d', 1, 1))
    for o in cx.call('hv_HyMat_CopyData', h.p, PV.to(d), IV(n, 64)):
        q = o.fork()
        i = q.index('i', h.n)
        q.ensure(Eq(q.rd(h.data, i, 'i8'), Ite(Lt(i, m), q.srd(d, Min(i, m - 1), 'i8'), q.srd(h.data, i, 'i8'))), 'the first n bytes (all for 0) are those given, the others are kept')
        for x in (h.blk, h.wave, d):
            o.unchanged(x)


@case('C02', 'CopyWaveLength', F, ['hv_HyMat_CopyWaveLength'])
def copywave(cx):
    h = hy(cx, 'm', 'bsq')
    n = cx.dim('n', 0)
    m = Ite(Eq(n, 0), h.B, n)
    cx.require(Le(m, h.B))
    d = cx.reg(cx.mkblk('d', m * 4, 'heap', 'input:d', 4, 4))
    for o in cx.call('hv_HyMat_CopyWaveLength', h.p, PV.to(d), IV(n, 64)):
        q = o.fork()
        i = q.index('i', h.B)
        q.ensure(Eq(q.rd(h.wave, i * 4, 'f32'), Ite(Lt(i, m), q.srd(d, Min(i, m - 1) * 4, 'f32'), q.srd(h.wave, i * 4, 'f32'))), 'the first n values (all for 0) are those given, the others are kept')
        for x in (h.blk, h.data, d):
            o.unchanged(x)
