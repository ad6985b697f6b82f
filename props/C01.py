"""C01: C interleave conversions are the exact permutation and keep shape, type, wavelengths; source untouched."""
from engine.spec import *

FILES = ['modules/process/src/c_src/imageprocess.c', 'modules/core/src/c_src/hypermat.c']


def addr(il, h, i, j, k, t):
    """byte offset of byte t of element (line i, sample j, band k)"""
    if il == 'bsq':
        e = (k * h.L + i) * h.S + j
    elif il == 'bil':
        e = (i * h.B + k) * h.S + j
    else:
        e = (i * h.S + j) * h.B + k
    return e * h.E + t


def same_samples(o, blk, off, il_to, h, src_read, desc):
    q = o.fork()
    i, j, k, t = q.index('i', h.L), q.index('j', h.S), q.index('k', h.B), q.index('t', h.E)
    got = q.read(blk, off + addr(il_to, h, i, j, k, t), 'i8')
    want = src_read(q, addr(h.il, h, i, j, k, t))
    q.ensure(veq(q, got, want), desc)


def entry_read(cx, blk):
    def f(q, off):
        return q.src(blk, off)
    return f


def same_wave(o, blk, off, h, wblk, desc='wavelength of every band is kept'):
    q = o.fork()
    k = q.index('wk', h.B)
    got = q.read(blk, off + k * 4, 'f32')
    want = q.src(wblk, k * 4, 'f32')
    q.ensure(veq(q, got, want), desc)


def conv(src, dst, wave=True, layout=None):
    name = '%s2%s' % (src, dst)
    lay = layout or src

    @case('C01', name + ('' if wave else '[no wavelengths]') + ('' if lay == src else '[%s image]' % lay), FILES, [name])
    def run(cx):
        h = cx.hm('src', lay, wave=wave)
        for o in cx.call(name, h.p):
            r = o.hm()
            r.shape(h.S, h.L, h.B, h.dt, dst)
            r.room(h.S * h.L * h.B * h.E)
            o.ensure(TRUE if r.data is not h.data and r.b is not h.blk else FALSE, 'the result has storage of its own')
            same_samples(o, r.data, r.doff, dst, h, entry_read(cx, h.data), 'sample (i,j,k) of the result is sample (i,j,k) of the source')
            w, wo = r.wave()
            if wave:
                same_wave(o, w, wo, h, h.wave)
            for b in (h.blk, h.data) + ((h.wave,) if wave else ()):
                o.unchanged(b)
            o.no_leak([r.b, r.data, w])


for a in ('bsq', 'bil', 'bip'):
    for b in ('bsq', 'bil', 'bip'):
        if a != b:
            conv(a, b)
            conv(a, b, wave=False)
            conv(a, b, layout=b)


def conv_in_place(dst, src):
    name = 'convert2' + dst

    @case('C01', '%s[%s]' % (name, src), FILES, [name])
    def run(cx):
        h = cx.hm('mat', src)
        for o in cx.call(name, h.p):
            r = o.hm(h.p, 'mat')
            r.shape(h.S, h.L, h.B, h.dt, dst)
            o.ensure(Eq(P(int(r.data is h.data)), 1), 'mat keeps its data area')
            same_samples(o, r.data, r.doff, dst, h, entry_read(cx, h.data), 'sample (i,j,k) is preserved')
            w, wo = r.wave()
            same_wave(o, w, wo, h, h.wave)
            o.no_leak([])


for a in ('bsq', 'bil', 'bip'):
    for b in ('bsq', 'bil', 'bip'):
        conv_in_place(a, b)
