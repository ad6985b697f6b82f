"""C16: raw images on disk: what is read is what the file holds, what is saved is what the image holds, files are closed."""
from engine.spec import *
from engine.terms import *

HF = ['modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c']


def same_bytes(o, b, off, f, foff, n, what):
    q = o.fork()
    i = q.index('i', n)
    q.ensure(veq(q, q.read(b, off + i, 'i8'), q.src(f, foff + i, 'i8')), what)


def mk_hmread(il):
    @case('C16', 'hmread_with_size[%s]' % il, HF, ['hmread_with_size'])
    def run(cx):
        S, L, B = cx.dim('S'), cx.dim('L'), cx.dim('B')
        dt, E = cx.dtype()
        cx.fits(S, L, B, E)
        cx.require(Le(B * 4, IMAX - 64))
        N = cx.dim('N', 0)
        cx.require(Le(S * L * B * E, N))
        f = cx.infile('img', N)
        for o in cx.call('hmread_with_size', cx.cstr('img'), cx.int(S), cx.int(L), cx.int(B), cx.int(dt), cx.cstr(il)):
            r = o.hm()
            n = S * L * B * E
            r.shape(S, L, B, dt, il)
            r.room(n)
            same_bytes(o, r.data, r.doff, f.raw, ZERO, n, 'the image holds the contents of the file')
            wb, wo = r.wave()
            q = o.fork()
            i = q.index('i', B * 4)
            q.ensure(Eq(q.rd(wb, wo + i, 'i8'), 0), 'the wavelengths are zero')
            o.unchanged(f.raw)
            for p in o.then("delete_hyper_mat", o.ret):
                p.no_leak([], "deleting the image releases everything")


for x in ('bsq', 'bil', 'bip'):
    mk_hmread(x)


@case('C16', 'hmread_with_size[no file]', HF, ['hmread_with_size'])
def hmread_missing(cx):
    S, L, B = cx.dim('S'), cx.dim('L'), cx.dim('B')
    dt, E = cx.dtype()
    cx.fits(S, L, B, E)
    cx.infile('img', 0, missing=True)
    for o in cx.call('hmread_with_size', cx.cstr('img'), cx.int(S), cx.int(L), cx.int(B), cx.int(dt), cx.cstr('bsq')):
        o.ensure(o.is_null(), 'the result is NULL')
        o.no_leak([])


@case('C16', 'smread', HF, ['smread'])
def smread(cx):
    R, C, ch = cx.dim('R'), cx.dim('C'), cx.dim('ch', 1, 1024)
    dt, E = cx.dtype()
    cx.fits(R, C, E, ch)
    cx.require(Le(R * C * E * ch, IMAX - 256))
    N = cx.dim('N', 0)
    n = R * C * ch * E
    cx.require(Le(n, N))
    f = cx.infile('img', N)
    for o in cx.call('smread', cx.cstr('img'), cx.int(R), cx.int(C), cx.int(dt), cx.int(ch)):
        r = o.sm()
        r.shape(R, C, dt, ch)
        r.room(n)
        same_bytes(o, r.data, r.doff, f.raw, ZERO, n, 'the image holds the contents of the file')
        o.unchanged(f.raw)
        for p in o.then('delete_simple_mat', o.ret):
            p.no_leak([], 'deleting the image releases everything')


def header(S, L, B, dt, il, w):
    t = ['ENVI\nsamples = ', ('%d', S), '\nlines = ', ('%d', L), '\nbands = ', ('%d', B), '\ndata type = ', ('%d', dt),
         '\ninterleave = ' + il + '\n']
    if w is None:
        return t + ['wavelength = unknown \n']
    return t + ['wavelength = { \n', ('rep', B - 1, lambda i: [('%f', w(i)), ',']), ('%f', w(B - 1)), '}']


def mk_hmsave(il, wave):
    @case('C16', 'hmsave[%s%s]' % (il, '' if wave else ',no wavelengths'), HF, ['hmsave'])
    def run(cx):
        h = cx.hm('m', il, wave=wave)
        f, g = cx.outfile('img'), cx.outfile('img.hdr')
        for o in cx.call('hmsave', cx.cstr('img'), h.p):
            n = h.S * h.L * h.B * h.E
            b, ln = o.file(f)
            o.ensure(Eq(ln, n), 'the file is as long as the image')
            q = o.fork()
            i = q.index('i', n)
            q.ensure(veq(q, q.read(b, i, 'i8'), q.src(h.data, i, 'i8')), 'the file holds the image')
            o.text(g, header(h.S, h.L, h.B, h.dt, il, (lambda i: o.srd(h.wave, i * 4, 'f32')) if wave else None))
            for x in [h.blk, h.data] + ([h.wave] if wave else []):
                o.unchanged(x)
            o.no_leak([])


for x in ('bsq', 'bil', 'bip'):
    mk_hmsave(x, True)
mk_hmsave('bsq', False)


def mk_hdr(il, order):
    @case('C16', 'hmread_with_hdr[%s%s]' % (il, ',' + order if order else ''), HF, ['hmread_with_hdr', 'readhdr'])
    def run(cx):
        S, L, B = cx.dim('S'), cx.dim('L'), cx.dim('B')
        dt, E = cx.dtype()
        cx.fits(S, L, B, E)
        cx.require(Le(B * 4, IMAX - 64))
        n = S * L * B * E
        N = cx.dim('N', 0)
        cx.require(Le(n, N))
        f = cx.infile('img', N)
        if order:
            eq = {'another order': ' = ', 'no spaces': '=', 'more spaces': '  =   '}[order]
            t = ['ENVI\n', 'description' + eq + '{\n  scene }\n', 'bands' + eq, ('%d', B), '\nlines' + eq, ('%d', L), '\nsamples' + eq, ('%d', S),
                 '\nheader offset' + eq + '0\n', 'interleave' + eq + il + '\n', 'data type' + eq, ('%d', dt), '\n',
                 'data ignore value' + eq, ('%d', cx.dim('ignored', 0)), '\nwavelength units' + eq + 'nm\nband names' + eq + '{\n b1}\n']
        else:
            t = header(S, L, B, dt, il, None)
        cx.intext('img.hdr', t)
        for o in cx.call('hmread_with_hdr', cx.cstr('img'), cx.cstr('img.hdr')):
            r = o.hm()
            r.shape(S, L, B, dt, il)
            r.room(n)
            same_bytes(o, r.data, r.doff, f.raw, ZERO, n, 'the image holds the contents of the file')
            wb, wo = r.wave()
            q = o.fork()
            i = q.index('i', B * 4)
            q.ensure(Eq(q.rd(wb, wo + i, 'i8'), 0), 'the wavelengths are zero')
            for p in o.then('delete_hyper_mat', o.ret):
                p.no_leak([], 'deleting the image releases everything')


for x in ('bsq', 'bil', 'bip'):
    mk_hdr(x, '')
mk_hdr('bil', 'another order')
mk_hdr('bip', 'no spaces')
mk_hdr('bsq', 'more spaces')


def mk_nofile(which):
    @case('C16', 'hmread_with_hdr[no %s]' % which, HF, ['hmread_with_hdr'])
    def run(cx):
        N = cx.dim('N', 0)
        if which == 'image':
            cx.infile('img', 0, missing=True)
            cx.intext('img.hdr', header(cx.dim('S'), cx.dim('L'), cx.dim('B'), 1, 'bil', None))
        else:
            cx.infile('img', N)
            cx.infile('img.hdr', 0, missing=True)
        for o in cx.call('hmread_with_hdr', cx.cstr('img'), cx.cstr('img.hdr')):
            o.ensure(o.is_null(), 'the result is NULL')
            o.no_leak([])


mk_nofile('image')
mk_nofile('header')


def mk_hdrw(lines):
    @case('C16', 'hmread_with_hdr[3 wavelengths on %d line%s]' % (lines, 's' * (lines > 1)), HF, ['hmread_with_hdr', 'readhdr', 'read_wavelength'],
          level='bounded', note='a header with three given wavelengths')
    def run(cx):
        S, L = cx.dim('S'), cx.dim('L')
        N = cx.dim('N', 0)
        cx.fits(S, L, 3, 2)
        cx.require(Le(S * L * 6, N))
        f = cx.infile('img', N)
        t = ['ENVI\nsamples = ', ('%d', S), '\nlines = ', ('%d', L), '\nbands = 3\ndata type = 12\ninterleave = bil\nwavelength = { \n',
             '400.500000,1410.250000,2500.000000}' if lines == 1 else '400.500000,\n 1410.250000,\n2500.000000}\n']
        cx.intext('img.hdr', t)
        for o in cx.call('hmread_with_hdr', cx.cstr('img'), cx.cstr('img.hdr')):
            r = o.hm()
            r.shape(S, L, 3, 12, 'bil')
            same_bytes(o, r.data, r.doff, f.raw, ZERO, S * L * 6, 'the image holds the contents of the file')
            wb, wo = r.wave()
            for i, v in enumerate((400.5, 1410.25, 2500)):
                o.ensure(Eq(o.rd(wb, wo + 4 * i, 'f32'), Fraction(v)), 'wavelength %d of the header' % i)
            for p in o.then('delete_hyper_mat', o.ret):
                p.no_leak([], 'deleting the image releases everything')


mk_hdrw(1)
mk_hdrw(3)


def mk_hdrl(name, text, want):
    @case('C16', 'hmread_with_hdr[wavelengths: %s]' % name, HF, ['hmread_with_hdr', 'readhdr', 'read_wavelength'],
          level='bounded', note='a header with the wavelength list %s for three bands' % name)
    def run(cx):
        S, L = cx.dim('S'), cx.dim('L')
        N = cx.dim('N', 0)
        cx.fits(S, L, 3, 2)
        cx.require(Le(S * L * 6, N))
        f = cx.infile('img', N)
        cx.intext('img.hdr', ['ENVI\nsamples = ', ('%d', S), '\nlines = ', ('%d', L),
                              '\nbands = 3\ndata type = 12\ninterleave = bil\nwavelength = { \n', text])
        for o in cx.call('hmread_with_hdr', cx.cstr('img'), cx.cstr('img.hdr')):
            r = o.hm()
            r.shape(S, L, 3, 12, 'bil')
            same_bytes(o, r.data, r.doff, f.raw, ZERO, S * L * 6, 'the image holds the contents of the file')
            wb, wo = r.wave()
            for i, v in enumerate(want):
                o.ensure(Eq(o.rd(wb, wo + 4 * i, 'f32'), Fraction(v)), 'wavelength %d of the header' % i)
            for p in o.then('delete_hyper_mat', o.ret):
                p.no_leak([], 'deleting the image releases everything')


mk_hdrl('shorter and shorter numbers', '1410.250000,\n400.5,\n7}\n', (1410.25, 400.5, 7))
mk_hdrl('more numbers than bands', '400.5, 410.25, 420.125,\n430.5, 440.5}\n', (400.5, 410.25, 420.125))
mk_hdrl('fewer numbers than bands', '400.5,\n410.25}\n', (400.5, 410.25, 0))
mk_hdrl('digits beyond the room for one', '400.50000000000000000001,\n41.5,\n42.5}\n', (400.5, 41.5, 42.5))


# the C++ front end
from props.C02 import HyV, hy, raw, FMT
CXX = ['@props/cxx/hymat.cpp', 'modules/core/src/c_src/hypermat.c']


def loaded(o, b, f, S, L, B, dt, E, il, missing=False):
    v = HyV(o, b).area()
    n = S * L * B * E
    v.shape(S, L, B, dt, E, il)
    v.room(n, B)
    if f is not None:
        same_bytes(o, v.data, v.doff, f.raw, ZERO, n, 'the image holds the contents of the file')
    q = o.fork()
    i = q.index('i', B * 4)
    q.ensure(Eq(q.rd(v.wave, v.woff + i, 'i8'), 0), 'the wavelengths are zero')


def mk_hymat_open(il, fn):
    @case('C16', '%s[%s]' % ('hmread' if fn == 'hv_hmread' else 'HyMat::open', il), CXX, [fn], level='proved')
    def run(cx):
        h = hy(cx, 'm', il) if fn == 'hv_HyMat_open' else None
        b, p = (h.blk, h.p) if h else raw(cx)
        S, L, B = cx.dim('S'), cx.dim('L'), cx.dim('B')
        dt, E = cx.dtype()
        cx.fits(S, L, B, E)
        cx.require(Le(B * 4, IMAX))
        n = S * L * B * E
        N = cx.dim('N', 0)
        cx.require(Le(n, N))
        f = cx.infile('img', N)
        for o in cx.call(fn, p, cx.cstr('img'), cx.int(S), cx.int(L), cx.int(B), cx.int(dt), cx.int(FMT[il])):
            loaded(o, b, f, S, L, B, dt, E, il)
            o.unchanged(f.raw)
            if h:
                o.ensure(o.freed(h.data), 'the old image is released')
                o.ensure(o.freed(h.wave), 'the old wavelengths are released')
            for q in o.then('hv_HyMat_release', p):
                q.no_leak([], 'releasing the image releases everything')


for x in ('bsq', 'bil', 'bip'):
    mk_hymat_open(x, 'hv_hmread')
mk_hymat_open('bil', 'hv_HyMat_open')


@case('C16', 'hmread[no file]', CXX, ['hv_hmread'])
def hy_missing(cx):
    b, p = raw(cx)
    S, L, B = cx.dim('S'), cx.dim('L'), cx.dim('B')
    dt, E = cx.dtype()
    cx.fits(S, L, B, E)
    cx.require(Le(B * 4, IMAX))
    cx.infile('img', 0, missing=True)
    for o in cx.call('hv_hmread', p, cx.cstr('img'), cx.int(S), cx.int(L), cx.int(B), cx.int(dt), cx.int(FMT['bsq'])):
        for q in o.then('hv_HyMat_release', p):
            q.no_leak([], 'releasing the image releases everything')


SPF = ['modules/process/src/c_src/spectralprocess.c']


@case('C16', 'read_spectrum_file', SPF, ['read_spectrum_file'])
def spectrum(cx):
    n, N = cx.dim('n'), cx.dim('N', 0)
    cx.require(Le(n * 4, IMAX))
    f = cx.innumbers('sp.txt', N)
    b, m = f.nums
    for o in cx.call('read_spectrum_file', cx.cstr('sp.txt'), cx.int(n)):
        r, off = o.target(o.ret.p if hasattr(o.ret, 'p') else o.ret, 'the spectrum')
        o.ensure(And(Le(0, off), Le(off + n * 4, r.size)), 'the spectrum has room for its values')
        q = o.fork()
        i = q.index('i', n)
        q.ensure(Implies(Lt(i, m), Eq(q.rd(r, off + i * 4, 'f32'), q.srd(b, Min(i, m - 1) * 4, 'f32'))), 'the values are the numbers of the file')
        q.ensure(Implies(Le(m, i), Eq(q.rd(r, off + i * 4, 'f32'), 0)), 'missing values are zero')
        o.no_leak([r], 'nothing but the spectrum stays allocated')
