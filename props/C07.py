"""C07: transposing and flipping."""
from engine.spec import *
from engine.terms import *

GT = ['modules/process/src/c_src/GeometricTransformation.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/hypermat.c']
IP = ['modules/process/src/c_src/imageprocess.c', 'modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c']
MX = ['modules/process/src/c_src/matrixprocess.c']

BYTE = ((1, 'uchar'),)


def kept(o, h, *more):
    """the header of an image passed in is untouched"""
    for x in (h,) + more:
        o.unchanged(x.blk)


@case('C07', 'simple_mat_transport', IP, ['simple_mat_transport'])
def transport(cx):
    s = cx.sm('src', None, 1)
    d = cx.sm('dst', s.dt, 1, rows=s.C, cols=s.R)
    for o in cx.call('simple_mat_transport', d.p, s.p):
        q = o.fork()
        i, j, t = q.index('i', s.R), q.index('j', s.C), q.index('t', s.E)
        q.ensure(veq(q, q.read(d.data, (j * s.R + i) * s.E + t, 'i8'), src(q, s.data, (i * s.C + j) * s.E + t)), 'element (j,i) of the result is element (i,j) of the source')
        kept(o, s, d)
        o.unchanged(s.data)
        o.no_leak([])


def flip_addr(kind, s, i, j, k):
    a = s.R - 1 - i if kind in ('v', 'hv') else i
    b = s.C - 1 - j if kind in ('h', 'hv') else j
    return (a * s.C + b) * s.ch + k


def flip(name, kind, code=None, label=None):
    @case('C07', label or name, GT, [name])
    def run(cx):
        ch = cx.dim('ch')
        s = cx.sm('src', 1, ch)
        d = cx.sm('dst', 1, ch, rows=s.R, cols=s.C)
        args = [s.p, d.p]
        if code is not None:
            c = cx.dim('code', -2**31, IMAX) if code == 'other' else code
            if code == 'other':
                cx.require(Ne(c, 0), Ne(c, -1))
            args.append(cx.int(c))
        for o in cx.call(name, *args):
            q = o.fork()
            i, j, k = q.index('i', s.R), q.index('j', s.C), q.index('k', ch)
            q.ensure(veq(q, q.read(d.data, (i * s.C + j) * ch + k, 'i8'), src(q, s.data, flip_addr(kind, s, i, j, k))),
                     'pixel (i,j) of the result is the mirrored pixel of the source')
            kept(o, s, d)
            o.unchanged(s.data)
            o.no_leak([])


flip('simple_mat_flip_horizontal', 'h')
flip('simple_mat_flip_vertical', 'v')
flip('simple_mat_flip', 'v', 0, 'simple_mat_flip[0]')
flip('simple_mat_flip', 'hv', -1, 'simple_mat_flip[-1]')
flip('simple_mat_flip', 'h', 'other', 'simple_mat_flip[1, other]')


def trans(ty, z, content):
    @case('C07', 'TransMatrix_' + ty, MX, ['TransMatrix_' + ty])
    def run(cx):
        m, n = cx.dim('m'), cx.dim('n')
        cx.fits(m, n, P(z))
        x, y = cx.obj('x', m * n * z, content=content), cx.obj('z', m * n * z, content=content)
        for o in cx.call('TransMatrix_' + ty, PV.to(x), PV.to(y), cx.int(m), cx.int(n)):
            q = o.fork()
            i, j, t = q.index('i', m), q.index('j', n), q.index('t', P(z))
            q.ensure(veq(q, q.read(y, (j * m + i) * z + t, 'i8'), src(q, x, (i * n + j) * z + t)), 'element (j,i) of the result is element (i,j) of the matrix')
            o.unchanged(x)
            o.no_leak([])


for ty, z, ct in (('char', 1, 1), ('uchar', 1, 1), ('short', 2, 2), ('ushort', 2, 12), ('int', 4, 3), ('uint', 4, 13), ('float', 4, 4), ('double', 8, 5)):
    trans(ty, z, ct)

HT = ['modules/process/src/c_src/spectralprocess.c', 'modules/core/src/c_src/hypermat.c']


@case('C07', 'hyper_mat_transport', HT, ['hyper_mat_transport'])
def cube_transport(cx):
    s = cx.hm('src', 'bsq')
    d = cx.hm('dst', 'bsq', S=s.L, L=s.S, B=s.B, dt=s.dt, E=s.E)
    for o in cx.call('hyper_mat_transport', d.p, s.p):
        q = o.fork()
        i, j, k, t = q.index('i', s.L), q.index('j', s.S), q.index('k', s.B), q.index('t', s.E)
        q.ensure(veq(q, q.read(d.data, ((k * s.S + j) * s.L + i) * s.E + t, 'i8'), src(q, s.data, ((k * s.L + i) * s.S + j) * s.E + t)),
                 'sample j of line i of every band becomes sample i of line j')
        kept(o, s, d)
        for x in (s.data, s.wave, d.wave):
            o.unchanged(x)
        o.no_leak([])
