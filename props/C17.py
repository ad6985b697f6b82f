"""C17: bitmap files: reading gives the picture the file describes, writing gives a file that describes the picture."""
from engine.spec import *
from engine.terms import *

SF = ['modules/core/src/c_src/simplemat.c', 'modules/process/src/c_src/colortransform.c', 'modules/core/src/c_src/hypermat.c']


def line(W):
    """bytes of a row in the file: padded to a multiple of four"""
    return FDiv(W * 3 + 3, 4) * 4


FIELDS = [(0, 2, 0x4D42), (10, 4, 54), (14, 4, 40), (26, 2, 1), (28, 2, 24), (30, 4, 0)]
ITAG = {2: 'i16', 4: 'i32'}


@case('C17', 'smread_bmp', SF, ['smread_bmp'])
def smread_bmp(cx):
    W, H = cx.dim('W', 1, 1 << 26), cx.dim('H')
    N = cx.dim('N', 54)
    n = line(W) * H
    cx.fits(W, H, 3)
    cx.require(Le(n + 54, N), Le(n, IMAX - 512))
    cells = {o: (z, ITAG[z], IV(P(v), 8 * z)) for o, z, v in FIELDS}
    cells[18] = (4, 'i32', IV(W, 32))
    cells[22] = (4, 'i32', IV(H, 32))
    f = cx.infile('img.bmp', N, cells=cells)
    for o in cx.call('smread_bmp', cx.cstr('img.bmp')):
        r = o.sm()
        r.shape(H, W, 1, 3)
        r.room(H * W * 3)
        q = o.fork()
        i, j, k = q.index('i', H), q.index('j', W), q.index('k', 3)
        q.ensure(veq(q, q.read(r.data, r.doff + i * W * 3 + j * 3 + k, 'i8'), q.src(f.raw, 54 + (H - 1 - i) * line(W) + j * 3 + 2 - k, 'i8')),
                 'pixel (i, j): the colours in the order red, green, blue, the first row at the top')
        for p in o.then('delete_simple_mat', o.ret):
            p.no_leak([], 'deleting the image releases everything')


def mk_write(ch):
    @case('C17', 'smwrite_bmp[%d channel%s]' % (ch, 's' * (ch > 1)), SF, ['smwrite_bmp'])
    def run(cx):
        W, H = cx.dim('W', 1, 1 << 26), cx.dim('H')
        n = line(W) * H
        cx.fits(W, H, 3)
        cx.require(Le(n, IMAX - 512))
        m = cx.sm('m', 1, ch, rows=H, cols=W)
        f = cx.outfile('img.bmp')
        for o in cx.call('smwrite_bmp', cx.cstr('img.bmp'), m.p):
            b, ln = o.file(f)
            o.ensure(Eq(ln, n + 54), 'length of the file')
            for off, z, v in FIELDS + [(2, 4, n + 54), (6, 2, 0), (8, 2, 0), (18, 4, W), (22, 4, H), (34, 4, n), (46, 4, 0)]:
                o.ensure(Eq(o.rd(b, off, ITAG[z]), v), 'field at %d of the file header' % off)
            q = o.fork()
            i, j, k = q.index('i', H), q.index('j', W), q.index('k', 3)
            q.ensure(veq(q, q.read(b, 54 + (H - 1 - i) * line(W) + j * 3 + 2 - k, 'i8'),
                         q.src(m.data, i * W * 3 + j * 3 + k if ch == 3 else i * W + j, 'i8')), 'the pixels, bottom row first, blue before red')
            q = o.fork()
            i = q.index('i', H)
            j = q.index('j', line(W), 3 * W)
            q.ensure(Eq(q.rd(b, 54 + i * line(W) + j, 'i8'), 0), 'rows are padded with zeros')
            o.unchanged(m.blk)
            o.unchanged(m.data)
            o.no_leak([])


mk_write(1)
mk_write(3)
