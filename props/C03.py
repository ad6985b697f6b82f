"""C03: a region of interest is exactly the selected sub-cube."""
from engine.spec import *
from engine.terms import *
from props.C01 import addr

FILES = ['modules/process/src/c_src/imageprocess.c', 'modules/core/src/c_src/hypermat.c']


def roi(cx, h):
    r0, c0, b0 = cx.dim('r0', 0), cx.dim('c0', 0), cx.dim('b0', 0)
    r1, c1, b1 = r0 + cx.dim('rows'), c0 + cx.dim('cols'), b0 + cx.dim('nbands')
    cx.require(Le(r1, h.L), Le(c1, h.S), Le(b1, h.B))
    return r0, c0, b0, r1, c1, b1


class Sub:
    pass


def sub_of(h, r0, c0, b0, r1, c1, b1):
    s = Sub()
    s.S, s.L, s.B, s.E, s.dt = c1 - c0, r1 - r0, b1 - b0, h.E, h.dt
    return s


def check_sub(cx, o, r, h, R, room=True):
    s = sub_of(h, *R)
    r.shape(s.S, s.L, s.B, h.dt, h.il)
    r.room(s.S * s.L * s.B * s.E)
    q = o.fork()
    i, j, k, t = q.index('i', s.L), q.index('j', s.S), q.index('k', s.B), q.index('t', h.E)
    q.ensure(veq(q, q.read(r.data, r.doff + addr(h.il, s, i, j, k, t), 'i8'), src(q, h.data, addr(h.il, h, i + R[0], j + R[1], k + R[2], t))),
             'sample (i,j,k) of the region is sample (row0+i, col0+j, band0+k) of the image')
    w, wo = r.wave()
    q = o.fork()
    k = q.index('wk', s.B)
    q.ensure(veq(q, q.read(w, wo + k * 4, 'f32'), src(q, h.wave, (k + R[2]) * 4, 'f32')), 'wavelengths are those of the selected bands')


def mk(il):
    @case('C03', 'hyper_mat_get_range[%s]' % il, FILES, ['hyper_mat_get_range'])
    def run(cx):
        h = cx.hm('src', il)
        R = roi(cx, h)
        for o in cx.call('hyper_mat_get_range', h.p, *[cx.int(x) for x in R]):
            r = o.hm()
            check_sub(cx, o, r, h, R)
            for b in (h.blk, h.data, h.wave):
                o.unchanged(b)
            o.no_leak([r.b, r.data, r.wave()[0]])


for a in ('bsq', 'bil', 'bip'):
    mk(a)
