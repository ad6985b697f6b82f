"""C04: moving band planes between images: extract, insert, reshape, splice."""
from engine.spec import *
from engine.terms import *

FILES = ['modules/process/src/c_src/imageprocess.c', 'modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c']


def plane_off(h, band):
    return h.S * h.L * (band - 1) * h.E


@case('C04', 'hyper_mat_2_simple_mat', FILES, ['hyper_mat_2_simple_mat'])
def extract(cx):
    h = cx.hm('src', 'bsq')
    band = cx.dim('band')
    cx.require(Le(band, h.B))
    d = cx.sm('dst', None, 1, rows=h.L, cols=h.S)
    cx.require(Eq(d.dt, h.dt), Eq(d.E, h.E))
    for o in cx.call('hyper_mat_2_simple_mat', h.p, d.p, cx.int(band)):
        r = o.sm(d.p, 'dst')
        r.shape(h.L, h.S, h.dt)
        o.ensure(TRUE if r.data is d.data else FALSE, 'the destination keeps its storage')
        q = o.fork()
        i = q.index('i', h.S * h.L * h.E)
        q.ensure(veq(q, q.read(d.data, i, 'i8'), src(q, h.data, plane_off(h, band) + i)), 'the plane is the selected band')
        for b in (h.blk, h.data, h.wave):
            o.unchanged(b)
        o.no_leak([])


@case('C04', 'hyper_mat_2_simple_mat[another shape before]', FILES, ['hyper_mat_2_simple_mat'])
def extract2(cx):
    # the destination has room for the plane, but describes another shape and another data type of that size
    h = cx.hm('src', 'bsq')
    band = cx.dim('band')
    cx.require(Le(band, h.B))
    data = cx.reg(cx.mkblk('dst.data', h.S * h.L * h.E, 'img', 'input:dst', 64, h.dt))
    head = cx.mkblk('dst', 32, 'img', 'input:dst.hdr', 16)
    head.sub = [data]
    data.subof = head
    cx.reg(head, {0: (4, 'i32', IV(cx.dim('before.R'), 32)), 4: (4, 'i32', IV(cx.dim('before.C'), 32)),
                  8: (4, 'i32', IV(cx.dim('before.dt', 1, 15), 32)), 12: (4, 'i32', IV(P(1), 32)),
                  16: (4, 'i32', IV(h.E, 32)), 24: (8, 'ptr', PV.to(data))})
    for o in cx.call('hyper_mat_2_simple_mat', h.p, PV.to(head), cx.int(band)):
        r = o.sm(PV.to(head), 'dst')
        r.shape(h.L, h.S, h.dt)
        o.ensure(TRUE if r.data is data else FALSE, 'the destination keeps its storage')
        q = o.fork()
        i = q.index('i', h.S * h.L * h.E)
        q.ensure(veq(q, q.read(data, i, 'i8'), src(q, h.data, plane_off(h, band) + i)), 'the plane is the selected band')
        for b in (h.blk, h.data, h.wave):
            o.unchanged(b)
        o.no_leak([])


@case('C04', 'simple_mat_2_hyper_mat', FILES, ['simple_mat_2_hyper_mat'])
def insert(cx):
    h = cx.hm('dst', 'bsq')
    band = cx.dim('band')
    cx.require(Le(band, h.B))
    s = cx.sm('src', None, 1, rows=h.L, cols=h.S)
    cx.require(Eq(s.dt, h.dt), Eq(s.E, h.E))
    for o in cx.call('simple_mat_2_hyper_mat', h.p, s.p, cx.int(band)):
        q = o.fork()
        i = q.index('i', h.S * h.L * h.E)
        q.ensure(veq(q, q.read(h.data, plane_off(h, band) + i, 'i8'), src(q, s.data, i)), 'the selected band is the plane')
        q = o.fork()
        i = q.index('i', h.S * h.L * h.B * h.E)
        q.assume(Or(Lt(i, plane_off(h, band)), Le(plane_off(h, band) + h.S * h.L * h.E, i)))
        q.ensure(veq(q, q.read(h.data, i, 'i8'), src(q, h.data, i)), 'every other band is unchanged')
        for b in (h.blk, h.wave, s.blk, s.data):
            o.unchanged(b)
        o.no_leak([])


@case('C04', 'reshape_hypermat_2_simplemat', FILES, ['reshape_hypermat_2_simplemat'])
def reshape(cx):
    for il in ('bsq', 'bil', 'bip'):
        h = cx.hm('src', il)
        R, C = cx.dim('R'), cx.dim('C')
        cx.require(Eq(R * C, h.S * h.L * h.B), Le(h.S * h.L * h.B * h.E, IMAX - 256))
        cx.require(Le(R * C * h.E, IMAX - 256))
        for o in cx.call('reshape_hypermat_2_simplemat', h.p, cx.int(R), cx.int(C)):
            r = o.sm()
            r.shape(R, C, h.dt, 1)
            o.ensure(Eq(r.elem_size, h.E), 'result->elem_size')
            q = o.fork()
            i = q.index('i', R * C * h.E)
            q.ensure(veq(q, q.read(r.data, r.doff + i, 'i8'), src(q, h.data, i)), 'samples keep their storage order')
            for b in (h.blk, h.data, h.wave):
                o.unchanged(b)
            o.no_leak([r.b, r.data])


@case('C04', 'hyper_mat_splicing', FILES, ['hyper_mat_splicing'])
def splice(cx):
    h = cx.hm('mat', 'bsq')
    p = cx.hm('part', 'bsq', dt=h.dt, E=h.E)
    k0 = cx.dim('start', 0)
    cx.require(Le((k0 + p.S * p.L * p.B), h.S * h.L * h.B))
    cx.require(Le(k0 * h.E + p.S * p.L * p.B * h.E, h.S * h.L * h.B * h.E))
    for o in cx.call('hyper_mat_splicing', h.p, p.p, cx.int(k0)):
        n = p.S * p.L * p.B * p.E
        q = o.fork()
        i = q.index('i', n)
        q.ensure(veq(q, q.read(h.data, k0 * h.E + i, 'i8'), src(q, p.data, i)), 'the part is stored from the start position on')
        q = o.fork()
        i = q.index('i', h.S * h.L * h.B * h.E)
        q.assume(Or(Lt(i, k0 * h.E), Le(k0 * h.E + n, i)))
        q.ensure(veq(q, q.read(h.data, i, 'i8'), src(q, h.data, i)), 'everything else is unchanged')
        for b in (h.blk, h.wave, p.blk, p.data, p.wave):
            o.unchanged(b)
        o.no_leak([])
