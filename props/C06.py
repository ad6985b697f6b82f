"""C06: deleting an image releases everything that was allocated for it, exactly once, and nothing else."""
from engine.spec import *
from engine.terms import *

HF = ['modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/struct_2D.c']
HT = ['create_hyper_mat', 'create_hyper_mat_with_data', 'hyper_mat_copy', 'delete_hyper_mat']
ST = ['create_simple_mat', 'create_simple_mat_with_data', 'simple_mat_copy', 'delete_simple_mat']


def all_released(o, keep=()):
    o.no_leak(keep, 'everything allocated for the image is released')
    for b in o.cx.init:
        o.ensure(Not(o.freed(b)), 'nothing else is released (%s)' % b.name) if b not in keep else None


@case('C06', 'delete_hyper_mat(create_hyper_mat)', HF, HT)
def hm(cx):
    S, L, B = cx.dim('S'), cx.dim('L'), cx.dim('B')
    dt, E = cx.dtype()
    cx.fits(S, L, B, E)
    cx.require(Le(B * 4, IMAX - 64))
    other = cx.hm('other', 'bil')
    for o in cx.call('create_hyper_mat', cx.int(S), cx.int(L), cx.int(B), cx.int(dt), cx.cstr('bsq')):
        for q in o.then('delete_hyper_mat', o.ret):
            all_released(q)
            q.unchanged(other.data)


@case('C06', 'delete_hyper_mat(create_hyper_mat_with_data)', HF, HT)
def hmd(cx):
    S, L, B = cx.dim('S'), cx.dim('L'), cx.dim('B')
    dt, E = cx.dtype()
    cx.fits(S, L, B, E)
    cx.require(Le(B * 4, IMAX - 64))
    d, w = cx.obj('data', S * L * B * E), cx.obj('wl', B * 4)
    for o in cx.call('create_hyper_mat_with_data', cx.int(S), cx.int(L), cx.int(B), cx.int(dt), cx.cstr('bip'), PV.to(d), PV.to(w)):
        for q in o.then('delete_hyper_mat', o.ret):
            all_released(q)
            q.unchanged(d)
            q.unchanged(w)


@case('C06', 'delete_hyper_mat(hyper_mat_copy)', HF, HT)
def hmc(cx):
    h = cx.hm('src', 'bil')
    for o in cx.call('hyper_mat_copy', h.p):
        for q in o.then('delete_hyper_mat', o.ret):
            all_released(q)
            for b in (h.blk, h.data, h.wave):
                q.unchanged(b)


@case('C06', 'delete(NULL)', HF, HT + ST + ['delete_S_2D'])
def null(cx):
    for f in ('delete_hyper_mat', 'delete_simple_mat', 'delete_S_2D'):
        for o in cx.call(f, NULL):
            all_released(o)


@case('C06', 'delete_simple_mat(create_simple_mat)', HF, ST)
def sm(cx):
    R, C, ch = cx.dim('R'), cx.dim('C'), cx.dim('ch')
    dt, E = cx.dtype()
    cx.fits(R, C, E, ch)
    cx.require(Le(R * C * E * ch, IMAX - 256))
    for o in cx.call('create_simple_mat', cx.int(R), cx.int(C), cx.int(dt), cx.int(ch)):
        for q in o.then('delete_simple_mat', o.ret):
            all_released(q)


@case('C06', 'delete_simple_mat(simple_mat_copy)', HF, ST)
def smc(cx):
    h = cx.sm('src', None, cx.dim('ch'))
    for o in cx.call('simple_mat_copy', h.p):
        for q in o.then('delete_simple_mat', o.ret):
            all_released(q)
            q.unchanged(h.data)
            q.unchanged(h.blk)


@case('C06', 'delete_simple_mat(create_simple_mat_with_data)', HF, ST)
def smd(cx):
    R, C, ch = cx.dim('R'), cx.dim('C'), cx.dim('ch')
    dt, E = cx.dtype()
    cx.fits(R, C, E, ch)
    cx.require(Le(R * C * E * ch, IMAX - 256))
    d = cx.obj('data', R * C * E * ch, 'heap', align=16)
    for o in cx.call('create_simple_mat_with_data', cx.int(R), cx.int(C), cx.int(dt), cx.int(ch), PV.to(d)):
        hb, off = o.target()
        # two live allocations do not overlap
        o.assume(Or(Le(o.addr(hb) + hb.size, o.addr(d)), Le(o.addr(d) + d.size, o.addr(hb))))
        for q in o.then('delete_simple_mat', o.ret):
            q.no_leak([], 'the header is released')
            q.ensure(q.freed(d), 'the adopted data area is released')


@case('C06', 'delete_S_2D(create_2D_struct)', HF, ['create_2D_struct', 'create_2D_struct_with_data', 'delete_S_2D'])
def s2(cx):
    W, H = cx.dim('W'), cx.dim('H')
    cx.fits(W, H)
    for o in cx.call('create_2D_struct', cx.int(W), cx.int(H)):
        for q in o.then('delete_S_2D', o.ret):
            all_released(q)


@case('C06', 'delete_S_2D(create_2D_struct_with_data)', HF, ['create_2D_struct', 'create_2D_struct_with_data', 'delete_S_2D'])
def s2d(cx):
    W, H = cx.dim('W'), cx.dim('H')
    cx.fits(W, H)
    d = cx.obj('data', W * H)
    for o in cx.call('create_2D_struct_with_data', cx.int(W), cx.int(H), PV.to(d)):
        b, off = o.target()
        o.ensure(Eq(o.rd(b, off, 'i32'), W), 'result->width')
        o.ensure(Eq(o.rd(b, off + 4, 'i32'), H), 'result->height')
        t, to = o.target(o.read(b, off + 8, 'ptr'), 'result->data')
        o.ensure(Eq(to, 0) if t is d else FALSE, 'the structuring element uses the caller\'s cells')
        for q in o.then('delete_S_2D', o.ret):
            all_released(q)
            q.unchanged(d)
