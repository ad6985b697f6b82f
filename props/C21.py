"""C21: the growing vector: every operation keeps size, capacity and the elements it should keep."""
from engine.spec import *
from engine.terms import *

F = ['@props/cxx/vec.c']
T = {'u8': ('i8', 1, 1), 'i16': ('i16', 2, 2), 'i32': ('i32', 4, 3), 'f32': ('f32', 4, 4), 'f64': ('f64', 8, 5), 'i64': ('i64', 8, 14)}


class V:
    pass


def vec(cx, tag, z, slack=0):
    """a well formed vector: capacity and size in the two words before the elements"""
    v = V()
    v.cap, v.n = cx.dim('cap'), cx.dim('n', 0)
    cx.require(Le(v.n, v.cap), Le(v.cap, 2 ** 28))
    v.blk = cx.reg(cx.mkblk('v', v.cap * z + 16 + slack, 'heap', 'input:v', 16, 1), {0: (8, 'i64', IV(v.n, 64, 'u')), 8: (8, 'i64', IV(v.cap, 64, 'u'))})
    v.p = PV.to(v.blk, 16)
    return v


def val(cx, tag):
    if tag in ('f32', 'f64'):
        return FV(cx.real('x', -1000, 1000), 32 if tag == 'f32' else 64)
    w = int(tag[1:])
    return IV(cx.dim('x', 0 if w == 8 else -(1 << min(w - 1, 31)), (1 << (8 if w == 8 else min(w - 1, 31))) - 1), w, 'u' if w == 8 else 's')


def header(o, b, n, cap, z):
    o.ensure(Eq(o.rd(b, P(0), 'i64', False), n), 'the size is right')
    if cap is not None:
        o.ensure(Eq(o.rd(b, P(8), 'i64', False), cap), 'the capacity is right')
        o.ensure(Le(cap * z + 16, b.size), 'the storage has room for the capacity')


def whole(o, pv):
    b, off = o.target(pv, 'the vector')
    o.ensure(Eq(off, 16), 'the vector starts behind its header')
    return b


def same(o, b, v, z, lo, hi, shift, desc):
    """elements lo..hi-1 are those at +shift at entry"""
    q = o.fork()
    i, t = q.index('i', hi, lo), q.index('t', z)
    q.ensure(veq(q, q.read(b, i * z + 16 + t, 'i8'), q.src(v.blk, (i + shift) * z + 16 + t)), desc)


def mk(N):
    tag, z, dt = T[N]

    @case('C21', 'vector_push_back[%s]' % N, F, ['hv_vec_push_' + N])
    def push(cx):
        v = vec(cx, tag, z)
        x = val(cx, tag)
        for o in cx.call('hv_vec_push_' + N, v.p, x):
            b = whole(o, o.ret)
            ncap = o.rd(b, P(8), 'i64', False)
            header(o, b, v.n + 1, Ite(Lt(v.n, v.cap), v.cap, v.cap * 2), z)
            same(o, b, v, z, 0, v.n, 0, 'the elements are kept')
            o.ensure(veq(o, o.read(b, v.n * z + 16, tag), x), 'the new element is the last one')
            if b is not v.blk:
                o.ensure(o.freed(v.blk), 'the former storage is released')
            o.no_leak([b])

    @case('C21', 'vector_push_back[%s, empty]' % N, F, ['hv_vec_push_' + N])
    def push0(cx):
        x = val(cx, tag)
        for o in cx.call('hv_vec_push_' + N, NULL, x):
            b = whole(o, o.ret)
            header(o, b, P(1), P(1), z)
            o.ensure(veq(o, o.read(b, P(16), tag), x), 'the new element is the first one')
            o.no_leak([b])

    @case('C21', 'vector_pop_back[%s]' % N, F, ['hv_vec_pop_' + N])
    def pop(cx):
        v = vec(cx, tag, z)
        cx.require(Le(1, v.n))
        for o in cx.call('hv_vec_pop_' + N, v.p):
            b = whole(o, o.ret)
            o.ensure(Eq(P(int(b is v.blk)), 1), 'the vector stays where it is')
            header(o, b, v.n - 1, v.cap, z)
            same(o, b, v, z, 0, v.n - 1, 0, 'the other elements are kept')
            o.no_leak([b])

    @case('C21', 'vector_erase[%s]' % N, F, ['hv_vec_erase_' + N])
    def erase(cx):
        v = vec(cx, tag, z)
        i = cx.dim('i', 0)
        cx.require(Lt(i, v.n))
        for o in cx.call('hv_vec_erase_' + N, v.p, IV(i, 64, 'u')):
            b = whole(o, o.ret)
            o.ensure(Eq(P(int(b is v.blk)), 1), 'the vector stays where it is')
            header(o, b, v.n - 1, v.cap, z)
            same(o, b, v, z, 0, i, 0, 'the elements before are kept')
            same(o, b, v, z, i, v.n - 1, 1, 'the elements behind move down by one')
            o.no_leak([b])

    @case('C21', 'vector_erase[%s, no such element]' % N, F, ['hv_vec_erase_' + N])
    def erase0(cx):
        v = vec(cx, tag, z)
        i = cx.dim('i', 0)
        cx.require(Le(v.n, i))
        for o in cx.call('hv_vec_erase_' + N, v.p, IV(i, 64, 'u')):
            o.ensure(Eq(P(int(whole(o, o.ret) is v.blk)), 1), 'the vector stays where it is')
            o.unchanged(v.blk)

    @case('C21', 'vector_free[%s]' % N, F, ['hv_vec_free_' + N])
    def free(cx):
        for o in cx.call('hv_vec_free_' + N, NULL):
            o.ensure(Eq(P(int(isinstance(o.ret, PV) and o.ret.is_null())), 1), 'the vector is empty afterwards')
        v = vec(cx, tag, z)
        for o in cx.call('hv_vec_free_' + N, v.p):
            o.ensure(o.freed(v.blk), 'the storage is released')
            o.ensure(Eq(P(int(isinstance(o.ret, PV) and o.ret.is_null())), 1), 'the vector is empty afterwards')

    @case('C21', 'vector size, capacity, begin, end[%s]' % N, F, ['hv_vec_%s_%s' % (k, N) for k in ('size', 'capacity', 'empty', 'begin', 'end')])
    def query(cx):
        v = vec(cx, tag, z, 8)
        for o in cx.call('hv_vec_size_' + N, v.p):
            o.ensure(Eq(o.iret(), v.n), 'vector_size')
        for o in cx.call('hv_vec_capacity_' + N, v.p):
            o.ensure(Eq(o.iret(), v.cap), 'vector_capacity')
        for o in cx.call('hv_vec_empty_' + N, v.p):
            o.ensure(Eq(o.iret(), Ite(Eq(v.n, 0), 1, 0)), 'vector_empty')
        for o in cx.call('hv_vec_begin_' + N, v.p):
            b, off = o.target(o.ret)
            o.ensure(And(Eq(P(int(b is v.blk)), 1), Eq(off, 16)), 'vector_begin is the first element')
        for o in cx.call('hv_vec_end_' + N, v.p):
            b, off = o.target(o.ret)
            o.ensure(And(Eq(P(int(b is v.blk)), 1), Eq(off, v.n * z + 16)), 'vector_end is behind the last element')
        for k, w in (('size', 0), ('capacity', 0), ('empty', 1)):
            for o in cx.call('hv_vec_%s_%s' % (k, N), NULL):
                o.ensure(Eq(o.iret(), w), 'vector_%s of an empty vector' % k)
        for k in ('begin', 'end'):
            for o in cx.call('hv_vec_%s_%s' % (k, N), NULL):
                o.ensure(Eq(P(int(isinstance(o.ret, PV) and o.ret.is_null())), 1), 'vector_%s of an empty vector is NULL' % k)


for N in T:
    mk(N)
