"""C12: morphology on byte planes."""
import itertools
from engine.spec import *
from engine.terms import *

fresh = itertools.count(1)     # bound variables: one pair per nesting level
F = ['modules/process/src/c_src/morphology.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/hypermat.c']


def bits(r, n):
    return bytes(r.choice((0, 1, 1, 1, 255)) for _ in range(n))


def cells(r, n):
    return bytes(r.choice((0, 1, 1)) for _ in range(n))


def kernel(cx):
    class K:
        pass
    k = K()
    k.w, k.h = cx.dim('k.w'), cx.dim('k.h')
    cx.fits(k.w, k.h)
    k.data = cx.reg(cx.mkblk('k.data', k.w * k.h, 'arg', 'input:k', 1, cells))
    k.blk = cx.reg(cx.mkblk('k', 16, 'arg', 'input:k.hdr', 8), {0: (4, 'i32', IV(k.w, 32)), 4: (4, 'i32', IV(k.h, 32)), 8: (8, 'ptr', PV.to(k.data))})
    k.p = PV.to(k.blk)
    return k


def fits(k, i, j, R, C):
    """the window around pixel (i,j) lies inside the plane"""
    hh, hw = FDiv(k.h, 2), FDiv(k.w, 2)
    return And(Le(0, i - hh), Lt(i + hh, R), Le(0, j - hw), Lt(j + hw, C))


def hits(o, k, i, j, px, want):
    """number of set cells of the kernel under which the pixel satisfies `want`"""
    m, n = Sym('m%d' % next(fresh), INT, 0), Sym('n%d' % next(fresh), INT, 0)
    hh, hw = FDiv(k.h, 2), FDiv(k.w, 2)
    v = px(o, i - hh + m, j - hw + n)
    return Sum(m, k.h, Sum(n, k.w, Ite(And(Eq(o.srd(k.data, m * k.w + n, 'i8'), 1), want(v)), 1, 0)))


def eroded(o, k, i, j, R, C, px):
    s = px(o, i, j)
    return Ite(And(Ne(s, 0), Or(Not(fits(k, i, j, R, C)), Eq(hits(o, k, i, j, px, lambda v: Eq(v, 0)), 0))), s, 0)


def dilated(o, k, i, j, R, C, px):
    s = px(o, i, j)
    return Ite(And(Eq(s, 0), fits(k, i, j, R, C), Le(1, hits(o, k, i, j, px, lambda v: Ne(v, 0)))), 1, s)


def one(name, f):
    @case('C12', name, F, [name])
    def run(cx):
        a = cx.sm('src', 1, 1, content=bits)
        d = cx.sm('dst', 1, 1, rows=a.R, cols=a.C)
        k = kernel(cx)
        cx.require(Le(k.w, a.C), Le(k.h, a.R), Le(a.R, 2 ** 30), Le(a.C, 2 ** 30))
        for o in cx.call(name, a.p, d.p, k.p):
            r = o.sm(d.p, 'dst')
            r.shape(a.R, a.C, 1, 1)
            q = o.fork()
            i, j = q.index('i', a.R), q.index('j', a.C)
            q.ensure(Eq(q.rd(r.data, r.doff + i * a.C + j, 'i8'), f(q, k, i, j, a.R, a.C, lambda o, x, y: o.srd(a.data, x * a.C + y, 'i8'))), 'every pixel')
            for x in (a.blk, a.data, d.blk, k.blk, k.data):
                o.unchanged(x)
            o.no_leak([])

    @case('C12', name + '[kernel larger than the plane]', F, [name])
    def small(cx):
        a = cx.sm('src', 1, 1)
        d = cx.sm('dst', 1, 1, rows=a.R, cols=a.C)
        k = kernel(cx)
        cx.require(Or(Lt(a.C, k.w), Lt(a.R, k.h)))
        for o in cx.call(name, a.p, d.p, k.p):
            for x in (a.blk, a.data, d.blk, d.data, k.blk, k.data):
                o.unchanged(x)
            o.no_leak([])


one('hypercv_corrosion', eroded)
one('hypercv_expend', dilated)


def two(name, f, g):
    @case('C12', name + '[one iteration]', F, [name], cost=4, wall=400)
    def run(cx):
        a = cx.sm('src', 1, 1, content=bits)
        d = cx.sm('dst', 1, 1, rows=a.R, cols=a.C)
        k = kernel(cx)
        cx.require(Le(k.w, a.C), Le(k.h, a.R), Le(a.R, 2 ** 30), Le(a.C, 2 ** 30))
        for o in cx.call(name, a.p, d.p, k.p, cx.int(1)):
            r = o.sm(d.p, 'dst')
            r.shape(a.R, a.C, 1, 1)
            q = o.fork()
            i, j = q.index('i', a.R), q.index('j', a.C)

            def first(o, x, y):
                return f(o, k, x, y, a.R, a.C, lambda o, x, y: o.srd(a.data, x * a.C + y, 'i8'))
            q.ensure(Eq(q.rd(r.data, r.doff + i * a.C + j, 'i8'), g(q, k, i, j, a.R, a.C, first)), 'every pixel')
            for x in (a.blk, a.data, d.blk, k.blk, k.data):
                o.unchanged(x)
            o.no_leak([])

    @case('C12', name + '[no iteration]', F, [name])
    def none(cx):
        a = cx.sm('src', 1, 1, content=bits)
        d = cx.sm('dst', 1, 1, rows=a.R, cols=a.C)
        k = kernel(cx)
        n = cx.dim('n', -100, 0)
        for o in cx.call(name, a.p, d.p, k.p, cx.int(n)):
            for x in (a.blk, a.data, d.blk, d.data, k.blk, k.data):
                o.unchanged(x)
            o.no_leak([])


two('hypercv_open', eroded, dilated)
two('hypercv_close', dilated, eroded)
