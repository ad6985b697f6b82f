"""C28: target detection: the constrained energy minimisation detector and the matrix inverse it is built on."""
import struct
from engine.spec import *
from engine.terms import *

ASSUME = ('invert_matrix_float (within hyper_mat_cem): stores the inverse W of its argument in the result and overwrites the argument, without other effects; its own cases are bounded',)
CEM = ['modules/algorithm/src/cem.c', 'modules/process/src/c_src/matrixprocess.c', 'modules/process/src/c_src/imageprocess.c', 'modules/core/src/c_src/hypermat.c',
       'modules/core/src/c_src/simplemat.c']
MX = ['modules/process/src/c_src/matrixprocess.c']


@case('C28', 'hyper_mat_cem', CEM, ['hyper_mat_cem'])
def cem(cx):
    h = cx.hm('src', 'bsq', dt=4)
    n, B = h.S * h.L, h.B
    cx.fits(B, B, P(4))
    cx.require(Le(n * B * 4, IMAX - 256), Le(B * B * 4, IMAX - 256), Le(n * 4, IMAX - 256))
    cx.modular('simple_mat_transport')
    d = cx.obj('target', B * 4, content=4)
    x = lambda o, b, p: o.srd(h.data, (b * n + p) * 4, 'f32')
    t = Sym('t', INT, 0)
    R = lambda o, i, j: Sum(t, n, x(o, i, t) * x(o, j, t)) * Inv(n)
    W = cx.inverse('invert_matrix_float', B, R)
    for o in cx.call('hyper_mat_cem', h.p, PV.to(d)):
        r = o.sm()
        r.shape(h.L, h.S, 4, 1)
        r.room(n * 4)
        q = o.fork()
        i, j = q.index('i', h.L), q.index('j', h.S)
        u, v = Sym('u', INT, 0), Sym('v', INT, 0)
        D = lambda b: q.srd(d, b * 4, 'f32')
        energy = Sum(v, B, Sum(u, B, D(u) * W(u, v)) * D(v))
        filt = lambda b: Sum(u, B, W(b, u) * D(u)) * Inv(energy)
        q.ensure(Eq(q.rd(r.data, r.doff + (i * h.S + j) * 4, 'f32'), Sum(v, B, x(q, v, i * h.S + j) * filt(v))), 'pixel (i,j) is the response of the CEM filter')
        o.unchanged(h.blk)
        o.unchanged(h.data)
        o.unchanged(d)
        o.no_leak([r.b, r.data])


def det(X, m):
    """determinant of the leading m x m part"""
    if m == 1:
        return X(0, 0)
    if m == 2:
        return X(0, 0) * X(1, 1) - X(0, 1) * X(1, 0)
    return X(0, 0) * (X(1, 1) * X(2, 2) - X(1, 2) * X(2, 1)) - X(0, 1) * (X(1, 0) * X(2, 2) - X(1, 2) * X(2, 0)) + X(0, 2) * (X(1, 0) * X(2, 1) - X(1, 1) * X(2, 0))


def dominant(m, zero):
    """a regular matrix with large elements where the elimination finds its pivots"""
    def make(r, n):
        order = {(): (0, 1, 2), (0,): (1, 0, 2), (0, m): (2, 1, 0), (1, 4): (0, 2, 1)}[tuple(zero)]
        a = [[r.randrange(-8, 9) / 4.0 for _ in range(m)] for _ in range(m)]
        for i in range(m):
            a[order[i]][i] = r.choice((-1, 1)) * r.randrange(24, 60) / 4.0
        return struct.pack('<%df' % (m * m), *[0 if i * m + j in zero else a[i][j] for i in range(m) for j in range(m)])
    return make


def inv(m, zero=(), need=()):
    """regular m x m matrices with zeros at the places listed and nonzero values for the minors listed (rows; the first columns)"""
    @case('C28', 'invert_matrix_float[%d x %d%s]' % (m, m, ''.join(', a%d%d = 0' % (k // m, k % m) for k in zero)), MX, ['invert_matrix_float'], level='bounded')
    def run(cx):
        a = cx.obj('mat', P(m * m * 4), content=dominant(m, zero))
        r = cx.obj('res', P(m * m * 4), content=4)
        e = cx.entry()
        X = lambda i, j: P(0) if i * m + j in zero else e.srd(a, P((i * m + j) * 4), 'f32')
        cx.require(*[Eq(e.srd(a, P(k * 4), 'f32'), 0) for k in zero])
        for rows in need or [range(k) for k in range(1, m + 1)]:
            cx.require(Ne(det(lambda i, j: X(rows[i], j), len(rows)), 0))
        slack = cx.inexact(P(4000)) - 4000
        for o in cx.call('invert_matrix_float', PV.to(r), PV.to(a), cx.int(m)):
            for i in range(m):
                for j in range(m):
                    q = o.fork()
                    s = slack
                    for k in range(m):
                        s = s + q.rd(r, P((i * m + k) * 4), 'f32') * q.srd(a, P((k * m + j) * 4), 'f32')
                    q.ensure(Eq(s, 1 if i == j else 0), 'the result times the matrix is the identity')
            o.no_leak([])


inv(1)
inv(2)
inv(2, (0,), ((1,), (1, 0)))
inv(3)
inv(3, (0,), ((1,), (1, 0), (1, 0, 2)))
inv(3, (0, 3), ((2,), (2, 1), (2, 1, 0)))
inv(3, (1, 4), ((0,), (0, 2), (0, 2, 1)))
