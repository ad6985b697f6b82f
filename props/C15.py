"""C15: matrix algebra."""
import struct
from engine.spec import *
from engine.terms import *

MX = ['modules/process/src/c_src/matrixprocess.c']
INTS = (('char', 1, True, 1), ('uchar', 1, False, 1), ('short', 2, True, 2), ('ushort', 2, False, 12), ('int', 4, True, 3), ('uint', 4, False, 13))


def small(z, sg):
    # concrete runs only: values whose products do not overflow int (undefined in C, although the property is modulo 2^w)
    def f(r, n):
        return b''.join((r.randrange(-300 if sg else 0, 300) & ((1 << (8 * z)) - 1)).to_bytes(z, 'little') for _ in range(n // z))
    return f


TAG = {1: 'i8', 2: 'i16', 4: 'i32'}


def product(o, x, y, i, j, k, n, z, tag, signed):
    t = Sym('t', INT, 0)
    return Sum(t, k, o.srd(x, (i * k + t) * z, tag, signed) * o.srd(y, (t * n + j) * z, tag, signed))


def mul(ty, z, sg, content):
    content = small(z, sg) if z > 1 else content

    @case('C15', 'MulMatrix_' + ty, MX, ['MulMatrix_' + ty])
    def run(cx):
        cx.wrap()
        m, k, n = cx.dim('m'), cx.dim('k'), cx.dim('n')
        cx.fits(m, k, P(z)), cx.fits(k, n, P(z)), cx.fits(m, n, P(z))
        sg_ = {z: 's' if sg else 'u'}
        x, y = cx.obj('x', m * k * z, content=content, signed=sg_), cx.obj('y', k * n * z, content=content, signed=sg_)
        r = cx.obj('z', m * n * z, content=content, signed=sg_)
        for o in cx.call('MulMatrix_' + ty, PV.to(x), PV.to(y), PV.to(r), cx.int(m), cx.int(k), cx.int(n)):
            q = o.fork()
            i, j = q.index('i', m), q.index('j', n)
            e = q.srd(r, (i * n + j) * z, TAG[z], sg) + product(q, x, y, i, j, k, n, z, TAG[z], sg)
            q.congr(r, (i * n + j) * z, TAG[z], e, 'element (i,j) grows by the product of row i and column j (modulo the width of the type)')
            o.unchanged(x)
            o.unchanged(y)
            o.no_leak([])


for a in INTS:
    mul(*a)


def fmul(ty, z, tag, content):
    @case('C15', 'MulMatrix_' + ty, MX, ['MulMatrix_' + ty])
    def run(cx):
        m, k, n = cx.dim('m'), cx.dim('k'), cx.dim('n')
        cx.fits(m, k, P(z)), cx.fits(k, n, P(z)), cx.fits(m, n, P(z))
        x, y, r = cx.obj('x', m * k * z, content=content), cx.obj('y', k * n * z, content=content), cx.obj('z', m * n * z, content=content)
        for o in cx.call('MulMatrix_' + ty, PV.to(x), PV.to(y), PV.to(r), cx.int(m), cx.int(k), cx.int(n)):
            q = o.fork()
            i, j = q.index('i', m), q.index('j', n)
            e = q.srd(r, (i * n + j) * z, tag) + product(q, x, y, i, j, k, n, z, tag, None)
            q.ensure(Eq(q.rd(r, (i * n + j) * z, tag), e), 'element (i,j) grows by the product of row i and column j')
            o.unchanged(x)
            o.unchanged(y)
            o.no_leak([])


fmul('float', 4, 'f32', 4)
fmul('double', 8, 'f64', 5)


def canon(e, w, signed):
    """the value of type width w congruent to e"""
    m = Mod(e, 1 << w)
    return Ite(Lt(m, 1 << (w - 1)), m, m - (1 << w)) if signed else m


def corr(ty, z, sg, content):
    content = small(z, sg) if z > 1 else content

    @case('C15', 'correlation_matrix_' + ty, MX, ['correlation_matrix_' + ty])
    def run(cx):
        cx.wrap()
        l, n, m = cx.dim('l'), cx.dim('n'), cx.dim('m')
        cx.fits(l, n, P(z)), cx.fits(n, m, P(z)), cx.fits(l, m, P(z))
        sg_ = {z: 's' if sg else 'u'}
        x, y = cx.obj('x', l * n * z, content=content, signed=sg_), cx.obj('y', n * m * z, content=content, signed=sg_)
        r = cx.obj('z', l * m * z, content=content, signed=sg_)
        for o in cx.call('correlation_matrix_' + ty, PV.to(r), PV.to(x), PV.to(y), cx.int(l), cx.int(n), cx.int(m)):
            q = o.fork()
            i, j = q.index('i', l), q.index('j', m)
            e = q.srd(r, (i * m + j) * z, TAG[z], sg) + product(q, x, y, i, j, n, m, z, TAG[z], sg)
            e = canon(e, 8 * z, sg)
            e = Ite(Le(0, e), FDiv(e, n), -FDiv(-e, n)) if sg else FDiv(e, n)
            q.congr(r, (i * m + j) * z, TAG[z], e, 'element (i,j) is the product of row i and column j divided by the inner length')
            o.unchanged(x)
            o.unchanged(y)
            o.no_leak([])


for a in INTS:
    corr(*a)


@case('C15', 'correlation_matrix_float', MX, ['correlation_matrix_float'])
def corr_float(cx):
    l, n, m = cx.dim('l'), cx.dim('n'), cx.dim('m')
    cx.fits(l, n, P(4)), cx.fits(n, m, P(4)), cx.fits(l, m, P(4))
    x, y, r = cx.obj('x', l * n * 4, content=4), cx.obj('y', n * m * 4, content=4), cx.obj('z', l * m * 4, content=4)
    for o in cx.call('correlation_matrix_float', PV.to(r), PV.to(x), PV.to(y), cx.int(l), cx.int(n), cx.int(m)):
        q = o.fork()
        i, j = q.index('i', l), q.index('j', m)
        e = q.srd(r, (i * m + j) * 4, 'f32') + product(q, x, y, i, j, n, m, 4, 'f32', None)
        q.ensure(Eq(q.rd(r, (i * m + j) * 4, 'f32'), e * Inv(n)), 'element (i,j) is the product of row i and column j divided by the inner length')
        o.unchanged(x)
        o.unchanged(y)
        o.no_leak([])


@case('C15', 'set_identity_matrix_float', MX, ['set_identity_matrix_float'])
def identity(cx):
    m = cx.dim('m')
    cx.fits(m, m, P(4))
    x = cx.obj('mat', m * m * 4, content=4)
    for o in cx.call('set_identity_matrix_float', PV.to(x), cx.int(m)):
        q = o.fork()
        i, j = q.index('i', m), q.index('j', m)
        q.ensure(Eq(q.rd(x, (i * m + j) * 4, 'f32'), Ite(Eq(i, j), 1, 0)), 'element (i,j) is 1 on the diagonal and 0 elsewhere')
        o.no_leak([])


def rows(cx, distinct=True):
    m, n, a, b = cx.dim('m'), cx.dim('n'), cx.dim('r1', 0), cx.dim('r2', 0)
    cx.fits(m, n, P(4))
    cx.require(Lt(a, m), Lt(b, m), Ne(a, b))
    x = cx.obj('mat', m * n * 4, content=4)
    return m, n, a, b, x


@case('C15', 'swap_rows_float', MX, ['swap_rows_float'])
def swap(cx):
    m, n, a, b, x = rows(cx)
    for o in cx.call('swap_rows_float', PV.to(x), cx.int(m), cx.int(n), cx.int(a), cx.int(b)):
        q = o.fork()
        i, j = q.index('i', m), q.index('j', n)
        si = Ite(Eq(i, a), b, Ite(Eq(i, b), a, i))
        for c, s, d in ((Eq(i, a), b, 'row r1 holds the old row r2'), (Eq(i, b), a, 'row r2 holds the old row r1'), (And(Ne(i, a), Ne(i, b)), i, 'the other rows are untouched')):
            p = q.fork()
            p.assume(c)
            p.ensure(veq(p, p.read(x, (i * n + j) * 4, 'f32'), p.src(x, (s * n + j) * 4, 'f32')), d)
        o.no_leak([])


@case('C15', 'matrix_row_multi_scalar_float', MX, ['matrix_row_multi_scalar_float'])
def row_scale(cx):
    m, n, a = cx.dim('m'), cx.dim('n'), cx.dim('r1', 0)
    cx.fits(m, n, P(4))
    cx.require(Lt(a, m))
    s = cx.real('s')
    x = cx.obj('mat', m * n * 4, content=4)
    for o in cx.call('matrix_row_multi_scalar_float', PV.to(x), cx.int(m), cx.int(n), cx.int(a), cx.flt(s)):
        q = o.fork()
        i, j = q.index('i', m), q.index('j', n)
        for c, k, d in ((Eq(i, a), s, 'the selected row is multiplied by the scalar'), (Ne(i, a), 1, 'the other rows are untouched')):
            p = q.fork()
            p.assume(c)
            p.ensure(Eq(p.rd(x, (i * n + j) * 4, 'f32'), p.srd(x, (i * n + j) * 4, 'f32') * k), d)
        o.no_leak([])


@case('C15', 'shear_row', MX, ['shear_row'])
def shear(cx):
    m, n, a, b, x = rows(cx)
    s = cx.real('s')
    for o in cx.call('shear_row', PV.to(x), cx.int(m), cx.int(n), cx.int(a), cx.int(b), cx.flt(s)):
        q = o.fork()
        i, j = q.index('i', m), q.index('j', n)
        v = lambda p, r: p.srd(x, (r * n + j) * 4, 'f32')
        p = q.fork()
        p.assume(Eq(i, a))
        p.ensure(Eq(p.rd(x, (i * n + j) * 4, 'f32'), v(p, a) + s * v(p, b)), 'row r1 grows by the scalar times row r2')
        p = q.fork()
        p.assume(Ne(i, a))
        p.ensure(Eq(p.rd(x, (i * n + j) * 4, 'f32'), v(p, i)), 'the other rows are untouched')
        o.no_leak([])


@case('C15', 'matrix_norm_float', MX, ['matrix_norm_float'])
def norm(cx):
    n = cx.dim('n')
    cx.fits(n, P(4))
    x = cx.obj('v', n * 4, content=4)
    for o in cx.call('matrix_norm_float', PV.to(x), cx.int(n)):
        t = Sym('t', INT, 0)
        e = o.srd(x, t * 4, 'f32')
        o.ensure(Eq(o.ret.p, App('math.sqrt', [Sum(t, n, e * e)], REAL, 0)), 'the result is the square root of the sum of the squares')
        o.unchanged(x)
        o.no_leak([])


def addition(ty, tag, z, dt):
    @case('C15', 'simple_mat_addition_' + ty, ['modules/process/src/c_src/imageprocess.c', 'modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c'],
          ['simple_mat_addition_' + ty])
    def run(cx):
        ch = cx.dim('ch')
        a = cx.sm('a', dt, ch)
        b = cx.sm('b', dt, ch, rows=a.R, cols=a.C)
        d = cx.sm('d', dt, ch, rows=a.R, cols=a.C)
        for o in cx.call('simple_mat_addition_' + ty, a.p, b.p, d.p):
            q = o.fork()
            i, j, k = q.index('i', a.R), q.index('j', a.C), q.index('k', ch)
            at = ((i * a.C + j) * ch + k) * z
            e = q.srd(a.data, at, tag) + q.srd(b.data, at, tag)
            if dt == 1:
                q.congr(d.data, at, tag, e, 'the result is the sum, element by element (modulo 256)')
            else:
                q.ensure(Eq(q.rd(d.data, at, tag), e), 'the result is the sum, element by element')
            for h in (a, b):
                o.unchanged(h.blk)
                o.unchanged(h.data)
            o.unchanged(d.blk)
            o.no_leak([])


addition('uchar', 'i8', 1, 1)
addition('float', 'f32', 4, 4)


@case('C15', 'simple_mat_log', ['modules/process/src/c_src/imageprocess.c', 'modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c'], ['simple_mat_log'])
def logarithm(cx):
    s = cx.sm('src', 4, 1, content=lambda r, n: b''.join(struct.pack('<f', r.randrange(1, 4000) / 16.0) for _ in range(n // 4)))
    d = cx.sm('dst', 4, 1, rows=s.R, cols=s.C)
    for o in cx.call('simple_mat_log', s.p, d.p):
        q = o.fork()
        i = q.index('i', s.R * s.C)
        q.ensure(Eq(q.rd(d.data, i * 4, 'f32'), App('math.log', [q.srd(s.data, i * 4, 'f32')], REAL)), 'every element is the natural logarithm of the element of the source')
        for x in (s.blk, s.data, d.blk):
            o.unchanged(x)
        o.no_leak([])
