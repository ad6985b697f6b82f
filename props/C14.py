"""C14: histogram equalisation and normalisation."""
from engine.spec import *
from engine.terms import *
from engine.builtins import round_even

HE = ['modules/algorithm/src/HisEqualization.c']
NO = ['modules/algorithm/src/normalize.c']
L1, L2, INF, MINMAX = 2, 4, 1, 32


@case('C14', 'HisEqualization', HE, ['HisEqualization'])
def his(cx):
    s = cx.sm('src', 1, 1)
    d = cx.sm('dst', 1, 1, rows=s.R, cols=s.C)
    for o in cx.call('HisEqualization', s.p, d.p):
        q = o.fork()
        n = s.R * s.C
        i = q.index('i', n)
        t, u = Sym('t', INT, 0), Sym('u', INT, 0)
        g = q.srd(s.data, i, 'i8')
        below = Sum(u, g + 1, Sum(t, n, Ite(Eq(q.srd(s.data, t, 'i8'), u), 1, 0)))
        q.congr(d.data, i, 'i8', FDiv(255 * below, n), 'every pixel becomes the cumulative share of its level, scaled to 255')
        o.unchanged(s.blk)
        o.unchanged(s.data)
        o.unchanged(d.blk)
        o.no_leak([])


def few(r, n):
    """concrete float contents: exact in 32 bits"""
    import struct
    return struct.pack('<%df' % (n // 4), *[r.randrange(-40, 41) / 4.0 for _ in range(n // 4)])


def sat(v):
    return Ite(Lt(255, v), 255, Ite(Lt(v, 0), 0, round_even(v)))


def sqrt(x):
    return App('math.sqrt', [x], REAL, 0)


def norm(fn, dt, kind, name, dispatch=False):
    tag, z = ('i8', 1) if dt == 1 else ('f32', 4)

    @case('C14', '%s[%s]' % (fn + ('[%s]' % tag if dispatch else ''), name), NO, [fn])
    def run(cx):
        s = cx.sm('src', dt, 1, content=few if dt == 4 else None)
        d = cx.sm('dst', dt, 1, rows=s.R, cols=s.C)
        a, b = cx.real('alpha'), cx.real('beta')
        for o in cx.call(fn, s.p, d.p, cx.flt(a), cx.flt(b), cx.int(kind)):
            q = o.fork()
            n = s.R * s.C
            i = q.index('i', n)
            t = Sym('t', INT, 0)
            at = lambda k: q.srd(s.data, k * z, tag)
            v = at(i)
            mag = lambda x: x if dt == 1 else Ite(Le(0, x), x, -x)
            if kind == L1:
                m = Sum(t, n, mag(at(t)))
                q.assume(Lt(0, m))
                want = v * a * Inv(m)
            elif kind == L2:
                m = Sum(t, n, at(t) * at(t))
                q.assume(Lt(0, m))
                want = v * a * Inv(sqrt(m))
            elif kind == INF:
                m = MaxOf(t, n, mag(at(t)))
                q.assume(Lt(0, m))
                want = v * a * Inv(m)
            elif kind == MINMAX:
                hi, lo = MaxOf(t, n, at(t)), MinOf(t, n, at(t))
                q.assume(Lt(lo, hi))
                want = (v - lo) * (Max(a, b) - Min(a, b)) * Inv(hi - lo) + Min(a, b)
            got = q.rd(d.data, i * z, tag)
            q.ensure(Eq(got, sat(want) if dt == 1 else want), 'every element is scaled to the requested norm or range')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.unchanged(d.blk)
            o.no_leak([])


for kind, name in ((L1, 'L1'), (L2, 'L2'), (INF, 'maximum'), (MINMAX, 'range')):
    norm('hypercv_normalize_uchar', 1, kind, name)
    norm('hypercv_normalize_float', 4, kind, name)
    norm('hypercv_normalize', 1, kind, name, True)
    norm('hypercv_normalize', 4, kind, name, True)

TE = HE + ['modules/core/src/c_src/hypermat.c']


@case('C14', 'hyper_mat_linear_tension', TE, ['hyper_mat_linear_tension'])
def tension(cx):
    s = cx.hm('src', 'bsq', dt=4, content=few)
    d = cx.hm('dst', 'bsq', S=s.S, L=s.L, B=s.B, dt=1)
    for o in cx.call('hyper_mat_linear_tension', s.p, d.p):
        q = o.fork()
        i, j, k = q.index('i', s.L), q.index('j', s.S), q.index('k', s.B)
        t, u = Sym('t', INT, 0), Sym('u', INT, 0)
        at = lambda a, b: q.srd(s.data, ((k * s.L + a) * s.S + b) * 4, 'f32')
        hi, lo = MaxOf(t, s.L, MaxOf(u, s.S, at(t, u))), MinOf(t, s.L, MinOf(u, s.S, at(t, u)))
        v = at(i, j)
        w = Ite(Lt(lo, hi), (v - lo) * 255 * Inv(hi - lo), 0)
        want = Ite(Lt(w, 1), Ite(Eq(v, 0), 0, 1), Ite(Le(255, w), 255, Floor(w)))
        q.ensure(Eq(q.rd(d.data, (k * s.L + i) * s.S + j, 'i8'), want), 'every sample is stretched to the range of its band')
        for x in (s.blk, s.data, s.wave, d.blk, d.wave):
            o.unchanged(x)
        o.no_leak([])
