"""C09: thresholding."""
from fractions import Fraction
from engine.spec import *
from engine.terms import *

TH = ['modules/process/src/c_src/threshold.c']
NAMES = {'binary': 0, 'binary_inv': 1, 'trunc': 2, 'tozero': 3, 'tozero_inv': 4, 'otsu': 8}


def value(kind, x, t, m):
    """(new value modulo 256) of a pixel x"""
    over = Lt(t, x)
    if kind == 'binary':
        return Ite(over, m, 0)
    if kind == 'binary_inv':
        return Ite(over, 0, m)
    if kind == 'trunc':
        return Ite(over, t, x)
    if kind == 'tozero':
        return Ite(over, x, 0)
    if kind == 'tozero_inv':
        return Ite(over, 0, x)
    if kind == 'otsu':
        return Ite(Lt(x, t), 0, 255)


def images(cx):
    s = cx.sm('src', 1, 1)
    d = cx.sm('dst', 1, 1, rows=s.R, cols=s.C)
    return s, d


def check(cx, outs, s, d, kind, t, m):
    for o in outs:
        q = o.fork()
        i = q.index('i', s.R * s.C)
        q.congr(d.data, i, 'i8', value(kind, q.srd(s.data, i, 'i8'), t, m), 'every pixel follows the threshold rule (low byte)')
        o.unchanged(s.blk)
        o.unchanged(s.data)
        o.unchanged(d.blk)
        o.no_leak([])


def one(kind):
    name = 'hypercv_threshold_' + kind

    @case('C09', name, TH, [name])
    def run(cx):
        s, d = images(cx)
        if kind == 'otsu':
            t = cx.pure('otsuThreshold', 0, 255, s.p)
            check(cx, cx.call(name, s.p, d.p), s, d, kind, t, P(255))
        else:
            t, m = cx.dim('thresh', -IMAX - 1), cx.dim('max_value', -IMAX - 1)
            check(cx, cx.call(name, s.p, d.p, cx.int(t), cx.int(m)), s, d, kind, t, m)

    @case('C09', 'hypercv_threshold[%s]' % kind, TH, ['hypercv_threshold'])
    def run2(cx):
        s, d = images(cx)
        m, t = cx.dim('max_value', -IMAX - 1), cx.dim('thresh', -IMAX - 1)
        tt = cx.pure('otsuThreshold', 0, 255, s.p) if kind == 'otsu' else t
        check(cx, cx.call('hypercv_threshold', s.p, d.p, cx.int(t), cx.int(m), cx.int(NAMES[kind])), s, d, kind, tt, m)


for k in NAMES:
    one(k)


def nothing(nm, code):
    @case('C09', 'hypercv_threshold[%s]' % nm, TH, ['hypercv_threshold'])
    def run(cx):
        s, d = images(cx)
        m, t = cx.dim('max_value', -IMAX - 1), cx.dim('thresh', -IMAX - 1)
        for o in cx.call('hypercv_threshold', s.p, d.p, cx.int(t), cx.int(m), cx.int(code)):
            for h in (s, d):
                o.unchanged(h.blk)
                o.unchanged(h.data)
            o.no_leak([])


nothing('mask', 7)
nothing('triangle', 16)


def variance_best(hist):
    """the levels of greatest between-class variance (all, if no level separates the pixels), up to rounding"""
    N, g = sum(hist), {}
    for t in range(256):
        n0 = sum(hist[:t + 1])
        if 0 < n0 < N:
            u = sum(v * hist[v] for v in range(t + 1)) / n0 - sum(v * hist[v] for v in range(t + 1, 256)) / (N - n0)
            g[t] = n0 * (N - n0) * u * u
    top = max(g.values()) if g else 0
    return [t for t in range(256) if not g or g.get(t, -1) >= top * (1 - 1e-9)]


def otsu(ch):
    @case('C09', 'otsuThreshold[%d channels]' % ch, TH, ['otsuThreshold'])
    def run(cx):
        s = cx.sm('src', 1, ch)
        for o in cx.call('otsuThreshold', s.p):
            r = o.iret()
            o.ensure(And(Le(0, r), Le(r, 255)), 'the threshold is a grey level')
            q = o.fork()
            same, done = criterion(q, s, ch, r)
            q.ensure(same, 'the threshold is the first level with the greatest between-class variance')
            q.ensure(done, 'the search ends where all pixels are in the lower class')
            o.unchanged(s.blk)
            o.unchanged(s.data)
            o.no_leak([])


WEIGHTS = (Fraction(0.114), Fraction(0.587), Fraction(0.299))


def criterion(o, s, ch, r):
    snap = getattr(s.data, 'snap', None)
    if snap is not None:        # concrete run
        v = [float(x) for x in snap] if ch == 1 else [sum(float(w) * snap[k + i] for i, w in enumerate(WEIGHTS)) for k in range(0, len(snap), 3)]
        hist = [0] * 256
        if any(ch == 3 and abs(x - round(x)) < 1e-6 for x in v):
            return TRUE, TRUE   # too close to the next level
        for x in v:
            hist[min(int(x), 255)] += 1
        return (TRUE if r.const() in variance_best(hist) else FALSE), TRUE
    a = r.as_atom()
    if a is None or a.kind != 'fold':
        return FALSE, FALSE
    T = a.data[1]               # how many levels the code looked at
    i, j, y, x = fresh('i', INT, 0), fresh('j', INT, 0), fresh('y', INT, 0), fresh('x', INT, 0)

    def pixel():
        k = ch * (y * s.C + x)
        if ch == 1:
            return o.srd(s.data, k, 'i8')
        return Floor(sum((o.srd(s.data, k + c, 'i8') * w for c, w in enumerate(WEIGHTS)), P(0)))

    px = pixel()

    def h(v):
        return Sum(y, s.R, Sum(x, s.C, Ite(Eq(px, v), 1, 0)))
    N = s.R * s.C
    n0 = Sum(j, i + 1, h(j))
    n1 = N - n0
    w0 = n0 * Inv(N)
    u = Sum(j, i + 1, j * h(j)) * Inv(n0) - Sum(j, 255 - i, (j + i + 1) * h(j + i + 1)) * Inv(n1)
    g = w0 * (1 - w0) * u * u
    lv, best = Sym('level', INT), Sym('best', REAL)
    ways = []
    for c in (Lt(best, g), And(Not(Eq(n1, 0)), Lt(best, g)), And(Not(Eq(n0, 0)), Lt(best, g)), And(Not(Eq(n0, 0)), Not(Eq(n1, 0)), Lt(best, g))):
        st = [(lv, Ite(c, i, lv)), (best, Ite(c, g, best))]
        ways += [Fold(st, [P(0), P(-1)], i, T, 0), Fold(st[::-1], [P(-1), P(0)], i, T, 1)]
    if r in ways:
        return TRUE, Or(Eq(T, 256), Eq(subst(n1, {i.as_atom().id: T}), 0))
    return Eq(r, ways[0]), Or(Eq(T, 256), Eq(subst(n1, {i.as_atom().id: T}), 0))


for c in (1, 3):
    otsu(c)
