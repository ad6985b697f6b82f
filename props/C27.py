"""C27: shape moments and shape similarity."""
from engine.spec import *
from engine.terms import *

SH = ['modules/algorithm/src/shapematch.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/hypermat.c']


def hu(o, s):
    """the seven moments of Hu of the plane s"""
    def total(f):
        t, u = Sym('t', INT, 0), Sym('u', INT, 0)
        return Sum(t, s.R, Sum(u, s.C, f(u, t) * o.srd(s.data, t * s.C + u, 'i8')))
    m00 = total(lambda x, y: P(1))
    cx, cy = (Floor(total(f) * Inv(m00) + Fraction(1, 2)) for f in (lambda x, y: x, lambda x, y: y))
    n = lambda p, q: total(lambda x, y: power(x - cx, p) * power(y - cy, q)) * (Inv(m00) * Inv(m00) if p + q == 2 else Inv(App('math.pow', [m00, P(Fraction(5, 2))], REAL)))
    n20, n02, n11, n30, n03, n12, n21 = (n(*k) for k in ((2, 0), (0, 2), (1, 1), (3, 0), (0, 3), (1, 2), (2, 1)))
    a, b, c, d = n30 - 3 * n12, 3 * n21 - n03, n30 + n12, n21 + n03
    e = n20 - n02
    return [n20 + n02, e * e + 4 * n11 * n11, a * a + b * b, c * c + d * d,
            a * c * (c * c - 3 * d * d) + b * d * (3 * c * c - d * d),
            e * (c * c - d * d) + 4 * n11 * c * d,
            b * c * (c * c - 3 * d * d) - a * d * (3 * c * c - d * d)]


def power(x, k):
    r = P(1)
    for _ in range(k):
        r = r * x
    return r


def black_level(cx, e, s, lemmas=True):
    """an image with something on it, of moderate size"""
    cx.require(Le(s.R, P(1 << 22)), Le(s.C, P(1 << 22)))
    t, u = Sym('t', INT, 0), Sym('u', INT, 0)
    def total(f):
        return Sum(t, s.R, Sum(u, s.C, f(u, t) * e.srd(s.data, t * s.C + u, 'i8')))
    m00 = total(lambda x, y: P(1))
    cx.require(Le(P(1), m00))
    if not lemmas:
        return
    cx.lemma(Le(total(lambda x, y: x), m00 * s.C), 'the centre of gravity lies in the image (x)')
    cx.lemma(Le(total(lambda x, y: y), m00 * s.R), 'the centre of gravity lies in the image (y)')


def absr(x):
    return Ite(Lt(x, 0), -x, x)


def Sum_(xs):
    r = P(0)
    for x in xs:
        r = r + x
    return r


@case('C27', 'calc_hu_moment', SH, ['calc_hu_moment'])
def moments(cx):
    s = cx.sm('mat', 1, 1)
    black_level(cx, cx.entry(), s)
    h = cx.obj('hu', P(56), content=5)
    for o in cx.call('calc_hu_moment', PV.to(h), s.p):
        for k, v in enumerate(hu(o, s)):
            q = o.fork()
            q.ensure(Eq(q.rd(h, P(8 * k), 'f64'), v), 'moment %d' % (k + 1))
        for x in (s.blk, s.data):
            o.unchanged(x)
        o.no_leak([])


@case('C27', 'hypercv_match_shapes', SH, ['hypercv_match_shapes'])
def match(cx):
    e = cx.entry()
    m = []
    for nm in ('mat1', 'mat2'):
        s = cx.sm(nm, 1, 1)
        black_level(cx, e, s, False)
        m.append(s)
    h1, h2 = [cx.filled('calc_hu_moment', 7, s.p) for s in m]
    d = Sum_([absr(a - b) for a, b in zip(h1, h2)])
    t = Sum_([absr(a + b) for a, b in zip(h1, h2)])
    cx.require(Lt(0, t))
    for o in cx.call('hypercv_match_shapes', m[0].p, m[1].p):
        o.ensure(Eq(o.ret.p, 1 - d * Inv(t)), 'the similarity of the moments')
        for s in m:
            o.unchanged(s.blk)
            o.unchanged(s.data)
        o.no_leak([])
