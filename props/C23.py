"""C23: the integral image."""
from engine.spec import *
from engine.terms import *

IF = ['modules/process/src/c_src/filter.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/hypermat.c']


def rect(o, s, i, j):
    """sum of the elements above and left of (i, j), both included"""
    a, b = Sym('a', INT, 0), Sym('b', INT, 0)
    return Sum(a, i + 1, Sum(b, j + 1, o.srd(s.data, a * s.C + b, 'i8')))


@case('C23', 'hypercv_integral', IF, ['hypercv_integral'])
def integral(cx):
    s = cx.sm('src', 1, 1)
    d = cx.sm('dst', 3, 1, rows=s.R, cols=s.C)
    cx.require(Le(s.R * s.C * 510, IMAX))
    e = cx.entry()
    cx.content(d.data, 'i32', s.C, lambda i, j: rect(e, s, i, j))
    for o in cx.call('hypercv_integral', s.p, d.p):
        i, j = o.index('i', s.R), o.index('j', s.C)
        o.ensure(Eq(o.rd(d.data, (i * s.C + j) * 4, 'i32'), rect(o, s, i, j)), 'every element is the sum of the rectangle above and left of it')
        for x in (s.blk, s.data, d.blk):
            o.unchanged(x)
        o.no_leak([])
