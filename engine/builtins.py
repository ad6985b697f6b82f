"""Trusted contracts of library functions and intrinsics."""
from .terms import *
from .mem import *
from .mem import Unsupported
from fractions import Fraction


def ok(st, v=None):
    return [(st, v)]


def size_arg(ex, st, v):
    return ex.as_u(st, v)


def b_malloc(ex, st, args, ins, zero=False):
    n = size_arg(ex, st, args[0])
    if zero:
        n = n * size_arg(ex, st, args[1])
    b = ex.newblk('heap@%d' % ex.cur_line, n, 'heap', 'zero' if zero else 'undef', 16, id(ins))
    b.site = (ex.frames[-1].fn.name.strip('@') if ex.frames else '?', ex.cur_line)
    st.mem[b] = BS()
    return ok(st, PV.to(b))


def b_calloc(ex, st, args, ins):
    return b_malloc(ex, st, args, ins, True)


def b_realloc(ex, st, args, ins):
    n = size_arg(ex, st, args[1])
    out = []
    for g, b, o in ex.feasible_alts(st, args[0]):
        s = st.copy()
        if g is not TRUE:
            s.br = s.br + (g,)
        nb = ex.newblk('realloc@%d' % ex.cur_line, n, 'heap', 'undef', 16, (id(ins), b))
        if b is None:
            s.mem[nb] = BS()
        else:
            ex.oblige(s, Eq(o, 0), 'free', 'realloc of an interior pointer')
            if b.kind != 'heap':
                ex.oblige(s, FALSE, 'free', 'realloc of a non-heap object')
            fr = s.bs(b).freed
            ex.oblige(s, Not(fr), 'free', 'realloc of freed memory')
            snap = s.bs(b)
            ln = b.size
            if not ex.light and not ex.prove(s, Le(b.size, n)):
                ln = Ite(Le(b.size, n), b.size, n)
            s.mem[nb] = BS({}, (Node('C', (), TRUE, ZERO, ln, None, None, (b, snap), ZERO),))
            s.mem[b] = BS(snap.cells, snap.chain, TRUE)
        out.append((s, PV.to(nb)))
    return out


def b_free(ex, st, args, ins):
    pv = args[0]
    for g, b, o in ex.feasible_alts(st, pv):
        if b is None:
            continue
        bs = st.bs(b)
        if b.kind not in ('heap', 'img'):
            ex.oblige(st, Not(g), 'free', 'free of a non-heap object %s' % b.name)
            continue
        ex.oblige(st, Implies(g, Eq(o, 0)), 'free', 'free of an interior pointer of %s' % b.name)
        if bs.freed is not FALSE:
            ex.oblige(st, Implies(g, Not(bs.freed)), 'free', 'double free of %s' % b.name)
        st.mem[b] = BS(bs.cells, bs.chain, Or(bs.freed, g))
        for o2 in getattr(b, 'sub', ()):
            x = st.bs(o2)
            st.mem[o2] = BS(x.cells, x.chain, Or(x.freed, g))
    return ok(st)


def b_memcpy(ex, st, args, ins, move=False):
    dst, src, n = args[0], args[1], size_arg(ex, st, args[2])
    nc = n.const()
    if nc == 0:
        return ok(st, dst)
    # a zero-length copy touches nothing
    live = Gt(n, 0)
    if not ex.light and not ex.prove(st, live):
        if ex.prove(st, Eq(n, 0)):
            return ok(st, dst)
    das = ex.access(st, dst, n, 'memcpy write')
    sas = ex.access(st, src, n, 'memcpy read')
    if len(das) > 1 and len(sas) >= 1 or len(sas) > 1 and das:
        nodes = []
        for gd, db, do in das:
            for gs, sb, so in sas:
                nodes.append((db, Node('C', (), And(gd, gs), do, n, None, None, (sb, st.bs(sb)), so)))
        for db, nd in nodes:
            if nd.guard is not FALSE:
                ex.push_node(st, db, nd)
        return ok(st, dst)
    if not das or not sas:
        return ok(st, dst)
    (gd, db, do), (gs, sb, so) = das[0], sas[0]
    if db is sb and not move:
        # overlap must be excluded (or identical)
        ex.oblige(st, Or(Le(do + n, so), Le(so + n, do), Eq(do, so)), 'memcpy-overlap', 'memcpy ranges overlap')
    # struct copies with constant extent keep cells
    snap = st.bs(sb)
    if nc is not None and nc <= 256 and do.const() is not None and so.const() is not None and snap.cells and not snap.chain \
            and sb is not db:
        s0, d0 = so.const(), do.const()
        inside = {k: c for k, c in snap.cells.items() if s0 <= k and k + c[0] <= s0 + nc}
        part = [k for k, c in snap.cells.items() if k < s0 + nc and s0 < k + c[0] and k not in inside]
        if not part and sum(c[0] for c in inside.values()) == nc:
            for k, (z, t, v) in inside.items():
                ex.write(st, db, P(d0 + k - s0), z, t, v)
            return ok(st, dst)
    ex.push_node(st, db, Node('C', (), TRUE, do, n, None, None, (sb, snap), so))
    return ok(st, dst)


def b_memmove(ex, st, args, ins):
    return b_memcpy(ex, st, args, ins, True)


def b_memset(ex, st, args, ins):
    dst, c, n = args[0], args[1], size_arg(ex, st, args[2])
    if n.const() == 0:
        return ok(st, dst)
    if not ex.light and not ex.prove(st, Gt(n, 0)) and ex.prove(st, Eq(n, 0)):
        return ok(st, dst)
    v = ex.as_u(st, c)
    v = Mod(v, 256) if not (prange(v)[1] is not None and prange(v)[1] < 256) else v
    for g, b, o in ex.access(st, dst, n, 'memset'):
        oc, nc = o.const(), n.const()
        if oc is not None and nc is not None and nc <= 64 and b.kind == 'stack' and v.const() == 0 and g is TRUE \
                and not st.bs(b).chain and all(oc <= k and k + z[0] <= oc + nc for k, z in st.bs(b).cells.items()):
            st.mem[b] = BS({}, (Node('Z', (), TRUE, o, n, v),), st.bs(b).freed)
            continue
        ex.push_node(st, b, Node('Z', (), g, o, n, v))
    return ok(st, dst)


def const_string(ex, st, pv, limit=256):
    """list of bytes up to NUL if all decided, else None"""
    al = ex.feasible_alts(st, pv)
    if len(al) != 1 or al[0][1] is None:
        return None
    g, b, o = al[0]
    out = []
    for i in range(limit):
        v = ex.read(st, b, o + i, 'i8', 1)
        if not isinstance(v, IV):
            return None
        c = v.p.const()
        if c is None:
            return None
        if c == 0:
            return out
        out.append(c & 255)
    return None


def b_strlen(ex, st, args, ins):
    al = ex.feasible_alts(st, args[0])
    if len(al) == 1 and al[0][1] is not None and al[0][1].kind != 'wild':
        g, b, o = al[0]
        n = 0
        for i in range(64):
            if not ex.light and not (o.const() is not None and b.size.const() is not None):
                ex.access(st, PV.to(b, o + i), ONE, 'strlen read')
            elif o.const() is not None and b.size.const() is not None and o.const() + i >= b.size.const():
                break
            v = ex.read(st, b, o + i, 'i8', 1)
            if not isinstance(v, IV):
                break
            z = Eq(v.p, 0)
            if z is TRUE or (not ex.light and ex.prove(st, z)):
                return ok(st, IV(P(i), 64, 'u'))
            if z is FALSE or (not ex.light and ex.prove(st, Not(z))):
                n = i + 1
                continue
            break
        # the terminator must exist inside the object
        nb = getattr(b, 'nul_by', None)
        if nb is None:
            ex.oblige(st, FALSE, 'bounds', 'strlen: no terminator proved inside %s' % b.name)
            return ok(st, IV(ex.opaque_app('strlen', INT, n, (1 << 31)), 64, 'u'))
        hi = nb - o
        v = ex.opaque_app('strlen', INT, n, 1 << 31)
        st.assume(Le(v, hi))
        return ok(st, IV(v, 64, 'u'))
    ex.access(st, args[0], ONE, 'strlen read')
    return ok(st, IV(ex.opaque_app('strlen', INT, 0, (1 << 31)), 64, 'u'))


def b_strcmp(ex, st, args, ins):
    a, b = const_string(ex, st, args[0]), const_string(ex, st, args[1])
    if a is not None and b is not None:
        return ok(st, IV(P((a > b) - (a < b)), 32, 's'))
    return ok(st, IV(ex.opaque_app('strcmp', INT, -(1 << 31), (1 << 31) - 1), 32, 's'))


def b_strncmp(ex, st, args, ins):
    n = ex.as_u(st, args[2]).const()
    al, bl = ex.feasible_alts(st, args[0]), ex.feasible_alts(st, args[1])
    if n is not None and len(al) == 1 and len(bl) == 1 and al[0][1] is not None and bl[0][1] is not None and n <= 16:
        r = None
        conds = []
        eq = TRUE
        res = ZERO
        # result sign: first difference
        stop = FALSE
        out = ZERO
        pieces = []
        for i in range(n):
            x = ex.read(st, al[0][1], al[0][2] + i, 'i8', 1)
            y = ex.read(st, bl[0][1], bl[0][2] + i, 'i8', 1)
            if not (isinstance(x, IV) and isinstance(y, IV)):
                break
            pieces.append((x.p, y.p))
        else:
            for x, y in reversed(pieces):
                out = Ite(Eq(x, y), Ite(Eq(x, 0), 0, out), Ite(Lt(x, y), -1, 1))
            return ok(st, IV(out, 32, 's'))
    return ok(st, IV(ex.opaque_app('strncmp', INT, -(1 << 31), (1 << 31) - 1), 32, 's'))


def b_noeffect(ex, st, args, ins):
    if ins.ty.k == 'void':
        return ok(st)
    return ok(st, ex.undef_of(ins.ty))


def b_exit(ex, st, args, ins):
    ex.oblige(st, FALSE, 'no-abort', 'abnormal termination reachable')
    return []


def b_abs(ex, st, args, ins):
    p = ex.as_s(st, args[0])
    w = args[0].w
    ex.oblige(st, Gt(p, -(1 << (w - 1))), 'overflow', 'abs')
    return ok(st, IV(Ite(Le(0, p), p, -p), w, 's'))


def b_fabs(ex, st, args, ins):
    p = args[0].p
    return ok(st, FV(Ite(Le0(-p), p, -p), 64))


def b_floor(ex, st, args, ins):
    return ok(st, FV(Floor(args[0].p), 64))


def b_ceil(ex, st, args, ins):
    return ok(st, FV(-Floor(-args[0].p), 64))


def round_even(p):
    """nearest integer, ties to even"""
    f = Floor(p + Fraction(1, 2))
    if p.sort == INT:
        return p
    return Ite(And(Eq0(p + Fraction(1, 2) - f), Ne(Mod(f, 2), 0)), f - 1, f)


def b_cvtsd2si(ex, st, args, ins):
    p = args[0].xs[0].p
    l, h = prange(p)
    r = round_even(p)
    lo, hi = -(1 << 31), (1 << 31) - 1
    inr = And(Le(lo, r), Le(r, hi))
    if not ex.light and ex.prove(st, inr):
        return ok(st, IV(r, 32, 's'))
    return ok(st, IV(Ite(inr, r, lo), 32, 's'))


def b_rint(ex, st, args, ins):
    r = round_even(args[0].p)
    if ins.ty.k == 'int':
        return ok(st, IV(r, ins.ty.w, 's'))
    return ok(st, FV(r))


def b_math(name):
    def f(ex, st, args, ins):
        ps = [a.p for a in args]
        lo = hi = None
        if name in ('sqrt', 'exp', 'hypot'):
            lo = 0
        if name in ('sin', 'cos'):
            return ok(st, FV((Sin if name == 'sin' else Cos)(ps[0]), 64))
        return ok(st, FV(App('math.' + name, ps, REAL, lo, hi), 64))
    return f


def b_fmuladd(ex, st, args, ins):
    a, b, c = args
    return ok(st, FV(a.p * b.p + c.p, 64))


def b_rand(ex, st, args, ins):
    return ok(st, IV(ex.opaque_app('rand', INT, 0, (1 << 31) - 1), 32, 's'))


def b_isdigit(ex, st, args, ins):
    p = ex.as_s(st, args[0])
    return ok(st, IV(Ite(And(Le(48, p), Le(p, 57)), 1, 0), 32, 's'))


def b_minmax(which):
    def f(ex, st, args, ins):
        a, b = args
        if isinstance(a, FV):
            c = Le0(a.p - b.p) if which == 'min' else Le0(b.p - a.p)
            return ok(st, FV(Ite(c, a.p, b.p)))
        x, y = ex.as_s(st, a), ex.as_s(st, b)
        c = Le(x, y) if which == 'min' else Le(y, x)
        return ok(st, IV(Ite(c, x, y), a.w, 's'))
    return f


TABLE = {
    'malloc': b_malloc, 'calloc': b_calloc, 'realloc': b_realloc, 'free': b_free,
    'memcpy': b_memcpy, 'memmove': b_memmove, 'memset': b_memset,
    'strlen': b_strlen, 'strcmp': b_strcmp, 'strncmp': b_strncmp,
    'printf': b_noeffect, 'puts': b_noeffect, 'putchar': b_noeffect, 'fprintf': b_noeffect, 'srand': b_noeffect,
    'time': b_noeffect, 'fflush': b_noeffect, 'perror': b_noeffect,
    'exit': b_exit, 'abort': b_exit, '__assert_fail': b_exit,
    'abs': b_abs, 'labs': b_abs, 'fabs': b_fabs, 'fabsf': b_fabs, 'floor': b_floor, 'floorf': b_floor,
    'ceil': b_ceil, 'ceilf': b_ceil, 'rint': b_rint, 'lrint': b_rint, 'nearbyint': b_rint,
    'rand': b_rand, 'isdigit': b_isdigit, 'fmin': b_minmax('min'), 'fmax': b_minmax('max'),
    'llvm.x86.sse2.cvtsd2si': b_cvtsd2si,
}
def b_pow(ex, st, args, ins):
    if args[1].p.const() == 2:
        return ok(st, FV(args[0].p * args[0].p))
    return b_math('pow')(ex, st, args, ins)


for _n in 'sqrt exp log log10 sin cos tan asin acos atan atan2 pow sinh cosh tanh hypot cbrt log2 exp2'.split():
    TABLE[_n] = b_math(_n)
    TABLE[_n + 'f'] = b_math(_n)

TABLE['pow'] = TABLE['powf'] = b_pow

PREFIX = [
    ('llvm.memcpy', b_memcpy), ('llvm.memmove', b_memmove), ('llvm.memset', b_memset),
    ('llvm.fabs', b_fabs), ('llvm.floor', b_floor), ('llvm.ceil', b_ceil), ('llvm.fmuladd', b_fmuladd),
    ('llvm.sqrt', b_math('sqrt')), ('llvm.abs', b_abs), ('llvm.smax', b_minmax('max')), ('llvm.smin', b_minmax('min')),
    ('llvm.maxnum', b_minmax('max')), ('llvm.minnum', b_minmax('min')), ('llvm.rint', b_rint),
    ('llvm.pow', b_pow), ('llvm.exp', b_math('exp')), ('llvm.log', b_math('log')), ('llvm.sin', b_math('sin')),
    ('llvm.cos', b_math('cos')),
    ('llvm.lifetime', b_noeffect), ('llvm.dbg', b_noeffect), ('llvm.assume', b_noeffect), ('llvm.stacksave', b_noeffect),
    ('llvm.stackrestore', b_noeffect), ('llvm.va_', b_noeffect),
]


def lookup(name):
    f = TABLE.get(name)
    if f is not None:
        return f
    for p, f in PREFIX:
        if name.startswith(p):
            return f
    return None


from . import files            # noqa: E402  (the ghost file system)
TABLE.update(files.TABLE)
