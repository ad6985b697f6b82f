"""Concrete execution of a case: the same contract text, run against the compiled code on concrete inputs.

Used only to look for a failing input once an obligation has failed (and to self-test the contracts): it never decides a
property.  Integers are exact; real-valued comparisons carry an error bound and are skipped when they are too close to call.
"""
import ctypes
import math
import random
import struct
import time
from fractions import Fraction
from . import spec
from .spec import CX, Out, HMView, SMView, VALID_DT, IMAX, Stop
from .terms import *
from .terms import ATOMS
from .mem import *
from .mem import Unsupported


class Reject(Exception):
    """inputs outside the precondition (or too large to run)"""


class Unk(Exception):
    """too close to call / not evaluable"""


class Violation(Exception):
    pass


TAGS = {'i8': ('B', 1), 'i16': ('h', 2), 'i32': ('i', 4), 'i64': ('q', 8), 'f32': ('f', 4), 'f64': ('d', 8), 'ptr': ('Q', 8)}
BITS = 3e-7
LIMIT = 1 << 22

READS = {}       # app name -> (block, when, tag)


# ---------------------------------------------------------------- evaluation
def ev(p, env):
    p = P(p)
    v, e = 0, 0
    mag = 0.0
    for m, c in p.t.items():
        tv, te = c, 0
        if isinstance(c, Fraction) and (c.denominator & (c.denominator - 1) or c.denominator > 1 << 24):
            te = abs(float(c)) * BITS
        q = quotient(m, c, env)
        if q is not None:
            mag += abs(float(q))
            v = v + (q if not isinstance(v, float) else float(q))
            continue
        for aid in m:
            av, ae = ev_atom(ATOMS[aid], env)
            if p.sort == REAL and ATOMS[aid].kind == 'sum' and ATOMS[aid].sort != REAL:
                mg = sum_mag(ATOMS[aid], env)       # the code may add the integers up as floating point numbers
                ae = ae + mg * max(1e-6, 4e-8 * sum_cnt(ATOMS[aid], env)) if mg >= 1 << 24 else ae
            if te or ae:
                te = abs(float(tv)) * ae + abs(float(av)) * te + te * ae
            tv = tv * av if not isinstance(tv, float) and not isinstance(av, float) else float(tv) * float(av)
            if isinstance(tv, Fraction) and tv.denominator.bit_length() > 200:
                tv = float(tv)
                te += abs(tv) * 1e-13
        if isinstance(tv, float) and te == 0:
            te = abs(tv) * 1e-12
        e = e + te
        mag += abs(float(tv))
        v = v + tv if not isinstance(v, float) and not isinstance(tv, float) else float(v) + float(tv)
    if isinstance(v, float) and (math.isnan(v) or math.isinf(v)):
        raise Unk()
    return v, e + mag * BITS if e else e


def quotient(m, c, env):
    """exact value of a quotient of exact numbers that comes out even"""
    if len(m) != 2 or abs(c) != 1 or sorted(ATOMS[x].kind for x in m) != ['inv', 'sum']:
        return None
    r = Fraction(c)
    for x in m:
        a = ATOMS[x]
        if a.kind == 'inv':
            w, e = ev(a.data[0], env)
            if e or not w or isinstance(w, float):
                return None
            r /= Fraction(w)
        else:
            if a.kind == 'sum' and sum_mag(a, env) >= 1 << 24:
                return None
            w, e = ev_atom(a, env)
            if e or isinstance(w, float):
                return None
            r *= Fraction(w)
    d = r.denominator
    return norm_c(r) if d & (d - 1) == 0 and d < 1 << 20 and abs(r.numerator) < 1 << 24 else None


def sum_mag(a, env):
    fa = _fa.get(a.id)
    if fa is None:
        fa = _fa[a.id] = sorted(i for i in free_atoms(a) if ATOMS[i].kind == 'sym')
    key = ('mag', a.id) + tuple([env.get(i) for i in fa])
    r = MEMO.get(key)
    if r is None:
        r = MEMO[key] = sum_mag_(a, env)
    return r


def sum_cnt(a, env):
    """about how many terms a (nested) sum has"""
    d, T, body = a.data
    r = max(min(ev_int(T, env), 20000), 0)
    ba = body.as_atom()
    if ba is not None and ba.kind == 'sum' and r:
        e2 = dict(env)
        e2[bound_sym(d).as_atom().id] = 0
        r *= sum_cnt(ATOMS[ba.id], e2)
    return r


def sum_mag_(a, env):
    d, T, body = a.data
    n = ev_int(T, env)
    bid = bound_sym(d).as_atom().id
    e2 = dict(env)
    r = 0.0
    for i in range(max(min(n, 20000), 0)):
        e2[bid] = i
        ba = body.as_atom()
        r += sum_mag(ATOMS[ba.id], e2) if ba is not None and ba.kind == 'sum' else abs(float(ev(body, e2)[0]))
    return r


def ev_int(p, env):
    v, e = ev(p, env)
    if e:
        raise Unk()
    if isinstance(v, Fraction):
        if v.denominator != 1:
            raise Unk()
        v = v.numerator
    return int(v)


MEMO = {}


def ev_atom(a, env):
    """value of an atom; sums and folds are computed once per value of the symbols they depend on"""
    if a.kind not in ('sum', 'fold'):
        return ev_atom_(a, env)
    fa = _fa.get(a.id)
    if fa is None:
        fa = _fa[a.id] = sorted(i for i in free_atoms(a) if ATOMS[i].kind == 'sym')
    key = (a.id,) + tuple([env.get(i) for i in fa])
    r = MEMO.get(key)
    if r is None:
        if len(MEMO) > 200000:
            MEMO.clear()
        r = MEMO[key] = ev_atom_(a, env)
    return r


_fa = {}


def ev_atom_(a, env):
    k = a.kind
    if k == 'sym':
        if a.id in env:
            v = env[a.id]
            return v if isinstance(v, tuple) else (v, 0)
        raise Unk()
    if k == 'app':
        nm = a.data[0]
        r = READS.get(nm)
        if r is not None:
            return r(ev_int(a.data[1], env))
        if nm in TABS:
            i = ev_int(a.data[1], env)
            if not 0 <= i < len(TABS[nm][0]):
                raise Unk()
            return TABS[nm][0][i], 0
        if nm.startswith('border:'):
            x, n = [ev_int(z, env) for z in a.data[1:]]
            if n < 1:
                raise Unk()
            return border_value(int(nm[7:]), x, n), 0
        if nm.startswith('math.'):
            xs = [ev(x, env) for x in a.data[1:]]
            try:
                v = getattr(math, nm[5:])(*[float(x[0]) for x in xs])
            except (ValueError, OverflowError):
                raise Unk()
            return v, abs(v) * 1e-6 + 1e-6 + sum(x[1] for x in xs) * 4
        if nm.startswith('bv'):
            x, y = [ev_int(z, env) for z in a.data[1:]]
            return ({'bvand': x & y, 'bvor': x | y, 'bvxor': x ^ y}[nm.rstrip('0123456789')]), 0
        raise Unk()
    if k == 'ite':
        c = ev_b(a.data[0], env)
        if c is None:
            x, y = ev(a.data[1], env), ev(a.data[2], env)
            if x == y:
                return x
            if a.sort == REAL or x[1] or y[1]:
                # continuous at the switch?  cover both
                lo, hi = min(x[0] - x[1], y[0] - y[1]), max(x[0] + x[1], y[0] + y[1])
                return (lo + hi) / 2, float(hi - lo) / 2
            raise Unk()
        return ev(a.data[1] if c else a.data[2], env)
    if k == 'fdiv':
        x, y = ev_int(a.data[0], env), ev_int(a.data[1], env)
        if y == 0:
            raise Unk()
        if abs(y) > 1 << 40:
            # the floor of a real expression with floating-point constants: too close to call near an integer
            r = Fraction(x, y)
            if abs(r - round(r)) < Fraction(1, 10**5):
                raise Unk()
        return x // y, 0
    if k == 'floor':
        v, e = ev(a.data[0], env)
        if e == 0:
            return (v.numerator // v.denominator if isinstance(v, Fraction) else math.floor(v)), 0
        l, h = math.floor(float(v) - e), math.floor(float(v) + e)
        if l != h:
            raise Unk()
        return l, 0
    if k == 'inv':
        v, e = ev(a.data[0], env)
        if v == 0 or abs(v) <= e:
            raise Unk()
        r = Fraction(1) / Fraction(v) if not isinstance(v, float) else 1.0 / v
        if e == 0 and isinstance(r, Fraction) and not (r.denominator & (r.denominator - 1)):
            return norm_c(r), 0
        return r, abs(float(r)) * (BITS + float(e) / abs(float(v)) * 2)
    if k == 'sum':
        d, T, body = a.data
        n = ev_int(T, env)
        if n > 20000:
            raise Unk()
        bid = bound_sym(d).as_atom().id
        e2 = dict(env)
        v, e, mag = 0, 0, 0
        for i in range(max(n, 0)):
            e2[bid] = i
            x, y = ev(body, e2)
            v = v + x if not isinstance(v, float) and not isinstance(x, float) else float(v) + float(x)
            e += y
            if a.sort == REAL:
                mag += abs(float(x))
        return v, (e + mag * max(1e-6, 4e-8 * n) if mag else e)
    if k == 'fold':
        d, T, init, fs, xs, which = a.data
        n = ev_int(T, env)
        if n > 20000:
            raise Unk()
        st = [ev(i, env) for i in init]
        bid = bound_sym(d).as_atom().id
        ids = [x.as_atom().id for x in xs]
        e2 = dict(env)
        for i in range(max(n, 0)):
            e2[bid] = i
            for x, v in zip(ids, st):
                e2[x] = v
            st = [ev(f, e2) for f in fs]
        return st[which]
    raise Unk()


def ev_b(b, env):
    """True / False / None (too close to call)"""
    op = b.op
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'not':
        x = ev_b(b.a, env)
        return None if x is None else not x
    if op in ('and', 'or'):
        unk = False
        stop = op == 'or'
        for x in b.a:
            try:
                v = ev_b(x, env)
            except Unk:
                v = None
            if v is None:
                unk = True
            elif v == stop:
                return stop
        return None if unk else (not stop)
    if op in ('le', 'lt', 'eq'):
        v, e = ev(b.a, env)
        if e == 0:
            return v <= 0 if op == 'le' else v < 0 if op == 'lt' else v == 0
        if op == 'eq':
            return False if abs(v) > e else None
        if v < -e:
            return True
        if v > e:
            return False
        return None
    raise Unk()


# ---------------------------------------------------------------- native memory
class NBlk(Blk):
    def __init__(self, cx, name, base, size, serial, kind='heap'):
        Blk.__init__(self, name, size, kind)
        self.cx, self.na, self.n, self.serial = cx, base, size, serial
        self.snap = None

    def addr(self):
        return P(self.na)

    def live(self):
        return bool(self.cx.lib.hv_live(self.serial))


def as_text(items):
    r = ''
    for x in items:
        if isinstance(x, str):
            r += x
        elif x[0] == 'rep':
            for i in range(ev_int(x[1], {})):
                r += as_text(x[2](P(i)))
        else:
            v = ev(x[1], {})[0]
            r += x[0] % (float(v) if x[0] == '%f' else int(v))
    return r


class COut(Out):
    def __init__(self, cx, ret, mark):
        self.cx, self.ret, self.mark = cx, ret, mark
        self.samples = [{}]

    def fork(self):
        o = COut(self.cx, self.ret, self.mark)
        o.samples = [dict(s) for s in self.samples]
        return o

    def ensure(self, goal, desc):
        if goal is TRUE:
            return True
        t0, n = time.time(), 0
        ss = list(self.samples)
        self.cx.rnd.shuffle(ss)
        for s in ss:
            n += 1
            if n % 4 == 0 and time.time() - t0 > 0.4:
                break                       # an expensive goal: rather look at more inputs
            try:
                v = ev_b(goal, s)
            except Unk:
                v = None
            if v is False:
                self.cx.fail(desc, goal, s)
                return False
        self.cx.checked += n
        return True

    def assume(self, b):
        out = []
        for s in self.samples:
            try:
                if ev_b(b, s):
                    out.append(s)
            except Unk:
                pass
        self.samples = out

    def then(self, name, *args):
        return self.cx.call(name, *args, st=self)

    def index(self, name, hi, lo=0):
        i = Sym('%s!c%d' % (name, next(self.cx.kcnt)), INT, lo if isinstance(lo, int) else None)
        aid = i.as_atom().id
        rng = self.cx.rnd
        out = []
        for s in self.samples:
            try:
                a, b = ev_int(P(lo), s), ev_int(P(hi), s)
            except Unk:
                continue
            if b <= a:
                continue
            if len(self.samples) == 1:
                xs = range(a, b) if b - a <= 300 else sorted(set([a, b - 1, (a + b) // 2] + [rng.randrange(a, b) for _ in range(200)]))
            else:
                xs = [rng.choice((a, b - 1, rng.randrange(a, b), rng.randrange(a, b))) for _ in range(max(1, 300 // len(self.samples)))]
            for x in xs:
                t = dict(s)
                t[aid] = x
                out.append(t)
        self.samples = out
        return i

    def target(self, pv=None, what='result'):
        pv = self.ret if pv is None else pv
        if not isinstance(pv, PV) or pv.alts[0][1] is None:
            self.ensure(FALSE, what + ' points to one known object (NULL)')
            raise Stop()
        g, b, off = pv.alts[0]
        if b == 'wild':
            self.ensure(FALSE, what + ' points to one known object')
            raise Stop()
        if not b.live():
            self.ensure(FALSE, what + ' is not freed')
            raise Stop()
        return b, off

    def read(self, blk, off, tag, when='post'):
        c, n = TAGS[tag]
        if tag == 'ptr':
            a = self.cx.peek(blk, ev_int(off, {}), 'ptr')
            return self.cx.pv(a)
        nm = 'rd%d.%s.%s.%d' % (blk.id, when, tag, self.cx.epoch)
        if nm not in READS:
            snap = blk.snap if when == 'pre' else None
            cx = self.cx

            def rd(o, blk=blk, snap=snap):
                v = cx.peek(blk, o, tag, snap)
                if tag in ('f32', 'f64'):
                    if math.isnan(v) or math.isinf(v):
                        return (1e300, 0) if when != 'pre' else (_unk())
                    return norm_c(Fraction(v)), (abs(v) * BITS + 1e-30 if when != 'pre' else 0)
                return v, 0
            READS[nm] = rd
        if tag in ('f32', 'f64'):
            return FV(App(nm, [off], REAL), 32 if tag == 'f32' else 64)
        w = n * 8
        lo, hi = (0, 255) if tag == 'i8' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return IV(App(nm, [off], INT, lo, hi), w, 'u' if tag == 'i8' else 's')

    def src(self, blk, off, tag='i8'):
        return self.read(blk, off, tag, 'pre')

    def poly(self, v, tag, signed=None):
        if isinstance(v, IV):
            s = signed if signed is not None else tag != 'i8'
            if s == (v.s == 's'):
                return v.p
            h = 1 << (v.w - 1)
            return Ite(Lt(v.p, h), v.p, v.p - 2 * h) if s else Ite(Lt(v.p, 0), v.p + 2 * h, v.p)
        return v.p

    def iret(self):
        return self.ret.p

    def freed(self, b):
        return FALSE if b.live() else TRUE

    def unchanged(self, blk, desc=None, tags=('i8',)):
        name = desc or '%s is not modified' % blk.name
        if not blk.live():
            self.ensure(FALSE, name + ' / not freed')
            return
        now = ctypes.string_at(blk.na, blk.n)
        if now != blk.snap:
            k = next(i for i in range(blk.n) if now[i] != blk.snap[i])
            self.cx.fail(name + ' [offset %d: %d -> %d]' % (k, blk.snap[k], now[k]), FALSE, {})

    def file(self, f):
        data = self.cx.slurp(f)
        if data is None:
            self.ensure(FALSE, '%s is written' % f.name)
            raise Stop()
        b = self.cx.mkblk('file ' + f.name, P(len(data)), 'arg', 'undef', 16, lambda r, n: data)
        b.snap = data
        return b, P(len(data))

    def text(self, f, items):
        data = self.cx.slurp(f)
        if data is None:
            self.ensure(FALSE, '%s is written' % f.name)
            return

        w = as_text(items)
        if data.decode('latin1') != w:
            self.cx.fail('text of %s: %r instead of %r' % (f.name, data.decode('latin1')[:300], w[:300]), FALSE, {})

    def no_leak(self, keep=(), desc='every object allocated by the call is released or returned'):
        ks = {k.serial for k in keep}
        base, n = ctypes.c_void_p(), ctypes.c_size_t()
        s = self.mark
        while True:
            s = self.cx.lib.hv_next(s, ctypes.byref(base), ctypes.byref(n))
            if not s:
                break
            if s not in ks and s not in self.cx.own:
                self.cx.fail('%s (an object of %d bytes is not)' % (desc, n.value), FALSE, {})
                break


def _unk():
    raise Unk()


class Solver:
    @staticmethod
    def f():
        pass


class CCX(CX):
    """concrete counterpart of spec.CX"""

    def invariant(self, f):
        pass

    def variant(self, f):
        pass

    def witness(self, *ps):
        pass

    def __init__(self, lib, prog, rnd, hints=None, consts=(), log=None, big=False):
        self.lib, self.prog, self.rnd, self.hints, self.consts, self.log = lib, prog, rnd, hints or {}, list(consts), log
        self.init = {}
        self.esz = {}
        self.trivial_posts = 0
        import itertools
        self.kcnt = itertools.count(1)
        self.dims = {}
        self.blocks = []
        self.own = set()
        self.failures = []
        self.checked = 0
        self.total = 0
        self.epoch = 0
        self.peeked = False
        self.big = big
        self.depth = 0
        self.files = {}
        self.style = rnd.choice(['rand', 'rand', 'small', 'flat', 'ramp', 'edge', 'wild'])
        self.tag = 'dims'
        self.calls = 0

    def fail(self, desc, goal, s):
        self.failures.append({'what': desc, 'goal': show_b(goal)[:600],
                              'at': {ATOMS[k].data if ATOMS[k].kind == 'sym' else str(k): str(v) for k, v in s.items()}})

    def require(self, *bs):
        for b in bs:
            try:
                v = ev_b(b, {})
            except Unk:
                if self.peeked:
                    raise Reject()      # too much data
                raise Unsupported('precondition not evaluable')
            if v is not True:
                raise Reject()

    def wrap(self):
        pass

    def content(self, b, tag, cols, f):
        pass

    def lemma(self, b, desc):
        pass

    def inexact(self, v):
        x = ev(v, {})[0]
        nm = 'inexact!%d' % next(self.kcnt)
        READS[nm] = lambda o: (x, abs(float(x)) * BITS)
        return App(nm, [P(0)], REAL)

    def entry(self):
        o = COut(self, None, None)
        self.peeked = True
        return o

    def pure(self, name, lo, hi, *args):
        return self.call(name, *args)[0].iret()

    def filled(self, name, n, *args):
        h = self.obj('out!%d' % next(self.kcnt), P(8 * n), content=5)
        self.call(name, PV.to(h), *args)
        r = []
        for i in range(n):
            x = self.peek(h, 8 * i, 'f64')
            nm = 'retf!%d' % next(self.kcnt)
            bad = math.isnan(x) or math.isinf(x)
            READS[nm] = lambda o, x=x, bad=bad: ((1e300, 0) if bad else (norm_c(Fraction(x)), abs(x) * BITS + 1e-30))
            r.append(App(nm, [P(0)], REAL))
        return r

    def dim(self, name, lo=1, hi=IMAX, sort=INT):
        if name in self.dims:
            return P(self.dims[name])
        r = self.rnd
        hi = IMAX if hi is None else hi
        lo = -IMAX - 1 if lo is None else lo
        v = None
        if name in self.hints and r.random() < 0.75:
            v = self.hints[name]
            if r.random() < 0.3:
                v += r.choice([-1, 1, 2])
        if v is None:
            x = r.random()
            if lo < -1000:
                v = r.choice([0, 1, -1, 2, 3, r.randrange(-20, 20), r.randrange(-300, 300)])
            elif x < 0.75 or not self.consts:
                v = lo + r.randrange(0, min(hi - lo, r.choice([1, 2, 4, 6, 9])) + 1)
            elif x < 0.85:
                v = lo + r.randrange(0, min(hi - lo, 40) + 1)
            else:
                v = r.choice(self.consts) + r.choice([-1, 0, 0, 1])
        v = int(v)
        if not lo <= v <= hi:
            v = max(lo, min(hi, v))
        self.dims[name] = v
        return P(v)

    def real(self, name, lo=None, hi=None):
        if name in self.dims:
            return P(Fraction(self.dims[name]))
        r = self.rnd
        v = None
        if name in self.hints and r.random() < 0.6:
            v = Fraction(self.hints[name]).limit_denominator(64)
            v = Fraction(int(v * 64), 64)
        if v is None:
            v = Fraction(r.choice([0, 1, 2, -1, 255, 256, r.randrange(-300, 300), r.randrange(0, 256)]) * 4 + r.choice([0, 0, 0, 1, 2, 3]), 4)
        if lo is not None and v < lo:
            v = Fraction(lo)
        if hi is not None and v > hi:
            v = Fraction(hi)
        self.dims[name] = float(v)
        return P(norm_c(v))

    def dtype(self, name='dt', ename='E'):
        if name not in self.dims:
            k = self.hints.get(name)
            if k not in VALID_DT or self.rnd.random() < 0.3:
                k = self.rnd.choice(sorted(VALID_DT))
            self.dims[name] = k
        k = self.dims[name]
        return P(k), P(VALID_DT[k])

    def mkblk(self, name, size, kind, base, align=1, content=None):
        n = ev_int(size, {})
        if n < 0:
            raise Reject()
        self.total += n
        if n > LIMIT or self.total > 2 * LIMIT:
            raise Reject()
        a = self.lib.hv_block(n, max(16, align))
        s = self.lib.hv_mark()
        b = NBlk(self, name, a, n, s, kind)
        self.own.add(s)
        self.blocks.append(b)
        self.fill(b, content)
        return b

    def fill(self, b, content):
        r = self.rnd
        if content is None and b.kind != 'arg' and b.name.endswith('.hdr'):
            content = 0
        if isinstance(content, Poly):
            content = content.const()
        if callable(content):
            data = content(r, b.n)
        elif content in (4, 5):
            c, z = ('f', 4) if content == 4 else ('d', 8)
            k = b.n // z
            data = struct.pack('<%d%s' % (k, c), *[self.fval() for _ in range(k)])
        elif content in (2, 3, 12, 13, 14, 15):
            c = {2: 'h', 3: 'i', 12: 'H', 13: 'I', 14: 'q', 15: 'Q'}[content]
            z = struct.calcsize('<' + c)
            k = b.n // z
            data = struct.pack('<%d%s' % (k, c), *[self.ival(c) for _ in range(k)])
        else:
            data = self.bytes_(b.n)
        data = data[:b.n].ljust(b.n, b'\0')
        ctypes.memmove(b.na, data, b.n)

    def bytes_(self, n):
        r = self.rnd
        if self.style == 'small':
            return bytes(r.choice((0, 1, 1, 2)) for _ in range(n))
        if self.style == 'flat':
            v = r.choice((0, 1, 128, 255, r.randrange(256)))
            return bytes([v]) * n
        if self.style == 'ramp':
            k = r.randrange(1, 5)
            return bytes((i * k) & 255 for i in range(n))
        if self.style == 'edge':
            return bytes(r.choice((0, 1, 127, 128, 129, 254, 255)) for _ in range(n))
        return r.randbytes(n)

    def fval(self):
        r = self.rnd
        s = self.style
        if s == 'small':
            return float(r.choice((0, 1, -1, 2, 3)))
        if s == 'flat':
            return 2.0
        if s == 'edge':
            return r.choice((0.0, -0.25, -1.0, 1.0, 0.5, 127.0, 127.5, 128.0, 128.5, 254.5, 255.0, 255.25, 255.5, 255.75, 256.0, 32767.0, 32767.5, 32768.0,
                             -32768.0, -32769.0, 65535.0, 65535.5, 65536.0, -129.0, -128.0, 2147483520.0, -2147483648.0, 70000.0, 300.0, 3000000000.0, -3000000000.0))
        if s == 'ramp':
            return float(r.randrange(0, 256))
        return r.randrange(-1200, 1200) / 4.0

    def ival(self, c):
        r = self.rnd
        s = self.style
        if s == 'small':
            v = r.choice((0, 1, 2, 3))
        elif s == 'flat':
            v = 5
        elif s == 'edge':
            v = r.choice((0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, -1, -128, -129, -32768, 70000))
        elif s == 'wild':
            v = r.choice((1, -1)) * r.randrange(1 << r.randrange(1, 65))
        else:
            v = r.randrange(-1000, 1000) if s == 'rand' else r.randrange(0, 256)
        lo, hi = {'h': (-32768, 32767), 'H': (0, 65535), 'i': (-2**31, 2**31 - 1), 'I': (0, 2**32 - 1), 'q': (-2**63, 2**63 - 1), 'Q': (0, 2**64 - 1)}[c]
        return max(lo, min(hi, v))

    def reg(self, b, cells=None):
        if cells:
            if b.kind == 'img' and (b.n in (40, 32)):
                ctypes.memset(b.na, 0, b.n)
            for k, (z, t, v) in cells.items():
                self.poke(b, k, t, v)
            b.cells0 = dict(cells)
        b.snap = ctypes.string_at(b.na, b.n)
        self.init[b] = b
        return b

    def poke(self, b, k, t, v):
        c, z = TAGS[t]
        if isinstance(v, PV):
            x = self.native(v)
        elif isinstance(v, IV):
            x = ev_int(v.p, {}) & ((1 << (8 * z)) - 1)
            c = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}[z]
        elif isinstance(v, FV):
            x = float(ev(v.p, {})[0])
        else:
            return
        ctypes.memmove(b.na + k, struct.pack('<' + c, x), z)

    def peek(self, b, o, tag, snap=None):
        c, z = TAGS[tag]
        if o < 0 or o + z > b.n:
            raise Unk()
        if snap is not None:
            return struct.unpack_from('<' + c, snap, o)[0]
        if not b.live():
            raise Unk()
        return struct.unpack('<' + c, ctypes.string_at(b.na + o, z))[0]

    def native(self, pv):
        g, b, o = pv.alts[0]
        return 0 if b is None else b.na + ev_int(o, {})

    def pv(self, a):
        if not a:
            return NULL
        base, n, live = ctypes.c_void_p(), ctypes.c_size_t(), ctypes.c_int()
        s = self.lib.hv_find(a, ctypes.byref(base), ctypes.byref(n), ctypes.byref(live))
        if not s:
            return PV([(TRUE, 'wild', P(a))])
        for b in self.blocks:
            if b.serial == s:
                break
        else:
            b = NBlk(self, 'object', base.value, n.value, s)
            self.blocks.append(b)
        return PV.to(b, a - b.na)

    def modular(self, *names):
        pass

    def inverse(self, name, m, f):
        n = ev_int(P(m), {})
        o = self.entry()
        memo = []

        def value(k):
            if not memo:
                a = [[float(ev(f(o, P(i), P(j)), {})[0]) for j in range(n)] + [float(i == j) for j in range(n)] for i in range(n)]
                top = max(abs(x) for r in a for x in r[:n])
                for i in range(n):
                    p = max(range(i, n), key=lambda r: abs(a[r][i]))
                    if abs(a[p][i]) < 1e-3 * top:
                        raise Reject()          # nearly singular
                    a[i], a[p] = a[p], a[i]
                    a[i] = [x / a[i][i] for x in a[i]]
                    for r in range(n):
                        if r != i:
                            a[r] = [x - a[r][i] * y for x, y in zip(a[r], a[i])]
                memo.extend(x for r in a for x in r[n:])
            return memo[k], max(abs(x) for x in memo) * 1e-2 + 1e-9
        READS['inverse'] = value
        value(0)
        return lambda i, j: App('inverse', [i * P(m) + j], REAL)

    def call(self, name, *args, st=None):
        f, mod = self.prog.fn(name) if not name.startswith('~') else self.prog.fn_match(name[1:])
        if st is None:
            for b in self.init:
                if not b.live():
                    raise Unsupported('input released by an earlier call')
                ctypes.memmove(b.na, b.snap, b.n)
        nm = f.name.lstrip('@').strip('"')
        try:
            fn = self.lib[nm]
        except AttributeError:
            fn = self.lib['hvs_' + nm]
        conv = []
        for v in args:
            if isinstance(v, PV):
                conv.append(ctypes.c_void_p(self.native(v)))
            elif isinstance(v, FV):
                x = float(ev(v.p, {})[0])
                conv.append(ctypes.c_float(x) if v.w == 32 else ctypes.c_double(x))
            elif isinstance(v, IV):
                x = ev_int(v.p, {})
                conv.append({8: ctypes.c_uint8, 16: ctypes.c_uint16, 24: ctypes.c_uint32, 32: ctypes.c_uint32, 64: ctypes.c_uint64, 1: ctypes.c_uint8}[v.w](x & ((1 << v.w) - 1)))
            else:
                raise Unsupported('argument %r' % (v,))
        rt = f.ret
        k = rt.k
        if k == 'void':
            fn.restype = None
        elif k == 'ptr':
            fn.restype = ctypes.c_void_p
        elif k in ('float', 'double'):
            fn.restype = ctypes.c_float if k == 'float' else ctypes.c_double
        elif k == 'int':
            fn.restype = {1: ctypes.c_uint8, 8: ctypes.c_uint8, 16: ctypes.c_int16, 32: ctypes.c_int32, 64: ctypes.c_int64}[rt.w]
        else:
            raise Unsupported('return type %s' % k)
        self.calls += 1
        self.epoch += 1
        if self.log:
            self.log({'call': name, 'dims': self.dims, 'args': [show(v.p) if not isinstance(v, PV) else '&' + (v.alts[0][1].name if v.alts[0][1] is not None else 'NULL') for v in args]})
        mark = self.lib.hv_mark() if st is None else st.mark
        r = fn(*conv)
        if self.log:
            self.log({'returned': name})
        if k == 'void':
            ret = None
        elif k == 'ptr':
            ret = self.pv(r)
        elif k == 'int':
            if rt.w == 1:
                r &= 1
            s = Sym('ret!%d' % next(self.kcnt), INT)
            ret = IV(P(r), rt.w, 'u' if rt.w in (1, 8) else 's')
        else:
            s = Sym('ret!c%d' % next(self.kcnt), REAL)
            nm = 'retf!%d' % next(self.kcnt)
            bad = math.isnan(r) or math.isinf(r)
            READS[nm] = lambda o: ((1e300, 0) if bad else (norm_c(Fraction(r)), abs(r) * BITS + 1e-30))
            ret = FV(App(nm, [P(0)], REAL), 32 if k == 'float' else 64)
        return [COut(self, ret, mark)]

    def infile(self, name, length, missing=False, content=None, cells=None):
        from .files import GFile
        f = GFile(name, None, None, None, P(length), missing)
        self.files[name] = f
        if not missing:
            f.raw = self.obj('file ' + name, length, content=content, cells=cells)
            with open(name, 'wb') as fp:
                fp.write(f.raw.snap)
        return f

    def intext(self, name, items):
        from .files import GFile
        f = GFile(name, None, None, None, ZERO)
        self.files[name] = f
        with open(name, 'w') as fp:
            fp.write(as_text(items))
        return f

    def innumbers(self, name, n, missing=False):
        from .files import GFile
        import struct
        b = self.obj('numbers of ' + name, P(n) * 4, content=4, align=4)
        f = GFile(name, None, None, None, ZERO, missing, None, (b, P(n)))
        self.files[name] = f
        if not missing:
            k = len(b.snap) // 4
            with open(name, 'w') as fp:
                for i, v in enumerate(struct.unpack('<%df' % k, b.snap[:4 * k])):
                    fp.write('%.9g' % v + ('\n' if i % 3 == 2 else ' '))
        return f

    def outfile(self, name):
        from .files import GFile
        f = GFile(name, None, None, None)
        self.files[name] = f
        return f

    def slurp(self, f):
        try:
            with open(f.name, 'rb') as fp:
                return fp.read()
        except OSError:
            return None

    def release(self):
        import os
        for nm in self.files:
            if os.path.exists(nm):
                os.remove(nm)
        for b in self.blocks:
            if b.live():
                self.lib.hv_free(b.na)
        READS.clear()
        MEMO.clear()
