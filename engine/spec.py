"""Specification layer: cases (one function under one precondition), ghost symbols, post-state inspection."""
import os
import time
import traceback
import hashlib
from . import frontend, solver, files
from . import exec as X
from .terms import *
from .terms import ATOMS
from .mem import *
from .mem import Unsupported
from .llparse import DOUBLE

IMAX = (1 << 31) - 1
CASES = []


class Case:
    def __init__(self, prop, name, fn, files, targets, level='proof', extra=(), wall=150, note=None, internal=False, cost=1):
        self.prop, self.name, self.fn, self.files, self.targets = prop, name, fn, tuple(files), tuple(targets)
        self.level, self.extra, self.wall, self.note = level, tuple(extra), wall, note
        self.internal, self.cost = internal, cost


def case(prop, name, files, targets, **kw):
    def deco(fn):
        CASES.append(Case(prop, name, fn, files, targets, **kw))
        return fn
    return deco


class Out:
    """one exit state of the function under verification"""

    def __init__(self, cx, st, ret):
        self.cx, self.st, self.ret = cx, st, ret

    def ensure(self, goal, desc):
        ok = self.cx.ex.oblige(self.st, goal, 'post', desc)
        if goal is TRUE:
            self.cx.trivial_posts += 1
        return ok

    def fork(self):
        return Out(self.cx, self.st.copy(), self.ret)

    def assume(self, b):
        self.st.assume(b)

    def then(self, name, *args):
        """call another function in this exit state"""
        return self.cx.call(name, *args, st=self.st)

    def index(self, name, hi, lo=0):
        """an arbitrary index lo <= i < hi (universally quantified)"""
        i = Sym('%s!k%d' % (name, next(self.cx.kcnt)), INT, lo if isinstance(lo, int) else 0)
        if not isinstance(lo, int):
            self.st.assume(Le(lo, i))
        self.st.assume(Lt(i, hi))
        return i

    def target(self, pv=None, what='result'):
        """(block, offset) of a pointer value that must be non-null and single-valued"""
        pv = self.ret if pv is None else pv
        if not isinstance(pv, PV):
            self.ensure(FALSE, what + ' is a pointer')
            raise Unsupported(what + ' is not a pointer')
        al = self.cx.ex.feasible_alts(self.st, pv)
        al = [a for a in al]
        if len(al) != 1 or al[0][1] is None or al[0][1] is X.WILD:
            self.ensure(FALSE, what + ' points to one known object (%r)' % (pv,))
            raise Stop()
        self.ensure(Not(self.st.bs(al[0][1]).freed), what + ' is not freed')
        return al[0][1], al[0][2]

    def read(self, blk, off, tag):
        return self.cx.ex.read(self.st, blk, P(off), tag, X.tag_size(tag))

    def src(self, blk, off, tag='i8'):
        """value the object had at entry"""
        return self.cx.ex.read_snap(self.st.pc(), blk, self.cx.init[blk], P(off), tag, X.tag_size(tag))

    def srd(self, blk, off, tag, signed=None):
        """value the object had at entry, as a polynomial"""
        return self.poly(self.src(blk, off, tag), tag, signed)

    def freed(self, blk):
        return self.st.bs(blk).freed

    def addr(self, blk):
        return blk.addr()

    def rd(self, blk, off, tag, signed=None):
        """polynomial read"""
        return self.poly(self.read(blk, off, tag), tag, signed)

    def poly(self, v, tag, signed=None):
        if isinstance(v, IV):
            if signed is None:
                return self.cx.ex.as_s(self.st, v) if tag != 'i8' else self.cx.ex.as_u(self.st, v)
            return self.cx.ex.as_s(self.st, v) if signed else self.cx.ex.as_u(self.st, v)
        if isinstance(v, FV):
            return v.p
        if v is UNDEF:
            v = self.cx.ex.opaque(tag, 'undef')
            return v.p
        return v

    def congr(self, blk, off, tag, value, desc):
        """the integer at off equals value modulo 2^w"""
        v = self.read(blk, off, tag)
        self.ensure(Eq(Mod(v.p - value, 1 << v.w), 0), desc)

    def is_null(self, pv=None):
        pv = self.ret if pv is None else pv
        return Or(*[g for g, b, x in pv.alts if b is None])

    def iret(self):
        return self.cx.ex.as_s(self.st, self.ret)

    def hm(self, pv=None, what='result'):
        b, o = self.target(pv, what)
        return HMView(self, b, o, what)

    def sm(self, pv=None, what='result'):
        b, o = self.target(pv, what)
        return SMView(self, b, o, what)

    def unchanged(self, blk, desc=None, tags=('i8',)):
        """frame condition: every byte of blk reads as at entry"""
        bs = self.st.mem.get(blk)
        init = self.cx.init.get(blk)
        name = desc or '%s is not modified' % blk.name
        if bs is None:
            self.cx.trivial_posts += 1
            return
        cells0 = init.cells if init is not None else (blk.cells0 or {})
        ch = bs.chain
        if not ch and all(k in bs.cells and same_val(bs.cells[k][2], c[2]) for k, c in cells0.items()) and \
                all(k in cells0 for k in bs.cells):
            self.cx.trivial_posts += 1
            self.ensure(Not(bs.freed), name + ' / not freed')
            return
        o2 = self.fork()
        for k, (z, t, v) in cells0.items():
            w = o2.read(blk, k, t)
            o2.ensure(veq(o2, w, v), name + ' [field at %d]' % k)
        for k in bs.cells:
            if k not in cells0:
                o2.ensure(FALSE, name + ' [offset %d written]' % k)
        if ch:
            o2 = self.fork()
            i = o2.index('u', blk.size)
            a = self.cx.ex.read_snap(o2.st.pc(), blk, BS(dict(cells0)), i, 'i8', 1)
            w = o2.read(blk, i, 'i8')
            o2.ensure(veq(o2, w, a), name)
        self.ensure(Not(bs.freed), name + ' / not freed')

    def file(self, f):
        """(contents, length) of a file the call has written"""
        self.ensure(Ge(self.rd(f.meta, 16, 'i64'), 1), '%s is written' % f.name)
        return f.raw, self.rd(f.meta, 0, 'i64')

    def text(self, f, items):
        """the text of a file the call has written: literal strings, (format, value), ('rep', n, function of the index)"""
        self.ensure(Ge(self.rd(f.meta, 16, 'i64'), 1), '%s is written' % f.name)
        self.ensure(Eq(self.rd(f.meta, 0, 'i64'), 0), '%s holds text only' % f.name)
        n = self.text_(f, items, ZERO)
        self.ensure(Eq(self.rd(f.meta, 8, 'i64'), n), 'length of the text of ' + f.name)

    def text_(self, f, items, k):
        o = self.fork()
        for x in items:
            if isinstance(x, str):
                o.ensure(And(*[Eq(o.rd(f.tok, (k + i) * 16, 'i64'), ord(c)) for i, c in enumerate(x)]), 'text %r of %s' % (x, f.name))
                k = k + len(x)
            elif x[0] == 'rep':
                q = o.fork()
                i = q.index('item', x[1])
                sub = x[2](i)
                m = sum(len(y) if isinstance(y, str) else 1 for y in sub)
                q.text_(f, sub, k + i * m)
                k = k + x[1] * m
            else:
                code = {'%d': 1000, '%f': 1001}[x[0]]
                o.ensure(Eq(o.rd(f.tok, k * 16, 'i64'), code), 'conversion %s in %s' % (x[0], f.name))
                o.ensure(Eq(o.rd(f.tok, k * 16 + 8, 'i64' if code == 1000 else 'f64'), x[1]), 'number written by %s to %s' % (x[0], f.name))
                k = k + 1
        return k

    def no_leak(self, keep=(), desc='every object allocated by the call is released or returned'):
        kept = set()
        for k in keep:
            kept.add(k)
            for x in getattr(k, 'sub', ()):
                kept.add(x)
        for b, bs in list(self.st.mem.items()):
            if b in self.cx.init or b in kept or b.kind not in ('heap', 'img', 'file') or getattr(b, 'subof', None) is not None:
                continue
            if bs.freed is TRUE:
                self.cx.trivial_posts += 1
                continue
            self.ensure(bs.freed, desc + ' (%s)' % b.name)


def src(o, blk, off, tag='i8'):
    """value the object had at entry"""
    return o.src(blk, off, tag)


def pair(x, y):
    """a structure of two ints, as it is passed in a register"""
    u = lambda v: Ite(Lt(v, 0), v + 2 ** 32, v)
    return IV(u(x) + u(y) * 2 ** 32, 64, 'u', {0: IV(x, 32), 4: IV(y, 32)})


class Stop(Exception):
    pass


def veq(o, a, b):
    if same_val(a, b):
        return TRUE
    if isinstance(a, IV) and isinstance(b, IV):
        if 'm' in (a.s, b.s):
            return Eq(Mod(a.p - b.p, 1 << a.w), 0)
        if a.s == b.s:
            return Eq(a.p, b.p)
        return Eq(o.cx.ex.as_u(o.st, a), o.cx.ex.as_u(o.st, b))
    if isinstance(a, FV) and isinstance(b, FV):
        return Eq(a.p, b.p)
    if isinstance(a, PV) and isinstance(b, PV) and len(a.alts) == 1 and len(b.alts) == 1:
        if a.alts[0][1] is b.alts[0][1]:
            return Eq(a.alts[0][2], b.alts[0][2])
    return FALSE


class HMView:
    """HyperMat object read from the post-state"""

    def __init__(self, o, b, off, what):
        self.o, self.b, self.off = o, b, off
        r = lambda k, t='i32': o.rd(b, off + k, t)
        self.samples, self.lines, self.bands, self.data_type = r(0), r(4), r(8), r(12)
        self.il = [o.rd(b, off + 16 + i, 'i8') for i in range(3)]
        self.data, self.doff = o.target(o.read(b, off + 24, 'ptr'), what + '->data')
        self.what = what

    def wave(self):
        return self.o.target(self.o.read(self.b, self.off + 32, 'ptr'), self.what + '->wavelength')

    def shape(self, S, L, B, dt=None, il=None):
        o, w = self.o, self.what
        o.ensure(Eq(self.samples, S), w + '->samples')
        o.ensure(Eq(self.lines, L), w + '->lines')
        o.ensure(Eq(self.bands, B), w + '->bands')
        if dt is not None:
            o.ensure(Eq(self.data_type, dt), w + '->data_type')
        if il is not None:
            for i, c in enumerate(il):
                o.ensure(Eq(self.il[i], ord(c)), w + '->interleave[%d] == %r' % (i, c))

    def room(self, n):
        """the data area really has n bytes"""
        self.o.ensure(And(Le(0, self.doff), Le(self.doff + n, self.data.size)), self.what + '->data holds the image')


class SMView:
    def __init__(self, o, b, off, what):
        self.o, self.b, self.off = o, b, off
        r = lambda k, t='i32': o.rd(b, off + k, t)
        self.rows, self.cols, self.data_type, self.channels, self.elem_size = r(0), r(4), r(8), r(12), r(16)
        self.data, self.doff = o.target(o.read(b, off + 24, 'ptr'), what + '->data')
        self.what = what

    def shape(self, rows, cols, dt=None, ch=None):
        o, w = self.o, self.what
        o.ensure(Eq(self.rows, rows), w + '->rows')
        o.ensure(Eq(self.cols, cols), w + '->cols')
        if dt is not None:
            o.ensure(Eq(self.data_type, dt), w + '->data_type')
        if ch is not None:
            o.ensure(Eq(self.channels, ch), w + '->channels')

    def room(self, n):
        """the data area really has n bytes"""
        self.o.ensure(And(Le(0, self.doff), Le(self.doff + n, self.data.size)), self.what + '->data holds the image')


VALID_DT = {1: 1, 2: 2, 3: 4, 4: 4, 5: 8, 12: 2, 13: 4, 14: 8, 15: 8}


class HM:
    pass


class CX:
    def __init__(self, prog, contracts=None):
        self.prog = prog
        self.ex = X.Exec(prog, dict(contracts or {}))
        self.ex.cx = self
        self.st = State()
        self.init = {}
        self.esz = {}
        self.trivial_posts = 0
        import itertools
        self.kcnt = itertools.count(1)
        self.dims = []
        self.fills = {}
        self.covers = 0
        self.files = {}

    def require(self, *bs):
        for b in bs:
            self.st.assume(b)

    def lemma(self, b, desc):
        """a consequence of the preconditions, proved before the call and available to the proofs after it"""
        self.ex.oblige(self.st, b, 'lemma', desc)
        self.st.assume(b)

    def inexact(self, v):
        """v, which the code computes in floating point (concrete runs allow for rounding)"""
        return v

    def entry(self):
        """the state before the call, for preconditions about the contents of the arguments"""
        return Out(self, self.st, None)

    def dim(self, name, lo=1, hi=IMAX, sort=INT):
        s = Sym(name, sort, lo, hi)
        if all(s is not d for d in self.dims):
            self.dims.append(s)
        return s

    def real(self, name, lo=None, hi=None):
        s = Sym(name, REAL, lo, hi)
        self.dims.append(s)
        return s

    def reg(self, b, cells=None):
        """an object that exists at entry"""
        if cells:
            b.cells0 = dict(cells)
        bs = self.st.bs(b)
        self.init[b] = bs
        return b

    def obj(self, name, size, kind='arg', base=None, cells=None, signed=None, lohi=None, align=1, content=None):
        b = self.mkblk(name, size, kind, base or 'input:' + name, align, content)
        if signed:
            b.signed = dict(signed)
        if lohi:
            b.lohi = dict(lohi)
        return self.reg(b, cells)

    def mkblk(self, name, size, kind, base, align, content=None):
        """content: kind of data the object holds (a hint for concrete runs only)"""
        return Blk(name, size, kind, base, align)

    def dtype(self, name='dt', ename='E'):
        """a symbolic valid data type and its element size"""
        dt, E = self.dim(name, 1, 15), self.dim(ename, 1, 8)
        self.require(Or(*[And(Eq(dt, k), Eq(E, v)) for k, v in VALID_DT.items()]))
        self.esz[dt] = E
        return dt, E

    def hm(self, name, il, S=None, L=None, B=None, dt=None, E=None, total=True, wave=True, signed=None, content=None):
        h = HM()
        h.S = S if S is not None else self.dim(name + '.S')
        h.L = L if L is not None else self.dim(name + '.L')
        h.B = B if B is not None else self.dim(name + '.B')
        if dt is None:
            dt, E = self.dtype(name + '.dt', name + '.E')
        elif E is None:
            E = P(VALID_DT[dt])
        h.dt, h.E = P(dt), P(E)
        self.fits(h.S, h.L, h.B, h.E)
        self.require(Le(h.B * 4, IMAX - 64))
        d = self.mkblk(name + '.data', h.S * h.L * h.B * h.E, 'img', 'input:' + name, 64, content or h.dt)
        if signed:
            d.signed = dict(signed)
        h.data = self.reg(d)
        cells = {0: (4, 'i32', IV(h.S, 32)), 4: (4, 'i32', IV(h.L, 32)), 8: (4, 'i32', IV(h.B, 32)),
                 12: (4, 'i32', IV(h.dt, 32)), 24: (8, 'ptr', PV.to(d))}
        if wave:
            h.wave = self.reg(self.mkblk(name + '.wave', h.B * 4, 'img', 'input:' + name + '.w', 64, 4))
            cells[32] = (8, 'ptr', PV.to(h.wave))
        else:
            h.wave = None
            cells[32] = (8, 'ptr', NULL)
        for i, c in enumerate(il):
            cells[16 + i] = (1, 'i8', IV(P(ord(c)), 8, 'u'))
        m = self.mkblk(name, 40, 'img', 'input:' + name + '.hdr', 16)
        m.sub = [h.data] + ([h.wave] if h.wave else [])
        for x in m.sub:
            x.subof = m
        m.nul_by = 31
        h.blk = self.reg(m, cells)
        h.p = PV.to(m)
        h.il = il
        return h

    def content(self, b, tag, cols, f):
        """ghost invariant: every value stored at row i and column j of the table b is f(i, j)  (f over the state before the call)"""
        self.ex.contents[b] = (tag, cols, f)

    def wrap(self):
        """integer arithmetic is modulo 2^w (the compiled code's behaviour) instead of having to be free of overflow"""
        self.ex.wrap = True

    def fits(self, *xs):
        """the product of the sizes is at most 2^31-1 (so are the partial products)"""
        p = ONE
        xs = [P(x) for x in xs]
        import itertools
        n = len(xs)
        seen = set()
        for r in range(2, n + 1):
            for c in itertools.combinations(xs, r):
                q = ONE
                for x in c:
                    q = q * x
                if q in seen or len(q.t) == 1 and max(len(m) for m in q.t) < 2:
                    continue
                seen.add(q)
                if r == n or (n >= 4 and r == 3) or r == 2:
                    self.require(Le(q, IMAX))

    def sm(self, name, dt, ch, rows=None, cols=None, E=None, signed=None, own=True, content=None):
        h = HM()
        h.R = rows if rows is not None else self.dim(name + '.R')
        h.C = cols if cols is not None else self.dim(name + '.C')
        if dt is None:
            dt, E = self.dtype(name + '.dt', name + '.E')
        elif isinstance(dt, int):
            E = P(VALID_DT[dt])
        elif E is None:
            E = P(VALID_DT[dt.const()]) if dt.const() is not None else self.esz[dt]
        h.dt, h.E, h.ch = P(dt), P(E), P(ch)
        self.fits(h.R, h.C, h.E, h.ch)
        self.require(Le(h.R * h.C * h.E * h.ch, IMAX - 256))
        d = self.mkblk(name + '.data', h.R * h.C * h.ch * h.E, 'img', 'input:' + name, 64, content or h.dt)
        if signed:
            d.signed = dict(signed)
        h.data = self.reg(d)
        cells = {0: (4, 'i32', IV(h.R, 32)), 4: (4, 'i32', IV(h.C, 32)), 8: (4, 'i32', IV(h.dt, 32)),
                 12: (4, 'i32', IV(h.ch, 32)), 16: (4, 'i32', IV(h.E, 32)), 24: (8, 'ptr', PV.to(d))}
        m = self.mkblk(name, 32, 'img', 'input:' + name + '.hdr', 16)
        m.sub = [h.data]
        d.subof = m
        h.blk = self.reg(m, cells)
        h.p = PV.to(m)
        return h

    def cstr(self, s):
        b = self.mkblk('"%s"' % s, len(s) + 1, 'arg', 'undef', 1)
        self.reg(b, {i: (1, 'i8', IV(P(c), 8, 'u')) for i, c in enumerate(s.encode() + b'\0')})
        return PV.to(b)

    def infile(self, name, length, missing=False, content=None, cells=None):
        """a file of length bytes, which may be opened for reading (or does not exist)"""
        raw = None if missing else self.obj('file ' + name, length, content=content, cells=cells)
        f = files.GFile(name, raw, None, None, P(length), missing)
        self.files[name] = f
        return f

    def intext(self, name, items):
        """a text file: literal strings and (format, number)"""
        f = files.GFile(name, None, None, None, ZERO, False, files.lines_of(items))
        self.files[name] = f
        return f

    def innumbers(self, name, n, missing=False):
        """a text file of n numbers separated by white space: .nums is (object with the numbers as floats, n)"""
        b = self.obj('numbers of ' + name, P(n) * 4, content=4, align=4)
        f = files.GFile(name, None, None, None, ZERO, missing, None, (b, P(n)))
        self.files[name] = f
        return f

    def outfile(self, name):
        """a file that may be written"""
        mk = lambda x, n, c=None: self.reg(self.mkblk('%s of %s' % (x, name), P(n), 'arg', 'undef', 16), c)
        f = files.GFile(name, mk('contents', files.HUGE), mk('text', files.HUGE), mk('state', 24, {8 * i: (8, 'i64', IV(ZERO, 64)) for i in range(3)}))
        self.files[name] = f
        return f

    def int(self, v, w=32):
        return IV(P(v), w, 's')

    def flt(self, v):
        return FV(P(v), 32)

    def invariant(self, f):
        """candidate loop invariant f(v, v0) for integer variables v (v0 on entry) of loops without a closed form"""
        self.ex.hints.append(f)

    def variant(self, f):
        """a measure of such a variable that decreases and stays nonnegative"""
        self.ex.rank_hints.append(f)

    def witness(self, *ps):
        """positions at which the proof may look at one term of a sum of nonnegative terms"""
        solver.WITNESS.extend(P(p) for p in ps)

    def find(self, name):
        return self.prog.fn(name)

    def pure(self, name, lo, hi, *args):
        """the value of name(args) in the entry state: calls of `name` made by the code under verification must have these
        arguments and find the objects among them as at entry (its own contract, verified elsewhere: lo <= result <= hi, no effects)"""
        sym = Sym(name + '()', INT, lo, hi)

        def contract(ex, st, got, ins):
            self.same_call(ex, st, name, got, args)
            return [(st, IV(sym, 32))]
        self.ex.contracts[name] = contract
        return sym

    def same_call(self, ex, st, name, got, args):
        o = Out(self, st, None)
        for a, b in zip(got, args):
            if isinstance(b, PV):
                ex.oblige(st, veq(o, PV([(TRUE, x[1], x[2]) for x in ex.feasible_alts(st, a)]), b), 'pre', name + ' is called with the object of the contract')
                blk = b.alts[0][1]
                for x in [blk] + list(getattr(blk, 'sub', ())):
                    if x in self.init:
                        o.unchanged(x, '%s finds %s as at entry' % (name, x.name))
            else:
                ex.oblige(st, Eq(ex.as_s(st, a), b.p), 'pre', name + ' is called with the argument of the contract')

    def filled(self, name, n, *args):
        """the n numbers (double) that name(out, args) stores in the array it is given first, in the entry state; its own contract
        (verified elsewhere) is that it writes nothing else, and calls made by the code under verification must be as for pure()"""
        k = len(self.fills.setdefault(name, []))
        syms = [Sym('%s#%d[%d]' % (name, k, i), REAL) for i in range(n)]
        self.fills[name].append((args, syms))

        def contract(ex, st, got, ins):
            for args, syms in self.fills[name]:
                al = ex.feasible_alts(st, got[1])
                if any(x[1] is args[0].alts[0][1] for x in al) or (args, syms) is self.fills[name][-1]:
                    break
            self.same_call(ex, st, name, got[1:], args)
            for i, s in enumerate(syms):
                ex.store(st, PV([(g, b, o + 8 * i if b is not None else o) for g, b, o in got[0].alts]), FV(s, 64), DOUBLE)
            return [(st, None)]
        self.ex.contracts[name] = contract
        return syms

    def modular(self, *names):
        """calls of these functions are checked against their contracts (contracts/core.py, verified by cases of their own)"""
        from contracts import core
        for n in names:
            self.ex.contracts[n] = core.OPTIONAL[n]

    def inverse(self, name, m, f):
        """assumed contract of name(res, mat, m): given the m x m matrix (f(o, i, j)) in mat, it stores the inverse of it in res
        and overwrites mat.  Returns the inverse (an uninterpreted function of row and column)"""
        m = P(m)
        W = lambda k: App('inverse', [k], REAL)

        def contract(ex, st, got, ins):
            ex.oblige(st, Eq(ex.as_s(st, got[2]), m), 'pre', name + ' is given the size of the matrix')
            o = Out(self, st, None)
            (rb, ro), (mb, mo) = o.target(got[0], 'result of ' + name), o.target(got[1], 'argument of ' + name)
            for b, x in ((rb, ro), (mb, mo)):
                ex.oblige(st, And(Le(0, x), Le(x + m * m * 4, b.size)), 'pre', name + ': room for the matrix in %s' % b.name)
            q = o.fork()
            i, j = q.index('i', m), q.index('j', m)
            ex.oblige(q.st, Eq(q.rd(mb, mo + (i * m + j) * 4, 'f32'), f(q, i, j)), 'pre', name + ' is given the matrix of the contract')
            k = Sym('inv!k', INT, 0)
            for b, x, v in ((rb, ro, FV(W(k), 32)), (mb, mo, None)):
                n = Node('H', (), TRUE, x, m * m * 4) if v is None else Node('W', ((k, m * m, 0),), TRUE, x + k * 4, P(4), v, 'f32')
                ex.push_node(st, b, n)
            return [(st, None)]
        self.ex.contracts[name] = contract
        return lambda i, j: W(i * m + j)

    def call(self, name, *args, st=None):
        f, mod = self.prog.fn(name) if not name.startswith('~') else self.prog.fn_match(name[1:])
        st = (st or self.st).copy()
        if solver.sat(st.pc(), 4000) == 'unsat':
            raise Unsupported('vacuous: contradictory precondition')
        args = list(args)
        if len(args) != len(f.params):
            raise Unsupported('%s takes %d parameters, its contract %d' % (name, len(f.params), len(args)))
        outs = self.ex.call_fn(f, mod, args, st)
        fr = X.Frame(f, mod)
        self.ex.frames.append(fr)         # postconditions are reported against this function
        res = []
        for s, v in outs:
            s.env = {}
            if solver.sat(s.pc(), 2000) == 'unsat':
                continue
            self.covers += 1
            res.append(Out(self, s, v))
        if not res:
            self.ex.oblige(st, FALSE, 'returns', 'the function has a normal exit')
        return res


class Result:
    pass


def run_case(c, prog=None):
    t0 = time.time()
    r = Result()
    r.prop, r.name, r.targets, r.level = c.prop, c.name, list(c.targets), c.level
    r.err = None
    solver.STATS.update({k: (0.0 if isinstance(v, float) else 0) for k, v in solver.STATS.items()})
    try:
        if prog is None:
            prog = frontend.load(c.files, c.extra)
    except frontend.CompileError as e:
        r.err = ('compile', str(e))
        r.obls, r.notes, r.models = [], [], []
        r.time = time.time() - t0
        return r
    from contracts import core as K
    del solver.WITNESS[:]
    cx = CX(prog, K.CONTRACTS)
    for t in c.targets:
        cx.ex.contracts.pop(t, None)
    try:
        c.fn(cx)
    except Unsupported as e:
        r.err = ('unsupported', '%s (near line %s of %s)' % (e, cx.ex.cur_line, cx.ex.frames[-1].fn.name if cx.ex.frames else '?'))
    except Stop:
        pass
    except KeyError as e:
        r.err = ('missing', 'function or object not found: %s' % e)
        r.tb = traceback.format_exc()
    except RecursionError:
        r.err = ('unsupported', 'recursion limit')
    except Exception as e:
        r.err = ('error', '%s: %s' % (type(e).__name__, e))
        r.tb = traceback.format_exc()
    ex = cx.ex
    r.obls = [(o.name(), o.ok, o.kind, o.fn, o.line) for o in ex.obls]
    r.failed = []
    r.models = []
    for o in ex.obls:
        if not o.ok:
            m = None
            if len(r.models) < 6:
                try:
                    m = solver.find_model(o.facts, Not(o.goal), cx.dims, small=[d for d in cx.dims if d.sort == INT])
                except Exception:
                    m = None
                if m:
                    r.models.append(m)
            r.failed.append({'obligation': o.name(), 'goal': show_b(o.goal)[:int(os.environ.get('GOALLEN', 1500))], 'model': m})
    r.notes = list(ex.notes)
    r.trivial = cx.trivial_posts
    r.covers = cx.covers
    r.contracts = sorted(ex.used_contracts)
    r.inlined = sorted(ex.inlined)
    r.trusted = sorted(ex.trusted)
    r.stats = dict(solver.STATS)
    r.time = time.time() - t0
    return r
