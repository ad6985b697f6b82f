"""Symbolic executor / verification-condition generator over the extracted IR.

Straight-line code is executed symbolically; joins inside loops are merged; each loop is replaced by
an inductive summary: closed forms of induction variables, the trip count, and quantified write sets,
all of which are *checked* inductive on an arbitrary iteration (light passes only guess them).
Every memory access, signed operation, division, cast and call precondition yields an obligation.
"""
import itertools
from . import llparse as ll
from . import cfg as CFG
from . import solver
from .terms import *
from .terms import ATOMS
from .mem import *
from . import mem as M

UNROLL = 40
MAXSTATES = 48


class Obl:
    __slots__ = ('fn', 'file', 'line', 'kind', 'desc', 'ok', 'facts', 'goal', 'prop')

    def name(self):
        return '%s:%s:%s:%s' % (self.fn, self.line, self.kind, self.desc)


class Stop(Exception):
    """analysis budget exhausted"""


def tag_of(ty):
    if ty.k == 'int':
        return 'i%d' % max(8, ty.w)
    if ty.k == 'float':
        return 'f32'
    if ty.k == 'double':
        return 'f64'
    if ty.k == 'ptr':
        return 'ptr'
    return 'agg%d' % ty.size()


def tag_size(t):
    return {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8, 'ptr': 8}.get(t) or int(t[3:])


def irange(w, s):
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s == 's' else (0, (1 << w) - 1)


LM_FACTS = {}
LM_KEYS = {}
_orig_side = solver.side_facts


def _side(a):
    r = _orig_side(a)
    x = LM_FACTS.get(a.id)
    if x:
        r = r + x
    if a.kind == 'sum':
        d, T, body = a.data
        l, h = prange(body)
        p = P(a)
        ex = []
        Tp = Ite(Lt(T, 0), 0, T) if prange(T)[0] is None or prange(T)[0] < 0 else T
        if l is not None:
            ex.append(Le0(Tp * l - p))
        if h is not None:
            ex.append(Le0(p - Tp * h))
        r = r + ex
    return r


solver.side_facts = _side


class LPRef:
    __slots__ = ('lp', 'n')

    def __init__(self, lp, n):
        self.lp, self.n = lp, n

    def subst_ref(self, S):
        q = S.poly(self.n)
        return self if q is self.n else LPRef(self.lp, q)


class LPInfo:
    def __init__(self, loopid, blk, nsym, foot, args):
        self.loopid, self.blk, self.nsym, self.foot, self.args = loopid, blk, nsym, foot, args
        self.bounds = None


class Frame:
    def __init__(self, fn, mod):
        self.fn, self.mod = fn, mod
        self.cfg = CFG.analyse(fn)
        self.allocas = []
        self.varargs = False


class Exec:
    def __init__(self, prog, contracts=None, budget=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.light = 0
        self.contents = {}
        self.loopstack = []
        self.inloop = 0
        self.obls = []
        self.notes = []
        self.frames = []
        self.globals = {}
        self._n = 0
        self._ln = 0
        self.path = ()
        self._paths = {}
        self._lids = {}
        self._blks = {}
        self._flip = {}
        self.cur_line = 0
        self.depth = 0
        self.used_contracts = set()
        self.inlined = set()
        self.prop = None
        self.hints = []
        self.rank_hints = []
        self.trusted = set()
        self.loops_done = []
        self.leak_check = False
        self.noub = False
        self.wrap = False         # integer arithmetic modulo 2^w (no overflow obligations)
        self.unroll = UNROLL

    # ------------------------------------------------------------------ helpers
    def cnt(self):
        """serial numbers of opaque symbols; rewound when an attempt at a loop summary is discarded, so that the symbols
        of the next attempt coincide (and the proof cache applies)"""
        if self.light:
            self._ln += 1
            return 'l%d' % self._ln
        self._n += 1
        return '%d' % self._n

    def pathid(self):
        return self._paths.setdefault(self.path, len(self._paths))

    def loop_id(self, L, st):
        return self._lids.setdefault((self.path, id(L.header), L.header, st.br, tuple(self.loopstack)), len(self._lids) + 1)

    def newblk(self, name, size, kind, base='undef', align=1, key=None):
        """the object created at this program point on this call path"""
        k = (self.path, key, name, P(size), kind, base, tuple(self.loopstack)) if not self.light else None
        b = self._blks.get(k) if k else None
        if b is None:
            b = Blk(name, size, kind, base, align)
            b.args = tuple(self.loopstack)
            if k:
                self._blks[k] = b
        return b

    def note(self, s):
        if not self.light and s not in self.notes:
            self.notes.append(s)

    def prove(self, st, goal, nia=True):
        if goal is TRUE:
            return True
        if goal is FALSE and not st.pc():
            return False
        return solver.prove(st.pc(), goal, nia=nia)

    def oblige(self, st, goal, kind, desc=''):
        if self.light or goal is TRUE:
            return True
        if self.noub and kind not in ('pre', 'post', 'lemma'):
            return True
        o = Obl()
        f = self.frames[-1].fn if self.frames else None
        o.fn = f.name.lstrip('@') if f else '?'
        o.file = f.file if f else None
        o.line = self.cur_line
        o.kind, o.desc, o.goal = kind, desc, goal
        o.facts = st.pc()
        o.ok = self.prove(st, goal)
        self.obls.append(o)
        st.assume(goal)
        return o.ok

    def opaque_app(self, name, sort=INT, lo=None, hi=None):
        return App('%s!%s' % (name, self.cnt()), list(self.loopstack), sort, lo, hi)

    def opaque(self, tag, name='op'):
        return self.mkval(tag, lambda sort, lo, hi: self.opaque_app(name, sort, lo, hi))

    def mkval(self, tag, mk, sgn=None, lohi=None):
        if tag[0] == 'i':
            w = int(tag[1:])
            s = (sgn if sgn != 'm' else None) or ('u' if w == 8 else 's')
            lo, hi = irange(w, s)
            if lohi:
                lo, hi = max(lo, lohi[0]), min(hi, lohi[1])
            return IV(mk(INT, lo, hi), w, s)
        if tag in ('f32', 'f64'):
            lo, hi = lohi if lohi else (None, None)
            return FV(mk(REAL, lo, hi), 32 if tag == 'f32' else 64)
        if tag == 'ptr':
            return PV([(TRUE, WILD, mk(INT, None, None))])
        return UNDEF

    # signed / unsigned views ------------------------------------------------
    def as_s(self, st, v):
        if v.s == 's':
            return v.p
        m = 1 << (v.w - 1)
        lo, hi = prange(v.p)
        if v.s == 'm':
            if lo is not None and hi is not None and -m <= lo and hi < m:
                return v.p
            q = Mod(v.p, 2 * m)
            return Ite(Lt(q, m), q, q - 2 * m)
        if hi is not None and hi < m:
            return v.p
        if self.light or self.prove(st, Lt(v.p, m)):
            return v.p
        return Ite(Lt(v.p, m), v.p, v.p - 2 * m)

    def as_u(self, st, v):
        if v.s == 'u':
            return v.p
        if v.s == 'm':
            return Mod(v.p, 1 << v.w)
        lo, hi = prange(v.p)
        if lo is not None and lo >= 0:
            return v.p
        if self.light or self.prove(st, Le(0, v.p)):
            return v.p
        if hi is not None and hi < 0:
            return v.p + (1 << v.w)
        return Ite(Le(0, v.p), v.p, v.p + (1 << v.w))

    def fit(self, st, r, w, prefer='u'):
        """r is congruent to the value mod 2^w; choose a representation"""
        lo, hi = prange(r)
        ul, uh = irange(w, 'u')
        sl, sh = irange(w, 's')
        order = ('u', 's') if prefer == 'u' else ('s', 'u')
        if self.wrap:
            order = order[:1]
        for s in order:
            l, h = irange(w, s)
            if lo is not None and hi is not None and l <= lo and hi <= h:
                return IV(r, w, s)
        if self.light:
            return IV(r, w, prefer)
        for s in order:
            l, h = irange(w, s)
            if self.prove(st, And(Le(l, r), Le(r, h))):
                return IV(r, w, s)
        if self.wrap:
            return IV(r, w, 'm')
        return IV(Mod(r, 1 << w), w, 'u')

    # ------------------------------------------------------------------ constants / operands
    def global_blk(self, name, mod):
        key = (id(mod), name)
        b = self.globals.get(key)
        if b is None:
            g = mod.globals.get(name)
            if g is None or g.init is None:
                for m2 in self.prog.mods:
                    g2 = m2.globals.get(name)
                    if g2 is not None and g2.init is not None:
                        g = g2
                        break
            if g is None:
                b = Blk(name.strip('@'), 1 << 20, 'global', 'undef')
            else:
                fixed = g.const or (g.internal and g.init is not None and mod.globals.get(name) is g and ll.never_written(mod, name))
                b = Blk(name.strip('@'), g.ty.size(), 'global', 'const' if fixed else 'undef', align=8)
                b.init = g
                if not fixed:
                    b.base = 'input:' + name.strip('@')
            self.globals[key] = b
        return b

    def operand(self, st, v, mod):
        k = v.k
        if k == 'local':
            r = st.env.get(v.v)
            if r is None:
                return self.undef_of(v.ty)
            return r
        if k == 'int':
            if v.ty.k == 'int' and v.ty.w == 1:
                return BV(TRUE if v.v else FALSE)
            return IV(P(v.v), v.ty.w, 's')
        if k == 'fp':
            if isinstance(v.v, tuple):
                raise Unsupported('long double')
            import math
            if math.isinf(v.v) or math.isnan(v.v):
                return FV(Sym('fpspecial!%r' % v.v, REAL), 64)
            return FV(P(Fraction(v.v)), 32 if v.ty.k == 'float' else 64)
        if k == 'null':
            return NULL
        if k == 'global':
            if v.v in mod.functions and v.v not in mod.globals:
                return FnV(v.v)
            return PV.to(self.global_blk(v.v, mod))
        if k == 'undef':
            return self.undef_of(v.ty)
        if k == 'zero':
            if v.ty.k == 'ptr':
                return NULL
            if v.ty.k in ('float', 'double'):
                return FV(ZERO)
            if v.ty.k == 'vec':
                z = FV(ZERO) if v.ty.el.k in ('float', 'double') else IV(ZERO, v.ty.el.w)
                return AggV([z] * v.ty.n)
            if v.ty.k == 'int':
                return IV(ZERO, v.ty.w)
            raise Unsupported('zeroinitializer operand')
        if k == 'agg':
            return AggV([self.operand(st, x, mod) for x in v.x])
        if k == 'gep':
            base = self.operand(st, v.x[0], mod)
            off = self.gep_off(st, v.v, v.x[1:], mod)
            return PV([(g, b, o + off) for g, b, o in base.alts])
        if k == 'cast':
            return self.cast(st, v.v, self.operand(st, v.x[0], mod), v.x[0].ty, v.ty)
        raise Unsupported('operand ' + k)

    def undef_of(self, ty):
        if ty.k == 'int' and ty.w == 1:
            return BV(BApp('undefb!%s' % self.cnt(), list(self.loopstack)))
        if ty.k == 'vec':
            return AggV([None] * ty.n)
        if ty.k == 'struct':
            return AggV([None] * len(ty.fields))
        return self.opaque(tag_of(ty), 'undef')

    def gep_off(self, st, sty, idx, mod):
        off = ZERO
        ty = sty
        first = True
        for a in idx:
            v = self.operand(st, a, mod)
            if not isinstance(v, IV):
                raise Unsupported('gep index')
            if first:
                off = off + self.as_s(st, v) * ty.size()
                first = False
                continue
            if ty.k == 'struct':
                i = v.p.const()
                off = off + ty.offs()[i]
                ty = ty.fields[i]
            elif ty.k in ('arr', 'vec'):
                ty = ty.el
                off = off + self.as_s(st, v) * ty.size()
            else:
                raise Unsupported('gep into %r' % ty)
        return off

    # ------------------------------------------------------------------ memory
    def feasible_alts(self, st, pv):
        if len(pv.alts) == 1:
            return pv.alts
        out = []
        for g, b, o in pv.alts:
            if not self.light and self.prove(st, Not(g), nia=False):
                continue
            out.append((g, b, o))
        if len(out) == 1:
            return [(TRUE, out[0][1], out[0][2])]
        return out

    def access(self, st, pv, size, what):
        """obligations for an access; returns feasible (guard, blk, off) alternatives"""
        if not isinstance(pv, PV):
            raise Unsupported('access through %r' % (pv,))
        out = []
        for g, b, o in self.feasible_alts(st, pv):
            if b is None:
                self.oblige(st, Not(g), 'nonnull', what + ' through NULL')
                continue
            if b is WILD:
                self.oblige(st, Not(g), 'valid-pointer', what + ' through an unknown pointer')
                continue
            goal = And(Le(0, o), Le(o + size, b.size))
            if goal is not TRUE:
                self.oblige(st, Implies(g, goal), 'bounds', '%s of %s' % (what, b.name))
            fr = st.bs(b).freed
            if fr is not FALSE:
                self.oblige(st, Implies(g, Not(fr)), 'use-after-free', '%s of %s' % (what, b.name))
            out.append((g, b, o))
        return out

    def load(self, st, pv, ty):
        tag = tag_of(ty)
        size = ty.size()
        alts = self.access(st, pv, size, 'read')
        if not alts:
            return self.undef_of(ty)
        res = None
        for g, b, o in reversed(alts):
            v = self.read(st, b, o, tag, size)
            if v is UNDEF:
                v = self.undef_of(ty)
            res = v if res is None else merge_val(g, v, res)
        if ty.k == 'int' and ty.w == 1 and isinstance(res, IV):
            return BV(Ne(res.p, 0))
        return res

    def store(self, st, pv, v, ty):
        tag = tag_of(ty)
        size = ty.size()
        if isinstance(v, BV):
            v = IV(Ite(v.b, 1, 0), 8, 'u')
        alts = self.access(st, pv, size, 'write')
        for g, b, o in alts:
            if b in self.contents and len(alts) == 1:
                v = self.content(st, b, o, tag, v)
            if len(alts) == 1 and g is TRUE or len(alts) == 1:
                self.write(st, b, o, size, tag, v)
            else:
                old = self.read(st, b, o, tag, size)
                self.write(st, b, o, size, tag, v if old is UNDEF else merge_val(g, v, old))

    def content(self, st, b, o, tag, v):
        """a store to an object whose contents are specified: the value stored is the specified one"""
        t, cols, f = self.contents[b]
        c = cols.as_atom().id
        q, r = pdivmod(o, P(4))
        i = self.lin_coef(q, c)
        if t != tag or t != 'i32' or r.t or i is None or not isinstance(v, IV):
            raise Unsupported('store to an object with specified contents')
        j = subst(q, {c: ZERO})
        if not self.light:
            self.oblige(st, And(Le(0, j), Lt(j, cols)), 'content', 'the place written is an element of the table')
            self.oblige(st, Eq(self.as_s(st, v), f(i, j)), 'content', 'the value stored is the specified one')
        return IV(f(i, j), v.w, 's')

    def place(self, b, off):
        """row and column of an offset of a table"""
        t, cols, f = self.contents[b]
        q, r = pdivmod(off, P(4))
        i = self.lin_coef(q, cols.as_atom().id)
        return None if r.t or i is None else (i, subst(q, {cols.as_atom().id: ZERO}))

    def rd_specified(self, facts, b, chain, i, r, tag, size):
        """an element of a table with specified contents that was surely written has the specified value: which of the
        stores wrote it last does not matter"""
        t, cols, f = self.contents[b]
        pl = self.place(b, r)
        if pl is None or tag != t or self.light:
            return None
        some = []
        while i >= 0:
            nd = chain[i]
            i -= 1
            if nd.kind == 'LP':
                if nd.lp.lp.loopid is None:
                    break
                for x in nd.lp.lp.foot:
                    m = Sym('past?' + nd.lp.lp.nsym.as_atom().data, INT, 0)
                    g = x.subst(Subst({nd.lp.lp.nsym.as_atom().id: m}))
                    if not self.wrote(b, g.copy(binders=((m, nd.lp.n, 0),) + g.binders), pl, some):
                        i = -1
            elif not self.wrote(b, nd, pl, some):
                break
        if not some:
            return None
        if solver.prove(facts, And(Le(0, pl[1]), Lt(pl[1], cols), Or(*some))):
            return IV(f(*pl), 8 * size, 's')
        return None

    def wrote(self, b, nd, pl, out):
        """adds a condition under which the store wrote the element; False if it is not a store of specified contents"""
        t, cols, f = self.contents[b]
        at = self.place(b, nd.off) if nd.kind == 'W' else None
        if at is None or nd.tag != t or not isinstance(nd.val, IV) or nd.val.p is not f(*at):
            return False
        m, cs = {}, []
        eqs = {}
        for g in solver._conj([nd.guard]):
            if g.op == 'eq' and len([x for x in g.a.t if x]) == 1:
                for x in g.a.atoms():
                    if ATOMS[x].kind == 'sym' and abs(g.a.t.get((x,), 0)) == 1:
                        eqs[x] = P(-g.a.t.get((), 0) * g.a.t[(x,)])
        todo = {s.as_atom().id for s, _, _ in nd.binders}
        for x in list(todo):
            if x in eqs:
                m[x] = eqs[x]
                todo.discard(x)
        S = Subst(m)
        oi, oj = S.poly(at[0]), S.poly(at[1])
        for o, w in ((oi, pl[0]), (oj, pl[1])):
            for x in list(todo):
                c = o.t.get((x,))
                if c in (1, -1) and not any(y in pfree(o - P(ATOMS[x]) * c) for y in todo):
                    m[x] = (w - (o - P(ATOMS[x]) * c)) * c
                    todo.discard(x)
                    break
        for x in todo:
            m[x] = ZERO
        ws = [m[s.as_atom().id] for s, _, _ in nd.binders]
        S, inr = nd.at(ws)
        out.append(And(inr, Eq(S.poly(at[0]), pl[0]), Eq(S.poly(at[1]), pl[1])))
        return True

    def write(self, st, b, o, size, tag, v):
        bs = st.bs(b)
        oc = o.const()
        if oc is not None:
            cells = dict(bs.cells)
            old = cells.get(oc)
            if old is None or old[0] != size:
                ov = [k for k, (z, t, _) in cells.items() if k < oc + size and oc < k + z and k != oc]
                if old is not None:
                    ov.append(oc)
                if ov:
                    chain = bs.chain
                    for k in sorted(ov):
                        z, t, x = cells.pop(k)
                        chain = chain + (Node('W', (), TRUE, P(k), P(z), x, t),)
                    bs = BS(cells, chain, bs.freed)
            cells[oc] = (size, tag, v)
            st.mem[b] = BS(cells, bs.chain, bs.freed)
            return
        self.push_node(st, b, Node('W', (), TRUE, o, P(size), v, tag))

    def push_node(self, st, b, node):
        bs = st.bs(b)
        cells, chain = bs.cells, bs.chain
        if cells:
            cells, chain = self.flush_cells(st, b, bs, node)
        st.mem[b] = BS(cells, chain + (node,), bs.freed)

    def flush_cells(self, st, b, bs, node):
        oc, zc = node.off.const(), node.size.const()
        keep, gone = {}, []
        ends = None
        for k, (z, t, x) in bs.cells.items():
            if oc is not None and zc is not None:
                dis = k + z <= oc or oc + zc <= k
            else:
                dis = None
            if dis:
                keep[k] = (z, t, x)
            else:
                gone.append(k)
        if gone and oc is None:
            mx = max(k + bs.cells[k][0] for k in gone)
            lo, _ = prange(node.off)
            if (lo is not None and lo >= mx) or (self.light and b.kind == 'heap') or \
                    (not self.light and self.prove(st, Le(mx, node.off))):
                for k in gone:
                    keep[k] = bs.cells[k]
                gone = []
        chain = bs.chain
        for k in sorted(gone):
            z, t, x = bs.cells[k]
            chain = chain + (Node('W', (), TRUE, P(k), P(z), x, t),)
        return keep, chain

    def flush_all(self, st, b):
        bs = st.bs(b)
        if bs.cells:
            chain = bs.chain
            for k in sorted(bs.cells):
                z, t, x = bs.cells[k]
                chain = chain + (Node('W', (), TRUE, P(k), P(z), x, t),)
            st.mem[b] = BS({}, chain, bs.freed)

    def read(self, st, b, o, tag, size):
        bs = st.bs(b)
        oc = o.const()
        if oc is not None and bs.cells:
            c = bs.cells.get(oc)
            if c is not None and c[0] == size:
                return self.retag(c[2], c[1], tag, st)
            if not any(k < oc + size and oc < k + z for k, (z, t, x) in bs.cells.items()):
                return self.rd(st.pc(), b, bs.chain, len(bs.chain) - 1, o, tag, size)
        chain = bs.chain
        if bs.cells:
            chain = chain + tuple(Node('W', (), TRUE, P(k), P(z), x, t) for k, (z, t, x) in sorted(bs.cells.items()))
        return self.rd(st.pc(), b, chain, len(chain) - 1, o, tag, size)

    def read_snap(self, facts, b, bs, o, tag, size):
        st = State()
        st.facts = tuple(facts)
        st.mem[b] = bs
        return self.read(st, b, o, tag, size)

    def retag(self, v, t, tag, st=None):
        if t == tag or v is UNDEF:
            return v
        if t[0] == 'i' and tag[0] == 'i' and t == tag:
            return v
        if tag == 'ptr' and isinstance(v, (PV, FnV)):
            return v
        if tag == 'ptr' and isinstance(v, IV):
            return self.cast(st or State(), 'inttoptr', v, ll.I64, ll.PTR)
        if t == 'ptr' and tag == 'i64' and isinstance(v, PV):
            return self.cast(st or State(), 'ptrtoint', v, ll.PTR, ll.I64)
        return self.opaque(tag, 'retag')

    def base_read(self, b, o, tag, size):
        base = b.base
        if base == 'zero':
            if tag[0] == 'i':
                return IV(ZERO, int(tag[1:]), 's')
            if tag[0] == 'f':
                return FV(ZERO)
            if tag == 'ptr':
                return NULL
            return UNDEF
        if base == 'const':
            return self.const_read(b, o, tag, size)
        if tag.startswith('agg'):
            return UNDEF
        if base == 'undef':
            return self.mkval(tag, lambda s, l, h: App('undef#%d:%s' % (b.id, tag), [o] + list(b.args), s, l, h))
        nm = base.split(':', 1)[1]
        w = tag_size(tag)
        return self.mkval(tag, lambda s, l, h: App('%s:%s' % (nm, tag), [o] + list(b.args), s, l, h),
                          b.signed.get(w) if tag[0] == 'i' else None, b.lohi.get(tag))

    def flatten_const(self, v, ty, out, off):
        k = v.k
        if k == 'zero':
            out.append((off, ty.size(), 'zero', None))
        elif k == 'int':
            out.append((off, ty.size(), 'int', v.v))
        elif k == 'fp':
            out.append((off, ty.size(), 'fp', v.v))
        elif k == 'str':
            out.append((off, len(v.v), 'str', v.v))
        elif k == 'agg':
            if ty.k == 'struct':
                for f, fo, x in zip(ty.fields, ty.offs(), v.x):
                    self.flatten_const(x, f, out, off + fo)
            else:
                for i, x in enumerate(v.x):
                    self.flatten_const(x, ty.el, out, off + i * ty.el.size())
        elif k == 'null':
            out.append((off, 8, 'zero', None))
        else:
            out.append((off, ty.size(), 'other', v))

    def const_read(self, b, o, tag, size):
        g = b.init
        if not hasattr(g, 'flat'):
            out = []
            self.flatten_const(g.init, g.ty, out, 0)
            g.flat = out
            g.bystart = {x[0]: x for x in out}
        oc = o.const()

        def at(oc):
            e = g.bystart.get(oc)
            if e is not None and e[1] == size and e[2] in ('int', 'fp'):
                if e[2] == 'int':
                    return IV(P(e[3]), 8 * size, 's')
                return FV(P(Fraction(e[3])))
            if e is not None and tag == 'ptr' and e[2] == 'other' and e[3].k == 'global':
                for m in self.prog.mods:
                    if m.globals.get(b.init.name) is g and e[3].v in m.globals:
                        return PV.to(self.global_blk(e[3].v, m))
            for s, z, k, x in g.flat:
                if s <= oc and oc + size <= s + z:
                    if k == 'zero':
                        return IV(ZERO, 8 * size) if tag[0] == 'i' else (FV(ZERO) if tag[0] == 'f' else NULL)
                    if k == 'str' and tag[0] == 'i':
                        return IV(P(int.from_bytes(x[oc - s:oc - s + size], 'little')), 8 * size, 'u')
                    if k == 'int' and tag[0] == 'i':
                        x2 = x & ((1 << (8 * z)) - 1)
                        return IV(P((x2 >> (8 * (oc - s))) & ((1 << (8 * size)) - 1)), 8 * size, 'u')
                    return self.opaque(tag, 'const')
            return self.opaque(tag, 'const')
        if oc is not None:
            return at(oc)
        vals = [x[3] for x in g.flat if x[2] in ('int', 'fp') and x[1] == size]
        if len(vals) * size == b.size.const() and vals:
            lo, hi = min(vals), max(vals)
            if len(vals) <= 64 and not self.light:
                # small tables: explicit case table
                q, r = pdivmod(o, P(size))
                if not r.t:
                    cur = P(Fraction(vals[-1])) if tag[0] == 'f' else P(vals[-1])
                    for i in range(len(vals) - 2, -1, -1):
                        cur = Ite(Eq(q, i), P(Fraction(vals[i])) if tag[0] == 'f' else P(vals[i]), cur)
                    return IV(cur, 8 * size, 's') if tag[0] == 'i' else FV(cur)
            q, r = pdivmod(o, P(size))
            if not r.t:
                v = Tab(vals, q)
                return IV(v, 8 * size, 's') if tag[0] == 'i' else FV(v)
        return self.opaque(tag, 'const')

    # -- reading through the write chain ------------------------------------------------------
    def rd(self, facts, b, chain, i, r, tag, size, pending=()):
        """value of the cell [r, r+size) of block b, through chain[0..i] (newest last)."""
        sz = P(size)
        if b in self.contents:
            v = self.rd_specified(facts, b, chain, i, r, tag, size)
            if v is not None:
                return v
        while i >= 0:
            nd = chain[i]
            k = nd.kind
            if k == 'LP':
                res = self.rd_lp(facts, b, chain, i, r, tag, size, nd)
                if res is not None:
                    return res
                i -= 1
                continue
            if not nd.binders and nd.guard is TRUE:
                d = (r - nd.off).const()
                zc = nd.size.const()
                if d is not None and zc is not None and (d >= zc or d + size <= 0):
                    i -= 1
                    continue
            if self.light:
                if k == 'W' and not nd.binders and nd.guard is TRUE and nd.off is r and nd.size is sz:
                    return self.retag(nd.val, nd.tag, tag)
                # a cheap guess only
                if k == 'W' and nd.off is not r and not (nd.binders and b.base == 'zero'):
                    i -= 1
                    continue
                if k == 'Z' and not nd.binders and nd.guard is TRUE and nd.val.const() == 0:
                    lo, hi = (r - nd.off).const(), nd.size.const()
                    if lo is not None and hi is not None and 0 <= lo and lo + size <= hi:
                        return IV(ZERO, 8 * size) if tag[0] == 'i' else (FV(ZERO) if tag[0] == 'f' else NULL)
                return self.opaque(tag, 'lt')
            o, fx, ms = nd.opened()
            fs = facts + fx + ([o.guard] if o.guard is not TRUE else [])
            overlap = And(Lt(o.off, r + sz), Lt(r, o.off + o.size))
            if overlap is FALSE or solver.prove(fs, Not(overlap)):
                i -= 1
                continue
            if k == 'H':
                return self.opaque(tag, 'havoc')
            if k == 'A':
                return self.rd_acc(facts, b, chain, i, r, tag, size, nd)
            nd0, flips = nd, None
            fl = self.flipped(nd) if nd.binders else None
            if fl is not None:
                nd, flips = fl
                o, fx, ms = nd.opened()
                fs = facts + fx + ([o.guard] if o.guard is not TRUE else [])
                overlap = And(Lt(o.off, r + sz), Lt(r, o.off + o.size))
            split = None
            if k == 'W' and tag == 'i8' and size == 1 and nd.size is not sz and nd.size.const() is not None:
                split = self.byte_of(nd.val, nd.size.const())
            rw = r
            if nd.guard is not TRUE:
                eqs = {}
                for g in solver._conj([nd.guard]):
                    if g.op == 'eq' and len(g.a.t) <= 2:
                        q = g.a
                        at = [m for m in q.t if m]
                        if len(at) == 1 and len(at[0]) == 1 and abs(q.t[at[0]]) == 1 and ATOMS[at[0][0]].kind == 'sym':
                            eqs[at[0][0]] = P(-q.t.get((), 0) * q.t[at[0]])
                if eqs:
                    rw = subst(r, eqs)
            if k in ('C', 'Z') or split is not None:
                ws_list = self.witness(nd.binders, nd.off, r, span=nd.size)
            else:
                ws_list = self.witness(nd.binders, nd.off, r)
            if rw is not r:
                w2 = self.witness(nd.binders, nd.off, rw)
                ws_list = ws_list[:-1] + w2[:-1] + ws_list[-1:] + w2[-1:]
            done = False
            for ws in ws_list:
                S, inr = nd.at(ws)
                woff, wsize = S.poly(nd.off), S.poly(nd.size)
                # uniqueness: any binding that overlaps is ws
                uniq = True
                if nd.binders:
                    det = self.determined(nd)
                    if det is None:
                        uniq = False
                    else:
                        uniq = self.unique(fs + [overlap], [(ms[j], ws[j]) for j in det], nd)
                if not uniq:
                    continue
                if split is not None:
                    C = And(inr, Le(woff, r), Lt(r, woff + wsize))
                    getv = lambda S=S, woff=woff: split(S, r - woff)
                elif k == 'W':
                    C = And(inr, Eq(woff, r))
                    if wsize is not sz:
                        # differently sized overlapping write
                        if solver.prove(facts + [inr, And(Lt(woff, r + sz), Lt(r, woff + wsize))], FALSE):
                            i -= 1
                            done = True
                            break
                        d = (r - woff).const()
                        if d is not None and tag[0] == 'i' and isinstance(nd.val, IV) and not nd.binders and \
                                nd.guard is TRUE and 0 <= d <= wsize.const() - size and nd.val.w <= 8 * wsize.const():
                            # some bytes of a wider integer
                            pt = (nd.val.parts or {}).get(d)
                            if pt is not None and pt.w == 8 * size:
                                return pt
                            return IV(Mod(FDiv(self.as_u(State(), nd.val), P(256 ** d)), P(256 ** size)), 8 * size, 'u')
                        return self.opaque(tag, 'mixed')
                    part = And(Lt(woff, r + sz), Lt(r, woff + wsize))
                    if not solver.prove(facts + [inr, part], Eq(woff, r)):
                        return self.opaque(tag, 'partial')
                    getv = lambda S=S, nd=nd: self.retag(nd.val.subst(S), nd.tag, tag)
                else:
                    contain = And(Le(woff, r), Le(r + sz, woff + wsize))
                    part = And(Lt(woff, r + sz), Lt(r, woff + wsize))
                    if not solver.prove(facts + [inr, part], contain):
                        return self.opaque(tag, 'partial')
                    C = And(inr, contain)
                    if k == 'Z':
                        if nd.val.const() == 0:
                            getv = lambda: IV(ZERO, 8 * size) if tag[0] == 'i' else (FV(ZERO) if tag[0] == 'f' else NULL)
                        elif tag == 'i8':
                            getv = lambda: IV(nd.val, 8, 'u')
                        elif nd.val.const() == 255 and tag[0] == 'i':
                            getv = lambda: IV(P(-1), 8 * size, 's')
                        else:
                            getv = lambda: self.opaque(tag, 'memset')
                    else:
                        def getv(S=S, nd=nd, woff=woff, C=C):
                            sb, snap = nd.src[0], nd.src[1].subst(S)
                            so = S.poly(nd.srcoff) + (r - woff)
                            return self.read_snap(facts + [C], sb, snap, so, tag, size)
                # ordering against newer sibling hits
                wo = ws
                if flips is not None:
                    wo, sub = [], {}
                    for (sy, t, l), w, f in zip(nd.binders, ws, flips):
                        if sub:
                            t = subst(t, sub)
                        wo.append(t - 1 - w if f else w)
                        sub[sy.as_atom().id] = w
                for (nj, wj, Cj) in pending:
                    p = 0
                    while p < len(nj.binders) and p < len(nd.binders) and nj.binders[p][2] == nd.binders[p][2]:
                        p += 1
                    if p and wj is None:
                        if not solver.prove(facts + [C, Cj], FALSE):
                            return self.opaque(tag, 'order')
                    elif p:
                        later = self.lex_gt(wo[:p], wj[:p])
                        if not solver.prove(facts + [C, Cj], Not(later)):
                            return self.opaque(tag, 'order')
                if solver.prove(facts, C):
                    return getv()
                v = getv()
                old = self.rd(facts + [Not(C)], b, chain, i - 1, r, tag, size, pending + ((nd0, wo, C),))
                if v is UNDEF or old is UNDEF:
                    return self.opaque(tag, 'undefmix')
                return merge_val(C, v, old)
            if done:
                continue
            v = self.rd_any(facts, b, chain, i, r, tag, sz, nd, pending)
            if v is not None:
                return v
            self.note('read not resolved: %s at %s' % (nd, show(r)))
            return self.opaque(tag, 'unres')
        return self.base_read(b, r, tag, size)

    def rd_any(self, facts, b, chain, i, r, tag, sz, nd, pending):
        """a cell that several iterations of one of the loops may write, all of them the same value: written when the
        number of iterations that do is not zero"""
        if nd.kind != 'W' or not nd.binders or nd.size is not sz or not isinstance(nd.val, (IV, FV)):
            return None
        ids = {s.as_atom().id for s, _, _ in nd.binders}
        if ids & pfree(nd.val.p):
            return None
        for m, (s0, t0, _) in enumerate(nd.binders):
            if m and ids & pfree(t0):
                continue
            v = self.rd_any1(facts, b, chain, i, r, tag, sz, nd, pending, m)
            if v is not None:
                return v
        return None

    def rd_any1(self, facts, b, chain, i, r, tag, sz, nd, pending, m):
        s0, t0, _ = nd.binders[m]
        v = Sym('any' + self.cnt(), INT, 0)
        n2 = nd.copy(binders=())
        S0 = Subst({s0.as_atom().id: v})
        n2 = n2.subst(S0).copy(binders=tuple((s, S0.poly(t), l) for s, t, l in nd.binders[:m] + nd.binders[m + 1:]))
        o, fx, ms = n2.opened()
        inv = [Le(0, v), Lt(v, t0)]
        fs = facts + inv + fx + ([o.guard] if o.guard is not TRUE else [])
        overlap = And(Lt(o.off, r + sz), Lt(r, o.off + o.size))
        for ws in self.witness(n2.binders, n2.off, r):
            S, inr = n2.at(ws)
            if n2.binders:
                det = self.determined(n2)
                if det is None or not self.unique(fs + [overlap], [(ms[j], ws[j]) for j in det], n2):
                    continue
            woff, wsize = S.poly(n2.off), S.poly(n2.size)
            part = And(Lt(woff, r + sz), Lt(r, woff + wsize))
            if not solver.prove(facts + inv + [inr, part], Eq(woff, r)):
                return None
            C = And(inr, Eq(woff, r))
            for (nj, wj, Cj) in pending:
                if nj.binders and nj.binders[0][2] == nd.binders[0][2] and not solver.prove(facts + inv + [C, Cj], FALSE):
                    return self.opaque(tag, 'order')
            hit = Not(Eq(Sum(v, t0, Ite(C, 1, 0)), 0))
            val = self.retag(nd.val, nd.tag, tag)
            if solver.prove(facts, hit):
                return val
            old = self.rd(facts + [Not(hit)], b, chain, i - 1, r, tag, sz.const(), pending + ((nd, None, And(Le(0, v), Lt(v, t0), C)),))
            if val is UNDEF or old is UNDEF:
                return self.opaque(tag, 'undefmix')
            return merge_val(hit, val, old)
        return None

    def byte_of(self, v, size):
        """accessor for single bytes of a stored value that was loaded unchanged from an input object"""
        p = v.p if isinstance(v, (IV, FV)) else None
        a = p.as_atom() if p is not None else None
        if a is None or a.kind != 'app' or ':' not in a.data[0] or len(a.data) != 2:
            return None
        if isinstance(v, IV) and v.w != 8 * size:
            return None
        base, _, t = a.data[0].rpartition(':')
        if t not in ('i16', 'i32', 'i64', 'f32', 'f64') or tag_size(t) != size:
            return None
        blk = next((x for x in self.cx.init if x.base == 'input:' + base and not x.args), None)
        if blk is None:
            return None
        arg = a.data[1]

        def get(S, d):
            return self.base_read(blk, S.poly(arg) + d, 'i8', 1)
        return get

    def flipped(self, nd):
        """the same writes with every binder that runs against the address reversed (i -> T-1-i), or None"""
        c = self._flip.get(id(nd))
        if c is not None and c[0] is nd:
            return c[1]
        flips = []
        for s, t, l in nd.binders:
            cf = self.lin_coef(nd.off, s.as_atom().id)
            flips.append(cf is not None and bool(cf.t) and all(x < 0 for x in cf.t.values()))
        res = None
        if any(flips):
            m, bs = {}, []
            for (s, t, l), f in zip(nd.binders, flips):
                t2 = subst(t, m) if m else t
                bs.append((s, t2, l))
                if f:
                    m[s.as_atom().id] = t2 - 1 - s
            S = Subst(m)
            n2 = nd.copy(binders=()).subst(S)
            if n2 is nd:
                n2 = nd.copy()
            n2 = n2.copy(binders=tuple(bs))
            res = (n2, flips)
        self._flip[id(nd)] = (nd, res)
        return res

    def unique(self, fs, pairs, nd):
        """every binding satisfying fs is the given one; most significant position first, substituting as we go"""
        todo = list(pairs)
        while todo:
            for i, (m, w) in enumerate(todo):
                g = Eq(m, w)
                if g is TRUE or solver.prove(fs, g):
                    S = Subst({m.as_atom().id: w})
                    fs = [S.b(f) for f in fs]
                    todo = [(a, S.poly(b)) for q, (a, b) in enumerate(todo) if q != i]
                    break
            else:
                return False
        return True

    def determined(self, nd):
        """indices of the binders that the written address determines; None when a binder that the address does not
        mention influences whether / where the write happens (then the last iteration need not win)"""
        ids = [s.as_atom().id for s, _, _ in nd.binders]
        det = []
        fo = pfree(nd.off)
        for j, sid in enumerate(ids):
            if sid in fo:
                det.append(j)
                continue
            if sid in bfree(nd.guard) or sid in pfree(nd.size) or any(sid in pfree(t) for _, t, _ in nd.binders):
                return None
        return det

    def lex_gt(self, a, b):
        out = FALSE
        eq = TRUE
        for x, y in zip(a, b):
            out = Or(out, And(eq, Gt(x, y)))
            eq = And(eq, Eq(x, y))
        return out

    def lin_coef(self, p, sid):
        """coefficient of atom sid in p if p is linear in it (not nested), else None"""
        d = {}
        for m, c in p.t.items():
            k = m.count(sid)
            if k > 1:
                return None
            if k == 1:
                mm = list(m)
                mm.remove(sid)
                d[tuple(mm)] = c
                for a in mm:
                    if sid in free_atoms(ATOMS[a]):
                        return None
            else:
                for a in m:
                    if sid in free_atoms(ATOMS[a]):
                        return None
        return mkpoly(d)

    def witness(self, binders, off, r, span=None):
        """candidate instantiations of the binders such that off == r (or r inside [off, off+span))"""
        if not binders:
            return [[]]
        ids = [s.as_atom().id for s, _, _ in binders]
        coefs = []
        for sid in ids:
            c = self.lin_coef(off, sid)
            if c is None:
                return []
            coefs.append(c)
        off0 = subst(off, {sid: ZERO for sid in ids})
        # coefficients may mention earlier binders (rare)
        for c in coefs:
            if any(sid in pfree(c) for sid in ids):
                return []
        order = sorted([j for j in range(len(ids)) if coefs[j].t],
                       key=lambda j: (-max(len(m) for m in coefs[j].t), -max(abs(c) for c in coefs[j].t.values())))
        out = []
        for mode in ('poly', 'fdiv'):
            ws = [ZERO] * len(ids)
            rem = r - off0
            ok = True
            for pos, j in enumerate(order):
                c = coefs[j]
                if mode == 'poly':
                    q, rem2 = pdivmod(rem, c)
                    # keep fractional parts out
                    if any(isinstance(x, Fraction) for x in q.t.values()):
                        ok = False
                        break
                    ws[j] = q
                    rem = rem2
                else:
                    cc = c.const()
                    if cc is not None and cc < 0:
                        q = -FDiv(rem, -c)
                    else:
                        q = FDiv(rem, c)
                    ws[j] = q
                    rem = rem - c * q
            if ok and (not out or any(a is not b for a, b in zip(out[0], ws))):
                out.append(ws)
        if len(order) < len(ids):
            # a binder that does not occur: every iteration rewrites the same cells; last iteration wins
            for ws in out:
                for j in range(len(ids)):
                    if j not in order:
                        ws[j] = binders[j][1] - 1
        return out

    def rd_lp(self, facts, b, chain, i, r, tag, size, nd):
        """read at the start of iteration n of a running loop; None if no earlier iteration wrote the cell"""
        ref = nd.lp
        lp = ref.lp
        n = ref.n
        if self.light:
            return self.lm_value(lp, n, r, tag, None)
        miss = True
        for f in lp.foot:
            m = Sym('prev?' + lp.nsym.as_atom().data, INT, 0)
            f1 = f.subst(Subst({lp.nsym.as_atom().id: m}))
            o, fx, ms = f1.opened('q')
            fs = facts + [Lt(m, n)] + fx
            if o.guard is not TRUE:
                fs.append(o.guard)
            overlap = And(Lt(o.off, r + size), Lt(r, o.off + o.size))
            if overlap is FALSE:
                continue
            if not solver.prove(fs, Not(overlap)):
                miss = False
                break
        if miss:
            return None
        old = None
        if lp.bounds is not None and lp.bounds != (None, None):
            old = self.rd(facts, b, chain, i - 1, r, tag, size)
        return self.lm_value(lp, n, r, tag, old)

    def lm_value(self, lp, n, r, tag, old):
        fs = None
        sfx = ''
        if old is not None and isinstance(old, (IV, FV)):
            fs = (lp.bounds, old.p)
            sfx = '#%d' % LM_KEYS.setdefault(fs, len(LM_KEYS))
        v = self.mkval(tag, lambda s, l, h: App('lm%s.%d:%s%s' % (lp.loopid, lp.blk.id, tag, sfx),
                                                list(lp.args) + [n, r], s, l, h),
                       lp.blk.signed.get(tag_size(tag)) or ('s' if tag in ('i32', 'i64', 'i16') else None))
        if fs is not None and isinstance(v, (IV, FV)):
            a = v.p.as_atom()
            if a.id not in LM_FACTS:
                l, h = lp.bounds
                x = []
                if l is not None:
                    x.append(Le(old.p + n * l, v.p))
                if h is not None:
                    x.append(Le(v.p, old.p + n * h))
                LM_FACTS[a.id] = x
                solver._side.pop(a.id, None)
        return v

    def rd_acc(self, facts, b, chain, i, r, tag, size, nd):
        # siblings W in the same loop writing the same cell would break the sum
        lid = nd.binders[0][2] if nd.binders else None
        for j in range(len(chain)):
            x = chain[j]
            if x is nd or not x.binders or x.binders[0][2] != lid or x.kind == 'A':
                continue
            o, fx, ms = x.opened()
            if not solver.prove(facts + fx + [o.guard], Not(And(Lt(o.off, r + size), Lt(r, o.off + o.size)))):
                return self.opaque(tag, 'acc')
        old = self.rd(facts, b, chain, i - 1, r, tag, size)
        if not isinstance(old, (IV, FV)):
            return self.opaque(tag, 'acc')
        delta = self.acc_delta(facts, nd, r, size)
        if delta is None:
            return self.opaque(tag, 'acc')
        if isinstance(old, IV):
            lo, hi = irange(old.w, 's')
            return IV(old.p + delta, old.w, 'm' if nd.mod or old.s == 'm' else old.s)
        return FV(old.p + delta, old.w)

    def acc_delta(self, facts, nd, r, size):
        if nd.size.const() != size:
            return None
        fl = self.flipped(nd) if nd.binders else None
        if fl is not None:
            nd = fl[0]
        ids = [s.as_atom().id for s, _, _ in nd.binders]
        det = [j for j in range(len(ids)) if ids[j] in pfree(nd.off)]
        bs = [nd.binders[j] for j in det]
        ws_list = self.witness(bs, nd.off, r) if bs else []
        for ws in ws_list:
            # unique?
            o, fx, ms = nd.opened()
            fs = facts + fx + [o.guard, Lt(o.off, r + size), Lt(r, o.off + size)]
            if self.unique(fs, [(ms[j], w) for j, w in zip(det, ws)], nd):
                m = {ids[j]: w for j, w in zip(det, ws)}
                S = Subst(m)
                cond = And(*[And(Le(0, w), Lt(w, S.poly(nd.binders[j][1]))) for j, w in zip(det, ws)])
                cond = And(cond, Eq(S.poly(nd.off), r))
                body = S.poly(nd.val)
                g = S.b(nd.guard)
                if g is not TRUE:
                    body = Ite(g, body, 0)
                for j in reversed(range(len(ids))):
                    if j in det:
                        continue
                    body = Sum(nd.binders[j][0], S.poly(nd.binders[j][1]), body)
                if solver.prove(facts, cond):
                    return body
                return Ite(cond, body, 0)
        # general: sum over every binder of [off == r] * delta
        if size > 1:
            q, rem = pdivmod(nd.off, P(size))
            q2, rem2 = pdivmod(r, P(size))
            if rem.t or rem2.t:
                return None
            cond = Eq(q, q2)
        else:
            cond = Eq(nd.off, r)
        body = Ite(And(cond, nd.guard), nd.val, 0)
        for s, t, l in reversed(nd.binders):
            body = Sum(s, t, body)
        return body

    # ------------------------------------------------------------------ instructions
    def run_block(self, fr, bname, st, emit, ret):
        """execute block from st; emit(pred, succ, state) for each outgoing edge; ret(state, value)"""
        work = [(st, 0)]
        blk = fr.fn.blocks[bname]
        while work:
            s, i = work.pop()
            n = len(blk.ins)
            while i < n:
                ins = blk.ins[i]
                if ins.line:
                    self.cur_line = ins.line
                op = ins.op
                if op == 'phi':
                    i += 1
                    continue
                if op in ('call', 'invoke'):
                    outs = self.call_ins(fr, s, ins)
                    if op == 'invoke':
                        for s2, v in outs:
                            if ins.res:
                                s2.env[ins.res] = v
                            self.edge(fr, bname, ins.x['normal'], s2, emit)
                        s = None
                        break
                    if not outs:
                        s = None
                        break
                    if len(outs) > 1 and self.inloop and ins.x['callee'][1:] not in FORKS:
                        outs = [self.merge_ret(outs)]
                    for s2, v in outs[1:]:
                        if ins.res:
                            s2.env[ins.res] = v
                        work.append((s2, i + 1))
                    s, v = outs[0]
                    if ins.res:
                        s.env[ins.res] = v
                    i += 1
                    continue
                if op == 'br':
                    if len(ins.x) == 1:
                        self.edge(fr, bname, ins.x[0], s, emit)
                    else:
                        c = self.operand(s, ins.a[0], fr.mod)
                        cb = c.b if isinstance(c, BV) else Ne(c.p, 0)
                        t, f = self.decide(s, cb)
                        if t and f:
                            s2 = s.copy()
                            s.br = s.br + (cb,)
                            s2.br = s2.br + (Not(cb),)
                            self.edge(fr, bname, ins.x[0], s, emit)
                            self.edge(fr, bname, ins.x[1], s2, emit)
                        elif t:
                            self.edge(fr, bname, ins.x[0], s, emit)
                        elif f:
                            self.edge(fr, bname, ins.x[1], s, emit)
                    s = None
                    break
                if op == 'switch':
                    v = self.operand(s, ins.a[0], fr.mod)
                    d, cases = ins.x
                    rest = []
                    cur = s
                    groups = {}
                    for cv, lab in cases:
                        pv = v.p
                        cvv = cv
                        if v.s == 'u' and cv < 0:
                            cvv = cv + (1 << v.w)
                        groups.setdefault(lab, []).append(Eq(pv, cvv))
                        rest.append(Ne(pv, cvv))
                    alive = True
                    for lab, cs in groups.items():
                        c = Or(*cs)
                        t, f = self.decide(cur, c)
                        if t:
                            s2 = cur.copy()
                            if f:
                                s2.br = s2.br + (c,)
                            self.edge(fr, bname, lab, s2, emit)
                        if not f:
                            alive = False
                            break
                        if t:
                            cur.br = cur.br + (Not(c),)
                    if alive:
                        self.edge(fr, bname, d, cur, emit)
                    s = None
                    break
                if op == 'ret':
                    v = self.operand(s, ins.a[0], fr.mod) if ins.a else None
                    ret(s, v)
                    s = None
                    break
                if op == 'unreachable':
                    s = None
                    break
                if op in ('landingpad', 'resume'):
                    s = None
                    break
                self.step(fr, s, ins)
                i += 1

    def decide(self, s, c):
        """(true side feasible, false side feasible)"""
        if c is TRUE:
            return True, False
        if c is FALSE:
            return False, True
        if self.light:
            if c in s.br:
                return True, False
            if Not(c) in s.br:
                return False, True
            return True, True
        if solver.prove(s.pc(), c, nia=False):
            return True, False
        if solver.prove(s.pc(), Not(c), nia=False):
            return False, True
        return True, True

    def edge(self, fr, pred, succ, s, emit):
        vals = []
        for ins in fr.fn.blocks[succ].ins:
            if ins.op != 'phi':
                break
            for v, lab in ins.x:
                if lab == pred:
                    vals.append((ins.res, self.operand(s, v, fr.mod)))
        for k, v in vals:
            s.env[k] = v
        ins = fr.fn.blocks[succ].ins
        if len(vals) == 1 and len(ins) == 2 and isinstance(vals[0][1], BV) and ins[1].op == 'br' and len(ins[1].x) == 2 and \
                ins[1].a[0].v == vals[0][0] and vals[0][1].b in (TRUE, FALSE):
            # the value of && or || is known on this path: go to the target
            return self.edge(fr, succ, ins[1].x[0 if vals[0][1].b is TRUE else 1], s, emit)
        emit(pred, succ, s)

    def step(self, fr, s, ins):
        op = ins.op
        mod = fr.mod
        env = s.env
        if op == 'alloca':
            n = ONE
            if ins.a:
                n = self.as_u(s, self.operand(s, ins.a[0], mod))
            b = self.newblk(ins.res.strip('%'), n * ins.x.size(), 'stack', 'undef', 16, id(ins))
            fr.allocas.append(b)
            s.mem[b] = BS()
            env[ins.res] = PV.to(b)
        elif op == 'load':
            p = self.operand(s, ins.a[0], mod)
            env[ins.res] = self.load(s, p, ins.ty)
        elif op == 'store':
            v = self.operand(s, ins.a[0], mod)
            p = self.operand(s, ins.a[1], mod)
            self.store(s, p, v, ins.a[0].ty)
        elif op == 'getelementptr':
            p = self.operand(s, ins.a[0], mod)
            if not isinstance(p, PV):
                raise Unsupported('gep on %r' % (p,))
            off = self.gep_off(s, ins.x, ins.a[1:], mod)
            env[ins.res] = PV([(g, b, o + off if b is not None else (o + off)) for g, b, o in p.alts])
        elif op in ll.BIN:
            a = self.operand(s, ins.a[0], mod)
            b = self.operand(s, ins.a[1], mod)
            env[ins.res] = self.binop(s, op, ins.flags, a, b, ins.ty)
        elif op == 'fneg':
            a = self.operand(s, ins.a[0], mod)
            env[ins.res] = FV(-a.p, a.w)
        elif op == 'icmp':
            a = self.operand(s, ins.a[0], mod)
            b = self.operand(s, ins.a[1], mod)
            env[ins.res] = BV(self.icmp(s, ins.x, a, b))
        elif op == 'fcmp':
            a = self.operand(s, ins.a[0], mod)
            b = self.operand(s, ins.a[1], mod)
            env[ins.res] = BV(self.fcmp(ins.x, a.p, b.p))
        elif op in ll.CAST:
            a = self.operand(s, ins.a[0], mod)
            env[ins.res] = self.cast(s, op, a, ins.a[0].ty, ins.ty)
        elif op == 'select':
            c = self.operand(s, ins.a[0], mod)
            a = self.operand(s, ins.a[1], mod)
            b = self.operand(s, ins.a[2], mod)
            env[ins.res] = merge_val(c.b, a, b)
        elif op == 'freeze':
            env[ins.res] = self.operand(s, ins.a[0], mod)
        elif op == 'insertelement':
            a = self.operand(s, ins.a[0], mod)
            v = self.operand(s, ins.a[1], mod)
            i = self.operand(s, ins.a[2], mod).p.const()
            xs = list(a.xs)
            xs[i] = v
            env[ins.res] = AggV(xs)
        elif op == 'extractelement':
            a = self.operand(s, ins.a[0], mod)
            i = self.operand(s, ins.a[1], mod).p.const()
            env[ins.res] = a.xs[i] if a.xs[i] is not None else self.undef_of(ins.ty)
        elif op == 'insertvalue':
            a = self.operand(s, ins.a[0], mod)
            v = self.operand(s, ins.a[1], mod)
            xs = list(a.xs)
            xs[ins.x[0]] = v
            env[ins.res] = AggV(xs)
        elif op == 'extractvalue':
            a = self.operand(s, ins.a[0], mod)
            env[ins.res] = a.xs[ins.x[0]] if isinstance(a, AggV) and a.xs[ins.x[0]] is not None else self.undef_of(ins.ty)
        else:
            raise Unsupported('instruction %s (%s)' % (op, ins.txt[:80]))

    def binop(self, s, op, flags, a, b, ty):
        if op[0] == 'f':
            if isinstance(a, AggV):
                raise Unsupported('vector fp')
            if op == 'fadd':
                return FV(a.p + b.p, a.w)
            if op == 'fsub':
                return FV(a.p - b.p, a.w)
            if op == 'fmul':
                return FV(a.p * b.p, a.w)
            if op == 'fdiv':
                return FV(a.p * Inv(b.p), a.w)
            raise Unsupported(op)
        if isinstance(a, BV) or isinstance(b, BV):
            x, y = self.tob(a), self.tob(b)
            if op == 'and':
                return BV(And(x, y))
            if op == 'or':
                return BV(Or(x, y))
            if op == 'xor':
                return BV(Not(Iff(x, y)))
            raise Unsupported('i1 ' + op)
        w = ty.w
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags and not (self.wrap and 'm' in (a.s, b.s)):
                x, y = self.as_s(s, a), self.as_s(s, b)
                r = x + y if op == 'add' else x - y if op == 'sub' else x * y
                lo, hi = irange(w, 's')
                l, h = prange(r)
                if self.wrap and not self.light:
                    return self.fit(s, r, w, 's')
                if not (l is not None and h is not None and lo <= l and h <= hi):
                    self.oblige(s, And(Le(lo, r), Le(r, hi)), 'overflow', 'signed %s' % op)
                return IV(r, w, 's')
            x, y = a.p, b.p
            if a.s != b.s:
                # constants are parsed as signed
                pass
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            return self.fit(s, r, w, 's' if 'nsw' in flags else 'u')
        if op in ('sdiv', 'srem'):
            x, y = self.as_s(s, a), self.as_s(s, b)
            self.oblige(s, Ne(y, 0), 'div0', op)
            lo, hi = irange(w, 's')
            l, h = prange(x)
            ly, hy = prange(y)
            if not (l is not None and l > lo) and not (ly is not None and ly > -1):
                self.oblige(s, Or(Gt(x, lo), Ne(y, -1)), 'overflow', 'signed division')
            q = self.tdiv(s, x, y)
            return IV(q if op == 'sdiv' else x - y * q, w, 's')
        if op in ('udiv', 'urem'):
            x, y = self.as_u(s, a), self.as_u(s, b)
            self.oblige(s, Ne(y, 0), 'div0', op)
            q = FDiv(x, y)
            r = q if op == 'udiv' else x - y * q
            return IV(r, w, 'u')
        if op == 'shl':
            k = b.p.const()
            if k is None:
                raise Unsupported('shl by variable')
            if not (0 <= k < w):
                self.oblige(s, FALSE, 'shift', 'shift amount')
            r = a.p * (1 << k)
            if 'nsw' in flags:
                lo, hi = irange(w, 's')
                r = self.as_s(s, a) * (1 << k)
                self.oblige(s, And(Le(lo, r), Le(r, hi)), 'overflow', 'shift')
                return IV(r, w, 's')
            return self.fit(s, r, w, a.s)
        if op == 'lshr':
            k = b.p.const()
            if k is None:
                raise Unsupported('lshr by variable')
            return IV(FDiv(self.as_u(s, a), 1 << k), w, 'u')
        if op == 'ashr':
            k = b.p.const()
            if k is None:
                raise Unsupported('ashr by variable')
            return IV(FDiv(self.as_s(s, a), 1 << k), w, 's')
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                k = y.p.const()
                if k is not None:
                    if k < 0:
                        k += 1 << w
                    if k == 0:
                        return IV(ZERO, w)
                    if k & (k + 1) == 0:
                        l, h = prange(x.p)
                        if l is not None and h is not None and l >= 0 and h <= k:
                            return x
                        return IV(Mod(x.p, k + 1), w, 'u')
                    nk = (1 << w) - k
                    if nk & (nk - 1) == 0:
                        return IV(x.p - Mod(x.p, nk), w, x.s)
                    if k & (k - 1) == 0:
                        return IV(Mod(FDiv(self.as_u(s, x), P(k)), P(2)) * k, w, 'u')
            x, y = self.as_u(s, a), self.as_u(s, b)
            lx, hx = prange(x)
            ly, hy = prange(y)
            h = min(z for z in (hx, hy, (1 << w) - 1) if z is not None)
            return IV(App('bvand%d' % w, sorted([x, y], key=lambda p: p.h), INT, 0, h), w, 'u')
        if op == 'or':
            x, y = self.as_u(s, a), self.as_u(s, b)
            kx, ky = x.const(), y.const()
            if kx == 0:
                return b
            if ky == 0:
                return a
            if kx is not None and ky is not None:
                return IV(P(kx | ky), w, 'u')
            return IV(App('bvor%d' % w, sorted([x, y], key=lambda p: p.h), INT, 0, (1 << w) - 1), w, 'u')
        if op == 'xor':
            if b.p.const() == -1 or (b.s == 'u' and b.p.const() == (1 << w) - 1):
                if a.s == 's':
                    return IV(-a.p - 1, w, 's')
                return IV((1 << w) - 1 - a.p, w, 'u')
            x, y = self.as_u(s, a), self.as_u(s, b)
            if x.const() is not None and y.const() is not None:
                return IV(P(x.const() ^ y.const()), w, 'u')
            if y.const() == 0:
                return a
            return IV(App('bvxor%d' % w, sorted([x, y], key=lambda p: p.h), INT, 0, (1 << w) - 1), w, 'u')
        raise Unsupported(op)

    def tdiv(self, s, x, y):
        def sgn(p):
            c = p.const()
            if c is not None:
                return 1 if c > 0 else (-1 if c < 0 else 0)
            l, h = prange(p)
            if l is not None and l >= 0:
                return 1
            if self.light:
                return 1
            if self.prove(s, Le(0, p)):
                return 1
            if self.prove(s, Le(p, 0)):
                return -1
            return None
        cx, cy = x.const(), y.const()
        if cx is not None and cy:
            q = abs(cx) // abs(cy)
            return P(q if (cx >= 0) == (cy > 0) else -q)
        sx, sy = sgn(x), sgn(y)

        def dv(sx, sy):
            r = FDiv(x if sx > 0 else -x, y if sy > 0 else -y)
            return r if sx == sy else -r

        def dx(sy):
            if sx is not None and sx != 0:
                return dv(sx, sy)
            return Ite(Le(0, x), dv(1, sy), dv(-1, sy))
        if sy is not None and sy != 0:
            return dx(sy)
        return Ite(Lt(0, y), dx(1), dx(-1))

    def tob(self, v):
        if isinstance(v, BV):
            return v.b
        return Ne(v.p, 0)

    def lift(self, p, f):
        """f(p) with a single top-level ite of p lifted"""
        its = [a for a in p.atoms() if ATOMS[a].kind == 'ite']
        if len(its) == 1:
            a = ATOMS[its[0]]
            if self.lin_coef(p, a.id) is not None and a.data[1].is_const() and a.data[2].is_const():
                c = a.data[0]
                return Or(And(c, f(subst(p, {a.id: a.data[1]}))), And(Not(c), f(subst(p, {a.id: a.data[2]}))))
        return f(p)

    def icmp(self, s, pred, a, b):
        if isinstance(a, (PV, FnV)) or isinstance(b, (PV, FnV)):
            return self.pcmp(s, pred, a, b)
        if isinstance(a, BV) or isinstance(b, BV):
            x, y = self.tob(a), self.tob(b)
            return Iff(x, y) if pred == 'eq' else Not(Iff(x, y))
        if pred in ('eq', 'ne'):
            if 'm' in (a.s, b.s):
                x, y = self.as_u(s, a), self.as_u(s, b)
            elif a.s == b.s or a.p.const() is not None and a.p.const() >= 0 or b.p.const() is not None and b.p.const() >= 0:
                x, y = a.p, b.p
                if a.s != b.s:
                    # a nonneg constant on one side: other side's own view is exact for the comparison when constant
                    # is below 2^(w-1)
                    k = a.p.const() if a.p.const() is not None else b.p.const()
                    if k >= 1 << (a.w - 1):
                        x, y = self.as_u(s, a), self.as_u(s, b)
            else:
                x, y = self.as_u(s, a), self.as_u(s, b)
            r = self.lift(x - y, Eq0)
            return r if pred == 'eq' else Not(r)
        if pred[0] == 's':
            x, y = self.as_s(s, a), self.as_s(s, b)
        else:
            x, y = self.as_u(s, a), self.as_u(s, b)
        rel = pred[1:]
        if rel == 'lt':
            return self.lift(x - y, Lt0)
        if rel == 'le':
            return self.lift(x - y, Le0)
        if rel == 'gt':
            return self.lift(y - x, Lt0)
        return self.lift(y - x, Le0)

    def pcmp(self, s, pred, a, b):
        if isinstance(a, FnV) or isinstance(b, FnV):
            r = FALSE if not (isinstance(a, FnV) and isinstance(b, FnV)) else (TRUE if a.name == b.name else FALSE)
            return r if pred == 'eq' else Not(r)
        if isinstance(a, IV) or isinstance(b, IV):
            raise Unsupported('pointer/int compare')
        out = FALSE
        for g1, b1, o1 in a.alts:
            for g2, b2, o2 in b.alts:
                g = And(g1, g2)
                if g is FALSE:
                    continue
                if b1 is WILD or b2 is WILD:
                    if pred in ('eq', 'ne'):
                        ob = BApp('ptreq!%s' % self.cnt(), list(self.loopstack))
                        c = ob
                    else:
                        c = BApp('ptrcmp!%s' % self.cnt(), list(self.loopstack))
                        out = Or(out, And(g, c))
                        continue
                elif b1 is b2:
                    if pred in ('eq', 'ne'):
                        c = Eq(o1, o2) if b1 is not None else TRUE
                    else:
                        rel = pred[1:]
                        c = {'lt': Lt, 'le': Le, 'gt': Gt, 'ge': Ge}[rel](o1, o2)
                        out = Or(out, And(g, c))
                        continue
                else:
                    if pred in ('eq', 'ne'):
                        c = FALSE
                    else:
                        # ordering of distinct objects: by address
                        x = (b1.addr() + o1) if b1 is not None else ZERO
                        y = (b2.addr() + o2) if b2 is not None else ZERO
                        c = {'lt': Lt, 'le': Le, 'gt': Gt, 'ge': Ge}[pred[1:]](x, y)
                        out = Or(out, And(g, c))
                        continue
                if pred == 'ne':
                    c = Not(c)
                out = Or(out, And(g, c))
        return out

    def fcmp(self, pred, x, y):
        d = x - y
        if pred in ('oeq', 'ueq'):
            return Eq0(d)
        if pred in ('one', 'une'):
            return Not(Eq0(d))
        if pred in ('olt', 'ult'):
            return Lt0(d)
        if pred in ('ole', 'ule'):
            return Le0(d)
        if pred in ('ogt', 'ugt'):
            return Lt0(-d)
        if pred in ('oge', 'uge'):
            return Le0(-d)
        if pred == 'ord':
            return TRUE
        if pred == 'uno':
            return FALSE
        raise Unsupported('fcmp ' + pred)

    def trunc0(self, s, p):
        """truncation toward zero of a real"""
        if p.sort == INT:
            return p
        l, h = prange(p)
        if l is not None and l >= 0:
            return Floor(p)
        if not self.light:
            if self.prove(s, Le0(-p)):
                return Floor(p)
            if self.prove(s, Le0(p)):
                return -Floor(-p)
        return Ite(Le0(-p), Floor(p), -Floor(-p))

    def cast(self, s, op, v, fty, tty):
        if op == 'bitcast':
            return v
        if op == 'zext':
            if isinstance(v, BV):
                return IV(Ite(v.b, 1, 0), tty.w, 's')
            return IV(self.as_u(s, v), tty.w, 'u' if tty.w == fty.w else 's' if tty.w > fty.w else 'u')
        if op == 'sext':
            if isinstance(v, BV):
                return IV(Ite(v.b, -1, 0), tty.w, 's')
            return IV(self.as_s(s, v), tty.w, 's')
        if op == 'trunc':
            if tty.w == 1:
                l, h = prange(v.p)
                if l is not None and l >= 0 and h is not None and h <= 1:
                    return BV(self.lift(v.p, lambda p: Not(Eq0(p))))
                return BV(Ne(Mod(v.p, 2), 0))
            if self.light:
                return IV(v.p, tty.w, 'u' if tty.w == 8 else v.s)
            return self.fit(s, v.p, tty.w, 'u' if tty.w == 8 else 's')
        if op in ('sitofp',):
            if isinstance(v, BV):
                return FV(Ite(v.b, -1, 0))
            return FV(self.as_s(s, v))
        if op in ('uitofp',):
            if isinstance(v, BV):
                return FV(Ite(v.b, 1, 0))
            return FV(self.as_u(s, v))
        if op in ('fpext', 'fptrunc'):
            return FV(v.p, 64)
        if op in ('fptosi', 'fptoui'):
            sg = 's' if op == 'fptosi' else 'u'
            lo, hi = irange(tty.w, sg)
            l, h = prange(v.p)
            if not (l is not None and h is not None and l > lo - 1 and h < hi + 1):
                self.oblige(s, And(Lt(P(lo - 1), v.p), Lt(v.p, P(hi + 1))), 'fp-range', 'conversion to i%d' % tty.w)
            return IV(self.trunc0(s, v.p), tty.w, sg)
        if op == 'ptrtoint':
            out = None
            for g, b, o in reversed(v.alts):
                if b is WILD:
                    x = self.opaque_app('wild')
                else:
                    x = (b.addr() + o) if b is not None else o
                out = x if out is None else Ite(g, x, out)
            return IV(out, tty.w, 'u')
        if op == 'inttoptr':
            c = v.p.const()
            if c is not None:
                return PV([(TRUE, None, P(c))])
            cand = [ADDR2BLK[a] for a in pfree(v.p) if a in ADDR2BLK]
            if len(cand) == 1:
                return PV.to(cand[0], v.p - cand[0].addr())
            # top-level one with coefficient 1
            for b in cand:
                r = v.p - b.addr()
                if list(b.addr().atoms())[0] not in r.atoms():
                    return PV.to(b, r)
            return PV([(TRUE, WILD, v.p)])
        raise Unsupported(op)

    # ------------------------------------------------------------------ merging
    def merge_states(self, sts):
        sts = [s for s in sts if not s.dead()]
        if not sts:
            return None
        if len(sts) == 1:
            return sts[0]
        n = common_prefix([s.br for s in sts])
        gs = [And(*s.br[n:]) for s in sts]
        base = State()
        base.br = sts[0].br[:n]
        disj = Or(*gs)
        if disj is not TRUE:
            base.br = base.br + (disj,)
        m = common_prefix([s.facts for s in sts])
        fs = list(sts[0].facts[:m])
        have = set(fs)
        for s, g in zip(sts, gs):
            for f in s.facts[m:]:
                h = Implies(g, f)
                if all(f in t.facts for t in sts):
                    h = f
                if h is not TRUE and h not in have:
                    have.add(h)
                    fs.append(h)
        base.facts = tuple(fs)
        # env
        keys = set(sts[0].env)
        for s in sts[1:]:
            keys &= set(s.env)
        for k in keys:
            v = sts[-1].env[k]
            for s, g in zip(sts[-2::-1], gs[-2::-1]):
                try:
                    v = merge_val(g, s.env[k], v)
                except Unsupported:
                    v = None
                    break
            if v is not None:
                base.env[k] = v
        blks = {}
        for s in sts:
            for b in s.mem:
                blks[b] = True
        for b in blks:
            have = [(s, g) for s, g in zip(sts, gs) if b in s.mem]
            b0 = have[0][0].mem[b]
            if len(have) == len(sts) and all(s.mem[b] is b0 for s in sts):
                base.mem[b] = b0
                continue
            base.mem[b] = self.merge_bs(b, have)
        return base

    def merge_same(self, sts):
        """states that differ in their path conditions only become one"""
        groups = []
        for s in sts:
            if s.dead():
                continue
            for g in groups:
                if same_mem(g[0], s):
                    g.append(s)
                    break
            else:
                groups.append([s])
        return [m for g in groups for m in ([self.merge_states(g)] if len(g) > 2 else g)]

    def merge_bs(self, b, have):
        bss = [s.mem[b] for s, g in have]
        # differently sized overlapping cells: turn them into chain nodes first
        allc = {(k, c[0]) for x in bss for k, c in x.cells.items()}
        bad = {a for a in allc for c in allc if a != c and a[0] < c[0] + c[1] and c[0] < a[0] + a[1]} if len(allc) < 400 else set()
        if bad:
            nb = []
            for x in bss:
                cells, ch = dict(x.cells), x.chain
                for k in sorted(x.cells):
                    z, t, v = x.cells[k]
                    if (k, z) in bad:
                        ch = ch + (Node('W', (), TRUE, P(k), P(z), v, t),)
                        del cells[k]
                nb.append(BS(cells, ch, x.freed))
            bss = nb
        n = common_prefix([x.chain for x in bss])
        chain = list(bss[0].chain[:n])
        for (s, g), x in zip(have, bss):
            for nd in x.chain[n:]:
                chain.append(nd.copy(guard=And(g, nd.guard)))
        keys = {}
        for x in bss:
            for k, c in x.cells.items():
                keys.setdefault(k, c)
        cells = {}
        for k, (z, t, _) in keys.items():
            v = None
            ok = True
            for (s, g), x in reversed(list(zip(have, bss))):
                c = x.cells.get(k)
                if c is not None and c[0] == z:
                    vv = self.retag(c[2], c[1], t, s)
                elif c is None:
                    vv = self.rd(s.pc(), b, x.chain, len(x.chain) - 1, P(k), t, z) if (x.chain or b.base != 'undef') \
                        else UNDEF
                else:
                    raise Unsupported('merge of overlapping cells')
                v = vv if v is None else merge_val(g, vv, v)
            cells[k] = (z, t, v)
        fr = FALSE
        for (s, g), x in zip(have, bss):
            if x.freed is not FALSE:
                fr = Or(fr, And(g, x.freed))
        if all(x.freed is bss[0].freed for x in bss):
            fr = bss[0].freed
        return BS(cells, tuple(chain), fr)

    def merge_ret(self, outs):
        K = '%__ret'
        for s, v in outs:
            if v is not None:
                s.env[K] = v
            else:
                s.env.pop(K, None)
        m = self.merge_states([s for s, v in outs])
        v = m.env.pop(K, None)
        return m, v

    # ------------------------------------------------------------------ regions and functions
    def run_region(self, fr, start, st, loop, ret, skip_header_loop=False):
        """execute the acyclic region (inner loops summarised).  loop: current Loop or None.
        returns (latch_states, exits: list of (pred, target, state))"""
        c = fr.cfg
        region = loop.blocks if loop else None
        pend = {start: [st]}
        latch, exits = [], []
        order = [b for b in c.rpo if region is None or b in region]
        i0 = c.idx[start]

        def emit(pred, succ, s):
            if s.dead():
                return
            if loop is not None and succ == loop.header:
                latch.append(s)
            elif region is not None and succ not in region:
                exits.append((pred, succ, s))
            else:
                pend.setdefault(succ, []).append(s)
        inner_headers = {}
        for h, l in c.loops.items():
            if l is loop:
                continue
            p = l.parent
            if p is loop:
                inner_headers[h] = l
        for b in order:
            sts = pend.pop(b, None)
            if not sts:
                continue
            if len(sts) > 1 and (self.inloop or len(sts) > MAXSTATES):
                m = self.merge_states(sts)
                sts = [m] if m is not None else []
            elif len(sts) > 2:
                sts = self.merge_same(sts)
            for s in sts:
                if b in inner_headers:
                    for pred, tgt, s2 in self.do_loop(fr, inner_headers[b], s, ret):
                        emit(pred, tgt, s2)
                else:
                    # skip blocks that belong to inner loops (handled by do_loop)
                    self.run_block(fr, b, s, emit, ret)
        return latch, exits

    def call_fn(self, fn, mod, args, st):
        """inline execution: returns list of (state, retval)"""
        if self.depth > 12:
            raise Unsupported('call depth / recursion in ' + fn.name)
        self.depth += 1
        fr = Frame(fn, mod)
        if fr.cfg.irreducible:
            raise Unsupported('irreducible control flow in ' + fn.name)
        self.frames.append(fr)
        saved = st.env
        s = st.copy()
        s.env = {}
        for (pn, pt, at), a in zip(fn.params, args):
            s.env[pn] = a
        outs = []

        def ret(s2, v):
            outs.append((s2, v))
        line = self.cur_line
        self.run_region(fr, fr.cfg.entry, s, None, ret)
        self.cur_line = line
        self.frames.pop()
        self.depth -= 1
        res = []
        for s2, v in outs:
            if s2.dead():
                continue
            for b in fr.allocas:
                s2.mem.pop(b, None)
            s2.env = dict(saved)
            res.append((s2, v))
        return res

    def call_ins(self, fr, st, ins):
        callee = ins.x['callee']
        args = [self.operand(st, a, fr.mod) for a in ins.a]
        if callee[0] == '%':
            f = st.env.get(callee)
            if isinstance(f, FnV):
                callee = f.name
            else:
                raise Unsupported('indirect call')
        name = callee[1:].strip('"')
        ct = self.contracts.get(name)
        if ct is not None:
            r = ct(self, st, args, ins)
            if r is not None:
                self.used_contracts.add(name)
                return r
        from . import builtins as BI
        bi = BI.lookup(name)
        if bi is not None:
            self.trusted.add(name)
            return bi(self, st, args, ins)
        fn, mod = self.prog.find(callee, fr.mod)
        if fn is None:
            raise Unsupported('call to external function %s' % name)
        if any(f.fn is fn for f in self.frames):
            raise Unsupported('recursive call of %s' % name)
        self.inlined.add(name)
        p = self.path
        self.path = p + ((id(ins), st.br),)
        r = self.call_fn(fn, mod, args, st)
        self.path = p
        return r

    # ------------------------------------------------------------------ loops
    def do_loop(self, fr, L, st, ret):
        from . import loops
        return loops.do_loop(self, fr, L, st, ret)


# builtins whose outcomes are kept apart also within loops
FORKS = ('fscanf', '__isoc99_fscanf')

WILD = Blk('unknown', 0, 'wild')
