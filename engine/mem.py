"""Values, memory blocks, write nodes and states of the symbolic executor."""
import itertools
from .terms import *

_ids = itertools.count(1)


class IV:
    """machine integer of width w; p is its value read as signed ('s') or unsigned ('u'), or only congruent to it modulo
    2^w ('m', wrap-around arithmetic)"""
    __slots__ = ('p', 'w', 's', 'parts')

    def __init__(self, p, w, s='s', parts=None):
        self.p, self.w, self.s = P(p), w, s
        self.parts = parts      # {byte offset: integer} of a small structure passed in a register

    def __repr__(self):
        return 'i%d%s:%s' % (self.w, self.s, show(self.p))

    def subst(self, S):
        q = S.poly(self.p)
        return self if q is self.p else IV(q, self.w, self.s)


class FV:
    __slots__ = ('p', 'w')

    def __init__(self, p, w=64):
        self.p, self.w = P(p), w

    def __repr__(self):
        return 'f%d:%s' % (self.w, show(self.p))

    def subst(self, S):
        q = S.poly(self.p)
        return self if q is self.p else FV(q, self.w)


class BV:
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b

    def __repr__(self):
        return 'b:' + show_b(self.b)

    def subst(self, S):
        q = S.b(self.b)
        return self if q is self.b else BV(q)


class PV:
    """pointer: alternatives (guard, block-or-None, offset)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = tuple(alts)

    @staticmethod
    def to(blk, off=0):
        return PV([(TRUE, blk, P(off))])

    def is_null(self):
        return len(self.alts) == 1 and self.alts[0][1] is None

    def __repr__(self):
        return 'ptr:' + ' | '.join('%s%s+%s' % ('' if g is TRUE else '[%s] ' % show_b(g), b.name if b else 'NULL', show(o))
                                   for g, b, o in self.alts)

    def subst(self, S):
        r = []
        ch = False
        for g, b, o in self.alts:
            g2, o2 = S.b(g), S.poly(o)
            ch = ch or g2 is not g or o2 is not o
            if g2 is not FALSE:
                r.append((g2, b, o2))
        return PV(r) if ch else self


NULL = PV([(TRUE, None, ZERO)])


class FnV:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def subst(self, S):
        return self

    def __repr__(self):
        return 'fn:' + self.name


class AggV:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def subst(self, S):
        return AggV([x.subst(S) if x is not None else None for x in self.xs])

    def __repr__(self):
        return 'agg' + repr(self.xs)


class UndefV:
    __slots__ = ()

    def subst(self, S):
        return self

    def __repr__(self):
        return 'undef'


UNDEF = UndefV()


def same_val(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, IV):
        return a.p is b.p and a.w == b.w and a.s == b.s
    if isinstance(a, FV):
        return a.p is b.p
    if isinstance(a, BV):
        return a.b is b.b
    if isinstance(a, PV):
        return len(a.alts) == len(b.alts) and all(x[0] is y[0] and x[1] is y[1] and x[2] is y[2]
                                                  for x, y in zip(a.alts, b.alts))
    if isinstance(a, AggV):
        return len(a.xs) == len(b.xs) and all(same_val(x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, FnV):
        return a.name == b.name
    return a is b


def merge_val(g, a, b):
    """g ? a : b"""
    if g is TRUE or same_val(a, b):
        return a
    if g is FALSE:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if isinstance(a, IV) and isinstance(b, IV):
        if a.s == b.s:
            return IV(Ite(g, a.p, b.p), a.w, a.s)
        if 'm' in (a.s, b.s):
            return IV(Ite(g, a.p, b.p), a.w, 'm')
        # bring to signed when the unsigned one is small
        for x, y, flip in ((a, b, 0), (b, a, 1)):
            if x.s == 'u':
                lo, hi = prange(x.p)
                if hi is not None and hi < (1 << (x.w - 1)) and lo is not None and lo >= 0:
                    return IV(Ite(g, a.p, b.p), a.w, 's')
                lo, hi = prange(y.p)
                if lo is not None and lo >= 0:
                    return IV(Ite(g, a.p, b.p), a.w, 'u')
        ca = a.p if a.s == 'u' else Ite(Lt(a.p, 0), a.p + (1 << a.w), a.p)
        cb = b.p if b.s == 'u' else Ite(Lt(b.p, 0), b.p + (1 << b.w), b.p)
        return IV(Ite(g, ca, cb), a.w, 'u')
    if isinstance(a, FV) and isinstance(b, FV):
        return FV(Ite(g, a.p, b.p), a.w)
    if isinstance(a, BV) and isinstance(b, BV):
        return BV(Or(And(g, a.b), And(Not(g), b.b)))
    if isinstance(a, PV) and isinstance(b, PV):
        out = []
        ng = Not(g)
        for x, gg in ((a, g), (b, ng)):
            for h, blk, o in x.alts:
                h2 = And(gg, h)
                if h2 is FALSE:
                    continue
                for i, (h3, b3, o3) in enumerate(out):
                    if b3 is blk:
                        out[i] = (Or(h3, h2), blk, Ite(h2, o, o3) if o is not o3 else o)
                        break
                else:
                    out.append((h2, blk, o))
        if len(out) == 1:
            out = [(TRUE, out[0][1], out[0][2])]
        return PV(out)
    if isinstance(a, AggV) and isinstance(b, AggV):
        return AggV([merge_val(g, x, y) for x, y in zip(a.xs, b.xs)])
    raise Unsupported('merge of %r and %r' % (a, b))


class Unsupported(Exception):
    pass


class Blk:
    """an allocated object.  base: how untouched contents read ('undef','zero','input:<name>','const')"""

    def __init__(self, name, size, kind, base='undef', align=1):
        self.id = next(_ids)
        self.name, self.size, self.kind, self.base = name, P(size), kind, base
        self.init = None
        self.align = align
        self._addr = None
        self.signed = {}       # width(bytes) -> 's'/'u' view of untouched ints
        self.lohi = {}         # tag -> (lo,hi) declared range of untouched contents
        self.facts = ()
        self.cells0 = None
        self.args = ()         # extra UF args (enclosing iterations)
        self.owner = None      # contract-level: sub-allocation group freed together
        self.site = None

    def addr(self):
        if self._addr is None:
            # x86-64 user-space addresses are below 2^47 (listed in the trusted base)
            s = Sym('addr!%d_%s' % (self.id, self.name), INT, 1, (1 << 47) - (1 << 33))
            self._addr = s if self.align == 1 else Sym('addrq!%d_%s' % (self.id, self.name), INT, 1, ((1 << 47) - (1 << 33)) // self.align) * self.align
            ADDR2BLK[list(self._addr.atoms())[0]] = self
        return self._addr

    def __repr__(self):
        return 'Blk(%s#%d)' % (self.name, self.id)


ADDR2BLK = {}


class Node:
    """a (possibly quantified) write.
    kind: W typed store, C copy, Z memset, A accumulate, H havoc, LP previous iterations of a running loop
    binders: tuple of (sym, T, loopid)"""
    __slots__ = ('kind', 'binders', 'guard', 'off', 'size', 'val', 'tag', 'src', 'srcoff', 'lp', 'mod')

    def __init__(self, kind, binders=(), guard=TRUE, off=ZERO, size=ZERO, val=None, tag=None, src=None, srcoff=None,
                 lp=None, mod=False):
        self.kind, self.binders, self.guard = kind, tuple(binders), guard
        self.off, self.size, self.val, self.tag = P(off), P(size), val, tag
        self.src, self.srcoff, self.lp, self.mod = src, srcoff, lp, mod

    def __repr__(self):
        return '%s%s[%s] off=%s size=%s val=%r' % (self.kind, [(show(s), show(t)) for s, t, _ in self.binders],
                                                  show_b(self.guard), show(self.off), show(self.size), self.val)

    def copy(self, **kw):
        n = Node(self.kind, self.binders, self.guard, self.off, self.size, self.val, self.tag, self.src, self.srcoff,
                 self.lp, self.mod)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def subst(self, S):
        nb = tuple((s, S.poly(t), l) for s, t, l in self.binders)
        g, o, z = S.b(self.guard), S.poly(self.off), S.poly(self.size)
        v = self.val.subst(S) if self.val is not None and hasattr(self.val, 'subst') else self.val
        if self.kind == 'A':
            v = S.poly(self.val)
        so = S.poly(self.srcoff) if self.srcoff is not None else None
        src = self.src
        if src is not None:
            src = (src[0], src[1].subst(S))
        lp = self.lp
        if self.kind == 'LP':
            lp = self.lp.subst_ref(S)
        if (g is self.guard and o is self.off and z is self.size and v is self.val and so is self.srcoff and lp is self.lp
                and (src is None or src[1] is self.src[1]) and all(x[1] is y[1] for x, y in zip(nb, self.binders))):
            return self
        return Node(self.kind, nb, g, o, z, v, self.tag, src, so, lp, self.mod)

    def opened(self, pre='o'):
        """copies of the binders, used only inside one query: (node, facts, syms)"""
        if not self.binders:
            return self, [], []
        m = {}
        facts, syms = [], []
        for s, t, l in self.binders:
            f = Sym('%s?%s' % (pre, s.as_atom().data), INT, 0)
            if m:
                t = subst(t, m)
            facts.append(Lt(f, t))
            m[s.as_atom().id] = f
            syms.append(f)
        S = Subst(m)
        n = self.copy(binders=())
        n.guard, n.off, n.size = S.b(self.guard), S.poly(self.off), S.poly(self.size)
        return n, facts, syms

    def at(self, ws):
        """instantiate binders with polys ws: (Subst, range-condition)"""
        m = {}
        c = []
        for (s, t, l), w in zip(self.binders, ws):
            if m:
                t = subst(t, m)
            c.append(Le(0, w))
            c.append(Lt(w, t))
            m[s.as_atom().id] = w
        S = Subst(m)
        c.append(S.b(self.guard))
        return S, And(*c)

    def __hash__(self):
        return id(self)


class BS:
    """block state: cells (constant offsets, newest) over chain (older ... newer)"""
    __slots__ = ('cells', 'chain', 'freed')

    def __init__(self, cells=None, chain=(), freed=FALSE):
        self.cells = cells if cells is not None else {}
        self.chain = chain
        self.freed = freed

    def subst(self, S):
        cells = {}
        ch = False
        for k, (z, t, v) in self.cells.items():
            v2 = v.subst(S)
            ch = ch or v2 is not v
            cells[k] = (z, t, v2)
        chain = []
        for n in self.chain:
            n2 = n.subst(S)
            ch = ch or n2 is not n
            chain.append(n2)
        f = S.b(self.freed)
        ch = ch or f is not self.freed
        return BS(cells, tuple(chain), f) if ch else self


class State:
    __slots__ = ('br', 'facts', 'mem', 'env', 'blks')

    def __init__(self):
        self.br = ()
        self.facts = ()
        self.mem = {}      # blk -> BS
        self.env = {}

    def copy(self):
        s = State()
        s.br, s.facts, s.env = self.br, self.facts, dict(self.env)
        s.mem = dict(self.mem)
        return s

    def pc(self):
        return list(self.br) + list(self.facts)

    def assume(self, b):
        if b is not TRUE:
            self.facts = self.facts + (b,)

    def dead(self):
        return FALSE in self.br or FALSE in self.facts

    def bs(self, blk):
        s = self.mem.get(blk)
        if s is None:
            s = BS(dict(blk.cells0) if blk.cells0 else {})
            self.mem[blk] = s
        return s

    def subst(self, S):
        s = State()
        s.br = tuple(x for x in (S.b(b) for b in self.br) if x is not TRUE)
        s.facts = tuple(x for x in (S.b(b) for b in self.facts) if x is not TRUE)
        s.mem = {k: v.subst(S) for k, v in self.mem.items()}
        s.env = {k: (v.subst(S) if v is not None else v) for k, v in self.env.items()}
        return s


def same_mem(s, t):
    for b in set(s.mem) | set(t.mem):
        x, y = s.mem.get(b), t.mem.get(b)
        if x is y:
            continue
        x = x or BS(dict(b.cells0) if b.cells0 else {})
        y = y or BS(dict(b.cells0) if b.cells0 else {})
        if x.freed is not y.freed or len(x.chain) != len(y.chain) or any(a is not c for a, c in zip(x.chain, y.chain)):
            return False
        if x.cells is not y.cells:
            if set(x.cells) != set(y.cells):
                return False
            for k, c in x.cells.items():
                d = y.cells[k]
                if c is not d and (c[0] != d[0] or c[1] != d[1] or not same_val(c[2], d[2])):
                    return False
    return True


def common_prefix(tups):
    n = min(len(t) for t in tups)
    i = 0
    f = tups[0]
    while i < n and all(t[i] is f[i] for t in tups):
        i += 1
    return i
