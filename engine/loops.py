"""Loop summaries: guessed by light passes, then verified inductive on an arbitrary iteration."""
import itertools
from . import solver
from .terms import *
from .terms import ATOMS
from .mem import *
from .mem import Unsupported

_lid = itertools.count(1)


class Info:
    def __init__(self):
        self.kind = {}       # key -> 'ind' | 'tmp' | 'rec'
        self.delta = {}      # key -> Poly (ind)
        self.meta = {}       # key -> (size, tag)
        self.sgn = {}        # key -> 's'/'u'
        self.foot = {}       # blk -> list of nodes (in terms of nsym)
        self.T = []          # candidate trip counts (terms over loop-invariant atoms)
        self.accrange = {}   # key -> (l,h) per-iteration change
        self.invs = []       # candidate invariants (B over X atoms and nsym)
        self.invs_done = False
        self.bounds = {}     # blk -> per-iteration accumulate bounds
        self.nolatch = False


def key_x0(ex, st, key, meta):
    b, off = key
    size, tag = meta
    bs = st.bs(b)
    c = bs.cells.get(off)
    if c is not None and c[0] == size:
        return ex.retag(c[2], c[1], tag, st)
    if b.base == 'undef' and not bs.chain:
        return UNDEF
    return ex.read(st, b, P(off), tag, size)


def do_loop(ex, fr, L, st, ret):
    ex.inloop += 1
    mark_c = ex.cur_line
    try:
        info = analyse(ex, fr, L, st, ret)
        if info is None:
            # no back edge is ever taken: run once
            latch, exits = ex.run_region(fr, L.header, st, L, ret)
            if latch:
                raise Unsupported('loop at line %s' % L.line)
            return exits
        if not ex.light:
            for k, v in list(info.x0.items()):
                p = polyof(v)
                if p is not None and any(ATOMS[a].kind == 'app' and ATOMS[a].data[0].startswith('lt!') for a in p.atoms()):
                    info.x0[k] = key_x0(ex, st, k, info.meta[k])
        T = info.T[0] if info.T else None
        small = len(L.blocks) <= 60
        if T is not None and T.const() is not None and T.const() <= ex.unroll:
            r = unroll(ex, fr, L, st, ret, int(max(0, T.const())) + 2)
            if r is not None:
                return r
        elif T is None:
            r = unroll(ex, fr, L, st, ret, ex.unroll)
            if r is not None:
                return r
        if ex.light:
            return summary(ex, fr, L, st, ret, info)
        for attempt in range(14):
            mark = len(ex.obls)
            nnotes = len(ex.notes)
            n0 = ex._n
            r = summary(ex, fr, L, st, ret, info)
            if r is not None:
                return r
            del ex.obls[mark:]
            del ex.notes[nnotes:]
            ex._n = n0
        raise Unsupported('no inductive summary for the loop at %s:%s' % (fr.fn.name, L.line))
    finally:
        ex.inloop -= 1


def unroll(ex, fr, L, st, ret, limit):
    mark = len(ex.obls)
    cur = st.copy()
    out = []
    p0 = ex.path
    for it in range(limit + 1):
        ex.path = p0 + ((id(L), it, st.br),)
        latch, exits = ex.run_region(fr, L.header, cur, L, ret)
        ex.path = p0
        out.extend(exits)
        if not latch:
            return out
        if exits and all(True for _ in exits):
            # undecided exit: only acceptable when bounded by the limit; give up when symbolic
            pass
        m = ex.merge_states(latch)
        if m is None:
            return out
        if exits and not ex.light and it >= 3 and len(out) > 3:
            pass
        cur = m
        if exits and (ex.light or it >= 5):
            break
    del ex.obls[mark:]
    return None


# ---------------------------------------------------------------------------- light analysis
def xval(ex, tag, x0, v, name, args, sgn=None):
    """symbolic value for a loop-carried cell"""
    if tag == 'ptr':
        blk = None
        if isinstance(x0, PV) and len(x0.alts) == 1:
            blk = x0.alts[0][1]
        elif isinstance(v, PV) and len(v.alts) == 1:
            blk = v.alts[0][1]
        from .exec import WILD
        return PV([(TRUE, blk if blk is not None else WILD, App(name, args))])
    return ex.mkval(tag, lambda s, l, h: App(name, args, s, l, h), sgn)


def polyof(v):
    if isinstance(v, (IV, FV)):
        return v.p
    if isinstance(v, PV) and len(v.alts) == 1:
        return v.alts[0][2]
    return None


def analyse(ex, fr, L, st0, ret):
    ex.light += 1
    saved_line = ex.cur_line
    info = Info()
    nsym = fresh('n', INT, 0)
    info.nsym = nsym
    ex.loopstack.append(nsym)
    try:
        meta, x0s, vals = {}, {}, {}
        arr = {}
        sgn = {}
        for rnd in range(7):
            s = st0.copy()
            X = {}
            for k, (z, t) in meta.items():
                X[k] = xval(ex, t, x0s[k], vals.get(k), 'X!%s' % ex.cnt(), [nsym], sgn.get(k))
                setcell(s, k, z, t, X[k])
            for b in arr:
                add_lp(ex, s, b, 0, nsym, [], ())
            latch, exits = ex.run_region(fr, L.header, s.copy(), L, ret)
            m = ex.merge_states(latch)
            if m is None:
                if rnd == 0 and False:
                    return None
                if not exits and not latch:
                    return None
                return None
            changed = False
            for b in list(m.mem):
                if b not in st0.mem and b.kind not in ('heap', 'stack'):
                    st0.bs(b)
            for b in st0.mem:
                if b not in m.mem:
                    continue
                mb, sb = m.mem[b], s.bs(b)
                if mb is sb:
                    continue
                if len(mb.chain) != len(sb.chain) and b not in arr:
                    arr[b] = True
                    changed = True
                for off, (z, t, v) in mb.cells.items():
                    o = sb.cells.get(off)
                    k = (b, off)
                    if o is not None and same_val(o[2], v) and o[0] == z:
                        continue
                    vals[k] = v
                    if k not in meta:
                        meta[k] = (z, t)
                        x0s[k] = key_x0(ex, st0, k, (z, t))
                        changed = True
                    if isinstance(v, IV) and sgn.get(k) != v.s and k in X and not isinstance(X[k], IV):
                        pass
                # cells that were flushed by a symbolic write: flush them before the loop
                gone = [off for off in sb.cells if off not in mb.cells]
                if gone:
                    ex.flush_all(st0, b)
                    for k in [k for k in meta if k[0] is b]:
                        meta.pop(k)
                        x0s.pop(k)
                    changed = True
            if not changed:
                break
        else:
            raise Unsupported('loop at line %s: modified cells do not stabilise' % L.line)
        # cells that looked modified in an early round but are not
        for k in list(meta):
            c = m.mem[k[0]].cells.get(k[1]) if k[0] in m.mem else None
            if k in X and c is not None and same_val(c[2], X[k]) and x0s[k] is UNDEF:
                meta.pop(k)
                x0s.pop(k)
                X.pop(k)
        # classification
        xat = {}
        for k in meta:
            p = polyof(X[k]) if k in X else None
            if p is not None:
                a = p.as_atom()
                if a is not None:
                    xat[k] = a.id
        allx = set(xat.values())
        nid = nsym.as_atom().id
        for k, (z, t) in meta.items():
            info.meta[k] = (z, t)
            c = m.mem[k[0]].cells.get(k[1])
            v = c[2] if c is not None else UNDEF
            x0 = x0s[k]
            info.sgn[k] = None
            if isinstance(v, IV):
                info.sgn[k] = v.s
                if isinstance(x0, IV) and x0.s != v.s and not (x0.p.const() is not None and x0.p.const() >= 0):
                    info.sgn[k] = x0.s
            if isinstance(v, PV) and len(v.alts) == 1 and isinstance(x0, PV) and len(x0.alts) == 1 and \
                    v.alts[0][1] is x0.alts[0][1] and v.alts[0][1] is not None and isinstance(X[k], PV):
                d = v.alts[0][2] - X[k].alts[0][2]
                if not (pfree(d) & (allx | {nid})):
                    info.kind[k] = 'ind'
                    info.delta[k] = d
                    continue
            if isinstance(v, (IV, FV)) and isinstance(x0, (IV, FV)) and isinstance(X[k], (IV, FV)):
                d = v.p - X[k].p
                if not (pfree(d) & (allx | {nid})):
                    info.kind[k] = 'ind'
                    info.delta[k] = d
                    continue
            p = polyof(v)
            if p is None or k not in xat or xat[k] not in pfree(p):
                info.kind[k] = 'tmp'
            else:
                info.kind[k] = 'rec'
        # second pass with closed forms: footprints and trip count
        for b in arr:
            info.foot[b] = []
        info.x0 = x0s
        for rep in range(3):
            s, X = entry_state(ex, st0, info, nsym, 0)
            nbr = len(s.br)
            latch, exits = ex.run_region(fr, L.header, s.copy(), L, ret)
            m = ex.merge_states(latch)
            if m is None:
                return None
            # late classification: variables that became linear once others are closed
            again = False
            allx2 = set()
            for k in info.kind:
                if info.kind[k] != 'ind' and k in X and polyof(X[k]) is not None:
                    a = polyof(X[k]).as_atom()
                    if a is not None:
                        allx2.add(a.id)
            for k in list(info.kind):
                if info.kind[k] == 'rec':
                    v = m.mem[k[0]].cells.get(k[1])
                    if v is None:
                        continue
                    v = v[2]
                    pv, px = polyof(v), polyof(X[k])
                    if pv is None or px is None or type(v) is not type(X[k]) or type(x0s[k]) is not type(v):
                        continue
                    if isinstance(v, PV) and v.alts[0][1] is not X[k].alts[0][1]:
                        continue
                    d = pv - px
                    if not (pfree(d) & (allx2 | {nid})):
                        info.kind[k] = 'ind'
                        info.delta[k] = d
                        again = True
                    else:
                        ids = pfree(d) & allx2
                        if not ids:
                            info.accrange[k] = prange(d)
            if not again:
                break
        for b in info.foot:
            if b in m.mem:
                info.foot[b] = list(m.mem[b].chain[len(s.mem[b].chain):])
                info.bounds[b] = acc_bounds(ex, info.foot[b])
        Ts = trip_counts(ex, m, exits, nbr, nsym)
        info.T = Ts
        return info
    finally:
        ex.loopstack.pop()
        ex.light -= 1
        ex.cur_line = saved_line


def acc_bounds(ex, nodes):
    """bounds of the change of one cell per iteration, when all nodes are accumulations"""
    lo = hi = 0
    for nd in nodes:
        if nd.mod or (isinstance(nd.val, IV) and nd.val.s == 'm'):
            return None
        if nd.kind == 'A':
            d = nd.val
        elif nd.kind == 'W' and isinstance(nd.val, (IV, FV)):
            d = acc_split(nd, None)
            if d is None:
                return None
            d = d[1]
        else:
            return None
        l, h = prange(d)
        mult = ONE
        for s, t, _ in nd.binders:
            mult = mult * t
        if nd.kind == 'W':
            mult = ONE
        lo = (min(0, l) * mult + lo) if (l is not None and lo is not None) else None
        hi = (max(0, h) * mult + hi) if (h is not None and hi is not None) else None
    return (lo, hi)


def setcell(s, key, size, tag, v):
    b, off = key
    bs = s.bs(b)
    cells = dict(bs.cells)
    cells[off] = (size, tag, v)
    s.mem[b] = BS(cells, bs.chain, bs.freed)


def add_lp(ex, s, b, loopid, nsym, foot, args):
    from .exec import LPInfo, LPRef
    bs = s.bs(b)
    lp = LPInfo(loopid, b, nsym, foot, args)
    s.mem[b] = BS(bs.cells, bs.chain + (Node('LP', lp=LPRef(lp, nsym)),), bs.freed)
    return lp


def entry_state(ex, st, info, n, loopid):
    """state at the start of iteration n (n already on the loop stack)"""
    s = st.copy()
    X = {}
    args = list(ex.loopstack)
    for k, kind in info.kind.items():
        z, t = info.meta[k]
        x0 = info.x0[k]
        if kind == 'ind':
            d = info.delta[k]
            if isinstance(x0, PV):
                v = PV([(TRUE, x0.alts[0][1], x0.alts[0][2] + n * d)])
            elif isinstance(x0, IV):
                v = IV(x0.p + n * d, x0.w, info.sgn.get(k) or x0.s)
            else:
                v = FV(x0.p + n * d, x0.w)
            setcell(s, k, z, t, v)
            X[k] = v
        else:
            if kind == 'tmp' and x0 is UNDEF and False:
                pass
            nm = 'X%s.%d.%d' % (loopid, k[0].id, k[1]) if loopid else 'X!%s' % ex.cnt()
            if t.startswith('agg'):
                v = UNDEF
            else:
                v = xval(ex, t, x0, None, nm, args, info.sgn.get(k))
                if kind == 'tmp' and t == 'ptr':
                    from .exec import WILD
                    v = PV([(TRUE, WILD, App(nm, args))])
            setcell(s, k, z, t, v)
            X[k] = v
    for b, foot in info.foot.items():
        f = foot
        if f:
            f = [x.subst(Subst({info.nsym.as_atom().id: n})) if info.nsym is not n else x for x in f]
        lp = add_lp(ex, s, b, loopid, n, f, tuple(args[:-1]))
        lp.bounds = info.bounds.get(b)
    return s, X


def solve_T(ex, lit, n, m):
    """least k>=0 with not lit(k), when lit is linear in n and monotone"""
    nid = n.as_atom().id
    if lit.op == 'le':
        p = lit.a
        c = ex.lin_coef(p, nid)
        if c is None or not c.t:
            return None
        alpha = subst(p, {nid: ZERO})
        k = c.const()
        if k is not None:
            if k < 0:
                return None
            return FDiv(-alpha, P(k)) + 1
        l, h = prange(c)
        if l is not None and l >= 1:
            return FDiv(-alpha, c) + 1
        return None
    if lit.op == 'lt':
        return None
    if lit.op == 'not' and lit.a.op == 'eq':
        p = lit.a.a
        c = ex.lin_coef(p, nid)
        if c is None or c.const() is None or c.const() == 0:
            return None
        k = c.const()
        alpha = subst(p, {nid: ZERO})
        if abs(k) == 1:
            return -alpha * (1 if k == 1 else -1)
        if all(isinstance(x, int) and x % k == 0 for x in alpha.t.values()):
            return mkpoly({mm: -x // k for mm, x in alpha.t.items()})
        return None
    return None


def trip_counts(ex, m, exits, nbr, nsym):
    """candidates for the number of iterations"""
    Ts = []
    for l in solver._conj(m.br[nbr:]):
        t = solve_T(ex, l, nsym, m)
        if t is not None and all(t is not u for u in Ts):
            Ts.append(t)
    # a literal exit condition may be hidden behind a disjunction; also look at the exits
    for pr, tg, e in exits:
        el = solver._conj(e.br[nbr:])
        if len(el) >= 1:
            for l in el[-1:]:
                t = solve_T(ex, Not(l), nsym, m)
                if t is not None and all(t is not u for u in Ts):
                    Ts.append(t)
    return Ts


def acc_split(nd, loopid):
    """W node whose value is lm(...,n,off) + delta -> (lm atom, delta) or None"""
    v = nd.val
    if not isinstance(v, (IV, FV)):
        return None
    for mm, c in v.p.t.items():
        if len(mm) == 1 and c == 1:
            a = ATOMS[mm[0]]
            if a.kind == 'app' and a.data[0].startswith('lm') and a.data[-1] is nd.off and \
                    (loopid is None or a.data[0].startswith('lm%s.' % loopid)):
                d = v.p - P(a)
                pref = a.data[0].split(':')[0]
                if any(ATOMS[x].kind == 'app' and ATOMS[x].data[0].split(':')[0] == pref for x in pfree(d)):
                    return None
                if any(ATOMS[x].kind == 'app' and ATOMS[x].data[0].split(':')[0] == pref for x in bfree(nd.guard)):
                    return None
                return a, d
    return None


# ---------------------------------------------------------------------------- verified summary
def same_foot(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x.kind != y.kind or len(x.binders) != len(y.binders):
            return False
        m = {}
        for (s1, t1, _), (s2, t2, _) in zip(x.binders, y.binders):
            t2 = subst(t2, m)
            if t1 is not t2:
                return False
            m[s2.as_atom().id] = s1
        S = Subst(m)
        if S.poly(y.off) is not x.off or S.poly(y.size) is not x.size or S.b(y.guard) is not x.guard:
            return False
    return True


def summary(ex, fr, L, st, ret, info):
    light = ex.light
    loopid = ('l%d' % next(_lid)) if light else ex.loop_id(L, st)
    n = Sym('n%s_%s' % (L.line, loopid), INT, 0)
    nid = n.as_atom().id
    T = None
    for t in info.T:
        T = t
        break
    if T is not None:
        T0 = subst(T, {info.nsym.as_atom().id: ZERO}) if info.nsym.as_atom().id in pfree(T) else T
        T = T0
        if not light:
            lo, hi = prange(T)
            if not (lo is not None and lo >= 0) and not ex.prove(st, Le(0, T)):
                if ex.prove(st, Le(T, 0)):
                    T = ZERO
                else:
                    T = Ite(Le(0, T), T, 0)
    outer = list(ex.loopstack)
    Topq = None
    ex.loopstack.append(n)
    saved_line = ex.cur_line
    try:
        s, X = entry_state(ex, st, info, n, loopid)
        if T is not None and not light:
            s.assume(Le(n, T))
        invs = []
        if not light:
            if not info.invs_done:
                info.cands = None
            for mk in info.invs:
                b = mk(X, n)
                invs.append(b)
                s.assume(b)
        nbr = len(s.br)
        nf = len(s.facts)
        s_in = s.copy()
        latch, exits = ex.run_region(fr, L.header, s, L, ret)
        m = ex.merge_states(latch)
        if m is None:
            Sz = Subst({nid: ZERO})
            return [(p, t, fix_exit_noloop(ex, e, Sz, s_in)) for p, t, e in exits]
        # ---- verify the guess
        if not light:
            if not verify_step(ex, fr, L, st, info, s_in, X, m, n, T):
                return None
            if not info.invs_done:
                info.invs_done = True
                c = gen_invs(ex, st, info, X, m, exits, nbr, n)
                if c:
                    info.invs = c
                    return None
            else:
                keep = []
                drop = False
                for mk, b in zip(info.invs, invs):
                    b2 = inv_next(ex, info, mk, m, n)
                    if b2 is None or not solver.prove(m.pc(), b2, ms=1000, nia=False):
                        drop = True
                    else:
                        keep.append(mk)
                if drop:
                    dbg('dropped', [show_b(b) for b in invs], [show_b(inv_next(ex, info, mk, m, n)) for mk in info.invs])
                    info.invs = keep
                    return None
        # ---- trip count
        exact = False
        if T is not None:
            if light:
                exact = True
            else:
                okb = solver.prove(m.pc(), Lt(n, T))          # a back edge is never taken at n = T
                if not okb:
                    # maybe another candidate
                    tried = info.__dict__.setdefault('tried', [])
                    tried.append(T)
                    info.T = [t for t in info.T[1:] + trip_counts(ex, m, exits, nbr, n) if all(t is not u for u in tried)]
                    return None
                exact = all(solver.prove(e.pc(), Le(T, n)) for p, t, e in exits)
        if exact:
            Tn = T
        else:
            Tn = App('T%s' % loopid, outer, INT, 0)
            Topq = Tn
            if not light and T is None:
                if not ranking(ex, info, X, m, n, st):
                    ex.cur_line = L.line
                    ex.oblige(st, FALSE, 'termination', 'no ranking function found for the loop')
        return finish(ex, fr, L, st, info, s_in, X, m, exits, n, T, Tn, exact, loopid, nbr, outer, nf)
    finally:
        ex.loopstack.pop()


def fix_exit_noloop(ex, e, Sz, s_in):
    e = e.subst(Sz)
    for b, bs in list(e.mem.items()):
        if any(x.kind == 'LP' for x in bs.chain):
            e.mem[b] = BS(bs.cells, tuple(x for x in bs.chain if x.kind != 'LP'), bs.freed)
    return e


def val_eq(ex, st, a, b):
    if same_val(a, b):
        return True
    if isinstance(a, IV) and isinstance(b, IV):
        pa, pb = (a.p, b.p) if a.s == b.s else (ex.as_u(st, a), ex.as_u(st, b))
        return pa is pb or solver.prove(st.pc(), Eq(pa, pb))
    if isinstance(a, FV) and isinstance(b, FV):
        return a.p is b.p or solver.prove(st.pc(), Eq(a.p, b.p))
    if isinstance(a, PV) and isinstance(b, PV) and len(a.alts) == 1 and len(b.alts) == 1:
        return a.alts[0][1] is b.alts[0][1] and (a.alts[0][2] is b.alts[0][2] or
                                                solver.prove(st.pc(), Eq(a.alts[0][2], b.alts[0][2])))
    return False


def verify_step(ex, fr, L, st, info, s, X, m, n, T):
    ok = True
    for b in m.mem:
        if b in s.mem:
            continue
        if b.kind not in ('heap', 'stack'):
            st.bs(b)
            ok = False
        elif b.kind == 'heap':
            if m.mem[b].freed is not TRUE and not solver.prove(m.pc(), m.mem[b].freed):
                raise Unsupported('memory allocated in the loop at line %s outlives its iteration' % L.line)
    # induction variables and newly modified cells
    for b in s.mem:
        if b not in m.mem:
            continue
        mb, sb = m.mem[b], s.mem[b]
        if mb is sb:
            continue
        if mb.freed is not sb.freed:
            raise Unsupported('memory freed inside a loop (line %s)' % L.line)
        for off, (z, t, v) in mb.cells.items():
            o = sb.cells.get(off)
            k = (b, off)
            if k in info.kind:
                continue
            if o is not None and same_val(o[2], v):
                continue
            info.meta[k] = (z, t)
            info.x0[k] = key_x0(ex, st, k, (z, t))
            info.kind[k] = 'rec'
            info.sgn[k] = v.s if isinstance(v, IV) else None
            ok = False
        if len(mb.chain) > len(sb.chain) and b not in info.foot:
            info.foot[b] = list(mb.chain[len(sb.chain):])
            info.foot[b] = [x.subst(Subst({n.as_atom().id: info.nsym})) for x in info.foot[b]]
            ok = False
        gone = [off for off in sb.cells if off not in mb.cells]
        if gone:
            ex.flush_all(st, b)
            for k in [k for k in info.kind if k[0] is b]:
                for dd in (info.kind, info.meta, info.x0, info.delta, info.sgn, info.accrange):
                    dd.pop(k, None)
            ok = False
    for k, kind in list(info.kind.items()):
        z, t = info.meta[k]
        c = m.mem[k[0]].cells.get(k[1])
        if c is None:
            raise Unsupported('loop-carried cell vanished')
        v = ex.retag(c[2], c[1], t, m)
        if kind == 'ind':
            exp = X[k]
            d = info.delta[k]
            if isinstance(exp, PV):
                e2 = PV([(TRUE, exp.alts[0][1], exp.alts[0][2] + d)])
            elif isinstance(exp, IV):
                e2 = IV(exp.p + d, exp.w, exp.s)
            else:
                e2 = FV(exp.p + d, exp.w)
            if not val_eq(ex, m, v, e2):
                info.kind[k] = 'rec'
                ok = False
            elif isinstance(exp, IV):
                # entry value must really be representable in the chosen view
                if isinstance(info.x0[k], IV) and info.x0[k].s != exp.s:
                    x0 = info.x0[k]
                    good = solver.prove(st.pc(), And(Le(0, x0.p), Lt(x0.p, 1 << (x0.w - 1))))
                    if not good:
                        info.sgn[k] = x0.s
                        info.kind[k] = 'rec'
                        ok = False
        elif kind == 'tmp':
            p = polyof(v)
            px = polyof(X[k])
            if p is not None and px is not None and px.as_atom() is not None and px.as_atom().id in pfree(p) and \
                    not isinstance(v, PV):
                info.kind[k] = 'rec'
                ok = False
            if isinstance(v, IV) and isinstance(X[k], IV) and v.s != X[k].s:
                info.sgn[k] = v.s if info.sgn.get(k) != v.s else info.sgn[k]
        else:
            if isinstance(v, IV) and isinstance(X.get(k), IV) and v.s != X[k].s:
                # representation must agree
                lo, hi = prange(v.p)
                if not ((lo is not None and lo >= 0 and hi is not None and hi < 1 << (v.w - 1)) or
                        solver.prove(m.pc(), And(Le(0, v.p), Lt(v.p, 1 << (v.w - 1))))):
                    if getattr(info, 'flip', 0) > 2:
                        raise Unsupported('signedness of loop variable')
                    info.flip = getattr(info, 'flip', 0) + 1
                    info.sgn[k] = v.s
                    ok = False
    for b, foot in info.foot.items():
        if b not in m.mem:
            continue
        new = list(m.mem[b].chain[len(s.mem[b].chain):])
        cur = [x.subst(Subst({info.nsym.as_atom().id: n})) for x in foot]
        if not same_foot(cur, new):
            info.footn = getattr(info, 'footn', 0) + 1
            dbg('foot', L.line, b, cur, '=>', new)
            if info.footn > 4:
                # give up precision: the whole block is havocked by any earlier iteration
                new2 = [Node('H', (), TRUE, ZERO, b.size)]
                if len(cur) == 1 and cur[0].kind == 'H':
                    continue
                info.foot[b] = new2
            else:
                info.foot[b] = [x.subst(Subst({n.as_atom().id: info.nsym})) for x in new]
            ok = False
        nb = acc_bounds(ex, new)
        if nb != info.bounds.get(b):
            info.nbounds = getattr(info, 'nbounds', 0) + 1
            info.bounds[b] = nb if info.nbounds < 4 else None
            if not (info.nbounds >= 4 and nb is None):
                ok = False
    return ok


def symrange(p):
    """bounds of a term whose sums run over T elements each (candidates only)"""
    lo = hi = ZERO
    for mm, c in p.t.items():
        a = ATOMS[mm[0]] if len(mm) == 1 else None
        if a is not None and a.kind == 'sum':
            l, h = symrange(a.data[2])
            l, h = (None if l is None else l * a.data[1]), (None if h is None else h * a.data[1])
        elif a is not None and a.kind == 'ite' and ZERO in a.data[1:] and prange(P(a))[1] is None:
            l, h = symrange(a.data[1] if a.data[2] is ZERO else a.data[2])
            (lc, hc) = (None if l is None else l.const()), (None if h is None else h.const())
            l = l if lc is None or lc <= 0 else ZERO
            h = h if hc is None or hc >= 0 else ZERO
        else:
            l, h = prange(mkpoly({mm: 1}))
            l, h = (None if l is None else P(l)), (None if h is None else P(h))
        if c < 0:
            l, h = h, l
        lo = None if l is None or lo is None else lo + l * c
        hi = None if h is None or hi is None else hi + h * c
    return lo, hi


def xatoms(info, X):
    r = {}
    for k, kind in info.kind.items():
        if kind != 'ind' and k in X:
            p = polyof(X[k])
            if p is not None and p.as_atom() is not None:
                r[k] = p.as_atom().id
    return r


def gen_invs(ex, st, info, X, m, exits, nbr, n):
    """candidate invariants for non-closed integer variables (checked at entry here; inductiveness by retry)"""
    recs = [k for k, kd in info.kind.items() if kd == 'rec' and isinstance(X.get(k), (IV, FV))]
    ptrs = [k for k, kd in info.kind.items() if kd == 'rec' and isinstance(X.get(k), PV)]
    if not recs and not ptrs:
        return []
    out = []
    xa = xatoms(info, X)
    ids = {xa[k]: k for k in xa}

    nid = n.as_atom().id
    n2 = fresh('nn', INT, 0)
    S2 = Subst({nid: n2})
    X2 = {}
    for k in info.kind:
        v = X.get(k)
        X2[k] = v.subst(S2) if hasattr(v, 'subst') else v

    def add(mk):
        # a candidate speaks about the iteration only through its arguments
        probe = mk(X2, n2)
        if nid in bfree(probe):
            return
        b0 = mk({k: info.x0[k] for k in info.kind}, ZERO)
        if b0 is TRUE or (b0 is not FALSE and solver.prove(st.pc(), b0, ms=1000, nia=False)):
            out.append(mk)

    def atx(k, f):
        def mk(XX, nn, k=k, f=f):
            v = XX[k]
            p = polyof(v)
            if p is None:
                return TRUE
            return f(p, nn)
        return mk
    for k in recs + ptrs:
        x0 = info.x0[k]
        p0 = polyof(x0)
        if p0 is None:
            continue
        r = info.accrange.get(k)
        if r:
            l, h = r
            if l is not None:
                add(atx(k, lambda p, nn, l=l, p0=p0: Le(p0 + nn * l, p)))
            if h is not None:
                add(atx(k, lambda p, nn, h=h, p0=p0: Le(p, p0 + nn * h)))
        add(atx(k, lambda p, nn, p0=p0: Le(p0, p)))
        add(atx(k, lambda p, nn, p0=p0: Le(p, p0)))
        add(atx(k, lambda p, nn: Le(0, p)))
        v = m.mem[k[0]].cells[k[1]][2]
        pv = polyof(v)
        # an accumulator of sums: its closed form
        dbg('acc?', k[0].name, pv is not None and show(pv), X.get(k), ids)
        if pv is not None and isinstance(X.get(k), IV):
            w = pv - X[k].p
            fw = pfree(w)
            if not (fw & set(ids)):
                l, h = symrange(w)
                for q, up in ((l, False), (h, True)):
                    if q is not None and q.const() is None and nid not in pfree(q):
                        add(atx(k, lambda p, nn, q=q, up=up, p0=p0: Le(p, p0 + nn * q) if up else Le(p0 + nn * q, p)))
            if (ex.contents or any(ATOMS[a].kind == 'sum' or (ATOMS[a].kind == 'ite' and any(ATOMS[x].kind == 'sum' for x in pfree(w))) for a in w.atoms())) and not (fw & set(ids)) and \
                    not any(ATOMS[a].kind == 'app' and ATOMS[a].data[0].startswith('lm') for a in fw):
                add(atx(k, lambda p, nn, p0=p0, w=w: Eq(p, p0 + subst(prefix_sum(n, w), {nid: nn}))))
        # value range of what is assigned (ite leaves)
        leaves = set()

        def coll(p, d=0):
            a = p.as_atom()
            if a is not None and a.kind == 'ite' and d < 8:
                coll(a.data[1], d + 1)
                coll(a.data[2], d + 1)
            else:
                leaves.add(p)
        if pv is not None:
            # common linear offset + ite
            its = [a for a in pv.atoms() if ATOMS[a].kind == 'ite']
            if len(its) == 1:
                a = ATOMS[its[0]]
                rest = pv - P(a)
                for br in (a.data[1], a.data[2]):
                    coll(br + rest)
            else:
                coll(pv)
        los, his = [], []
        pl = prange(p0)
        los.append(pl[0])
        his.append(pl[1])
        for lf in leaves:
            if xa.get(k) in lf.atoms():
                continue
            l, h = prange(lf)
            los.append(l)
            his.append(h)
        if all(x is not None for x in los):
            c = min(los)
            add(atx(k, lambda p, nn, c=c: Le(c, p)))
        if all(x is not None for x in his):
            c = max(his)
            add(atx(k, lambda p, nn, c=c: Le(p, c)))
        for k2 in recs:
            if k2 is not k and isinstance(X[k2], IV) and isinstance(X[k], IV):
                def mk2(XX, nn, a=k, b=k2):
                    pa, pb = polyof(XX[a]), polyof(XX[b])
                    if pa is None or pb is None:
                        return TRUE
                    return Le(pa, pb)
                add(mk2)
        # literals compared with the variable
        lits = set()
        for s2 in [m] + [e for _, _, e in exits]:
            for b in s2.br[nbr:]:
                lits |= solver.vis_b(b)[2]
        for cell in m.mem[k[0]].cells.values():
            pass
        for pth in [polyof(m.mem[kk[0]].cells[kk[1]][2]) for kk in recs + ptrs if kk[1] in m.mem[kk[0]].cells]:
            if pth is not None:
                for a in pfree(pth):
                    if ATOMS[a].kind == 'ite':
                        lits |= solver.vis_b(ATOMS[a].data[0])[2]
        # searches in constant tables: the comparison just made holds (or fails) at this position
        for b in sorted(lits, key=lambda x: x.id)[:20]:
            if b.op != 'le' or not isinstance(X[k], IV):
                continue
            for aid in b.a.atoms():
                a = ATOMS[aid]
                if a.kind != 'app' or a.data[0] not in TABS or (set(ids) | {nid}) & pfree(b.a - P(a) * b.a.t.get((aid,), 0)):
                    continue
                for l in (b, Not(b)):
                    def at(i, l=l, aid=aid, a=a):
                        return bsubst(l, {aid: Tab(TABS[a.data[0]][0], i)})
                    add(atx(k, lambda p, nn, at=at: at(p)))
                    add(atx(k, lambda p, nn, at=at: Or(Le(p, 0), at(p - 1))))
        for b in list(lits)[:20]:
            if b.op not in ('le', 'eq'):
                continue
            fr = pfree(b.a)
            if xa.get(k) not in b.a.atoms():
                continue
            if (fr & set(ids)) - {xa[k]} or n.as_atom().id in pfree(b.a - P(ATOMS[xa[k]]) * b.a.t.get((xa[k],), 0)):
                continue
            c = b.a.t.get((xa[k],))
            if c not in (1, -1):
                continue
            rest = b.a - P(ATOMS[xa[k]]) * c
            bound = -rest if c == 1 else rest
            for dlt in (-1, 0, 1):
                add(atx(k, lambda p, nn, q=bound + dlt: Le(p, q)))
                add(atx(k, lambda p, nn, q=bound + dlt: Le(q, p)))
    for f in ex.hints:
        # invariants named by the contract
        for k in recs:
            if isinstance(X[k], IV) and isinstance(info.x0[k], IV):
                add(atx(k, lambda p, nn, f=f, p0=polyof(info.x0[k]): f(p, p0)))
    return out[:60]


def inv_next(ex, info, mk, m, n):
    XX = {}
    for k in info.kind:
        c = m.mem[k[0]].cells.get(k[1])
        XX[k] = c[2] if c is not None else UNDEF
        # closed-form ones are consistent already
    return mk(XX, n + 1)


def ranking(ex, info, X, m, n, st):
    cands = []
    ks = [k for k in info.kind if isinstance(X.get(k), (IV, PV))]
    cur = {k: polyof(X[k]) for k in ks}
    nxt = {}
    for k in ks:
        c = m.mem[k[0]].cells.get(k[1])
        nxt[k] = polyof(c[2]) if c is not None else None
    ks = [k for k in ks if cur[k] is not None and nxt[k] is not None]
    for k in ks:
        cands.append((cur[k], nxt[k]))
        cands.append((-cur[k], -nxt[k]))
    for a in ks:
        for b in ks:
            if a is not b:
                cands.append((cur[a] - cur[b], nxt[a] - nxt[b]))
    # literals of the loop condition as measures
    for l in list(m.br)[-6:]:
        for q in solver._conj([l]):
            if q.op == 'le':
                mp = {}
                for k in ks:
                    a = cur[k].as_atom()
                    if a is not None:
                        mp[a.id] = nxt[k]
                mp[n.as_atom().id] = n + 1
                cands.append((-q.a, subst(-q.a, mp)))
    for mu, mu2 in cands:
        if solver.prove(m.pc(), Lt(mu2, mu), ms=1000, nia=False) and solver.prove(m.pc(), Le(0, mu), ms=1000, nia=False):
            return True
    # measures named by the contract
    for f in ex.rank_hints:
        for k in ks:
            mu, mu2 = f(cur[k]), f(nxt[k])
            if solver.prove(m.pc(), And(Lt(mu2, mu), Le(0, mu)), ms=3000):
                return True
    return False


def finish(ex, fr, L, st, info, s, X, m, exits, n, T, Tn, exact, loopid, nbr, outer, nf):
    light = ex.light
    nid = n.as_atom().id
    xa = xatoms(info, X)
    latchv = {}
    for k in info.kind:
        c = m.mem[k[0]].cells.get(k[1])
        latchv[k] = ex.retag(c[2], c[1], info.meta[k][1], m) if c is not None else UNDEF
    lmpref = 'lm%s.' % loopid

    def has_lm(p):
        return any(ATOMS[a].kind == 'app' and ATOMS[a].data[0].startswith(lmpref) for a in pfree(p))
    # closed forms of recurrences
    closed = {}
    recs = [k for k in info.kind if info.kind[k] == 'rec' and k in xa]
    recid = {xa[k]: k for k in recs}
    # tmp values first (may appear inside rec values)
    tmps = [k for k in info.kind if info.kind[k] == 'tmp' and k in xa and isinstance(latchv[k], (IV, FV))]
    tmpsub = {}
    if not light:
        for k in tmps:
            g = latchv[k].p
            used = any(xa[k] in pfree(polyof(latchv[j])) for j in info.kind if polyof(latchv[j]) is not None)
            x0 = info.x0[k]
            if (pfree(g) & set(xa.values())) or has_lm(g):
                continue
            gm1 = subst(g, {nid: n - 1})
            if isinstance(x0, (IV, FV)):
                p0 = x0.p
                tmpsub[xa[k]] = Ite(Eq(n, 0), p0, gm1)
            else:
                tmpsub[xa[k]] = gm1
        St = Subst(tmpsub)
        for k in recs:
            F = polyof(latchv[k])
            x0 = polyof(info.x0[k])
            if F is None or x0 is None or isinstance(X[k], PV):
                continue
            F = St.poly(F)
            w = F - P(ATOMS[xa[k]])
            others = pfree(w) & set(xa.values())
            if has_lm(F):
                continue
            if not others:
                closed[k] = x0 + Sum(n, n_upper(n), w) if False else (x0, w)
        # iterate: rec variables whose step depends only on closed ones
        changed = True
        subs = {}
        while changed:
            changed = False
            for k in recs:
                if k in closed and not isinstance(closed[k], tuple):
                    continue
                if k in closed:
                    x0, w = closed[k]
                    closed[k] = x0 + prefix_sum(n, w)
                    subs[xa[k]] = closed[k]
                    changed = True
            S2 = Subst(subs) if subs else None
            for k in recs:
                if k in closed or S2 is None:
                    continue
                F = polyof(latchv[k])
                x0 = polyof(info.x0[k])
                if F is None or x0 is None or isinstance(X[k], PV):
                    continue
                F = S2.poly(St.poly(F))
                w = F - P(ATOMS[xa[k]])
                if has_lm(F):
                    continue
                if not (pfree(w) & set(xa.values())):
                    closed[k] = (x0, w)
                    changed = True
        # remaining: folds over the dependency closure
        for k in recs:
            if k in closed:
                continue
            grp = [k]
            okg = True
            i = 0
            Fs = {}
            while i < len(grp):
                kk = grp[i]
                i += 1
                F = polyof(latchv[kk])
                x0 = polyof(info.x0[kk])
                if F is None or x0 is None or isinstance(X[kk], PV) or not isinstance(info.x0[kk], (IV, FV)):
                    okg = False
                    break
                F = St.poly(F)
                if subs:
                    F = Subst(subs).poly(F)
                if has_lm(F):
                    okg = False
                    break
                Fs[kk] = F
                for a in pfree(F) & set(xa.values()):
                    if a not in recid:
                        okg = False
                        break
                    if recid[a] not in grp:
                        grp.append(recid[a])
                if not okg:
                    break
            if okg and len(grp) <= 4:
                grp.sort(key=lambda q: (q[0].id, q[1]))
                # the bound index inside the fold must not clash with n used as its length
                mm = fresh('fi', INT, 0)
                comps = []
                for q in grp:
                    y = fresh('fx', X[q].p.sort)
                    comps.append((q, y))
                Sx = Subst({**{xa[q]: y for q, y in comps}, nid: mm})
                dbg('fold', k[0].name, show(Fs[k]), [show_b(x) for x in m.facts[-8:]] if hasattr(m, 'facts') else '', [show_b(x) for x in m.br[-5:]])
                closed[k] = Fold([(y, Sx.poly(Fs[q])) for q, y in comps], [polyof(info.x0[q]) for q in grp], mm, n,
                                 grp.index(k))
    sub1 = {}
    if not light:
        for k in recs:
            if k in closed and isinstance(closed[k], Poly):
                sub1[xa[k]] = closed[k]
        S0 = Subst(sub1)
        for a, p in tmpsub.items():
            sub1[a] = S0.poly(p)
    S1 = Subst(sub1)
    # ---- memory: generalise the writes of one iteration
    gen = {}
    for b in info.foot:
        if b not in m.mem:
            continue
        suffix = m.mem[b].chain[len(s.mem[b].chain):]
        if info.foot[b] and info.foot[b][0].kind == 'H' and not light:
            gen[b] = ('H', suffix)
            continue
        nodes = []
        for nd in suffix:
            nd = nd.subst(S1)
            if nd.kind == 'W':
                a = acc_split(nd, loopid)
                if a is not None and (not light or nid not in pfree(nd.off) or ex.lin_coef(nd.off, nid) is None):
                    nd = nd.copy(kind='A', val=a[1], mod=isinstance(nd.val, IV) and nd.val.s == 'm')
            nodes.append(nd)
        gen[b] = ('N', nodes)

    def build(b, upper, pre_bs, facts):
        """nodes for iterations 0..upper-1, to be appended after the pre-loop chain"""
        kind, nodes = gen[b]
        out = []
        if kind == 'H':
            return (Node('H', (), TRUE, ZERO, b.size),)
        for nd in nodes:
            mm = Sym('i%s' % loopid, INT, 0)
            if nd.kind == 'A' and nid not in pfree(nd.off) and not any(nid in pfree(t) for _, t, _ in nd.binders) and \
                    len(nodes) == 1 and not light:
                # same cells every iteration: collapse to one store of old + sum
                fx = list(facts) + [Lt(sy, t) for sy, t, _ in nd.binders]
                z = nd.size.const()
                if z is not None and all(sy.as_atom().id in pfree(nd.off) for sy, _, _ in nd.binders):
                    old = ex.rd(fx, b, pre_bs.chain + cells_nodes(pre_bs), len(pre_bs.chain) + len(pre_bs.cells) - 1, nd.off,
                                nd.tag, z)
                    if isinstance(old, (IV, FV)):
                        body = nd.val if nd.guard is TRUE else Ite(nd.guard, nd.val, 0)
                        tot = old.p + Sum(mm, upper, subst(body, {nid: mm}))
                        v = IV(tot, old.w, 'm' if nd.mod or old.s == 'm' else old.s) if isinstance(old, IV) else FV(tot, old.w)
                        out.append(nd.copy(kind='W', val=v, guard=TRUE))
                        continue
            if nd.kind in ('W', 'C', 'Z') and nid not in pfree(nd.off) and nid not in pfree(nd.size) and \
                    nid not in bfree(nd.guard) and not any(nid in pfree(t) for _, t, _ in nd.binders) and len(nodes) == 1:
                last = nd.subst(Subst({nid: upper - 1}))
                last = fixsnap_node(last)
                out.append(last.copy(guard=And(last.guard, Gt(upper, 0))))
                continue
            g = nd.subst(Subst({nid: mm}))
            g = fixsnap_node(g)
            g.binders = ((mm, upper, loopid),) + g.binders if g is not nd else ((mm, upper, loopid),) + nd.binders
            if g is nd:
                g = nd.copy(binders=((mm, upper, loopid),) + nd.binders)
            out.append(g)
        return tuple(out)

    def cells_nodes(bs):
        return tuple(Node('W', (), TRUE, P(k), P(z), x, t) for k, (z, t, x) in sorted(bs.cells.items()))

    memo_snap = {}

    def fixsnap_bs(b, bs):
        if not any(x.kind == 'LP' and x.lp.lp.loopid == loopid for x in bs.chain) and \
                not any(x.kind == 'C' for x in bs.chain):
            return bs
        out = []
        for x in bs.chain:
            if x.kind == 'LP' and x.lp.lp.loopid == loopid:
                out.extend(build(b, x.lp.n, BS({}, tuple(out)), []))
            else:
                out.append(fixsnap_node(x))
        return BS(bs.cells, tuple(out), bs.freed)

    def fixsnap_node(nd):
        if nd.kind != 'C':
            return nd
        sb, snap = nd.src
        k = id(snap)
        r = memo_snap.get(k)
        if r is None:
            r = (fixsnap_bs(sb, snap), snap)
            memo_snap[k] = r
        if r[0] is snap:
            return nd
        return nd.copy(src=(sb, r[0]))

    # ---- exit states
    results = []
    feas = exits
    search = None
    if not light and not exact and T is not None:
        search = search_loop(feas, T, n, nbr, S1, set(xa.values()), has_lm)
    ST0 = Subst({nid: Tn})
    for pr, tg, e in feas:
        ST = ST0
        found = search is not None and search[1].get(id(e))
        if search is not None and not found:
            ST = Subst({nid: T})          # ran to the end
        e1 = e.subst(S1)
        newmem = {}
        for b, bs in e1.mem.items():
            if b in info.foot and b in s.mem:
                idx = len(s.mem[b].chain)
                pre = st.mem[b].chain if b in st.mem else ()
                suf = bs.chain[idx:]
                sufT = tuple(fixsnap_node(x.subst(ST)) for x in suf)
                cells = {k: (z, t, v.subst(ST)) for k, (z, t, v) in bs.cells.items()}
                prebs = st.bs(b)
                newmem[b] = BS(cells, tuple(pre) + build(b, T if search is not None and not found else Tn, prebs, st.pc()) + sufT, ST.b(bs.freed))
            else:
                newmem[b] = bs.subst(ST)
                if any(x.kind == 'C' for x in newmem[b].chain):
                    newmem[b] = fixsnap_bs(b, newmem[b])
        e2 = State()
        e2.env = {k: (v.subst(ST) if v is not None else v) for k, v in e1.env.items()}
        e2.mem = newmem
        conds = [ST.b(b) for b in e1.br[nbr:]]
        fcts = [ST.b(b) for b in e1.facts]
        if exact and len(feas) == 1:
            e2.br = st.br
            fcts += conds
        elif search is not None and not found:
            e2.br = st.br + (Eq(search[0], 0),)
            fcts += conds
        elif search is not None and len(search[1]) == 1:
            e2.br = st.br + (Le(1, search[0]),)
            fcts += conds + [Lt(Tn, T)]
        else:
            e2.br = st.br + tuple(c for c in conds if c is not TRUE)
        if not exact and T is not None:
            fcts.append(Le(Tn, T))
        seen = set()
        ff = []
        for f in fcts:
            if f is TRUE or f in seen:
                continue
            seen.add(f)
            ff.append(f)
        e2.facts = tuple(ff)
        # temporaries: value left by the last iteration
        for k in info.kind:
            if info.kind[k] == 'tmp':
                c = newmem[k[0]].cells.get(k[1]) if k[0] in newmem else None
                if c is None:
                    continue
                ent = X[k]
                cur = c[2]
                entT = ent.subst(ST) if ent is not UNDEF else UNDEF
                Te = T if search is not None and not found else Tn
                if same_val(cur, entT) or (k in xa and polyof(cur) is polyof(entT) and polyof(cur) is not None):
                    g = latchv[k].subst(S1).subst(Subst({nid: Te - 1})) if latchv[k] is not UNDEF else UNDEF
                    x0 = info.x0[k]
                    if Te.const() == 0:
                        v = x0
                    else:
                        lo, _ = prange(Te)
                        pos = (lo is not None and lo >= 1) or light or solver.prove(e2.pc(), Gt(Te, 0))
                        v = g if pos else merge_val(Gt(Te, 0), g, x0)
                    z, t = info.meta[k]
                    setcell(e2, k, z, t, v)
        results.append((pr, tg, e2))
    if not light and not exact:
        # no earlier iteration left the loop: keep as a quantified fact for later instantiation
        pass
    return results


def search_loop(feas, T, n, nbr, S1, xids, has_lm):
    """a loop over 0..T-1 that also leaves as soon as some condition Q(n) holds: (number of n with Q, {exit: Q}).
    It leaves early exactly when that number is not 0, as Q depends on nothing but n and what the loop does not change"""
    norm = [e for p, t, e in feas if solver.prove(e.pc(), Le(T, n))]
    brk = [e for p, t, e in feas if all(e is not x for x in norm)]
    if len(norm) != 1 or not brk or not all(solver.prove(e.pc(), Lt(n, T)) for e in brk):
        return None
    q = {}
    for e in brk:
        c = [S1.b(b) for b in e.br[nbr:]]
        if not c:
            return None
        for b in c:
            if bfree(b) & xids or has_lm_b(b, has_lm):
                return None
        q[id(e)] = And(*c)
    c = Or(*q.values())
    lit = Lt(n, T)
    if lit is not TRUE and lit is not FALSE:
        c = drop_lit(c, lit)
    if c.op == 'le':
        # found when a number is at least 1: add the numbers
        k = 1 - c.a if prange(1 - c.a)[0] == 0 else c.a + 1
        if Le0(1 - k) is c and prange(k)[0] is not None and prange(k)[0] >= 0:
            return Sum(n, T, k), q
    return Sum(n, T, Ite(c, 1, 0)), q


def has_lm_b(b, has_lm):
    return has_lm(Ite(b, 1, 0))


def n_upper(n):
    return n


def prefix_sum(n, w):
    """sum_{i<n} w(i) as a term in n"""
    i = fresh('i', INT, 0)
    return Sum(i, n, subst(w, {n.as_atom().id: i}))


DEBUG = False


def dbg(*a):
    if DEBUG:
        print('   [loop]', *a)
