"""Discharging obligations:  facts |- goal.

Back end: z3 (python API).  Non-linear integer monomials are first abstracted to fresh
variables and a saturated set of *sound* product lemmas (products of known inequalities with
known non-negative monomials, mixed-radix case splits) is added, which makes index-arithmetic
obligations linear; if that is inconclusive the query is retried with real non-linear
arithmetic.  `thorough` mode re-checks each discharged query with cvc5 as well.
"""
import time
import os
from math import gcd
import z3
from .terms import *
from .terms import ATOMS
from . import terms as T_

STATS = {'queries': 0, 'unsat_linear': 0, 'unsat_nia': 0, 'trivial': 0, 'time': 0.0, 'cvc5': 0, 'cvc5_time': 0.0,
         'cvc5_disagree': 0, 'cvc5_unknown': 0}
WITNESS = []         # positions at which sums of nonnegative terms are instantiated


def _border_ax(a):
    p, n, b = a.data[1], a.data[2], P(a)
    return [Or(Le(n, 0), And(Le(0, b), Lt(b, n))), Or(Lt(p, 0), Le(n, p), Eq(b, p))]


APP_AXIOMS = {}      # fname -> fn(atom) -> list of B   (definitional axioms, instantiated per occurrence)
for _t in T_.BORDERS:
    APP_AXIOMS['border:%d' % _t] = _border_ax
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
CVC5_CHECK = [False]

_zatom = {}
_zmono = {}
_zpoly = {}
_zbool = {}
_zfun = {}


def zsort(s):
    return z3.IntSort() if s == INT else z3.RealSort()


def z_atom(a, nia=False):
    k = (a.id, nia)
    r = _zatom.get(k)
    if r is not None:
        return r
    if a.kind == 'sym':
        r = z3.Const(a.data, zsort(a.sort))
    elif a.kind == 'app':
        args = [z_poly(x, nia) for x in a.data[1:]]
        key = (a.data[0], tuple(str(x.sort()) for x in args), a.sort)
        f = _zfun.get(key)
        if f is None:
            f = z3.Function('%s/%d' % (a.data[0], len(_zfun)), *([x.sort() for x in args] + [zsort(a.sort)])) if args \
                else None
            _zfun[key] = f
        r = f(*args) if args else z3.Const(a.data[0], zsort(a.sort))
    elif a.kind == 'ite':
        c, x, y = a.data
        zx, zy = z_poly(x, nia), z_poly(y, nia)
        if a.sort == REAL:
            zx, zy = toreal(zx), toreal(zy)
        r = z3.If(z_bool(c, nia), zx, zy)
    else:
        r = z3.Const('@%d' % a.id, zsort(a.sort))
    _zatom[k] = r
    return r


def toreal(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


def z_mono(m, nia):
    if len(m) == 1:
        return z_atom(ATOMS[m[0]], nia)
    k = (m, nia)
    r = _zmono.get(k)
    if r is not None:
        return r
    real = any(ATOMS[a].sort == REAL for a in m)
    if nia:
        es = [z_atom(ATOMS[a], True) for a in m]
        if real:
            es = [toreal(e) for e in es]
        r = es[0]
        for e in es[1:]:
            r = r * e
    else:
        r = z3.Const('mono!' + '.'.join(map(str, m)), zsort(REAL if real else INT))
    _zmono[k] = r
    return r


def z_poly(p, nia=False):
    k = (p, nia)
    r = _zpoly.get(k)
    if r is not None:
        return r
    real = p.sort == REAL
    ts = []
    for m, c in p.t.items():
        if isinstance(c, int):
            cz = z3.RealVal(c) if real else z3.IntVal(c)
        else:
            cz = z3.RealVal(str(c))
        if m == ():
            ts.append(cz)
        else:
            e = z_mono(m, nia)
            if real:
                e = toreal(e)
            ts.append(e if c == 1 else cz * e)
    if not ts:
        r = z3.IntVal(0)
    elif len(ts) == 1:
        r = ts[0]
    else:
        r = z3.Sum(*ts)
    _zpoly[k] = r
    return r


def z_bool(b, nia=False):
    k = (b, nia)
    r = _zbool.get(k)
    if r is not None:
        return r
    op = b.op
    if op == 'true':
        r = z3.BoolVal(True)
    elif op == 'false':
        r = z3.BoolVal(False)
    elif op == 'le':
        r = z_poly(b.a, nia) <= 0
    elif op == 'lt':
        r = z_poly(b.a, nia) < 0
    elif op == 'eq':
        r = z_poly(b.a, nia) == 0
    elif op == 'not':
        r = z3.Not(z_bool(b.a, nia))
    elif op == 'and':
        r = z3.And(*[z_bool(x, nia) for x in b.a])
    elif op == 'or':
        r = z3.Or(*[z_bool(x, nia) for x in b.a])
    elif op == 'bsym':
        r = z3.Bool(str(b.a))
    elif op == 'bapp':
        args = [z_poly(x, nia) for x in b.a[1:]]
        key = ('B', b.a[0], tuple(str(x.sort()) for x in args))
        f = _zfun.get(key)
        if f is None:
            f = z3.Function('%s/b%d' % (b.a[0], len(_zfun)), *([x.sort() for x in args] + [z3.BoolSort()]))
            _zfun[key] = f
        r = f(*args)
    else:
        raise NotImplementedError(op)
    _zbool[k] = r
    return r


# ------------------------------------------------------------------ visible atoms / polys
_vis = {}


def vis_b(b):
    """(atoms, polys) visible in b, not descending below binders"""
    r = _vis.get(b)
    if r is not None:
        return r
    atoms, polys, lits = set(), set(), set()
    _walk_b(b, atoms, polys, lits)
    r = (frozenset(atoms), frozenset(polys), frozenset(lits))
    _vis[b] = r
    return r


def _walk_b(b, atoms, polys, lits):
    if b.op in ('le', 'lt', 'eq'):
        lits.add(b)
        _walk_p(b.a, atoms, polys, lits)
    elif b.op == 'not':
        _walk_b(b.a, atoms, polys, lits)
    elif b.op in ('and', 'or'):
        for x in b.a:
            _walk_b(x, atoms, polys, lits)
    elif b.op == 'bapp':
        for x in b.a[1:]:
            _walk_p(x, atoms, polys, lits)


def _walk_p(p, atoms, polys, lits):
    if p in polys:
        return
    polys.add(p)
    for aid in p.atoms():
        a = ATOMS[aid]
        if aid in atoms:
            continue
        atoms.add(aid)
        if a.kind == 'app':
            for x in a.data[1:]:
                _walk_p(x, atoms, polys, lits)
        elif a.kind == 'ite':
            _walk_b(a.data[0], atoms, polys, lits)
            _walk_p(a.data[1], atoms, polys, lits)
            _walk_p(a.data[2], atoms, polys, lits)
        elif a.kind in ('fdiv', 'floor', 'inv'):
            for x in a.data:
                _walk_p(x, atoms, polys, lits)


_side = {}


def side_facts(a):
    """sound defining facts for atom a"""
    r = _side.get(a.id)
    if r is not None and r[0] == (a.lo, a.hi):
        return r[1]
    out = []
    p = P(a)
    if a.lo is not None:
        out.append(_raw_le(P(a.lo) - p))
    if a.hi is not None:
        out.append(_raw_le(p - P(a.hi)))
    if a.kind == 'fdiv':
        n, d = a.data
        f = And(Le(d * p, n), Lt(n, d * p + d))
        c = d.const()
        if c is not None and c > 0:
            out.append(f)
        else:
            out.append(Implies(Gt(d, 0), f))
            out.append(Implies(And(Le(0, n), Lt(n, d)), Eq0(p)))
            out.append(Implies(And(Le(0, n), Gt(d, 0)), And(Le(0, p), Le(p, n))))
    elif a.kind == 'floor':
        n, = a.data
        out.append(And(Le0(p - n), Lt0(n - p - 1)))
    elif a.kind == 'inv':
        n, = a.data
        out.append(Or(Eq0(n), Eq0(n * p - 1)))
        out.append(Or(Le0(n), Lt0(-p)))
        out.append(Or(Le0(-n), Lt0(p)))
    elif a.kind == 'fold':
        out.extend(fold_range(a, p))
    elif a.kind == 'app':
        ax = APP_AXIOMS.get(a.data[0])
        if ax:
            out.extend(ax(a))
    _side[a.id] = ((a.lo, a.hi), out)
    return out


def fold_range(a, p):
    """every value a fold component takes is its start value or one of the values its step assigns"""
    d, T, init, fs, xs, which = a.data
    x, b = xs[which], T_.bound_sym(d)
    alts, seen, st = [Eq(p, init[which])], set(), [P(fs[which])]
    while st:
        f = st.pop()
        if f in seen:
            continue
        seen.add(f)
        if len(seen) > 24:
            return []
        at = f.as_atom()
        if f is x or f == x:
            continue
        if at is not None and at.kind == 'ite':
            st += [at.data[1], at.data[2]]
            continue
        k = (f - b).const()
        if k is not None:
            alts.append(And(Le(k, p), Le(p, T + (k - 1))))
            continue
        if f.const() is not None:
            alts.append(Eq(p, f))
            continue
        if T_.sum_depth(f) == 0 and not any(T_.mentions_atom(ATOMS[z], y.as_atom().id) for z in f.atoms() for y in xs):
            alts.append(Eq(p, f))
            continue
        l, h = T_._rng(f)
        if l is None and h is None:
            return []
        alts.append(And(Le(l, p) if l is not None else TRUE, Le(p, h) if h is not None else TRUE))
    return [Or(*alts)]


def _raw_le(p):
    """le without range-based simplification (so declared ranges reach the solver)"""
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    return T_._mkb('le', p)


def _conj(bs):
    out = []
    st = list(bs)
    while st:
        b = st.pop()
        if b.op == 'and':
            st.extend(b.a)
        elif b is not TRUE:
            out.append(b)
    return out


def saturate(facts, rounds=2, cap=500):
    """product lemmas.  facts: list of conj-split B.  returns list of B lemmas."""
    lits = []
    condl = set()
    polys = set()
    for b in facts:
        at, po, li = vis_b(b)
        polys |= po
        if b.op in ('le', 'lt', 'eq'):
            lits.append(b)
        else:
            condl |= li
    nonneg = set()
    pos = set()
    for b in lits:
        if b.op in ('le', 'lt') and len(b.a.t) - (1 if () in b.a.t else 0) == 1:
            for m, c in b.a.t.items():
                if len(m) == 1 and c < 0 and b.a.c0() >= 0:
                    nonneg.add(m[0])
                    if b.a.c0() > 0:
                        pos.add(m[0])
                elif len(m) > 1 and c < 0 and b.a.c0() > 0 and len(b.a.t) == 2 and all(x in nonneg for x in m):
                    pos.update(m)
    for p in polys:
        for aid in p.atoms():
            a = ATOMS[aid]
            if a.lo is not None and a.lo >= 0:
                nonneg.add(aid)
                if a.lo > 0:
                    pos.add(aid)
    R = set()
    for p in polys:
        for m in p.t:
            if len(m) >= 2:
                R.add(m)
    if not R:
        return []
    out = []
    seen = set()
    # signs of monomials
    base_R = set(R)

    def emit(b):
        if b is TRUE or b in seen:
            return False
        seen.add(b)
        out.append(b)
        for p in vis_b(b)[1]:
            for m in p.t:
                if len(m) >= 2:
                    R.add(m)
        return True

    # mixed-radix case-splits for equalities
    eqs = [b.a for b in lits if b.op == 'eq']
    eqs += [b.a for b in condl if b.op == 'eq']
    done_q = set()
    work = list(eqs)
    while work and len(out) < cap:
        p = work.pop(0)
        if p in done_q or p.sort != INT:
            continue
        done_q.add(p)
        for q, m in radix_splits(p, nonneg):
            mp = mkpoly({m: 1})
            l1 = Implies(Le(q, -1), Le(q * mp, -mp))
            l2 = Implies(Ge(q, 1), Ge(q * mp, mp))
            l3 = Implies(Eq0(q), Eq0(q * mp))
            emit(l1), emit(l2), emit(l3)
            if q not in done_q and len(q.t) >= 2:
                work.append(q)
    for rnd in range(rounds):
        Rl = sorted(R, key=lambda m: (len(m), m))
        start = len(out)
        for b in list(lits) + [None]:
            if b is None:
                break
            e = b.a
            if len(e.t) > 8:
                continue
            for u in e.t:
                if u == ():
                    continue
                for t in Rl:
                    if len(t) <= len(u) or len(t) > 7:
                        continue
                    m = T_._mono_div(t, u)
                    if not m:
                        continue
                    if b.op == 'eq':
                        pass
                    elif not all(x in nonneg for x in m):
                        continue
                    key = (b, m)
                    if key in seen:
                        continue
                    seen.add(key)
                    pm = e * mkpoly({m: 1})
                    new = sum(1 for mm in pm.t if len(mm) >= 2 and mm not in R)
                    if new > (1 if rnd else 2):
                        continue
                    if b.op == 'eq':
                        emit(Eq0(pm))
                    else:
                        # e<=0 (or e<0), m>=0  ->  e*m <= 0
                        emit(_raw_le(pm) if pm.sort == INT else Le0(pm))
                    if len(out) > cap:
                        break
                if len(out) > cap:
                    break
            if len(out) > cap:
                break
        # conditional literals: (lit => lit*m)
        if rnd == 0:
            for b in condl:
                if b.op != 'le' or len(b.a.t) > 6:
                    continue
                for lit in (b, Not(b)):
                    if lit.op not in ('le', 'lt'):
                        continue
                    for u in lit.a.t:
                        if u == ():
                            continue
                        for t in Rl:
                            if len(t) <= len(u) or len(t) > 6:
                                continue
                            m = T_._mono_div(t, u)
                            if not m or not all(x in nonneg for x in m):
                                continue
                            key = (lit, m)
                            if key in seen:
                                continue
                            seen.add(key)
                            pm = lit.a * mkpoly({m: 1})
                            new = sum(1 for mm in pm.t if len(mm) >= 2 and mm not in base_R)
                            if new > 1:
                                continue
                            emit(Implies(lit, _raw_le(pm) if pm.sort == INT else Le0(pm)))
                            if len(out) > cap:
                                break
                        if len(out) > cap:
                            break
                    if len(out) > cap:
                        break
                if len(out) > cap:
                    break
        if len(out) == start:
            break
    for m in list(R):
        if all(x in nonneg for x in m):
            out.append(T_._mkb('le', mkpoly({m: -1})))
            if all(x in pos for x in m):
                out.append(T_._mkb('le', mkpoly({m: -1, (): 1})))
    return out


def radix_splits(p, nonneg):
    """candidate decompositions p = m*q + rest, for monomials m of nonneg atoms dividing >=2 monomials"""
    cand = {}
    for t in p.t:
        if len(t) < 2:
            continue
        n = len(t)
        # all proper nonempty sub-multisets whose atoms are nonneg and quotient nonempty
        for mask in range(1, (1 << n) - 1):
            m = tuple(t[i] for i in range(n) if mask >> i & 1)
            if m in cand:
                continue
            if not all(x in nonneg for x in m):
                continue
            cand[m] = True
    out = []
    seen = set()
    for m in cand:
        cov = [t for t in p.t if T_._mono_div(t, m) is not None]
        if len(cov) < 2:
            continue
        g = cov[0]
        for t in cov[1:]:
            g = _mono_gcd(g, t)
        g = tuple(x for x in g if x in nonneg)
        if not g or g in seen:
            continue
        seen.add(g)
        q = {}
        for t in p.t:
            d = T_._mono_div(t, g)
            if d is not None:
                q[d] = p.t[t]
        k = 0
        for c in q.values():
            k = gcd(k, abs(c))
        out.append((mkpoly({d: c // k for d, c in q.items()}), g))
    out.sort(key=lambda qm: len(qm[1]))
    return out[:24]


def _mono_gcd(a, b):
    b = list(b)
    r = []
    for x in a:
        if x in b:
            b.remove(x)
            r.append(x)
    return tuple(r)


class Timeout(Exception):
    pass


_cache = {}
_solvers = {}


TIMEMUL = float(os.environ.get('HV_SLOW', '1') or 1)


def _check(zs, ms):
    s = z3.Solver()
    s.set('timeout', int(ms * TIMEMUL))
    for e in zs:
        s.add(e)
    return s, s.check()


def sum_terms(a):
    """a sum of nonnegative terms is at least any one of them (at the positions the contract names)"""
    d, T, body = a.data
    lo = T_._rng(body)[0]
    if lo is None or lo < 0:
        return []
    return [Or(Lt(w, 0), Le(T, w), Le(subst(body, {T_.bound_sym(d).as_atom().id: w}), P(a))) for w in WITNESS]


_ext = {}


def ext_terms(a, reads, depth=0):
    """a largest (smallest) value is at least (at most) each of the values in sight"""
    d, T, init, fs, xs, which = a.data
    if len(fs) != 1:
        return []
    ex = T_.extremum(xs[0], fs[0])
    if ex is None:
        return []
    body, mx = ex
    at = body.as_atom()
    if at is None or at.kind not in ('app', 'fold'):
        return []
    out = []
    b = T_.bound_sym(d).as_atom().id
    syms = sorted({i for r in reads for i in free_atoms(ATOMS[r]) if ATOMS[i].kind == 'sym' and ATOMS[i].sort == INT and not _binders_in((i,))})
    for i in syms[:12]:
        e = P(ATOMS[i])
        key = (a.id, i)
        v = _ext.get(key)
        if v is None:
            v = _ext[key] = subst(body, {b: e})
        va = v.as_atom()
        if va is None:
            continue
        if va.kind == 'fold':
            sub = ext_terms(va, reads, depth + 1) if depth < 2 else []
            if not sub:
                continue
            out += sub
        elif va.id not in reads:
            continue
        out.append(Or(Lt(e, 0), Le(T, e), Le(v, P(a)) if mx else Le(P(a), v)))
    return out


def gather(facts, neg):
    """facts + negated goal + side facts, conj-split"""
    bs = _pair_eq(_conj(list(facts) + [neg]))
    seen = set(bs)
    atoms = set()
    work = list(bs)
    done_at = set()
    while work:
        b = work.pop()
        for aid in vis_b(b)[0]:
            if aid in done_at:
                continue
            done_at.add(aid)
            for f in side_facts(ATOMS[aid]) + (sum_terms(ATOMS[aid]) if WITNESS and ATOMS[aid].kind == 'sum' else []):
                for g in _conj([f]):
                    if g not in seen:
                        seen.add(g)
                        bs.append(g)
                        work.append(g)
    folds = [a for a in done_at if ATOMS[a].kind == 'fold']
    if folds:
        reads = {a for a in done_at if ATOMS[a].kind == 'app'}
        for a in folds:
            bs += [f for f in ext_terms(ATOMS[a], reads) if f not in seen]
    tabs = [ATOMS[a] for a in done_at if ATOMS[a].kind == 'app' and ATOMS[a].data[0] in T_.TABS]
    for x in tabs:
        for y in tabs:
            # increasing tables
            vals, inc = T_.TABS[x.data[0]]
            if x is not y and inc and x.data[0] == y.data[0]:
                i, j = x.data[1], y.data[1]
                bs.append(Or(Lt(i, 0), Le(len(vals), j), Le(j, i), Lt(P(x), P(y))))
    # remainders of nearly equal (or opposite) numbers by the same symbolic divisor
    fd = sorted((ATOMS[a] for a in done_at if ATOMS[a].kind == 'fdiv' and ATOMS[a].data[1].const() is None), key=lambda a: a.id)
    for n, x in enumerate(fd[:12]):
        for y in fd[:n]:
            d = x.data[1]
            if d is not y.data[1]:
                continue
            for sg, ks in ((1, (-1, 0, 1)), (-1, (-2, -1, 0, 1))):
                t = x.data[0] - y.data[0] * sg
                if len(t.t) > 2:
                    continue
                q = P(x) - P(y) * sg
                bs.append(Or(Le(d, 0), Lt(d, t), Lt(d, -t), *[And(Eq(q, k), Eq(d * q, d * k)) for k in ks]))
    return bs


def _pair_eq(bs):
    """p <= 0 and -p <= 0 become p == 0 (so that the mixed-radix lemmas see it)"""
    les = {b.a for b in bs if b.op == 'le'}
    out = []
    done = set()
    for b in bs:
        if b.op == 'le' and -b.a in les:
            e = Eq0(b.a)
            if e not in done:
                done.add(e)
                out.append(e)
            continue
        out.append(b)
    return out


def prune(facts, neg, hops=3):
    """drop facts unconnected with the goal (sound: fewer hypotheses)"""
    fs = _conj(facts)
    want = set(vis_b(neg)[0])
    if not want:
        return fs
    for aid in list(want):
        if ATOMS[aid].kind == 'fold':
            for f in side_facts(ATOMS[aid]):
                want |= vis_b(f)[0]
        elif ATOMS[aid].kind == 'sum' and WITNESS:
            want |= set(free_atoms(ATOMS[aid]))
    rest = [(f, vis_b(f)[0]) for f in fs]
    keep = []
    for _ in range(hops):
        nxt = []
        grew = set()
        for f, at in rest:
            if at & want or not at:
                keep.append(f)
                grew |= at
            else:
                nxt.append((f, at))
        rest = nxt
        if not grew - want:
            break
        want |= grew
    return keep


def sat(facts, ms=2000):
    """returns 'unsat' | 'sat' | 'unknown' with linear abstraction (sat is only 'maybe')"""
    bs = gather(facts, TRUE)
    if any(b is FALSE for b in bs):
        return 'unsat'
    key = ('s', frozenset(bs))
    r = _cache.get(key)
    if r is None:
        t0 = time.time()
        STATS['queries'] += 1
        lem = saturate(bs)
        s, c = _check([z_bool(b) for b in bs + lem], ms)
        STATS['time'] += time.time() - t0
        r = str(c)
        _cache[key] = r
    return r


def prove(facts, goal, ms=3000, nia=True, why=None):
    """True if facts entail goal."""
    if goal is TRUE:
        return True
    if goal.op == 'and':
        return all(prove(facts, g, ms, nia) for g in goal.a)
    fset = set(_conj(facts))
    if goal in fset or FALSE in fset:
        STATS['trivial'] += 1
        return True
    neg = Not(goal)
    key = (frozenset(fset), goal, nia)
    r = _cache.get(key)
    if r is not None:
        return r
    t0 = time.time()
    STATS['queries'] += 1
    r = None
    if goal.op == 'eq' and nia and sum(ATOMS[i].kind == 'app' and ATOMS[i].data[0].startswith('border:') for i in _outer(goal)) >= 20:
        g2 = settle(list(fset), goal)       # too many case distinctions otherwise
        if g2 is not goal:
            r = g2 is TRUE or (g2 is not FALSE and prove(list(fset), g2, ms, nia))
    if goal.op == 'eq' and nia and not r:
        r = rational(fset, goal)
    r = r or _prove(list(fset), neg, ms, nia)
    if not r and nia:
        g2 = simplify(list(fset), goal)
        if g2 is not goal:
            r = g2 is TRUE or (g2 is not FALSE and prove(list(fset), g2, ms, nia))
    if not r and goal.op in ('eq', 'le'):
        g2 = merge_sums(list(fset), goal)
        if g2 is not goal:
            r = g2 is TRUE or (g2 is not FALSE and prove(list(fset), g2, ms, nia))
    if not r and goal.op == 'eq' and nia:
        g2 = unify(list(fset), goal)
        if g2 is not goal:
            r = g2 is TRUE or (g2 is not FALSE and prove(list(fset), g2, ms, nia))
    if not r and goal.op == 'eq' and nia:
        g2 = settle(list(fset), goal)
        if g2 is not goal:
            r = g2 is TRUE or (g2 is not FALSE and prove(list(fset), g2, ms, nia))
    if not r and goal.op == 'eq' and nia:
        os = [i for i in _outer(goal) if ATOMS[i].kind in ('sum', 'fold')]
        dv = any(ATOMS[i].kind == 'sum' and any(ATOMS[j].kind == 'fdiv' and ATOMS[j].data[0] is T_.bound_sym(ATOMS[i].data[0])
                                                for j in free_atoms(ATOMS[i])) for i in os)
        m = {i: T_.flat(ATOMS[i], dv) for i in os}
        m = {i: v for i, v in m.items() if v is not None}
        if m:
            g2 = bsubst(goal, m)
            r = g2 is TRUE or (g2 is not goal and g2 is not FALSE and prove(list(fset), g2, ms, nia))
    if not r and goal.op == 'eq' and nia:
        r = match_sums(list(fset), goal, ms)
    if not r and goal.op in ('eq', 'le') and nia:
        r = from_below(list(fset), goal, ms)
    if not r and goal.op == 'le' and nia:
        b = sum_bounds(fset, goal)
        r = bool(b) and prove(list(fset) + b, goal, ms, nia)
    STATS['time'] += time.time() - t0
    _cache[key] = r
    return r


def rational(fset, goal):
    """an identity between rational functions (quotients of quotients): both sides over one denominator, which must not be zero"""
    invs = set()

    def nested(p, d):
        r = d
        for m in p.t:
            for i in m:
                if ATOMS[i].kind == 'inv':
                    invs.add(i)
                    r = max(r, nested(ATOMS[i].data[0], d + 1))
        return r
    p = goal.a
    eqs = [f.a for f in fset if f.op == 'eq' and f.a.sort == REAL and nested(f.a, 0) >= 2]
    if p.sort != REAL or nested(p, 0) < 2 and not eqs:
        return False
    import sympy
    from sympy.polys.fields import field
    vs = set()

    def atoms(p):
        for m in p.t:
            for i in m:
                if ATOMS[i].kind == 'inv':
                    atoms(ATOMS[i].data[0])
                else:
                    vs.add(i)
    atoms(p)
    ne = [f.a.a for f in fset if f.op == 'not' and f.a.op == 'eq' and f.a.a.sort == REAL]
    for q in ne + eqs:
        atoms(q)
    if len(vs) > 24:
        return False
    vs = sorted(vs)
    got = field(['v%d' % i for i in vs], sympy.QQ)
    K, var = got[0], dict(zip(vs, got[1:]))
    for f in fset:
        a = f.a.as_atom() if f.op == 'eq' else None
        if a is not None and a.id in var:
            var[a.id] = K.zero
    dens, memo = [], {}

    def conv(p):
        r = K.zero
        for m, c in p.t.items():
            t = K(sympy.QQ(c.numerator, c.denominator))
            for i in m:
                if ATOMS[i].kind == 'inv':
                    if i not in memo:
                        q = conv(ATOMS[i].data[0])
                        if not q:
                            raise ZeroDivisionError
                        dens.append(q.numer)
                        memo[i] = 1 / q
                    t = t * memo[i]
                else:
                    t = t * var[i]
            r = r + t
        return r
    fac = set()
    nonzero = lambda ds: all(f in fac or -f in fac for d in ds for f, _ in d.factor_list()[1])
    for q in ne:
        try:
            n = conv(q).numer
            if nonzero(dens):
                fac.update(f for f, _ in n.factor_list()[1])
        except ZeroDivisionError:
            pass
        del dens[:]
        memo.clear()
    for q, holds in [(p, True)] + [(q, False) for q in eqs]:
        # the goal is an identity, or a fact says that something nonzero is zero
        try:
            n = conv(q)
            if (not n if holds else bool(n) and nonzero([n.numer])) and nonzero(dens):
                return True
        except ZeroDivisionError:
            pass
        del dens[:]
        memo.clear()
    return False


_depth = [0]


def bounds_of(p):
    """bounds of a term whose sums run over T >= 0 elements each"""
    lo = hi = ZERO
    for mm, c in p.t.items():
        a = ATOMS[mm[0]] if len(mm) == 1 else None
        if a is not None and a.kind == 'sum':
            tl = prange(a.data[1])[0]
            if tl is None or tl < 0:
                return None, None
            l, h = bounds_of(a.data[2])
            l, h = (None if l is None else l * a.data[1]), (None if h is None else h * a.data[1])
        else:
            l, h = prange(mkpoly({mm: 1}))
            l, h = (None if l is None else P(l)), (None if h is None else P(h))
        if c < 0:
            l, h = h, l
        lo = None if l is None or lo is None else lo + l * c
        hi = None if h is None or hi is None else hi + h * c
    return lo, hi


def sum_bounds(fset, goal):
    """facts that bound the sums a goal speaks about (also by way of equations of its terms)"""
    ids = _outer(goal)
    sums = {i for i in ids if ATOMS[i].kind == 'sum'}
    for f in fset:
        if f.op == 'eq' and any(i in ids for i in f.a.atoms()):
            sums |= {i for i in f.a.atoms() if ATOMS[i].kind == 'sum'}
    out = []
    for i in sums:
        a = ATOMS[i]
        l, h = bounds_of(P(a))
        for x, up in ((l, False), (h, True)):
            if x is None or any(str(ATOMS[z].data).startswith('\u03b2') for z in pfree(x)):
                continue
            b = Le(P(a), x) if up else Le(x, P(a))
            if b is not TRUE and b not in fset:
                out.append(b)
    return out


def from_below(facts, goal, ms):
    """sums up to s - c for a symbol s: by cases s = 0, .., c - 1 and s = s' + c, so that the sums up to s and to s - c meet"""
    best = {}
    lits = None
    for i in bfree(goal):
        a = ATOMS[i]
        if a.kind != 'sum':
            continue
        c = -a.data[1].t.get((), 0)
        if not (isinstance(c, int) and 0 <= c <= 2):
            continue
        s = (a.data[1] + c).as_atom()
        if s is None or ATOMS[s.id].kind != 'sym' or prange(P(s))[0] != 0:
            continue
        if c == 0:
            # a distinction between the empty and the other sums is made somewhere
            if lits is None:
                lits = set()
                for f in [goal] + list(facts):
                    lits |= small_lits(f)
            c = int(s.id in lits)
        if c:
            best[s.id] = max(c, best.get(s.id, 0))
    if not best or _below[0] >= 4:
        return False
    _below[0] += 1
    try:
        sid, c = next(iter(best.items()))
        m = [{sid: P(v)} for v in range(c)] + [{sid: fresh('up', INT, 0) + c}]
        return all(prove([Subst(x).b(f) for f in facts], Subst(x).b(goal), ms) for x in m)
    finally:
        _below[0] -= 1


_below = [0]


def small_lits(f):
    """symbols that a formula compares with 0 or 1"""
    out, st, seen = set(), [f], set()
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b.op in ('le', 'eq', 'lt'):
            mm = [x for x in b.a.t if x]
            if len(mm) == 1 and len(mm[0]) == 1 and abs(b.a.t[mm[0]]) == 1 and abs(b.a.t.get((), 0)) <= 1:
                out.add(mm[0][0])
            for x in b.a.atoms():
                st += cond_of(x)
        elif b.op == 'not':
            st.append(b.a)
        elif b.op in ('and', 'or'):
            st += list(b.a)
    return out


def cond_of(x, d=0):
    a = ATOMS[x]
    if a.kind != 'ite' or d > 3:
        return []
    r = [a.data[0]]
    for p in a.data[1:]:
        for y in p.atoms():
            r += cond_of(y, d + 1)
    return r

def match_sums(facts, goal, ms):
    """two sums over the same range inside the goal are the same where their terms are, one by one: case distinction on the
    condition under which the goal looks at them"""
    if _depth[0] >= 3:
        return False
    ids = bfree(goal)
    sums = [ATOMS[i] for i in _outer(goal) if ATOMS[i].kind == 'sum']
    if len(sums) < 2:
        return False
    conds = [TRUE]
    for i in ids:
        a = ATOMS[i]
        if a.kind == 'ite' and not _binders_in(bfree(a.data[0])) and any(ATOMS[j].kind == 'sum' for j in pfree(a.data[1]) | pfree(a.data[2])):
            for c in (a.data[0], Not(a.data[0])):
                if c not in conds and c.op in ('and', 'le', 'lt', 'eq', 'not') and not any(ATOMS[j].kind == 'sum' for j in bfree(c)):
                    conds.append(c)
    _depth[0] += 1
    try:
        for k, x in enumerate(sums):
            for y in sums[k + 1:]:
                if x.data[1] is not y.data[1]:
                    continue
                t = T_.fresh('t', INT, 0)
                bx, by = [subst(z.data[2], {T_.bound_sym(z.data[0]).as_atom().id: t}) for z in (x, y)]
                for c in conds[:5]:
                    fs = facts + [c] if c is not TRUE else facts
                    if c is not TRUE and sat(fs, 1000) == 'unsat':
                        continue
                    if prove(fs + [Lt(t, x.data[1])], Eq(bx, by), 3000, True):
                        g = bsubst(goal, {x.id: P(y)})
                        return (g is TRUE or prove(fs, g, ms, True)) and (c is TRUE or prove(facts + [Not(c)], goal, ms, True))
    finally:
        _depth[0] -= 1
    return False


def _outer(goal):
    """atoms of the goal that are not below a binder"""
    out, seen = [], set()

    def go(x):
        if isinstance(x, Poly):
            for i in x.atoms():
                atom(ATOMS[i])
        elif isinstance(x, B):
            for y in (x.a if isinstance(x.a, tuple) else (x.a,)):
                if isinstance(y, (Poly, B)):
                    go(y)

    def atom(a):
        if a.id in seen:
            return
        seen.add(a.id)
        out.append(a.id)
        if a.kind in ('sum', 'fold', 'sym'):
            return
        for y in a.data:
            go(y)
    go(goal)
    return out


SLOW = []


def _binders_in(ids):
    return any(ATOMS[i].kind == 'sym' and isinstance(ATOMS[i].data, str) and ATOMS[i].data[:1] in '\u03b2\u03c7' for i in ids)


def merge_sums(facts, goal):
    """sums over the same range cancel when their terms do, one by one"""
    out = goal.a
    for f in facts:
        # facts that say what an unknown of the goal is, in terms of sums
        if f.op == 'eq' and any(len(m) == 1 and ATOMS[m[0]].kind == 'sum' for m in f.a.t):
            for m, c in f.a.t.items():
                if len(m) == 1 and abs(c) == 1 and ATOMS[m[0]].kind in ('app', 'sym') and m in out.t:
                    out = out - f.a * (out.t[m] * c)
                    break
    goal = goal if out is goal.a else Eq0(out) if goal.op == 'eq' else Le0(out)
    if goal.op not in ('eq', 'le'):
        return goal
    out = goal.a
    groups = {}
    for m, c in out.t.items():
        ss = [x for x in m if ATOMS[x].kind == 'sum']
        if len(ss) == 1 and (len(m) == 1 or goal.op == 'eq'):
            rest = list(m)
            rest.remove(ss[0])
            groups.setdefault((tuple(rest), ATOMS[ss[0]].data[1]), []).append((m, c, ss[0]))
    for (rest, T), ms in groups.items():
        if len(ms) < 2:
            continue
        t = T_.fresh('t', INT, 0)
        D = P(0)
        for m, c, x in ms:
            dd, _, body = ATOMS[x].data
            D = D + subst(body, {T_.bound_sym(dd).as_atom().id: t}) * c
        ms = [(m, c) for m, c, x in ms]
        if prove(facts + [Lt(t, T)], Eq0(D) if goal.op == "eq" else Le0(D), 2000, goal.op == "eq"):
            out = out - mkpoly(dict(ms))
        elif goal.op == 'le':
            k = max(c for m, c in ms)
            if k > 0 and prove(facts + [Lt(t, T)], Le0(D - k), 2000, False) and prove(facts, Le(0, T), 1000, False):
                out = out - mkpoly(dict(ms)) + T * k
    if out is goal.a and goal.op == 'le':
        # ... also with factors: sum a(t) * K + sum b(t) * L  is the sum of the a(t) * K + b(t) * L
        groups = {}
        for m, c in out.t.items():
            ss = [x for x in m if ATOMS[x].kind == 'sum']
            if len(ss) == 1:
                rest = list(m)
                rest.remove(ss[0])
                groups.setdefault(ATOMS[ss[0]].data[1], []).append((m, c, rest, ss[0]))
        for T, ms in groups.items():
            if len(ms) < 2 or all(not r for _, _, r, _ in ms):
                continue
            t = T_.fresh('t', INT, 0)
            D = P(0)
            for m, c, rest, x in ms:
                dd, _, body = ATOMS[x].data
                D = D + subst(body, {T_.bound_sym(dd).as_atom().id: t}) * mkpoly({tuple(rest): c})
            if prove(facts + [Lt(t, T)], Le0(D), 2000, True):
                out = out - mkpoly({m: c for m, c, _, _ in ms})
    return goal if out is goal.a else Eq0(out) if goal.op == 'eq' else Le0(out)


def unify(facts, goal):
    """applications of one function to arguments that the facts make equal are one term (products of them are opaque to the solver)"""
    if len(goal.a.t) < 3:
        return goal
    apps = [ATOMS[i] for i in _outer(goal) if ATOMS[i].kind == 'app']
    apps.sort(key=lambda a: len(free_atoms(a)))
    if not 2 <= len(apps) <= 24:
        return goal
    m, reps = {}, []
    for a in apps:
        if a.data[0].startswith('border:') and prove(facts, And(Le(0, a.data[1]), Lt(a.data[1], a.data[2])), 500, False):
            m[a.id] = a.data[1]
            continue
        for b in reps:
            if a.data[0] == b.data[0] and len(a.data) == len(b.data) and all(
                    x is y or prove(facts, Eq(x, y), 500, False) for x, y in zip(a.data[1:], b.data[1:])):
                m[a.id] = P(b)
                break
        else:
            reps.append(a)
    return bsubst(goal, m) if m else goal


_simp = {}


def _under(goal):
    """atoms that occur below a sum, fold or uninterpreted function of the goal (which the solver treats as opaque)"""
    out = set()
    for aid in bfree(goal):
        a = ATOMS[aid]
        if a.kind in ('sum', 'fold', 'app', 'inv'):
            out |= free_atoms(a) - {aid}
    return out


def settle(facts, goal):
    """case splits of border coordinates: (c ? Border(p, n) : p) is Border(p, n) when p is inside unless c; conditions lose
    the parts that the facts decide"""
    if not any(ATOMS[i].kind == 'app' and ATOMS[i].data[0].startswith('border:') for i in _outer(goal)):
        return goal
    m = {}
    for i in _outer(goal):
        a = ATOMS[i]
        if a.kind == 'app' and a.data[0].startswith('border:') and prove(facts, And(Le(0, a.data[1]), Lt(a.data[1], a.data[2])), 500, False):
            m[i] = a.data[1]
    if m:
        goal = bsubst(goal, m)
    lits = {}
    plain = [f for f in facts if all(ATOMS[i].kind not in ('app', 'ite', 'sum', 'fold') for i in bfree(f))]

    def decided(b):
        for fs in (plain, facts):
            for g, v in ((b, TRUE), (Not(b), FALSE)):
                if prove(fs, g, 300, False):
                    return v
        return b

    def lit(b):
        if b.op in ('and', 'or'):
            return (And if b.op == 'and' else Or)(*[lit(x) for x in b.a])
        if b.op == 'not':
            return Not(lit(b.a))
        if b.op not in ('le', 'lt', 'eq') or _binders_in(bfree(b)):
            return b
        if b not in lits:
            lits[b] = decided(b)
        return lits[b]
    done = set()
    for rnd in range(8):
        m = {}
        for i in _outer(goal):
            a = ATOMS[i]
            if a.kind != 'ite' or i in done or any(ATOMS[j].kind == 'ite' and j != i and j not in done for j in free_atoms(a)):
                continue
            done.add(i)
            c, x, y = a.data
            for u, v, cc in ((x, y, Not(c)), (y, x, c)):
                ua = u.as_atom()
                if ua is not None and ua.kind == 'app' and ua.data[0].startswith('border:') and ua.data[1] is v:
                    if prove(facts + [cc], And(Le(0, v), Lt(v, ua.data[2])), 500, False):
                        m[i] = u
                    break
            else:
                c2 = lit(c)
                if c2 is not c:
                    m[i] = T_.Ite(c2, x, y)
        if m:
            goal = bsubst(goal, m)
        elif all(i in done for i in _outer(goal) if ATOMS[i].kind == 'ite'):
            break
        if goal in (TRUE, FALSE):
            break
    return goal


def simplify(facts, goal):
    """rewrite quotients that the facts decide (a // b = 0 when 0 <= a < b) and decided case splits inside opaque terms"""
    for rnd in range(6):
        cand = [ATOMS[i] for i in _under(goal)]
        cand = [a for a in cand if a.kind == 'fdiv' and not _binders_in(free_atoms(a)) or a.kind == 'ite' and not _binders_in(bfree(a.data[0]))]
        if not cand:
            return goal
        cand.sort(key=lambda a: len(free_atoms(a)))
        m = {}
        for a in cand[:24]:
            key = (frozenset(facts), a.id)
            v = _simp.get(key, 0)
            if v == 0:
                v = None
                if a.kind == 'fdiv':
                    x, y = a.data
                    if prove(facts, And(Le(0, x), Lt(x, y)), 800, False):
                        v = ZERO
                else:
                    c = a.data[0]
                    if prove(facts, c, 800, False):
                        v = a.data[1]
                    elif prove(facts, Not(c), 800, False):
                        v = a.data[2]
                _simp[key] = v
            if v is not None:
                m[a.id] = v
                break
        if not m:
            return goal
        g = bsubst(goal, m)
        if g is goal:
            return goal
        goal = g
        if goal in (TRUE, FALSE):
            return goal
    return goal


def _prove(facts, neg, ms, nia):
    bs = gather(prune(facts, neg), neg)
    if any(b is FALSE for b in bs):
        STATS['trivial'] += 1
        return True
    has_nl = any(len(m) >= 2 for b in bs for p in vis_b(b)[1] for m in p.t)
    # stage 1: linear abstraction without lemmas
    s, c = _check([z_bool(b) for b in bs], ms if not has_nl else min(ms, 300))
    if c == z3.unsat:
        STATS['unsat_linear'] += 1
        _recheck(bs, False)
        return True
    if not has_nl:
        if c == z3.unknown:
            s, c = _check([z_bool(b) for b in bs], ms * 4)
            if c == z3.unsat:
                STATS['unsat_linear'] += 1
                return True
        return False
    lem = saturate(bs)
    s, c = _check([z_bool(b) for b in bs + lem], ms)
    if c == z3.unsat:
        STATS['unsat_linear'] += 1
        _recheck(bs + lem, False)
        return True
    if nia:
        s, c = _check([z_bool(b, True) for b in bs], min(ms, 1500))
        if c == z3.unsat:
            STATS['unsat_nia'] += 1
            _recheck(bs, True)
            return True
    return False


def _recheck(bs, nia):
    """thorough tier: second opinion from cvc5 on each discharged (abstracted) query"""
    if not CVC5_CHECK[0]:
        return
    t0 = time.time()
    s = z3.Solver()
    for b in bs:
        s.add(z_bool(b, nia))
    txt = s.to_smt2()
    import subprocess
    try:
        r = subprocess.run(['cvc5', '--tlimit=10000', '-'], input='(set-logic ALL)\n' + txt, capture_output=True,
                           text=True, timeout=20)
        o = r.stdout.strip().split('\n')[0] if r.stdout else 'unknown'
    except subprocess.TimeoutExpired:
        o = 'unknown'
    STATS['cvc5_time'] += time.time() - t0
    if o == 'unsat':
        STATS['cvc5'] += 1
    elif o == 'sat':
        STATS['cvc5_disagree'] += 1
    else:
        STATS['cvc5_unknown'] += 1


def find_model(facts, neg, syms, ms=4000, small=None):
    """a candidate counterexample: values of the given symbol polys (may be spurious)."""
    bs = gather(facts, neg)
    extra = []
    for nia in (True, False):
        z = [z_bool(b, nia) for b in bs]
        if not nia:
            z += [z_bool(b) for b in saturate(bs)]
        for bound in ((3,), (8,), (40,), (None,)):
            ex = []
            if bound[0] is not None and small:
                ex = [z_poly(p, nia) <= bound[0] for p in small]
            s, c = _check(z + ex, ms // 4)
            if c == z3.sat:
                m = s.model()
                out = {}
                for p in syms:
                    try:
                        v = m.eval(z_poly(p, nia), model_completion=True)
                        out[show(p)] = v.as_long() if z3.is_int_value(v) else str(v)
                    except Exception:
                        pass
                return out
    return None
