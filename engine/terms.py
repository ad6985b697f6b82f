"""Term layer: integer / real polynomials over interned atoms, and booleans.

Poly   : sum of coef * product(atoms);  interned, immutable.
Atom   : sym / app / ite / fdiv / floor / sum / fold ...
B      : boolean term (interned).

Machine integers are represented by the mathematical value they hold; wrap-around is
made explicit by the executor (it proves absence or applies mod).  Floating point
values are mathematical reals (a stated assumption of every check).
"""
from fractions import Fraction
from math import gcd
import itertools

INT, REAL = 'I', 'R'


class Atom:
    __slots__ = ('id', 'kind', 'data', 'sort', 'lo', 'hi', 'depth', 'name')

    def __repr__(self):
        return show_atom(self)


_atoms = {}
ATOMS = []
_polys = {}
_counter = itertools.count()


def _mk_atom(kind, data, sort, lo=None, hi=None, depth=0, name=None):
    key = (kind, data, sort)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.data, a.sort, a.lo, a.hi, a.depth, a.name = kind, data, sort, lo, hi, depth, name
        _atoms[key] = a
        ATOMS.append(a)
    else:
        if lo is not None and (a.lo is None or lo > a.lo):
            a.lo = lo
        if hi is not None and (a.hi is None or hi < a.hi):
            a.hi = hi
    return a


def norm_c(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ('t', 'h', 'sort', '_atoms', '_depth', '__weakref__')

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __add__(a, b):
        b = P(b)
        if not b.t:
            return a
        if not a.t:
            return b
        d = dict(a.t)
        for m, c in b.t.items():
            v = d.get(m, 0) + c
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = norm_c(v)
        return mkpoly(d)

    __radd__ = __add__

    def __neg__(a):
        return mkpoly({m: -c for m, c in a.t.items()})

    def __sub__(a, b):
        return a + (-P(b))

    def __rsub__(a, b):
        return P(b) + (-a)

    def __mul__(a, b):
        b = P(b)
        if len(a.t) == 1 and () in a.t:
            k = a.t[()]
            return b if k == 1 else mkpoly({m: norm_c(k * c) for m, c in b.t.items()})
        if len(b.t) == 1 and () in b.t:
            k = b.t[()]
            return a if k == 1 else mkpoly({m: norm_c(k * c) for m, c in a.t.items()})
        d = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = d.get(m, 0) + c1 * c2
                if v == 0:
                    d.pop(m, None)
                else:
                    d[m] = norm_c(v)
        return mkpoly(d)

    __rmul__ = __mul__

    def scale(a, k):
        return a * P(k)

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        """constant value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def c0(self):
        return self.t.get((), 0)

    def as_atom(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return ATOMS[m[0]]
        return None

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m in self.t:
                s.update(m)
            self._atoms = frozenset(s)
        return self._atoms

    def __repr__(self):
        return show(self)


def mkpoly(d):
    key = frozenset(d.items())
    p = _polys.get(key)
    if p is None:
        p = Poly()
        p.t = d
        p.h = hash(key)
        p._atoms = None
        p._depth = None
        s = INT
        for m, c in d.items():
            if isinstance(c, Fraction):
                s = REAL
                break
            for a in m:
                if ATOMS[a].sort == REAL:
                    s = REAL
                    break
            if s == REAL:
                break
        p.sort = s
        _polys[key] = p
    return p


ZERO = mkpoly({})
ONE = mkpoly({(): 1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, int):
        return mkpoly({(): x}) if x else ZERO
    if isinstance(x, float):
        x = Fraction(x)
    if isinstance(x, Fraction):
        x = norm_c(x)
        return mkpoly({(): x}) if x else ZERO
    if isinstance(x, Atom):
        return mkpoly({(x.id,): 1})
    raise TypeError(repr(x))


def Sym(name, sort=INT, lo=None, hi=None):
    return P(_mk_atom('sym', name, sort, lo, hi))


def fresh(prefix, sort=INT, lo=None, hi=None):
    return Sym('%s!%d' % (prefix, next(_counter)), sort, lo, hi)


def App(f, args, sort=INT, lo=None, hi=None):
    args = tuple(P(a) for a in args)
    return P(_mk_atom('app', (f,) + args, sort, lo, hi))


# ---------------------------------------------------------------- booleans
class B:
    __slots__ = ('op', 'a', 'h', 'neg', 'id')

    def __hash__(self):
        return self.h

    def __repr__(self):
        return show_b(self)


_bools = {}
_bid = itertools.count()


def _mkb(op, a):
    k = (op, a)
    b = _bools.get(k)
    if b is None:
        b = B()
        b.op, b.a = op, a
        b.h = hash(k)
        b.neg = None
        b.id = next(_bid)
        _bools[k] = b
    return b


TRUE = _mkb('true', None)
FALSE = _mkb('false', None)
TRUE.neg = FALSE
FALSE.neg = TRUE


def _content(p):
    g = 0
    for m, c in p.t.items():
        g = gcd(g, abs(c))
        if g == 1:
            return 1
    return g


def Le0(p):
    """p <= 0"""
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c <= 0 else FALSE
    if p.sort == INT:
        # divide by gcd of non-constant coefs, tighten
        g = 0
        for m, k in p.t.items():
            if m != ():
                g = gcd(g, abs(k))
        if g > 1:
            k0 = p.c0()
            d = {m: k // g for m, k in p.t.items() if m != ()}
            # sum + k0 <= 0  -> sum/g <= floor(-k0/g)
            f = (-k0) // g
            if f:
                d[()] = -f
            p = mkpoly(d)
        if len(p.t) - (1 if () in p.t else 0) == 1:
            # simple bound on a single atom: use its declared range
            for m, k in p.t.items():
                if m != () and len(m) == 1:
                    at = ATOMS[m[0]]
                    if at.lo is not None or at.hi is not None:
                        k0 = p.c0()
                        if k > 0:
                            if at.hi is not None and k * at.hi + k0 <= 0:
                                return TRUE
                            if at.lo is not None and k * at.lo + k0 > 0:
                                return FALSE
                        else:
                            if at.lo is not None and k * at.lo + k0 <= 0:
                                return TRUE
                            if at.hi is not None and k * at.hi + k0 > 0:
                                return FALSE
    return _mkb('le', p)


def Lt0(p):
    p = P(p)
    if p.sort == INT:
        return Le0(p + 1)
    c = p.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    l, h = _rng(p)
    if l is not None and l >= 0:
        return FALSE
    if h is not None and h < 0:
        return TRUE
    return _mkb('lt', p)


def Eq0(p):
    p = P(p)
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if p.sort == INT:
        g = _content(p)
        if g > 1:
            p = mkpoly({m: k // g for m, k in p.t.items()})
        gg = 0
        for m, k in p.t.items():
            if m != ():
                gg = gcd(gg, abs(k))
        if gg > 1 and p.c0() % gg:
            return FALSE
        if len(p.t) - (1 if () in p.t else 0) == 1:
            for m, k in p.t.items():
                if m != () and len(m) == 1 and abs(k) == 1:
                    at = ATOMS[m[0]]
                    v = -p.c0() // k if k else 0
                    v = -p.c0() * k
                    if (at.lo is not None and v < at.lo) or (at.hi is not None and v > at.hi):
                        return FALSE
        k0 = p.c0()
        if abs(k0) == 1 and len(p.t) > 2:
            # y mod 2 = 1 is not y mod 2 = 0
            for m, k in p.t.items():
                if abs(k) == 2 and len(m) == 1 and ATOMS[m[0]].kind == 'fdiv':
                    y, z = ATOMS[m[0]].data
                    if z.const() == 2:
                        s = -k // 2
                        if p - k0 is (y - P(ATOMS[m[0]]) * 2) * s:
                            return Not(Eq0(y - P(ATOMS[m[0]]) * 2)) if s + k0 == 0 else FALSE
    lead = max(p.t, key=lambda m: (len(m), m))
    if p.t[lead] < 0:
        p = -p
    at = p.as_atom()
    if at is not None and at.kind == 'sum':
        q = _none_of(at)
        if q is not None:
            return Eq0(q)
    return _mkb('eq', p)


def _none_of(at):
    """a sum of indicators of (c and S != 0), S a nonnegative sum, is 0 exactly if the sum of (c ? S : 0) is"""
    d, T, body = at.data
    a = body.as_atom()
    if a is None or a.kind != 'ite':
        return None
    c, y, z = a.data
    if y.const() == 0 and z.const() == 1:
        c = Not(c)
    elif not (y.const() == 1 and z.const() == 0):
        return None
    cs = list(c.a) if c.op == 'and' else [c]
    for k, x in enumerate(cs):
        e = None
        if x.op == 'not' and x.a.op == 'eq':
            e = x.a.a
        elif x.op == 'le' and x.a.c0() == 1:
            e = 1 - x.a                       # 1 <= S
        ea = e.as_atom() if e is not None else None
        lo = _rng(e)[0] if ea is not None and ea.kind in ('sum', 'ite') else None
        if lo is not None and lo >= 0:
            t = fresh('e', INT, 0)
            nb = Ite(And(*(cs[:k] + cs[k + 1:])), e, 0)
            return Sum(t, T, subst(nb, {bound_sym(d).as_atom().id: t}))
    return None


def Le(a, b):
    return Le0(P(a) - P(b))


def Lt(a, b):
    return Lt0(P(a) - P(b))


def Ge(a, b):
    return Le(b, a)


def Gt(a, b):
    return Lt(b, a)


def Eq(a, b):
    return Eq0(P(a) - P(b))


def Ne(a, b):
    return Not(Eq(a, b))


def BSym(name):
    return _mkb('bsym', name)


def BApp(f, args):
    return _mkb('bapp', (f,) + tuple(P(a) for a in args))


def Not(b):
    if b.neg is None:
        if b.op == 'le':
            n = Lt0(-b.a)
        elif b.op == 'lt':
            n = Le0(-b.a)
        elif b.op == 'and':
            n = Or(*[Not(x) for x in b.a])
        elif b.op == 'or':
            n = And(*[Not(x) for x in b.a])
        elif b.op == 'not':
            n = b.a
        else:
            n = _mkb('not', b)
        b.neg = n
        if n.neg is None:
            n.neg = b
    return b.neg


def And(*xs):
    out = []
    seen = set()

    def add(x):
        if x is TRUE:
            return True
        if x is FALSE:
            return False
        if x.op == 'and':
            return all(add(y) for y in x.a)
        if x in seen:
            return True
        if x.neg is not None and x.neg in seen:
            return False
        seen.add(x)
        out.append(x)
        return True
    for x in xs:
        if not add(x):
            return FALSE
    for x in out:
        n = Not(x)
        if n in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    # absorb: drop or-terms containing a conjunct
    res = []
    for x in out:
        if x.op == 'or':
            if any(y in seen for y in x.a):
                continue
            ys = [y for y in x.a if Not(y) not in seen]
            if len(ys) != len(x.a):
                return And(*([o for o in out if o is not x] + [Or(*ys)]))
        res.append(x)
    out = res
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda b: b.id)
    return _mkb('and', tuple(out))


def Or(*xs):
    out = []
    seen = set()

    def add(x):
        if x is FALSE:
            return True
        if x is TRUE:
            return False
        if x.op == 'or':
            return all(add(y) for y in x.a)
        if x in seen:
            return True
        seen.add(x)
        out.append(x)
        return True
    for x in xs:
        if not add(x):
            return TRUE
    for x in out:
        if Not(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    # factor common conjuncts:  (a&b)|(a&~b) -> a
    sets = [set(x.a) if x.op == 'and' else {x} for x in out]
    common = set.intersection(*sets)
    if common:
        rest = [And(*[y for y in (x.a if x.op == 'and' else (x,)) if y not in common]) for x in out]
        return And(*(sorted(common, key=lambda b: b.id) + [Or(*rest)]))
    # unit resolution: x | (~x & y) -> x | y
    ch = False
    units = [x for x in out if x.op != 'and']
    if units:
        neg = {Not(u) for u in units}
        new = []
        for x in out:
            if x.op == 'and' and any(y in neg for y in x.a):
                x = And(*[y for y in x.a if y not in neg])
                ch = True
            if x.op == 'and' and any(y in units for y in x.a):
                ch = True
                continue
            new.append(x)
        if ch:
            return Or(*new)
    out.sort(key=lambda b: b.id)
    return _mkb('or', tuple(out))


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return Not(b)
    if b is FALSE:
        return Not(a)
    return And(Implies(a, b), Implies(b, a))


# ---------------------------------------------------------------- compound atoms
def _minmax(c, a, b):
    """min(a,b) and max(a,b) have one form each, however they are written"""
    if c.op not in ('le', 'lt'):
        return None
    d = a - b
    if len(d.t) > 12:
        return None
    if c is Le0(d) or c is Lt0(d):
        lo = True
    elif c is Le0(-d) or c is Lt0(-d):
        lo = False
    else:
        return None
    k = min(d.t, key=lambda m: (-len(m), m))
    if d.t[k] < 0:
        d, a, b = -d, b, a
    return (Le0(d), a, b) if lo else (Le0(d), b, a)


def _side(c, x, k):
    """does c say that x is at most k (-1) or at least k (1), and its negation the opposite?"""
    if c.op not in ('le', 'lt'):
        return 0
    for d, sg in ((x - k, -1), (k - x, 1)):
        if c is Le0(d) or c is Lt0(d):
            return sg
    return 0


def _clamp(c, a, b):
    """min(hi, max(lo, x)) has one form: the lower limit is tested first"""
    for k, y, cc in ((a, b, c), (b, a, Not(c))):
        at = y.as_atom()
        if k.const() is None or at is None or at.kind != 'ite':
            continue
        for j, x, c2 in ((at.data[1], at.data[2], at.data[0]), (at.data[2], at.data[1], Not(at.data[0]))):
            if j.const() is None or x.const() is not None:
                continue
            s1, s2 = _side(cc, x, k), _side(c2, x, j)
            if s1 == 1 and s2 == -1 and j.const() < k.const():
                return Ite0(*_pol(Lt0(x - j), j, Ite(Le0(x - k), x, k)))
            if s1 == -1 and s2 == 1 and k.const() < j.const():
                return Ite0(*_pol(Lt0(x - k), k, Ite(Le0(x - j), x, j)))
    return None


def _lits(c):
    out, st = [], [c]
    while st:
        b = st.pop()
        if b.op == 'and':
            st.extend(b.a)
        else:
            out.append(b)
    return out


def _bunder(d, known, neg, dep=0):
    if d in known:
        return TRUE
    if d in neg:
        return FALSE
    if dep < 3 and d.op in ('and', 'or'):
        parts = [_bunder(x, known, neg, dep + 1) for x in d.a]
        if any(x is not y for x, y in zip(parts, d.a)):
            return And(*parts) if d.op == 'and' else Or(*parts)
    return d


def _under(p, c):
    """p, where c holds"""
    at = p.as_atom()
    if at is None or at.kind != 'ite':
        return p
    known = _lits(c)
    d = _bunder(at.data[0], known, [Not(x) for x in known])
    if d is at.data[0]:
        return p
    if d is TRUE:
        return _under(at.data[1], c)
    if d is FALSE:
        return _under(at.data[2], c)
    return Ite(d, at.data[1], at.data[2])


def _pol(c, a, b):
    n = Not(c)
    return (n, b, a) if n.id < c.id else (c, a, b)


def _ite_leaves(c, p, path, out):
    at = p.as_atom()
    if at is not None and at.kind == 'ite' and len(path) < 5:
        _ite_leaves(c, at.data[1], path + [at.data[0]], out)
        _ite_leaves(c, at.data[2], path + [Not(at.data[0])], out)
    else:
        out.append((p, path))


def _border_ite(c, x, y):
    """ite(c, Border(p, n), ..p where 0 <= p < n..) is Border(p, n)"""
    p, n = x.data[1], x.data[2]
    want = {Le(0, p), Lt(p, n)}
    out = []
    _ite_leaves(c, y, [Not(c)], out)
    for leaf, path in out:
        if leaf.as_atom() is x:
            continue
        if leaf is not p:
            return False
        have, st = set(), list(path)
        while st:
            b = st.pop()
            if b.op == 'and':
                st.extend(b.a)
            else:
                have.add(b)
        if not want <= have | {TRUE}:
            return False
    return True


def _firsts(M, mx):
    """first elements of a (nested) largest/smallest value over ranges that are not empty"""
    out, f = [], M
    while True:
        fa = f.as_atom()
        if fa is None or fa.kind != 'fold' or len(fa.data[3]) != 1:
            return out
        e = extremum(fa.data[4][0], fa.data[3][0])
        l = _rng(fa.data[1])[0]
        if e is None or e[1] != mx or l is None or l < 1:
            return out
        f = fa.data[2][0]
        out.append(f)


def _extreme_ite(c, a, b):
    """max(first element, M) = M for the largest value M of a range that is not empty (likewise min)"""
    if c.op == 'le' and a is not b:
        for M, x in ((a, b), (b, a)):
            Ma = M.as_atom()
            if Ma is not None and Ma.kind == 'fold':
                mx = True if c is Le0(b - a) else False if c is Le0(a - b) else None
                if mx is not None and any(x is f for f in _firsts(M, mx)):
                    return M


def Ite(c, a, b):
    a, b = P(a), P(b)
    M = _extreme_ite(c, a, b)
    if M is not None:
        return M
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    for x, y, cc in ((a, b, c), (b, a, Not(c))):
        xa = x.as_atom()
        if xa is not None and xa.kind == 'app' and xa.data[0].startswith('border:') and _border_ite(cc, xa, y):
            return x
    # canonical polarity
    if c.op in ('not',):
        return Ite(c.a, b, a)
    if c.op == 'eq':
        # ite(x==y, a, b) : ok
        pass
    cl = _clamp(c, a, b)
    if cl is not None:
        return cl
    # under its condition, a nested condition says less; nested choices between the same two values are one choice
    n = Not(c)
    for _ in range(4):
        a2, b2 = _under(a, c), _under(b, n)
        aa = a2.as_atom()
        if aa is not None and aa.kind == 'ite' and (aa.data[1] is b2 or aa.data[2] is b2):
            d, x, y = aa.data
            c, a2 = (And(c, Not(d)), y) if x is b2 else (And(c, d), x)
        else:
            ba = b2.as_atom()
            if ba is not None and ba.kind == 'ite' and (ba.data[1] is a2 or ba.data[2] is a2):
                d, x, y = ba.data
                c, b2 = (Or(c, d), y) if x is a2 else (Or(c, Not(d)), x)
        if a2 is a and b2 is b:
            break
        a, b, n = a2, b2, Not(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is b:
            return a
    mm = _minmax(c, a, b)
    if mm is not None:
        c, a, b = mm
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        M = _extreme_ite(c, a, b)
        if M is not None:
            return M
    else:
        n = Not(c)
        if n.id < c.id:
            c, a, b = n, b, a
    # common additive part stays outside
    com = {m: k for m, k in a.t.items() if b.t.get(m) == k}
    if com and (len(com) == len(a.t) or len(com) == len(b.t) or any(m for m in com)):
        cp = mkpoly(com)
        a, b = a - cp, b - cp
    else:
        cp = ZERO
    # so does the coefficient of a single term
    if not b.t and len(a.t) == 1 or not a.t and len(b.t) == 1:
        (m, k), = (a.t or b.t).items()
        if k != 1 and m:
            x = mkpoly({m: 1})
            return cp + Ite0(c, x if a.t else a, x if b.t else b) * k
    return cp + Ite0(c, a, b)


def _rng(p):
    """cheap interval of p"""
    lo = hi = 0
    for m, c in p.t.items():
        l = h = 1
        for aid in m:
            at = ATOMS[aid]
            al, ah = at.lo, at.hi
            if l is None and h is None:
                break
            # product of intervals, only handle nonneg nicely
            if al is not None and al >= 0 and l is not None and l >= 0:
                l = l * al
                h = h * ah if (h is not None and ah is not None) else None
            elif len(m) == 1:
                l, h = al, ah
            else:
                l = h = None
        if c > 0:
            cl = c * l if l is not None else None
            ch = c * h if h is not None else None
        else:
            cl = c * h if h is not None else None
            ch = c * l if l is not None else None
        lo = lo + cl if (lo is not None and cl is not None) else None
        hi = hi + ch if (hi is not None and ch is not None) else None
        if lo is None and hi is None:
            break
    return lo, hi


def prange(p):
    return _rng(P(p))


def Ite0(c, a, b):
    if a is b:
        return a
    # nested same condition
    aa, ba = a.as_atom(), b.as_atom()
    if aa is not None and aa.kind == 'ite' and aa.data[0] is c:
        a = aa.data[1]
    if ba is not None and ba.kind == 'ite' and ba.data[0] is c:
        b = ba.data[2]
    if a is b:
        return a
    sort = REAL if REAL in (a.sort, b.sort) else INT
    l1, h1 = _rng(a)
    l2, h2 = _rng(b)
    lo = min(l1, l2) if l1 is not None and l2 is not None else None
    hi = max(h1, h2) if h1 is not None and h2 is not None else None
    return P(_mk_atom('ite', (c, a, b), sort, lo, hi))


def FDiv(a, b):
    """floor division (integers), b constant > 0 or symbolic."""
    a, b = P(a), P(b)
    cb = b.const()
    if cb is not None and cb > 0:
        if cb == 1:
            return a
        q, r = {}, {}
        for m, k in a.t.items():
            qq, rr = divmod(k, cb)
            if qq:
                q[m] = qq
            if rr:
                r[m] = rr
        r = mkpoly(r)
        l, h = _rng(r)
        if l is not None and h is not None and l // cb == h // cb:
            return mkpoly(q) + (l // cb)
        lo = l // cb if l is not None else None
        hi = h // cb if h is not None else None
        # nested (x/a)/b
        ra = r.as_atom()
        if ra is not None and ra.kind == 'fdiv' and ra.data[1].const() is not None:
            return mkpoly(q) + FDiv(ra.data[0], ra.data[1] * cb)
        return mkpoly(q) + P(_mk_atom('fdiv', (r, b), INT, lo, hi))
    if a is ZERO:
        return ZERO
    if cb is None:
        # common integer factor
        g = 0
        for k in list(a.t.values()) + list(b.t.values()):
            g = gcd(g, abs(int(k)))
        if g > 1:
            a, b = mkpoly({m: k // g for m, k in a.t.items()}), mkpoly({m: k // g for m, k in b.t.items()})
            cb = b.const()
            if cb is not None and cb > 0:
                return FDiv(a, b)
    l, h = _rng(a)
    lb, hb = _rng(b)
    lo = hi = None
    if l is not None and l >= 0 and lb is not None and lb >= 1:
        lo = 0
        hi = (h // lb) if h is not None else None
    # exact polynomial division
    q = pdiv_exact(a, b)
    if q is not None and lb is not None and lb >= 1:
        return q
    if lb is not None and lb >= 1 and cb is None:
        q, r = pdivmod(a, b)
        if q.t and not any(isinstance(x, Fraction) for x in q.t.values()):
            return q + FDiv(r, b)
    return P(_mk_atom('fdiv', (a, b), INT, lo, hi))


def Mod(a, b):
    """a - b*floor(a/b)"""
    a, b = P(a), P(b)
    return a - b * FDiv(a, b)


def Floor(p):
    p = P(p)
    if p.sort == INT:
        return p
    c = p.const()
    if c is not None:
        return P(c.numerator // c.denominator if isinstance(c, Fraction) else c)
    ip, rp = {}, {}
    for m, k in p.t.items():
        if all(ATOMS[a].sort == INT for a in m):
            fl = k.numerator // k.denominator if isinstance(k, Fraction) else k
            if fl:
                ip[m] = fl
            k = norm_c(k - fl)
            if k:
                rp[m] = k
        else:
            rp[m] = k
    rp = mkpoly(rp)
    l, h = _rng(rp)
    fl = None if l is None else int(l // 1)
    fh = None if h is None else int(h // 1)
    if fl is not None and fl == fh:
        return mkpoly(ip) + fl
    # integer-valued part with common denominator -> fdiv
    if rp.t and all(all(ATOMS[a].sort == INT for a in m) for m in rp.t):
        den = 1
        for k in rp.t.values():
            if isinstance(k, Fraction):
                den = den * k.denominator // gcd(den, k.denominator)
        return mkpoly(ip) + FDiv(rp * den, P(den))
    return mkpoly(ip) + P(_mk_atom('floor', (rp,), INT, fl, fh))


def Inv(p):
    """1/p (real)"""
    p = P(p)
    c = p.const()
    if c is not None and c != 0:
        return P(Fraction(1) / c)
    if not p.t:
        return P(_mk_atom('inv', (p,), REAL))       # nothing is known about it
    if len(p.t) == 1:
        (m, k), = p.t.items()
        r = P(Fraction(1) / k)
        for a in m:
            r = r * P(_mk_atom('inv', (P(ATOMS[a]),), REAL))
        return r
    # normalise leading coefficient
    lead = max(p.t, key=lambda m: (len(m), m))
    k = p.t[lead]
    if k != 1:
        return Inv(mkpoly({m: norm_c(Fraction(c) / k) for m, c in p.t.items()})) * P(Fraction(1) / k)
    return P(_mk_atom('inv', (p,), REAL))


def ToReal(p):
    """marks an integer as real-valued (sort only matters for strictness); identity"""
    return P(p)


def bound_sym(d):
    return Sym('\u03b2%d' % d, INT, 0)


def sum_depth(p):
    """max depth of binder inside p"""
    p = P(p)
    if p._depth is not None:
        return p._depth
    d = 0
    for aid in p.atoms():
        d = max(d, atom_depth(ATOMS[aid]))
    p._depth = d
    return d


def bdepth(b):
    if b.op in ('true', 'false', 'bsym'):
        return 0
    if b.op in ('le', 'lt', 'eq'):
        return sum_depth(b.a)
    if b.op == 'not':
        return bdepth(b.a)
    if b.op == 'bapp':
        return max([sum_depth(x) for x in b.a[1:]] or [0])
    return max(bdepth(x) for x in b.a)


_adepth = {}


def atom_depth(a):
    d = _adepth.get(a.id)
    if d is not None:
        return d
    if a.kind == 'sym':
        d = 0
    elif a.kind == 'sum':
        dd, T, body = a.data
        d = max(dd, sum_depth(T))
    elif a.kind == 'fold':
        d = a.data[0]
    elif a.kind == 'ite':
        d = max(bdepth(a.data[0]), sum_depth(a.data[1]), sum_depth(a.data[2]))
    else:
        d = max([sum_depth(x) for x in a.data if isinstance(x, Poly)] or [0])
    _adepth[a.id] = d
    return d


def mentions_poly(p, aid):
    return any(mentions_atom(ATOMS[x], aid) for x in p.atoms())


def pick(a, n, na, T):
    """sum over n < T of (n == r ? v : 0): the one term it has, or None"""
    if a.kind != 'ite' or a.data[0].op != 'eq' or a.data[2] is not ZERO:
        return None
    q = a.data[0].a
    c = q.t.get((na,))
    if c not in (1, -1):
        return None
    r = (n - q) if c == 1 else (n + q)
    if r.sort != INT or mentions_poly(r, na) or any(k.denominator != 1 for k in r.t.values() if not isinstance(k, int)):
        return None
    return Ite(And(Le(0, r), Lt(r, T)), subst(a.data[1], {na: r}), 0)


UNROLL = [16]      # sums of at most so many terms are written out (not when they are evaluated)


def Sum(n, T, body):
    """sum_{0<=n<T} body    (n: symbol poly).  T is taken as max(T,0)."""
    body, T = P(body), P(T)
    na = n.as_atom().id
    tc = T.const()
    if tc is not None:
        if tc <= 0:
            return ZERO
        if tc <= UNROLL[0]:
            r = ZERO
            for i in range(int(tc)):
                r = r + subst(body, {na: P(i)})
            return r
    body = inside(body, na, Le0(n - T + 1))
    # the last few terms of a longer sum stay outside
    k = T.t.get((), 0)
    if tc is None and 0 < k <= 8:
        b = T - k
        l, h = _rng(b)
        if l is not None and l >= 0:
            r = Sum(n, b, body)
            for i in range(int(k)):
                r = r + subst(body, {na: b + i})
            return r
    out = ZERO
    groups = {}
    for m, c in body.t.items():
        dep, ind = [], []
        for a in m:
            (dep if mentions_atom(ATOMS[a], na) else ind).append(a)
        ind = mkpoly({tuple(ind): c})
        if not dep:
            out = out + ind * T
            continue
        if len(dep) == 1:
            a = ATOMS[dep[0]]
            r = pick(a, n, na, T)
            if r is not None:
                out = out + ind * r
                continue
            r = _common_cond(a, n, na, T)
            if r is not None:
                out = out + ind * r
                continue
            if a.kind == 'sum' and not mentions_poly(a.data[1], na):
                # sums of a sum of case distinctions on the outer index: exchange them
                dd, T2, b2 = a.data
                t2 = fresh('s', INT, 0)
                b2 = subst(b2, {bound_sym(dd).as_atom().id: t2})
                ia = b2.as_atom()
                r = pick(ia, n, na, T) if ia is not None else None
                if r is not None:
                    out = out + ind * Sum(t2, T2, r)
                    continue
        # n itself: closed form of sum n = T(T-1)/2 left as atom
        out = out + ind * _sum_atom(na, T, mkpoly({tuple(dep): 1}))
    return out


def _has_lit(b, lit):
    if b is lit:
        return True
    if b.op in ('and', 'or'):
        return any(_has_lit(x, lit) for x in b.a)
    return b.op == 'not' and _has_lit(b.a, lit)


def drop_lit(b, lit):
    if b is lit:
        return TRUE
    if b.op in ('and', 'or') and _has_lit(b, lit):
        return (And if b.op == 'and' else Or)(*[drop_lit(x, lit) for x in b.a])
    if b.op == 'not' and _has_lit(b, lit):
        return Not(drop_lit(b.a, lit))
    return b


def inside(body, na, lit):
    """body with the condition lit taken as true (the index is within the range of the sum)"""
    if lit in (TRUE, FALSE):
        return body
    for rnd in range(4):
        m = {}
        for i in pfree(body):
            a = ATOMS[i]
            if a.kind == 'ite' and na in bfree(a.data[0]) and _has_lit(a.data[0], lit):
                m[i] = Ite(drop_lit(a.data[0], lit), a.data[1], a.data[2])
        if not m:
            return body
        body = subst(body, m)
    return body


def flat(a, deep=False):
    """sum over n < T of the sum over m < C of f(n*C + m), as one sum over T*C terms; or None
    (deep: of f(n, m), as one sum of f(k // C, k mod C))"""
    if a.kind == 'fold':
        return flat_extremum(a)
    if a.kind != 'sum':
        return None
    d0, T, b = a.data
    i = b.as_atom()
    if i is None or i.kind != 'sum':
        return None
    n = fresh('s', INT, 0)
    na = n.as_atom().id
    i = subst(b, {bound_sym(d0).as_atom().id: n}).as_atom()
    if i is None or i.kind != 'sum' or mentions_poly(i.data[1], na):
        return None
    d, C, f = i.data
    l1, l2 = _rng(C)[0], _rng(T)[0]
    if l1 is None or l2 is None or l1 < 0 or l2 < 0 or C.const() is not None or T.const() is not None:
        return None
    k = fresh('s', INT, 0)
    if deep:
        q = FDiv(k, C)
        return Sum(k, T * C, subst(f, {bound_sym(d).as_atom().id: k - C * q, na: q}))
    g = subst(f, {bound_sym(d).as_atom().id: k - C * n})
    if mentions_poly(g, na):
        return None
    return Sum(k, T * C, g)


def flat_extremum(a):
    """the same for the largest/smallest element"""
    d0, T, init, fs, xs, which = a.data
    e = extremum(xs[0], fs[0]) if len(xs) == 1 else None
    if e is None:
        return None
    n = fresh('s', INT, 0)
    i = subst(e[0], {bound_sym(d0).as_atom().id: n}).as_atom()
    if i is None or i.kind != 'fold' or len(i.data[4]) != 1:
        return None
    d, C, init2, fs2, xs2, w2 = i.data
    e2 = extremum(xs2[0], fs2[0])
    na = n.as_atom().id
    l1, l2 = _rng(C)[0], _rng(T)[0]
    if e2 is None or e2[1] != e[1] or mentions_poly(C, na) or l1 is None or l2 is None or l1 < 0 or l2 < 0 or C.const() is not None:
        return None
    k = fresh('s', INT, 0)
    g = subst(e2[0], {bound_sym(d).as_atom().id: k - C * n})
    if mentions_poly(g, na):
        return None
    x = Sym('x!flat_' + g.sort, g.sort)
    f = Ite(Le0(x - g), g, x) if e[1] else Ite(Le0(x - g), x, g)
    return Fold([(x, f)], [subst(g, {k.as_atom().id: ZERO})], k, T * C, 0)


def _common_cond(a, n, na, T):
    """sum of (c and e(n) ? v : 0) = c ? sum of (e(n) ? v : 0) : 0"""
    if a.kind != 'ite':
        return None
    c, y, z = a.data
    if y is ZERO:
        c, y, z = Not(c), z, y
    if z is not ZERO:
        return None
    cs = c.a if c.op == 'and' else (c,)
    dep = [x for x in cs if na in bfree(x)]
    ind = [x for x in cs if na not in bfree(x)]
    if not ind:
        return None
    return Ite(And(*ind), Sum(n, T, Ite(And(*dep), y, 0)), 0)


def _sum_atom(na, T, body):
    d = max(sum_depth(body), sum_depth(T)) + 1
    body2 = subst(body, {na: bound_sym(d)})
    l, h = _rng(body2)
    lo = 0 if (l is not None and l >= 0) else None
    return P(_mk_atom('sum', (d, T, body2), body2.sort, lo, None, d))


def Max(a, b):
    a, b = P(a), P(b)
    (al, ah), (bl, bh) = _rng(a), _rng(b)
    if ah is not None and bl is not None and ah <= bl:
        return b
    if bh is not None and al is not None and bh <= al:
        return a
    return Ite(Le0(a - b), b, a)


def Min(a, b):
    a, b = P(a), P(b)
    (al, ah), (bl, bh) = _rng(a), _rng(b)
    if ah is not None and bl is not None and ah <= bl:
        return a
    if bh is not None and al is not None and bh <= al:
        return b
    return Ite(Le0(a - b), a, b)


def extremum(x, f):
    """(body, is_max) when f is max(x, body) or min(x, body), body free of x"""
    a = f.as_atom()
    if a is None or a.kind != 'ite':
        return None
    c, u, v = a.data
    if u is x:
        body = v
    elif v is x:
        body = u
    else:
        return None
    if c.op != 'le' or any(mentions_atom(ATOMS[z], x.as_atom().id) for z in body.atoms()):
        return None
    if c is Le0(u - v):
        return body, False
    if c is Le0(v - u):
        return body, True
    return None


def Fold(comps, init, n, T, which):
    """Fold: state vector x (symbols xs) with init; x(n+1)=F_i(x,n); value after T steps, component which.
    comps: list of (xsym, Fpoly)."""
    d = 0
    for x, f in comps:
        d = max(d, sum_depth(f))
    d = max([d, sum_depth(T)] + [sum_depth(i) for i in init]) + 1
    m = {n.as_atom().id: bound_sym(d)}
    xs = []
    for k, (x, f) in enumerate(comps):
        s = Sym('\u03c7%d_%d_%s' % (d, k, x.sort), x.sort)
        m[x.as_atom().id] = s
        xs.append(s)
    fs = tuple(subst(f, m) for x, f in comps)
    sort = comps[which][0].sort
    init = [P(i) for i in init]
    if len(comps) == 1:
        ex = extremum(comps[0][0], P(comps[0][1]))
        if ex is not None:
            # a running maximum/minimum does not depend on how it is started
            body, mx = ex
            na = n.as_atom().id
            if P(T).const() is None and init[0] == subst(body, {na: P(-1)}) and init[0] != subst(body, {na: ZERO}):
                # started with the element before the first
                return Fold([(comps[0][0], subst(comps[0][1], {na: n - 1}))], init, n, T + 1, which)
            b0 = subst(body, {n.as_atom().id: ZERO})
            l, h = _rng(body)
            x = Sym('\u03c7%d_0_%s' % (d, body.sort), body.sort)
            bb = subst(body, m)
            f = Ite(Le0(x - bb), bb, x) if mx else Ite(Le0(x - bb), x, bb)
            M = P(_mk_atom('fold', (d, T, (b0,), (f,), (x,), 0), body.sort, l, h, d))
            if init[0] == b0:
                return M
            return Ite(Le0(P(T)), init[0], Max(init[0], M) if mx else Min(init[0], M))
        st = latch(comps[0][0], P(comps[0][1]), n)
        if st is not None:
            # the value stays until some condition holds, and is then a constant
            stay, K = st
            return Ite(Eq(Sum(n, T, Ite(stay, 0, 1)), 0), init[0], K)
    return P(_mk_atom('fold', (d, T, tuple(P(i) for i in init), fs, tuple(xs), which), sort, None, None, d))


def latch(x, f, n):
    """f = (c ? x : K), K constant and c without x: (c, K)"""
    a = f.as_atom()
    if a is None or a.kind != 'ite':
        return None
    c, y, z = a.data
    xid = x.as_atom().id
    if y is not x:
        c, y, z = Not(c), z, y
    if y is not x or z.const() is None or xid in bfree(c):
        return None
    return c, z


# ---------------------------------------------------------------- traversal
_ment = {}


def mentions_atom(a, aid):
    if a.id == aid:
        return True
    if a.kind == 'sym':
        return False
    return aid in free_atoms(a)


_free = {}


def free_atoms(a):
    """set of all atom ids (transitively) inside atom a, including itself"""
    s = _free.get(a.id)
    if s is not None:
        return s
    s = {a.id}
    for x in a.data if a.kind != 'sym' else ():
        s |= _free_any(x)
    s = frozenset(s)
    _free[a.id] = s
    return s


def _free_any(x):
    if isinstance(x, Poly):
        return pfree(x)
    if isinstance(x, B):
        return bfree(x)
    if isinstance(x, tuple):
        r = set()
        for y in x:
            r |= _free_any(y)
        return r
    return set()


_pfree = {}


def pfree(p):
    s = _pfree.get(p)
    if s is None:
        s = set()
        for aid in p.atoms():
            s |= free_atoms(ATOMS[aid])
        s = frozenset(s)
        _pfree[p] = s
    return s


_bfree = {}


def bfree(b):
    s = _bfree.get(b)
    if s is None:
        if b.op in ('le', 'lt', 'eq'):
            s = pfree(b.a)
        elif b.op == 'not':
            s = bfree(b.a)
        elif b.op in ('and', 'or'):
            s = set()
            for x in b.a:
                s |= bfree(x)
        elif b.op == 'bapp':
            s = set()
            for x in b.a[1:]:
                s |= pfree(x)
        else:
            s = ()
        s = frozenset(s)
        _bfree[b] = s
    return s


class Subst:
    """substitution atom-id -> Poly with memo."""

    def __init__(self, m):
        self.m = {k: P(v) for k, v in m.items()}
        self.keys = frozenset(self.m)
        self.pm = {}
        self.bm = {}
        self.am = {}

    def poly(self, p):
        r = self.pm.get(p)
        if r is not None:
            return r
        if not (pfree(p) & self.keys):
            self.pm[p] = p
            return p
        r = ZERO
        acc = {}
        for m, c in p.t.items():
            if not any(self.touch(a) for a in m):
                acc[m] = acc.get(m, 0) + c
                continue
            t = P(c)
            for a in m:
                t = t * self.atom(ATOMS[a])
            for mm, cc in t.t.items():
                acc[mm] = acc.get(mm, 0) + cc
        r = mkpoly({m: norm_c(c) for m, c in acc.items() if c != 0})
        self.pm[p] = r
        return r

    def touch(self, aid):
        return bool(free_atoms(ATOMS[aid]) & self.keys)

    def atom(self, a):
        r = self.am.get(a.id)
        if r is not None:
            return r
        if a.id in self.m:
            r = self.m[a.id]
        elif not (free_atoms(a) & self.keys):
            r = P(a)
        elif a.kind == 'app':
            args = [self.poly(x) for x in a.data[1:]]
            hook = APP_HOOKS.get(a.data[0])
            r = hook(args) if hook else None
            if r is None:
                r = App(a.data[0], args, a.sort, a.lo, a.hi)
        elif a.kind == 'ite':
            r = Ite(self.b(a.data[0]), self.poly(a.data[1]), self.poly(a.data[2]))
        elif a.kind == 'fdiv':
            r = FDiv(self.poly(a.data[0]), self.poly(a.data[1]))
        elif a.kind == 'floor':
            r = Floor(self.poly(a.data[0]))
        elif a.kind == 'inv':
            r = Inv(self.poly(a.data[0]))
        elif a.kind == 'sum':
            d, T, body = a.data
            n = fresh('s', INT, 0)
            b2 = subst(body, {bound_sym(d).as_atom().id: n})
            r = Sum(n, self.poly(T), self.poly(b2))
        elif a.kind == 'fold':
            d, T, init, fs, xs, which = a.data
            n = fresh('s', INT, 0)
            ys = [fresh('x', x.sort) for x in xs]
            m = {bound_sym(d).as_atom().id: n}
            for x, y in zip(xs, ys):
                m[x.as_atom().id] = y
            fs2 = [self.poly(subst(f, m)) for f in fs]
            r = Fold(list(zip(ys, fs2)), [self.poly(i) for i in init], n, self.poly(T), which)
        else:
            raise NotImplementedError(a.kind)
        self.am[a.id] = r
        return r

    def b(self, b):
        r = self.bm.get(b)
        if r is not None:
            return r
        if not (bfree(b) & self.keys):
            r = b
        elif b.op == 'le':
            r = Le0(self.poly(b.a))
        elif b.op == 'lt':
            r = Lt0(self.poly(b.a))
        elif b.op == 'eq':
            r = Eq0(self.poly(b.a))
        elif b.op == 'not':
            r = Not(self.b(b.a))
        elif b.op == 'and':
            r = And(*[self.b(x) for x in b.a])
        elif b.op == 'or':
            r = Or(*[self.b(x) for x in b.a])
        elif b.op == 'bapp':
            r = BApp(b.a[0], [self.poly(x) for x in b.a[1:]])
        else:
            r = b
        self.bm[b] = r
        return r


APP_HOOKS = {}


def subst(p, m):
    return Subst(m).poly(P(p))


def bsubst(b, m):
    return Subst(m).b(b)


# ---------------------------------------------------------------- polynomial division
def _mono_div(m, d):
    """m / d for sorted tuples, or None"""
    if not d:
        return m
    m = list(m)
    for a in d:
        try:
            m.remove(a)
        except ValueError:
            return None
    return tuple(m)


def lead(p):
    return max(p.t, key=lambda m: (len(m), m))


def pdivmod(a, b, order=None):
    """multivariate division of a by b (leading monomial of b): a = q*b + r."""
    q = {}
    r = a
    lb = order(b) if order else lead(b)
    cb = b.t[lb]
    guard = 0
    again = True
    rest = {}
    work = dict(a.t)
    while work:
        guard += 1
        if guard > 300:
            break
        m = max(work, key=lambda m: (len(m), m))
        c = work[m]
        d = _mono_div(m, lb)
        if d is not None and (isinstance(c, Fraction) or isinstance(cb, Fraction) or c % cb == 0):
            k = norm_c(Fraction(c) / cb) if (isinstance(c, Fraction) or isinstance(cb, Fraction)) else c // cb
            q[d] = norm_c(q.get(d, 0) + k)
            for mb, c2 in b.t.items():
                mm = tuple(sorted(d + mb))
                v = norm_c(work.get(mm, 0) - k * c2)
                if v == 0:
                    work.pop(mm, None)
                else:
                    work[mm] = v
        else:
            rest[m] = c
            del work[m]
    for m, c in work.items():
        rest[m] = rest.get(m, 0) + c
    return mkpoly({m: c for m, c in q.items() if c}), mkpoly({m: c for m, c in rest.items() if c})


def pdiv_exact(a, b):
    if not b.t:
        return None
    q, r = pdivmod(a, b)
    if not r.t:
        return q
    return None


# ---------------------------------------------------------------- printing
def show_atom(a):
    k = a.kind
    if k == 'sym':
        return a.data
    if k == 'app':
        return '%s(%s)' % (a.data[0], ', '.join(map(show, a.data[1:])))
    if k == 'ite':
        return '(%s ? %s : %s)' % (show_b(a.data[0]), show(a.data[1]), show(a.data[2]))
    if k == 'fdiv':
        return '((%s) // (%s))' % (show(a.data[0]), show(a.data[1]))
    if k == 'floor':
        return 'floor(%s)' % show(a.data[0])
    if k == 'inv':
        return '1/(%s)' % show(a.data[0])
    if k == 'sum':
        return 'SUM[b%d<%s](%s)' % (a.data[0], show(a.data[1]), show(a.data[2]))
    if k == 'fold':
        d, T, init, fs, xs, which = a.data
        return 'FOLD%d.%d[b<%s; init=%s; step=%s]' % (d, which, show(T), list(map(show, init)), list(map(show, fs)))
    return '?' + k


def show(p):
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda mc: (-len(mc[0]), mc[0])):
        s = '*'.join(show_atom(ATOMS[a]) for a in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = '-' + s
        elif c != 1:
            s = '%s*%s' % (c, s)
        out.append(s)
    return ' + '.join(out).replace('+ -', '- ')


def show_b(b):
    if b.op in ('true', 'false'):
        return b.op
    if b.op == 'le':
        return '%s <= 0' % show(b.a)
    if b.op == 'lt':
        return '%s < 0' % show(b.a)
    if b.op == 'eq':
        return '%s == 0' % show(b.a)
    if b.op == 'not':
        return '!(%s)' % show_b(b.a)
    if b.op == 'bsym':
        return str(b.a)
    if b.op == 'bapp':
        return '%s(%s)' % (b.a[0], ', '.join(map(show, b.a[1:])))
    return '(' + (' & ' if b.op == 'and' else ' | ').join(map(show_b, b.a)) + ')'


def MaxOf(t, n, body, mx=True):
    """largest body over 0 <= t < n  (n >= 1)"""
    x = fresh('mx', P(body).sort)
    return Fold([(x, Max(x, body) if mx else Min(x, body))], [subst(P(body), {t.as_atom().id: ZERO})], t, P(n), 0)


def MinOf(t, n, body):
    return MaxOf(t, n, body, False)


def _odd(p):
    """(q, sign) with p = sign*q and the first coefficient of q positive"""
    if p.t and p.t[min(p.t, key=lambda m: (-len(m), m))] < 0:
        return -p, -1
    return p, 1


def Cos(p):
    return App('math.cos', [_odd(P(p))[0]], REAL, -1, 1)


def Sin(p):
    q, s = _odd(P(p))
    return App('math.sin', [q], REAL, -1, 1) * s


def Sqrt(p):
    return App('math.sqrt', [P(p)], REAL, 0)


BORDERS = {1: 'replicate', 2: 'reflect', 3: 'wrap', 4: 'reflect 101'}


def Border(t, p, n):
    """element of a line of n >= 1 elements that position p of its extension shows (hypercv_border_Interpolate, see C10)"""
    return App('border:%d' % t, [P(p), P(n)], INT, 0)


for _t in BORDERS:
    APP_HOOKS['border:%d' % _t] = lambda args, _t=_t: Border(_t, *args)


def border_value(t, p, n):
    """the documented mapping, on numbers (contracts and C10 use border_term, its symbolic form)"""
    if 0 <= p < n:
        return p
    if t == 1:
        return 0 if p < 0 else n - 1
    if t == 3:
        return p % n
    if n == 1:
        return 0
    q = p % (2 * n - (0 if t == 2 else 2))
    return q if q < n else 2 * n - (1 if t == 2 else 2) - q


APP_HOOKS['math.cos'] = lambda args: Cos(args[0])
APP_HOOKS['math.sin'] = lambda args: Sin(args[0])


TABS = {}
_tabid = {}


def Tab(vals, i):
    """entry i of a constant table"""
    vals = tuple(vals)
    k = _tabid.get(vals)
    if k is None:
        k = _tabid[vals] = 'tab:%d' % len(_tabid)
        inc = all(isinstance(v, int) for v in vals) and all(a < b for a, b in zip(vals, vals[1:]))
        TABS[k] = (vals, inc)
        APP_HOOKS[k] = _tab_hook(k)
    c = P(i).const()
    if c is not None and 0 <= c < len(vals):
        return P(Fraction(vals[int(c)]))
    if all(isinstance(v, int) for v in vals):
        return App(k, [i], INT, min(vals), max(vals))
    return App(k, [i], REAL)


def _tab_hook(name):
    return lambda args: Tab(TABS[name][0], args[0])
