"""Contracts of the allocation / bookkeeping functions of the core module.

They are *used* at call sites (a caller is checked against the contract, not the body) and *verified* against the real
bodies by the cases of C05/C06 (props/C05.py, props/C06.py): an object made by create_hyper_mat is one allocation whose
struct, data and wavelength areas are disjoint, aligned, inside the allocation and zero-filled; the contract exposes the
three areas as separate objects that are released together.
"""
from engine.terms import *
from engine.mem import *
from engine.mem import Unsupported
from engine.spec import VALID_DT, IMAX


def esz(ex, st, v):
    """element size of a data type: constant, ghost symbol, or case table"""
    p = ex.as_s(st, v)
    c = p.const()
    if c is not None:
        return P(VALID_DT.get(c, -1))
    E = ex.cx.esz.get(p)
    if E is not None:
        return E
    # provably equal to a known one?
    for q, E in ex.cx.esz.items():
        if not ex.light and ex.prove(st, Eq(p, q)):
            return E
    out = P(-1)
    for k, s in VALID_DT.items():
        out = Ite(Eq(p, k), s, out)
    return out


def c_get_elemsize(ex, st, args, ins):
    return [(st, IV(esz(ex, st, args[0]), 32))]


def single(ex, st, pv, what):
    al = ex.feasible_alts(st, pv)
    if len(al) != 1 or al[0][1] is None:
        if len(al) == 1:
            ex.oblige(st, FALSE, 'pre', what + ' must not be NULL')
        raise Unsupported('contract: %s is not a single object (%r)' % (what, pv))
    return al[0][1], al[0][2]


def mk_hm(ex, st, name, ins, s, l, b, dt, E, il, zero=True):
    d = ex.newblk(name + '.data', s * l * b * E, 'img', 'zero', 64, (id(ins), 'd'))
    w = ex.newblk(name + '.wave', b * 4, 'img', 'zero', 64, (id(ins), 'w'))
    m = ex.newblk(name, 40, 'img', 'undef', 16, (id(ins), 'm'))
    m.sub = [d, w]
    m.nul_by = 31
    d.subof = w.subof = m
    st.mem[d], st.mem[w] = BS(), BS()
    cells = {0: (4, 'i32', IV(s, 32)), 4: (4, 'i32', IV(l, 32)), 8: (4, 'i32', IV(b, 32)), 12: (4, 'i32', IV(dt, 32)),
             24: (8, 'ptr', PV.to(d)), 32: (8, 'ptr', PV.to(w))}
    for i in range(3):
        cells[16 + i] = (1, 'i8', il[i])
    st.mem[m] = BS(cells)
    return m, d, w


def pre_hm(ex, st, s, l, b, E):
    ex.oblige(st, Le(1, s), 'pre', 'create_hyper_mat: samples > 0')
    ex.oblige(st, Le(1, l), 'pre', 'create_hyper_mat: lines > 0')
    ex.oblige(st, Le(1, b), 'pre', 'create_hyper_mat: bands > 0')
    ex.oblige(st, Le(1, E), 'pre', 'create_hyper_mat: known data type')
    ex.oblige(st, Le(s * l * b * E, IMAX), 'pre', 'create_hyper_mat: image size below 2^31 bytes')
    ex.oblige(st, Le(b * 4, IMAX - 64), 'pre', 'create_hyper_mat: wavelength table below 2^31 bytes')


def read_il(ex, st, pv):
    b, o = single(ex, st, pv, 'interleave')
    out = []
    for i in range(3):
        ex.access(st, PV.to(b, o + i), ONE, 'interleave read')
        v = ex.read(st, b, o + i, 'i8', 1)
        out.append(v)
    return out


def c_create_hm_data(ex, st, args, ins):
    s, l, b, dt = [ex.as_s(st, a) for a in args[:4]]
    E = esz(ex, st, args[3])
    pre_hm(ex, st, s, l, b, E)
    il = read_il(ex, st, args[4])
    m, d, w = mk_hm(ex, st, 'hm@%d' % ex.cur_line, ins, s, l, b, dt, E, il)
    for blk, n, pv, what in ((d, s * l * b * E, args[5], 'data'), (w, b * 4, args[6], 'wavelength')):
        for g, sb, so in ex.feasible_alts(st, pv):
            if sb is None:
                continue
            ex.access(st, PV([(g, sb, so)]), n, what + ' read')
            ex.push_node(st, blk, Node('C', (), g, ZERO, n, None, None, (sb, st.bs(sb)), so))
    return [(st, PV.to(m))]


def c_create_hm(ex, st, args, ins):
    return c_create_hm_data(ex, st, list(args) + [NULL, NULL], ins)


def free_obj(ex, st, pv, what):
    for g, b, o in ex.feasible_alts(st, pv):
        if b is None:
            continue
        if b.kind not in ('img', 'heap') or getattr(b, 'subof', None) is not None:
            ex.oblige(st, Not(g), 'pre', what + ': argument is an object made by the library')
            continue
        ex.oblige(st, Implies(g, Eq(o, 0)), 'pre', what + ': argument is the object itself')
        bs = st.bs(b)
        ex.oblige(st, Implies(g, Not(bs.freed)), 'pre', what + ': not already deleted')
        for x in [b] + list(getattr(b, 'sub', ())):
            y = st.bs(x)
            st.mem[x] = BS(y.cells, y.chain, Or(y.freed, g))
    return [(st, None)]


def c_delete_hm(ex, st, args, ins):
    return free_obj(ex, st, args[0], 'delete_hyper_mat')


def c_delete_sm(ex, st, args, ins):
    return free_obj(ex, st, args[0], 'delete_simple_mat')


def field(ex, st, b, o, k, tag='i32'):
    z = 8 if tag == 'ptr' else 4
    ex.access(st, PV.to(b, o + k), P(z), 'field read')
    v = ex.read(st, b, o + k, tag, z)
    return v


def c_hm_copy(ex, st, args, ins):
    b, o = single(ex, st, args[0], 'hyper_mat_copy argument')
    fs = [field(ex, st, b, o, k) for k in (0, 4, 8, 12)]
    data, wave = field(ex, st, b, o, 24, 'ptr'), field(ex, st, b, o, 32, 'ptr')
    return c_create_hm_data(ex, st, fs + [PV.to(b, o + 16), data, wave], ins)


def mk_sm(ex, st, ins, r, c, dt, ch, E, data=None):
    m = ex.newblk('sm@%d' % ex.cur_line, 32, 'img', 'undef', 16, (id(ins), 'm'))
    if data is None:
        d = ex.newblk('sm@%d.data' % ex.cur_line, r * c * E * ch, 'img', 'zero', 64, (id(ins), 'd'))
        m.sub = [d]
        d.subof = m
        st.mem[d] = BS()
        data = PV.to(d)
    else:
        m.sub = [b for g, b, o in data.alts if b is not None]
        for x in m.sub:
            x.subof = m
    st.mem[m] = BS({0: (4, 'i32', IV(r, 32)), 4: (4, 'i32', IV(c, 32)), 8: (4, 'i32', IV(dt, 32)),
                    12: (4, 'i32', IV(ch, 32)), 16: (4, 'i32', IV(E, 32)), 24: (8, 'ptr', data)})
    return m


def pre_sm(ex, st, r, c, E, ch):
    ex.oblige(st, Le(1, r), 'pre', 'create_simple_mat: rows > 0')
    ex.oblige(st, Le(1, c), 'pre', 'create_simple_mat: cols > 0')
    ex.oblige(st, Le(1, E), 'pre', 'create_simple_mat: known data type')
    ex.oblige(st, Le(1, ch), 'pre', 'create_simple_mat: channels > 0')
    ex.oblige(st, Le(r * c * E * ch, IMAX - 256), 'pre', 'create_simple_mat: image size below 2^31 bytes')


def c_create_sm(ex, st, args, ins):
    r, c, dt, ch = [ex.as_s(st, a) for a in args[:4]]
    E = esz(ex, st, args[2])
    pre_sm(ex, st, r, c, E, ch)
    return [(st, PV.to(mk_sm(ex, st, ins, r, c, dt, ch, E)))]


def c_create_sm_data(ex, st, args, ins):
    if args[4].is_null():
        return c_create_sm(ex, st, args[:4], ins)
    r, c, dt, ch = [ex.as_s(st, a) for a in args[:4]]
    E = esz(ex, st, args[2])
    pre_sm(ex, st, r, c, E, ch)
    single(ex, st, args[4], 'create_simple_mat_with_data: data')
    return [(st, PV.to(mk_sm(ex, st, ins, r, c, dt, ch, E, args[4])))]


def c_cmpstr(ex, st, args, ins):
    """letters that are not all known (an image's layout, which is not terminated; a line with a number) against a name;
    verified by C05 for these names.  A comparison of known strings is taken from the body"""
    from engine.builtins import const_string
    lit = const_string(ex, st, args[1])
    if lit is None or bytes(lit) not in (b'bsq', b'bil', b'bip', b'wavelength = {') or const_string(ex, st, args[0]) is not None:
        return None
    al = ex.feasible_alts(st, args[0])
    if not lit or len(al) != 1 or al[0][1] is None:
        return None
    b, o = al[0][1], al[0][2]
    conds = []
    for i, ch in enumerate(lit):
        ex.access(st, PV.to(b, o + i), ONE, 'string read')
        v = ex.read(st, b, o + i, 'i8', 1)
        if not isinstance(v, IV):
            return None
        p = ex.as_u(st, v)
        if not ex.light and not ex.prove(st, Ne(p, 0)):
            return None
        conds.append(Eq(p, ch))
    return [(st, IV(Ite(And(*conds), 1, 0), 32))]


def c_border(ex, st, args, ins):
    """verified by C10"""
    p, n, t = ex.as_s(st, args[0]), ex.as_s(st, args[1]), ex.as_s(st, args[2]).const()
    if t not in BORDERS:
        return None
    ex.oblige(st, Le(1, n), 'pre', 'hypercv_border_Interpolate: the line is not empty')
    ex.oblige(st, And(Le(-2 ** 30, p), Le(p, 2 ** 30), Le(n, 2 ** 29)), 'pre', 'hypercv_border_Interpolate: moderate distances')
    return [(st, IV(Border(t, p, n), 32, 's'))]


def c_transport(ex, st, args, ins):
    """simple_mat_transport, one channel; verified by C07"""
    out = []
    for pv, w in ((args[0], 'result'), (args[1], 'source')):
        b, o = single(ex, st, pv, 'simple_mat_transport: ' + w)
        f = [ex.as_s(st, field(ex, st, b, o, k)) for k in (0, 4, 8)]
        d, do = single(ex, st, field(ex, st, b, o, 24, 'ptr'), 'simple_mat_transport: data')
        out.append(f + [d, do])
    (r, c, dt, d, do), (sr, sc, sdt, s, so) = out
    E = esz(ex, st, IV(sdt, 32))
    ex.oblige(st, And(Eq(r, sc), Eq(c, sr), Eq(dt, sdt), Le(1, E)), 'pre', 'simple_mat_transport: the result has the transposed shape')
    if d is s:
        raise Unsupported('simple_mat_transport in place')
    n = r * c * E
    ex.oblige(st, Le(n, IMAX - 256), 'pre', 'simple_mat_transport: image size below 2^31 bytes')
    ex.access(st, PV.to(s, so), n, 'source read')
    ex.access(st, PV.to(d, do), n, 'result write')
    i, j = Sym('tp!i', INT, 0), Sym('tp!j', INT, 0)
    ex.push_node(st, d, Node('C', ((i, r, 0), (j, c, 0)), TRUE, do + (i * c + j) * E, E, None, None, (s, st.bs(s)), so + (j * r + i) * E))
    return [(st, None)]


OPTIONAL = {'simple_mat_transport': c_transport}      # used by the cases that ask for them

CONTRACTS = {
    'hypercv_border_Interpolate': c_border,
    'cmpstr': c_cmpstr,
    'get_elemsize': c_get_elemsize,
    '_ZL12get_elemsizei': c_get_elemsize,
    'create_hyper_mat': c_create_hm,
    'create_hyper_mat_with_data': c_create_hm_data,
    'delete_hyper_mat': c_delete_hm,
    'hyper_mat_copy': c_hm_copy,
    'create_simple_mat': c_create_sm,
    'create_simple_mat_with_data': c_create_sm_data,
    'delete_simple_mat': c_delete_sm,
}
