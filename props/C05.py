"""C05: creating and copying images: requested shape, private zeroed / copied storage, source untouched."""
from engine.spec import *
from engine.terms import *

HF = ['modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c', 'modules/core/src/c_src/struct_2D.c']


@case('C05', 'get_elemsize', HF, ['get_elemsize'])
def elemsize(cx):
    for k, v in VALID_DT.items():
        for o in cx.call('get_elemsize', cx.int(k)):
            o.ensure(Eq(o.iret(), v), 'element size of data type %d is %d' % (k, v))


def byte(o, blk, off):
    return o.read(blk, P(off), 'i8')


def layout(o, r, n, w, nw, wo):
    """struct, data and wavelength areas are disjoint parts of live allocations"""
    if r.data is r.b:
        o.ensure(Le(40, r.doff), 'the data area does not overlap the header')
    o.ensure(And(Le(0, r.doff), Le(r.doff + n, r.data.size)), 'the data area holds the whole image')
    o.ensure(And(Le(0, wo), Le(wo + nw, w.size)), 'the wavelength area holds one float per band')
    if w is r.data:
        o.ensure(Or(Le(r.doff + n, wo), Le(wo + nw, r.doff)), 'data and wavelength areas are disjoint')
    if w is r.b:
        o.ensure(Le(40, wo), 'the wavelength area does not overlap the header')


def aligned(o, blk, off, what):
    o.ensure(Eq(Mod(o.addr(blk) + off, 64), 0), what + ' is 64-byte aligned')


def mk_create(data, wave, api):
    nm = '%s[%s]' % (api, ','.join(x for x in ('data' if data else '', 'wavelength' if wave else '') if x) or 'zeroed')

    @case('C05', nm, HF, ['create_hyper_mat', 'create_hyper_mat_with_data'])
    def run(cx):
        S, L, B = cx.dim('S'), cx.dim('L'), cx.dim('B')
        dt, E = cx.dtype()
        cx.fits(S, L, B, E)
        cx.require(Le(B * 4, IMAX - 64))
        n, nw = S * L * B * E, B * 4
        args = [cx.int(S), cx.int(L), cx.int(B), cx.int(dt)]
        d = cx.obj('data', n) if data else None
        w = cx.obj('wl', nw) if wave else None
        for il in ('bsq', 'bil', 'bip'):
            a = args + [cx.cstr(il)]
            if api == 'create_hyper_mat_with_data':
                a += [PV.to(d) if d else NULL, PV.to(w) if w else NULL]
            for o in cx.call(api, *a):
                r = o.hm()
                r.shape(S, L, B, dt, il)
                wb, wo = r.wave()
                layout(o, r, n, wb, nw, wo)
                aligned(o, r.data, r.doff, 'data')
                aligned(o, wb, wo, 'wavelength')
                q = o.fork()
                i = q.index('i', n)
                q.ensure(veq(q, byte(q, r.data, r.doff + i), q.src(d, i) if d else IV(ZERO, 8, 'u')),
                         'every data byte is the caller\'s' if d else 'every data byte is zero')
                q = o.fork()
                i = q.index('i', nw)
                q.ensure(veq(q, byte(q, wb, wo + i), q.src(w, i) if w else IV(ZERO, 8, 'u')),
                         'every wavelength byte is the caller\'s' if w else 'every wavelength byte is zero')
                for x in (d, w):
                    if x:
                        o.unchanged(x)
                o.no_leak([r.b, r.data, wb])


mk_create(0, 0, 'create_hyper_mat')
for a in (0, 1):
    for b in (0, 1):
        mk_create(a, b, 'create_hyper_mat_with_data')


def hm_same(cx, o, r, h, il=None, wave=True):
    r.shape(h.S, h.L, h.B, h.dt, il or h.il)
    n = h.S * h.L * h.B * h.E
    r.room(n)
    q = o.fork()
    i = q.index('i', n)
    q.ensure(veq(q, byte(q, r.data, r.doff + i), q.src(h.data, i)), 'every data byte is the source\'s')
    if wave and h.wave is not None:
        wb, wo = r.wave()
        o.ensure(And(Le(0, wo), Le(wo + h.B * 4, wb.size)), 'the wavelength area holds one float per band')
        q = o.fork()
        i = q.index('i', h.B * 4)
        q.ensure(veq(q, byte(q, wb, wo + i), q.src(h.wave, i)), 'every wavelength byte is the source\'s')


@case('C05', 'hyper_mat_copy', HF, ['hyper_mat_copy'])
def hmcopy(cx):
    for il in ('bsq', 'bil', 'bip'):
        h = cx.hm('src', il)
        for o in cx.call('hyper_mat_copy', h.p):
            r = o.hm()
            o.ensure(TRUE if r.data is not h.data and r.b is not h.blk else FALSE, 'the copy has storage of its own')
            hm_same(cx, o, r, h)
            for b in (h.blk, h.data, h.wave):
                o.unchanged(b)
            o.no_leak([r.b, r.data, r.wave()[0]])


@case('C05', 'hyper_mat_copy_to', HF, ['hyper_mat_copy_to', 'hyper_mat_copy_wavelength'])
def hmcopyto(cx):
    for il, il2 in (('bsq', 'bip'), ('bil', 'bil'), ('bip', 'bsq')):
        h = cx.hm('src', il)
        d = cx.hm('dst', il2, h.S, h.L, h.B, h.dt, h.E)
        for o in cx.call('hyper_mat_copy_to', h.p, d.p):
            r = o.hm(d.p, 'dst')
            o.ensure(TRUE if r.data is d.data else FALSE, 'the destination keeps its storage')
            hm_same(cx, o, r, h)
            for b in (h.blk, h.data, h.wave):
                o.unchanged(b)
            o.no_leak([])


@case('C05', 'hyper_mat_copy_wavelength', HF, ['hyper_mat_copy_wavelength'])
def hmcopyw(cx):
    h = cx.hm('src', 'bsq')
    d = cx.hm('dst', 'bip', B=h.B)
    for o in cx.call('hyper_mat_copy_wavelength', h.p, d.p):
        wb, wo = o.hm(d.p, 'dst').wave()
        o.ensure(TRUE if wb is d.wave else FALSE, 'the destination keeps its storage')
        q = o.fork()
        i = q.index('i', h.B * 4)
        q.ensure(veq(q, byte(q, wb, wo + i), q.src(h.wave, i)), 'every wavelength byte is the source\'s')
        for b in (h.blk, h.data, h.wave, d.blk, d.data):
            o.unchanged(b)


@case('C05', 'hyper_mat_empty', HF, ['hyper_mat_empty'])
def hmempty(cx):
    h = cx.hm('m', 'bsq')
    for o in cx.call('hyper_mat_empty', h.p):
        o.ensure(Eq(o.iret(), 0), 'an existing image is not empty')
    for o in cx.call('hyper_mat_empty', NULL):
        o.ensure(Eq(o.iret(), 1), 'no image is empty')


def sm_layout(o, r, n):
    if r.data is r.b:
        o.ensure(Le(32, r.doff), 'the data area does not overlap the header')
    o.ensure(And(Le(0, r.doff), Le(r.doff + n, r.data.size)), 'the data area holds the whole image')


def mk_sm(api):
    @case('C05', api + '[zeroed]', HF, ['create_simple_mat', 'create_simple_mat_with_data'])
    def run(cx):
        R, C, ch = cx.dim('R'), cx.dim('C'), cx.dim('ch')
        dt, E = cx.dtype()
        n = R * C * E * ch
        cx.fits(R, C, E, ch)
        cx.require(Le(n, IMAX - 256))
        a = [cx.int(R), cx.int(C), cx.int(dt), cx.int(ch)] + ([NULL] if api.endswith('data') else [])
        for o in cx.call(api, *a):
            r = o.sm()
            r.shape(R, C, dt, ch)
            o.ensure(Eq(r.elem_size, E), 'result->elem_size')
            sm_layout(o, r, n)
            aligned(o, r.data, r.doff, 'data')
            q = o.fork()
            i = q.index('i', n)
            q.ensure(veq(q, byte(q, r.data, r.doff + i), IV(ZERO, 8, 'u')), 'every data byte (of every channel) is zero')
            o.no_leak([r.b, r.data])


mk_sm('create_simple_mat')
mk_sm('create_simple_mat_with_data')


@case('C05', 'create_simple_mat_with_data[user data]', HF, ['create_simple_mat_with_data'])
def smdata(cx):
    R, C, ch = cx.dim('R'), cx.dim('C'), cx.dim('ch')
    dt, E = cx.dtype()
    n = R * C * E * ch
    cx.fits(R, C, E, ch)
    cx.require(Le(n, IMAX - 256))
    d = cx.obj('data', n, 'heap')
    for o in cx.call('create_simple_mat_with_data', cx.int(R), cx.int(C), cx.int(dt), cx.int(ch), PV.to(d)):
        r = o.sm()
        r.shape(R, C, dt, ch)
        o.ensure(Eq(r.elem_size, E), 'result->elem_size')
        o.ensure(Eq(r.doff, 0) if r.data is d else FALSE, 'the image uses the caller\'s data area itself')
        o.unchanged(d)
        o.no_leak([r.b, r.data])


@case('C05', 'simple_mat_copy', HF, ['simple_mat_copy'])
def smcopy(cx):
    ch = cx.dim('ch')
    h = cx.sm('src', None, ch)
    for o in cx.call('simple_mat_copy', h.p):
        r = o.sm()
        o.ensure(TRUE if r.data is not h.data and r.b is not h.blk else FALSE, 'the copy has storage of its own')
        r.shape(h.R, h.C, h.dt, ch)
        o.ensure(Eq(r.elem_size, h.E), 'result->elem_size')
        n = h.R * h.C * h.ch * h.E
        sm_layout(o, r, n)
        q = o.fork()
        i = q.index('i', n)
        q.ensure(veq(q, byte(q, r.data, r.doff + i), q.src(h.data, i)), 'every data byte is the source\'s')
        for b in (h.blk, h.data):
            o.unchanged(b)
        o.no_leak([r.b, r.data])


@case('C05', 'create_2D_struct', HF, ['create_2D_struct', 'create_2D_struct_with_data'])
def s2d(cx):
    W, H = cx.dim('W'), cx.dim('H')
    cx.fits(W, H)
    for o in cx.call('create_2D_struct', cx.int(W), cx.int(H)):
        b, off = o.target()
        o.ensure(Eq(o.rd(b, off, 'i32'), W), 'result->width')
        o.ensure(Eq(o.rd(b, off + 4, 'i32'), H), 'result->height')
        d, do = o.target(o.read(b, off + 8, 'ptr'), 'result->data')
        o.ensure(And(Le(0, do), Le(do + W * H, d.size)), 'the structuring element has width*height cells')
        q = o.fork()
        i = q.index('i', W * H)
        q.ensure(Eq(q.rd(d, do + i, 'i8'), 1), 'every cell of the structuring element is set')
        o.no_leak([b, d])


# the three letters of an image are not terminated: what follows them (padding, then the data pointer) ends the string
# somewhere; the comparison must not depend on where, shown for no, one and four bytes before the terminator
for lit in ('bsq', 'bil', 'bip', 'wavelength = {'):
    for more in (0, 1, 4):
        @case('C05', 'cmpstr[%s,%d]' % (lit, len(lit) + more), HF, ['cmpstr'], internal=True)
        def layout_name(cx, lit=lit, more=more):
            n = len(lit) + more
            c = [cx.dim('c%d' % i, 1, 127) for i in range(n)]
            b = cx.mkblk('a', n + 1, 'arg', 'undef', 1)
            cx.reg(b, {i: (1, 'i8', IV(P(c[i]) if i < n else ZERO, 8, 's')) for i in range(n + 1)})
            for o in cx.call('cmpstr', PV.to(b), cx.cstr(lit)):
                o.ensure(Eq(o.iret(), Ite(And(*[Eq(c[i], ord(lit[i])) for i in range(len(lit))]), 1, 0)), 'the letters are compared with the name of the layout')
                o.unchanged(b)
                o.no_leak([])
