"""C08: conversions between element types."""
from engine.spec import *
from engine.terms import *
from engine.builtins import round_even

DT = ['modules/process/src/c_src/datatypechange.c', 'modules/core/src/c_src/hypermat.c', 'modules/core/src/c_src/simplemat.c']


def near(r, n):
    """contents for concrete runs: finite floats below 2^31"""
    import struct
    k = r.random()

    def v():
        if k < .3:
            return r.choice((0.0, 0.5, 1.5, -0.5, -1.5, 127.0, 127.5, 128.0, 128.5, -127.5, -128.0, -128.5, 254.5, 255.0, 255.5, 256.0, 300.0, 32767.0, 32767.5, 32768.0,
                             -32768.0, -32768.5, -32769.0, 65535.0, 65535.5, 65536.0, 70000.0, -1.0, 2147483520.0, -2147483520.0))
        return r.randrange(-1200, 1200) / 4.0
    return struct.pack('<%df' % (n // 4), *[v() for _ in range(n // 4)])


def clamp(v, lo, hi):
    return Ite(Le(v, lo), lo, Ite(Le(hi, v), hi, v))


def conv(name, dt_in, dt_out, tin, zin, tout, zout, val, signed_in=None, signed_out=None, content=None):
    for il in ('bsq', 'bil', 'bip'):
        for wave in (True, False):
            if il != 'bsq' and not wave:
                continue

            @case('C08', '%s[%s%s]' % (name, il, '' if wave else ', no wavelengths'), DT, [name])
            def run(cx, il=il, wave=wave):
                h = cx.hm('src', il, dt=dt_in, wave=wave, signed=signed_in, content=content)
                cx.fits(h.S, h.L, h.B, P(zout))
                for o in cx.call(name, h.p):
                    r = o.hm()
                    r.shape(h.S, h.L, h.B, dt_out, il)
                    r.room(h.S * h.L * h.B * zout)
                    q = o.fork()
                    i = q.index('i', h.S * h.L * h.B)
                    x = q.srd(h.data, i * zin, tin, (signed_in or {}).get(zin) == 's')
                    if tin == 'f32':
                        q.assume(And(Lt(-(1 << 31), x), Lt(x, (1 << 31) - 1)))
                    y = q.rd(r.data, r.doff + i * zout, tout, signed_out)
                    q.ensure(Eq(y, val(x)), 'every sample is the converted sample')
                    if wave:
                        w, wo = r.wave()
                        q = o.fork()
                        k = q.index('k', h.B)
                        q.ensure(veq(q, q.read(w, wo + k * 4, 'f32'), q.src(h.wave, k * 4, 'f32')), 'the wavelengths are those of the source')
                        o.unchanged(h.wave)
                    o.unchanged(h.blk)
                    o.unchanged(h.data)
                    o.no_leak([r.b, r.data])


same = lambda x: x
conv('hyper_mat_uchar2short', 1, 2, 'i8', 1, 'i16', 2, same, signed_out=True)
conv('hyper_mat_uchar2int', 1, 3, 'i8', 1, 'i32', 4, same, signed_out=True)
conv('hyper_mat_uchar2float', 1, 4, 'i8', 1, 'f32', 4, same)
conv('hyper_mat_uchar2ushort', 1, 12, 'i8', 1, 'i16', 2, same, signed_out=False)
conv('hyper_mat_ushort2float', 12, 4, 'i16', 2, 'f32', 4, same, signed_in={2: 'u'})
conv('hyper_mat_float2uchar', 4, 1, 'f32', 4, 'i8', 1, lambda x: clamp(round_even(x), 0, 255), signed_out=False, content=near)
conv('hyper_mat_float2char', 4, 1, 'f32', 4, 'i8', 1, lambda x: clamp(round_even(x), -127, 127), signed_out=True, content=near)
conv('hyper_mat_float2short', 4, 2, 'f32', 4, 'i16', 2, lambda x: clamp(round_even(x), -32768, 32767), signed_out=True, content=near)
conv('hyper_mat_float2ushort', 4, 12, 'f32', 4, 'i16', 2, lambda x: clamp(round_even(x), 0, 65535), signed_out=False, content=near)
conv('hyper_mat_float2int', 4, 3, 'f32', 4, 'i32', 4, round_even, signed_out=True, content=near)
conv('hyper_mat_float2uint', 4, 13, 'f32', 4, 'i32', 4, lambda x: clamp(round_even(x), 0, 2**32 - 1), signed_out=False, content=near)


@case('C08', 'simple_mat_float2uchar', DT, ['simple_mat_float2uchar'])
def sm_float2uchar(cx):
    ch = cx.dim('ch')
    s = cx.sm('src', 4, ch, content=near)
    for o in cx.call('simple_mat_float2uchar', s.p):
        r = o.sm()
        r.shape(s.R, s.C, 1, ch)
        q = o.fork()
        i = q.index('i', s.R * s.C * ch)
        x = q.srd(s.data, i * 4, 'f32')
        q.assume(And(Lt(-(1 << 31), x), Lt(x, (1 << 31) - 1)))
        q.ensure(Eq(q.rd(r.data, r.doff + i, 'i8', False), clamp(round_even(x), 0, 255)), 'every sample is rounded and saturated')
        o.unchanged(s.blk)
        o.unchanged(s.data)
        o.no_leak([r.b, r.data])
