"""C20: radiometric correction."""
from engine.spec import *
from engine.terms import *

RC = ['modules/process/src/c_src/RadiometricCalibration.c', 'modules/core/src/c_src/hypermat.c']


def corr(name, dt, tag, z, coef):
    for wave in (True, False):
        @case('C20', '%s[%s]' % (name, 'wavelengths' if wave else 'no wavelengths'), RC, [name])
        def run(cx, wave=wave):
            h = cx.hm('src', 'bip', dt=dt, wave=wave, signed={2: 'u'} if dt == 12 else None)
            cx.fits(h.S, h.L, h.B, P(4))
            n = h.B * h.S if coef == 'relative' else h.B
            c = cx.obj('coefficient', n * 4, content=4)
            for o in cx.call(name, h.p, PV.to(c)):
                r = o.hm()
                r.shape(h.S, h.L, h.B, 4, 'bip')
                r.room(h.S * h.L * h.B * 4)
                q = o.fork()
                i, j, k = q.index('i', h.L), q.index('j', h.S), q.index('k', h.B)
                at = (i * h.S + j) * h.B + k
                e = q.srd(h.data, at * z, tag, False if dt == 12 else None) * q.srd(c, (k * h.S + j if coef == 'relative' else k) * 4, 'f32')
                q.ensure(Eq(q.rd(r.data, r.doff + at * 4, 'f32'), e), 'every sample is multiplied by its coefficient')
                o.unchanged(h.blk)
                o.unchanged(h.data)
                o.unchanged(c)
                if wave:
                    o.unchanged(h.wave)
                o.no_leak([r.b, r.data])


corr('relative_radiometric_correction', 12, 'i16', 2, 'relative')
corr('absolute_radiometric_correction', 4, 'f32', 4, 'absolute')
