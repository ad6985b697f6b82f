// C-callable entry points to the members of hypercv::HyMat (the code under contract is the included one; these only forward).
#include <new>
#include "core/src/cxx_src/hypermat.cpp"
using hypercv::HyMat;
extern "C" {
void hv_HyMat_init(HyMat *m) { new (m) HyMat(); }
void hv_HyMat_make(HyMat *m, int s, int l, int b, int dt, int f) { new (m) HyMat(s, l, b, dt, f); }
void hv_HyMat_wrap(HyMat *m, int s, int l, int b, int dt, int f, void *d) { new (m) HyMat(s, l, b, dt, f, d); }
void hv_HyMat_wrap_wave(HyMat *m, int s, int l, int b, int dt, int f, void *d, float *w) { new (m) HyMat(s, l, b, dt, f, d, w); }
void hv_HyMat_create(HyMat *m, int s, int l, int b, int dt, int f) { m->create(s, l, b, dt, f); }
void hv_HyMat_create_data(HyMat *m, int s, int l, int b, int dt, int f, void *d, float *w) { m->create(s, l, b, dt, f, d, w); }
void hv_HyMat_copy(HyMat *out, HyMat *m) { new (out) HyMat(m->copy()); }
void hv_HyMat_CopyData(HyMat *m, void *d, long n) { m->CopyData(d, n); }
void hv_HyMat_CopyWaveLength(HyMat *m, float *d, long n) { m->CopyWaveLength(d, n); }
int hv_HyMat_empty(HyMat *m) { return m->empty(); }
void hv_HyMat_convertTo(HyMat *m, int f) { m->convertTo(f); }
void hv_HyMat_range(HyMat *out, HyMat *m, int r0, int c0, int b0, int r1, int c1, int b1) { new (out) HyMat(m->range(r0, c0, b0, r1, c1, b1)); }
void hv_HyMat_release(HyMat *m) { m->release(); }
void hv_HyMat_open(HyMat *m, const char *path, int s, int l, int b, int dt, int f) { m->open(path, s, l, b, dt, f); }
void hv_hmread(HyMat *out, const char *path, int s, int l, int b, int dt, int f) { new (out) HyMat(hypercv::hmread(path, s, l, b, dt, f)); }
void hv_bil2bsq(HyMat *out, HyMat *m) { new (out) HyMat(hypercv::bil2bsq(*m)); }
void hv_bil2bip(HyMat *out, HyMat *m) { new (out) HyMat(hypercv::bil2bip(*m)); }
void hv_bsq2bil(HyMat *out, HyMat *m) { new (out) HyMat(hypercv::bsq2bil(*m)); }
void hv_bsq2bip(HyMat *out, HyMat *m) { new (out) HyMat(hypercv::bsq2bip(*m)); }
void hv_bip2bsq(HyMat *out, HyMat *m) { new (out) HyMat(hypercv::bip2bsq(*m)); }
void hv_bip2bil(HyMat *out, HyMat *m) { new (out) HyMat(hypercv::bip2bil(*m)); }
}
