IP='modules/process/src/c_src/imageprocess.c'
HMC='modules/core/src/c_src/hypermat.c'
SMC='modules/core/src/c_src/simplemat.c'
HEAD='''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
'''
SEEDLIST=[
dict(id='S01', property='C01', edits={IP:[("bsq_index = (k*samples*lines + i*samples + j)*elem_size;\n				bil_index = (i*samples*bands + k*samples + j)*elem_size;",
 "bsq_index = (k*samples*lines + i*samples + j)*elem_size;\n				bil_index = (i*lines*bands + k*samples + j)*elem_size;")]},
 needs='a non-square bsq image (samples > lines, several lines) converted to bil', breaks='rows of the result overlap when samples and lines differ',
 demo=HEAD+'''
int main(void) {
    int S, L, B, i, j, k;
    for (S = 1; S < 6; S++) for (L = 1; L <= S; L++) for (B = 1; B < 4; B++) {
        hyper_mat a = create_hyper_mat(S, L, B, 2, "bsq"), r;
        short *d = (short *)a->data, *q;
        for (i = 0; i < S * L * B; i++) d[i] = 100 + i;
        r = bsq2bil(a);
        q = (short *)r->data;
        for (i = 0; i < L; i++) for (j = 0; j < S; j++) for (k = 0; k < B; k++)
            CHECK(q[(i * B + k) * S + j] == d[(k * L + i) * S + j]);
        delete_hyper_mat(a);
        delete_hyper_mat(r);
    }
    return 0;
}
'''),
dict(id='S02', property='C01', edits={IP:[("		memcpy(bil_wave, bip_wave, bands*sizeof(float));","		memcpy(bil_wave, bip_wave, bands*elem_size);")]},
 needs='a bip image whose samples are not 4 bytes wide, converted to bil', breaks='only part of the wavelength table is copied (or bytes beyond it)',
 demo=HEAD+'''
int main(void) {
    int t, k, ts[] = {1, 2, 3, 4, 5, 12, 13};
    for (t = 0; t < 7; t++) {
        hyper_mat a = create_hyper_mat(3, 2, 5, ts[t], "bip"), r;
        for (k = 0; k < 5; k++) ((float *)a->wavelength)[k] = 400.5f + k;
        r = bip2bil(a);
        for (k = 0; k < 5; k++) CHECK(((float *)r->wavelength)[k] == 400.5f + k);
        delete_hyper_mat(a);
        delete_hyper_mat(r);
    }
    return 0;
}
'''),
dict(id='S03', property='C03', edits={IP:[("dst_index = ((i - start_row) * samples * bands + (j - start_col) * bands + k - start_band) * elem_size;","dst_index = ((i - start_row) * samples * bands + (j - start_col) * bands + k) * elem_size - start_band;")]},
 needs='a bip image with elements wider than one byte and a region that does not start at band 0', breaks='the samples of the region are stored at the wrong place',
 demo=HEAD+'''
int main(void) {
    int i, j, k, t;
    hyper_mat a = create_hyper_mat(6, 5, 4, 2, "bip"), r;
    short *d = (short *)a->data, *q;
    for (i = 0; i < 120; i++) d[i] = i;
    r = hyper_mat_get_range(a, 1, 2, 1, 4, 5, 3);
    CHECK(r->samples == 3 && r->lines == 3 && r->bands == 2);
    q = (short *)r->data;
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) for (k = 0; k < 2; k++)
        CHECK(q[(i * 3 + j) * 2 + k] == d[((i + 1) * 6 + j + 2) * 4 + k + 1]);
    return 0;
}
'''),
dict(id='S04', property='C03', edits={IP:[("memcpy(dst_wave, start_wave, (end_band-start_band)*sizeof(float));","memcpy(dst_wave, start_wave, (src_bands-end_band < bands ? src_bands-start_band-(src_bands-end_band) : end_band-start_band-(start_band>bands))*sizeof(float));")]},
 needs='a region that starts beyond its own band count and leaves at least as many bands behind it', breaks='the last wavelength of the region is lost',
 demo=HEAD+'''
int main(void) {
    int n, b, k;
    for (n = 1; n < 9; n++) for (b = 0; b + 1 <= n; b++) {
        int e;
        for (e = b + 1; e <= n; e++) {
            hyper_mat a = create_hyper_mat(2, 2, n, 1, "bsq"), r;
            for (k = 0; k < n; k++) ((float *)a->wavelength)[k] = 10.f * (k + 1);
            r = hyper_mat_get_range(a, 0, 0, b, 1, 2, e);
            for (k = 0; k < e - b; k++) CHECK(((float *)r->wavelength)[k] == 10.f * (k + b + 1));
            delete_hyper_mat(a); delete_hyper_mat(r);
        }
    }
    return 0;
}
'''),
]
