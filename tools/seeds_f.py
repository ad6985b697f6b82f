exec(open('/verif/tools/seeds_b.py').read().split('SEEDLIST')[0])
SEEDLIST = [
 dict(id='S34', property='C28', edits={P + 'matrixprocess.c': [('if(mat[r*m+i]!=0.0)', 'if(mat[r*m]!=0.0)')]},
  needs='a pivot that becomes zero during the elimination (after the first column)', breaks='the search for another pivot looks at the first column, which is cleared already: the inverse is given up',
  demo=HEAD + '''
int main(void) {
    float a[3][9] = {{2, 0, 1, 1, 0, 3, 0, 4, 1}, {0, 3, 1, 2, 1, 0, 1, 5, 2}, {4, 1, 2, 1, 5, 0, 2, 1, 7}};
    int t, i, j, k;
    for (t = 0; t < 3; t++) {
        float m[9], r[9];
        memcpy(m, a[t], sizeof m);
        invert_matrix_float(r, m, 3);
        for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) {
            double s = 0;
            for (k = 0; k < 3; k++) s += r[i * 3 + k] * a[t][k * 3 + j];
            CHECK(fabs(s - (i == j)) < 1e-3);
        }
    }
    return 0;
}
'''),
 dict(id='S35', property='C28', edits={'modules/algorithm/src/cem.c': [('create_simple_mat(lines, samples, data_type, 1)', 'create_simple_mat(samples, lines, data_type, 1)')]},
  needs='a cube whose lines and samples differ', breaks='rows and columns of the result are exchanged',
  src=ALG, demo=HEAD + '''
#include "algorithm/hypercv_algorithm.h"
int main(void) {
    int S, L;
    for (S = 2; S < 5; S++) for (L = 2; L < 5; L++) {
        hyper_mat h = create_hyper_mat(S, L, 2, 4, "bsq");
        float d[2] = {1, 2}, *x = (float *)h->data;
        int i, n = S * L;
        for (i = 0; i < 2 * n; i++) x[i] = (i * 7 % 11) + 1;
        simple_mat r = hyper_mat_cem(h, d);
        CHECK(r->rows == L && r->cols == S);
        for (i = 0; i < 2 * n; i++) CHECK(x[i] == (i * 7 % 11) + 1);
        CHECK(d[0] == 1 && d[1] == 2);
        delete_simple_mat(r); delete_hyper_mat(h);
    }
    return 0;
}
'''),
 dict(id='S36', property='C29', edits={P + 'dwt.c': [('SerialReverse(WAVEbior3_7.HI_R,WAVEbior3_7.len)', 'SerialReverse(WAVEbior3_7.HI_R,WAVEdb3.len)')]},
  needs='the biorthogonal base', breaks='the synthesis high pass has 6 of the 16 coefficients',
  demo=HEAD + '''
#include "c_include/dwt.h"
wavelet_base *set_wavelet_base(int);
void wavelet_base_free(wavelet_base *);
int main(void) {
    int t, k;
    for (t = 1; t < 3; t++) {
        wavelet_base *w = set_wavelet_base(t);
        CHECK(w->len == (t == 1 ? 6 : 16));
        for (k = 0; k < w->len; k++) {
            double sg = k % 2 ? -1 : 1;
            CHECK(w->HI_D[k] == sg * w->LO_R[k]);
            CHECK(w->HI_R[k] == -sg * w->LO_D[k]);
        }
        wavelet_base_free(w);
    }
    return 0;
}
'''),
]
