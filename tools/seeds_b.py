P = 'modules/process/src/c_src/'
A = 'modules/algorithm/src/'
SMC = 'modules/core/src/c_src/simplemat.c'
HMC = 'modules/core/src/c_src/hypermat.c'
CORE = 'modules/core/src/c_src/*.c modules/process/src/c_src/*.c'
ALG = CORE + ' modules/algorithm/src/*.c -lm'
HEAD = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
static unsigned rnd_s = 12345;
static unsigned rnd(void) { rnd_s = rnd_s * 1103515245u + 12345u; return rnd_s >> 8; }
'''
HEADX = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "core/src/cxx_src/hypermat.cpp"
#define CHECK(c) do { if (!(c)) { printf("failed: %s (line %d)\\n", #c, __LINE__); exit(1); } } while (0)
'''
SEEDLIST = [
 dict(id='S05', property='C09', edits={P + 'threshold.c': [('		if(src_data[i]>thresh)\n			dst_data[i] = thresh;', '		if(src_data[i]>(unsigned char)thresh)\n			dst_data[i] = thresh;')]},
  needs='a truncation threshold outside 0..255', breaks='pixels below a threshold beyond 255 are replaced, with a negative threshold bright pixels are kept',
  demo=HEAD + '''
int main(void) {
    int i, t;
    simple_mat a = create_simple_mat(16, 16, 1, 1), d = create_simple_mat(16, 16, 1, 1);
    unsigned char *s = a->data, *r = d->data;
    for (i = 0; i < 256; i++) s[i] = i;
    for (t = 0; t < 600; t += 3) {
        hypercv_threshold(a, d, t, 255, 2);
        for (i = 0; i < 256; i++) CHECK(r[i] == (s[i] > t ? (unsigned char)t : s[i]));
    }
    delete_simple_mat(a); delete_simple_mat(d);
    return 0;
}
'''),
 dict(id='S06', property='C12', edits={P + 'morphology.c': [('if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+width/2<cols)', 'if(i-height/2>=0&&i+height/2<rows&&j-width/2>=0&&j+(width-1)/2<cols)')]},
  needs='a structuring element of even width and an object at the right border next to a zero pixel', breaks='erosion removes pixels of the last column although the element does not fit there',
  demo=HEAD + '''
int main(void) {
    int w, h, k, i, j, m, n;
    for (w = 1; w < 5; w++) for (h = 1; h < 5; h++) for (k = 0; k < 40; k++) {
        int R = 5 + k % 3, C = 6 - k % 2;
        simple_mat a = create_simple_mat(R, C, 1, 1), d = create_simple_mat(R, C, 1, 1);
        S_2D e = create_2D_struct(w, h);
        unsigned char *s = a->data, *r = d->data;
        for (i = 0; i < R * C; i++) s[i] = rnd() % 4;
        hypercv_corrosion(a, d, e);
        for (i = 0; i < R; i++) for (j = 0; j < C; j++) {
            int all = 1;
            if (i - h / 2 >= 0 && i + h / 2 < R && j - w / 2 >= 0 && j + w / 2 < C)
                for (m = 0; m < h; m++) for (n = 0; n < w; n++) if (!s[(i - h / 2 + m) * C + j - w / 2 + n]) all = 0;
            CHECK(r[i * C + j] == (all ? s[i * C + j] : 0));
        }
        delete_simple_mat(a); delete_simple_mat(d); delete_S_2D(e);
    }
    return 0;
}
'''),
 dict(id='S07', property='C02', edits={'modules/core/include/cxx_include/hypermat.hpp': [('		memcpy(wavelength, _data, _bands * sizeof(float));', '		memcpy(wavelength, _data, _bands * elemSize);')]},
  needs='an image whose elements are not 4 bytes wide', breaks='only a part of the wavelengths is copied (or memory beyond the table is written)',
  cxx=1, src='modules/core/src/c_src/hypermat.c', xsrc='-Imodules -D_cplusplus -Dgdal_switch=1 -I/usr/include/gdal -Wl,--unresolved-symbols=ignore-all', demo=HEADX + '''
int main() {
    int types[] = {1, 2, 3, 4, 12, 13}, t, k, b;
    for (t = 0; t < 6; t++) for (b = 1; b < 7; b++) {
        hypercv::HyMat m(3, 2, b, types[t], 2);
        float *w = (float *)calloc(2 * b, 4);
        for (k = 0; k < b; k++) w[k] = 500.5f + k;
        m.CopyWaveLength(w, b);
        for (k = 0; k < b; k++) CHECK(m.wavelength[k] == 500.5f + k);
        hypercv::HyMat c = m.copy();
        for (k = 0; k < b; k++) CHECK(c.wavelength[k] == 500.5f + k);
        free(w);
    }
    return 0;
}
'''),
 dict(id='S08', property='C04', edits={P + 'imageprocess.c': [('	memcpy(mat_data, part_data,part->samples*part->lines*part->bands*elemsize);', '	memcpy(mat_data, part_data,part->samples*part->lines*mat->bands*elemsize);')]},
  needs='a part that has another number of bands than the image it is spliced into', breaks='too few samples are spliced in, or samples beyond the part',
  demo=HEAD + '''
int main(void) {
    int B, b, i, at;
    for (B = 1; B < 6; B++) for (b = 1; b <= B; b++) for (at = 0; at + 4 * b <= 4 * B; at += 3) {
        hyper_mat m = create_hyper_mat(2, 2, B, 2, "bsq"), p = create_hyper_mat(2, 2, b, 2, "bsq");
        short *x = m->data, *y = p->data;
        for (i = 0; i < 4 * B; i++) x[i] = i;
        for (i = 0; i < 4 * b; i++) y[i] = 1000 + i;
        hyper_mat_splicing(m, p, at);
        for (i = 0; i < 4 * B; i++) CHECK(x[i] == (i >= at && i < at + 4 * b ? 1000 + i - at : i));
        delete_hyper_mat(m); delete_hyper_mat(p);
    }
    return 0;
}
'''),
 dict(id='S09', property='C05', edits={HMC: [('	memneeded += wave_data_size + ALLOC_BYTE_ALIGNMENT;', '	memneeded += wave_data_size + ALLOC_BYTE_ALIGNMENT/2;')]},
  needs='a data size that is no multiple of 64 and an allocation address that needs much padding', breaks='the wavelength table ends beyond the allocated block',
  demo=HEAD + '''
int main(void) {
    int s, b, k;
    hyper_mat keep[600];
    int n = 0;
    for (s = 1; s < 80; s++) for (b = 1; b < 8; b++) {
        hyper_mat m = create_hyper_mat(s, 1, b, 1, "bil");
        for (k = 0; k < b; k++) { CHECK(m->wavelength[k] == 0); m->wavelength[k] = 7; }
        keep[n++] = m;
    }
    while (n) delete_hyper_mat(keep[--n]);
    return 0;
}
'''),
 dict(id='S10', property='C06', edits={SMC: [('		free(mat->data);\n		mat->data = NULL;\n		free(mat);', '		mat->data = NULL;\n		free(mat);')]},
  needs='a plane created over a buffer of the user, deleted, under a leak check', breaks='the adopted buffer is never released', leaks=1,
  demo=HEAD + '''
int main(void) {
    int i;
    for (i = 1; i < 50; i++) {
        void *d = malloc(i * 7 * 3);
        simple_mat m = create_simple_mat_with_data(i, 7, 1, 3, d);
        CHECK(m->data == d);
        d = NULL;
        delete_simple_mat(m);
    }
    return 0;
}
'''),
 dict(id='S11', property='C07', edits={P + 'GeometricTransformation.c': [('		default:	\n			simple_mat_flip_horizontal(src_mat,dst_mat);', '		default:	\n			simple_mat_flip_vertical(src_mat,dst_mat);')]},
  needs='a flip code other than -1, 0 and 1', breaks='the image is flipped vertically instead of horizontally',
  demo=HEAD + '''
int main(void) {
    int c, i, j, codes[] = {1, 2, 3, -2, 17, -100};
    simple_mat a = create_simple_mat(3, 4, 1, 1), d = create_simple_mat(3, 4, 1, 1);
    unsigned char *s = a->data, *r = d->data;
    for (i = 0; i < 12; i++) s[i] = 20 + i;
    for (c = 0; c < 6; c++) {
        simple_mat_flip(a, d, codes[c]);
        for (i = 0; i < 3; i++) for (j = 0; j < 4; j++) CHECK(r[i * 4 + j] == s[i * 4 + 3 - j]);
    }
    delete_simple_mat(a); delete_simple_mat(d);
    return 0;
}
'''),
 dict(id='S12', property='C08', edits={P + 'datatypechange.c': [('fdata[i] = usdata[i]*1.0;', 'fdata[i] = (short)usdata[i]*1.0;')]},
  needs='unsigned short samples of 32768 and more', breaks='large samples become negative',
  demo=HEAD + '''
int main(void) {
    int i;
    hyper_mat a = create_hyper_mat(16, 16, 1, 12, "bip"), r;
    unsigned short *s = a->data;
    for (i = 0; i < 256; i++) s[i] = i * 257;
    r = hyper_mat_ushort2float(a);
    for (i = 0; i < 256; i++) CHECK(((float *)r->data)[i] == i * 257);
    delete_hyper_mat(a); delete_hyper_mat(r);
    return 0;
}
'''),
 dict(id='S13', property='C10', edits={P + 'filter.c': [('if(i-top<0||i-top>=src_rows||j-left<0||j-left>=src_cols)', 'if(i-top<0||i-top>=src_rows||j-left<0||j-left>=src_rows)')]},
  needs='a constant border around a source that is wider than high', breaks='columns right of the number of rows are filled with the border value',
  demo=HEAD + '''
int main(void) {
    int R, C, i, j;
    for (R = 1; R < 5; R++) for (C = R; C < 7; C++) {
        simple_mat a = create_simple_mat(R, C, 1, 1), d;
        unsigned char *s = a->data, *r;
        for (i = 0; i < R * C; i++) s[i] = i + 1;
        d = hypercv_copy_make_border(a, 1, 2, 2, 1, BORDER_CONSTANT, 99);
        r = d->data;
        for (i = 0; i < R + 3; i++) for (j = 0; j < C + 3; j++)
            CHECK(r[i * (C + 3) + j] == (i < 1 || i > R || j < 2 || j > C + 1 ? 99 : s[(i - 1) * C + j - 2]));
        delete_simple_mat(a); delete_simple_mat(d);
    }
    return 0;
}
'''),
 dict(id='S14', property='C11', edits={P + 'filter.c': [('index_j = hypercv_border_Interpolate( j+n-k_cols/2, cols, border_type);', 'index_j = hypercv_border_Interpolate( j+n-k_cols/2, rows, border_type);')]},
  needs='a non-square image and a kernel that reaches beyond its right border', breaks='neighbours beyond the right border come from the wrong column',
  demo=HEAD + '''
static int cl(int x, int n) { return x < 0 ? 0 : x >= n ? n - 1 : x; }
int main(void) {
    int R, C, i, j, m, n;
    float k[15];
    for (i = 0; i < 15; i++) k[i] = i + 1;
    for (R = 2; R < 6; R++) for (C = R; C < 7; C++) {
        simple_mat a = create_simple_mat(R, C, 1, 1), d = create_simple_mat(R, C, 4, 1);
        unsigned char *s = a->data;
        float *r = d->data;
        for (i = 0; i < R * C; i++) s[i] = i * i % 31;
        hypercv_filter2D(a, d, k, 3, 5, BORDER_REPLICATE);
        for (i = 0; i < R; i++) for (j = 0; j < C; j++) {
            float e = 0;
            for (m = 0; m < 3; m++) for (n = 0; n < 5; n++) e += k[m * 5 + n] * s[cl(i + m - 1, R) * C + cl(j + n - 2, C)];
            CHECK(fabs(r[i * C + j] - e) < 1e-3);
        }
        delete_simple_mat(a); delete_simple_mat(d);
    }
    return 0;
}
'''),
 dict(id='S15', property='C13', edits={P + 'mathprocess.c': [('float mean_uint(unsigned int * t,int len)\n{\n	float res=0;\n	for(int i=0; i<len; i++)\n		res+=t[i];', 'float mean_uint(unsigned int * t,int len)\n{\n	float res=0;\n	for(int i=0; i<len; i++)\n		res+=(int)t[i];')]},
  needs='elements of 2^31 and more', breaks='large elements count as negative numbers',
  demo=HEAD + '''
int main(void) {
    unsigned v[3] = {3000000000u, 3000000000u, 3000000000u};
    CHECK(fabs(mean_uint(v, 3) - 3e9) < 1e4);
    v[0] = v[1] = v[2] = 5;
    CHECK(mean_uint(v, 3) == 5);
    return 0;
}
'''),
 dict(id='S16', property='C14', edits={A + 'normalize.c': [('		float b = alpha>beta?alpha:beta;\n		float a = alpha>beta?beta:alpha;\n\n', '		float b = beta;\n		float a = alpha;\n\n', 1)]},
  needs='a float plane normalised to a range given with its larger limit first', breaks='the grey values are inverted', src=ALG,
  demo=HEAD + '''
#include "algorithm/hypercv_algorithm.h"
int main(void) {
    int i, sw;
    for (sw = 0; sw < 2; sw++) {
        simple_mat a = create_simple_mat(3, 4, 4, 1), d = create_simple_mat(3, 4, 4, 1);
        float *s = a->data, *r = d->data;
        for (i = 0; i < 12; i++) s[i] = i * 2 - 5;
        hypercv_normalize(a, d, sw ? 10 : -1, sw ? -1 : 10, NORM_MINMAX);
        for (i = 0; i < 12; i++) CHECK(fabs(r[i] - (-1 + i * 1.0)) < 1e-4);
        delete_simple_mat(a); delete_simple_mat(d);
    }
    return 0;
}
'''),
 dict(id='S17', property='C15', edits={P + 'matrixprocess.c': [('void MulMatrix_uint(unsigned int *x, unsigned int *y, unsigned int *z, int m,int k,int n)\n{\n    for(int nm=0; nm<m; nm++)\n        for(int nn=0; nn<n; nn++)\n            for(int nk=0; nk<k; nk++)\n                z[nm*n+nn] += x[nm*k+nk]*y[nk*n+nn];',
   'void MulMatrix_uint(unsigned int *x, unsigned int *y, unsigned int *z, int m,int k,int n)\n{\n    for(int nm=0; nm<m; nm++)\n        for(int nn=0; nn<n; nn++)\n            for(int nk=0; nk<k; nk++)\n                z[nm*n+nn] += (unsigned short)x[nm*k+nk]*(unsigned)y[nk*n+nn];')]},
  needs='matrix elements of 65536 and more', breaks='the upper half of the elements of the first factor is ignored',
  demo=HEAD + '''
int main(void) {
    unsigned x[6] = {1, 70000, 3, 4, 5, 66000}, y[6] = {1, 2, 3, 4, 5, 6}, z[4] = {0, 0, 0, 0};
    int i, j, k;
    MulMatrix_uint(x, y, z, 2, 3, 2);
    for (i = 0; i < 2; i++) for (j = 0; j < 2; j++) {
        unsigned e = 0;
        for (k = 0; k < 3; k++) e += x[i * 3 + k] * y[k * 2 + j];
        CHECK(z[i * 2 + j] == e);
    }
    return 0;
}
'''),
 dict(id='S18', property='C18', edits={A + 'dft.c': [('    if( (unsigned)size0 >= (unsigned)optimal_DFT_sizetab[b] )', '    if( size0 >= optimal_DFT_sizetab[b] )')]},
  needs='a negative size', breaks='a negative size gives 1 instead of -1', src=ALG,
  demo=HEAD + '''
#include "algorithm/hypercv_algorithm.h"
int main(void) {
    int n;
    for (n = 1; n < 2000; n++) {
        int r = get_optimal_DFT_size(n), m = n, t;
        for (;; m++) { t = m; while (t % 2 == 0) t /= 2; while (t % 3 == 0) t /= 3; while (t % 5 == 0) t /= 5; if (t == 1) break; }
        CHECK(r == m);
    }
    CHECK(get_optimal_DFT_size(-1) == -1 && get_optimal_DFT_size(-1000000) == -1 && get_optimal_DFT_size(2147483647) == -1);
    return 0;
}
'''),
 dict(id='S19', property='C19', edits={P + 'colortransform.c': [('rgb_data[i*cols*3+j*3+k] = binary_data[i*cols+j]*255;', 'rgb_data[i*cols*3+j*3+k] = binary_data[i*cols+j]?255:0;')]},
  needs='a plane with values other than 0 and 1', breaks='values above 1 are no longer multiplied by 255 modulo 256',
  demo=HEAD + '''
int main(void) {
    int i, k;
    simple_mat a = create_simple_mat(16, 16, 1, 1), r;
    unsigned char *s = a->data;
    for (i = 0; i < 256; i++) s[i] = i;
    r = sm_binary2rgb(a);
    for (i = 0; i < 256; i++) for (k = 0; k < 3; k++) CHECK(((unsigned char *)r->data)[i * 3 + k] == (unsigned char)(i * 255));
    delete_simple_mat(a); delete_simple_mat(r);
    return 0;
}
'''),
 dict(id='S20', property='C20', edits={P + 'RadiometricCalibration.c': [('			for (int k = 0; k < bands; k++)\n			{\n				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[k];',
    '			for (int k = 0; k < bands; k++)\n			{\n				res_data[i*samples*bands + j*bands + k] = bipdata[i*samples*bands + j*bands + k] * coefficient[(j*bands + k) % bands - (k > samples*lines ? 1 : 0)];')]},
  needs='more bands than pixels plus one', breaks='the last bands are calibrated with the coefficient of the band before',
  demo=HEAD + '''
int main(void) {
    int S, L, B, i, k;
    for (S = 1; S < 4; S++) for (L = 1; L < 4; L++) for (B = 1; B < 8; B++) {
        float c[8];
        hyper_mat a = create_hyper_mat(S, L, B, 4, "bip"), r;
        for (k = 0; k < B; k++) c[k] = k + 2;
        for (i = 0; i < S * L * B; i++) ((float *)a->data)[i] = i + 1;
        r = absolute_radiometric_correction(a, c);
        for (i = 0; i < S * L; i++) for (k = 0; k < B; k++) CHECK(((float *)r->data)[i * B + k] == (i * B + k + 1) * c[k]);
        delete_hyper_mat(a); delete_hyper_mat(r);
    }
    return 0;
}
'''),
 dict(id='S21', property='C21', edits={'modules/core/include/c_include/vector.h': [('			if ((i) < __sz) {                              \\', '			if ((i) <= __sz && __sz) {                     \\')]},
  needs='erasing at the index equal to the size', breaks='the last element is lost although the index is outside',
  demo=HEAD + '''
#include "c_include/vector.h"
int main(void) {
    int n, i;
    for (n = 1; n < 10; n++) {
        int *v = NULL;
        for (i = 0; i < n; i++) vector_push_back(v, i * 3);
        vector_erase(v, n + 1);
        CHECK(vector_size(v) == n);
        vector_erase(v, n);
        CHECK(vector_size(v) == n);
        for (i = 0; i < n; i++) CHECK(v[i] == i * 3);
        vector_erase(v, 0);
        CHECK(vector_size(v) == n - 1);
        vector_free(v);
    }
    return 0;
}
'''),
 dict(id='S22', property='C24', edits={A + 'dft.c': [('	unsigned short* src_data = (unsigned short*)src->data;\n	float* im_data', '	short* src_data = (short*)src->data;\n	float* im_data')]},
  needs='an unsigned short plane with values of 32768 and more', breaks='large values enter the transform as negative numbers', src=ALG,
  demo=HEAD + '''
#include "algorithm/hypercv_algorithm.h"
int main(void) {
    simple_mat a = create_simple_mat(2, 2, 12, 1), re = create_simple_mat(2, 2, 4, 1), im = create_simple_mat(2, 2, 4, 1);
    unsigned short *s = a->data;
    s[0] = 40000; s[1] = 1; s[2] = 2; s[3] = 3;
    hypercv_dft(a, re, im);
    CHECK(fabs(((float *)re->data)[0] - 40006) < 1 && fabs(((float *)re->data)[1] - 39998) < 1);
    delete_simple_mat(a); delete_simple_mat(re); delete_simple_mat(im);
    return 0;
}
'''),
 dict(id='S23', property='C25', edits={P + 'spectralprocess.c': [('			if(res>=threshold)', '			if(res>threshold)')]},
  needs='a pixel whose angle is exactly the threshold', breaks='that pixel is no longer matched',
  demo=HEAD + '''
int main(void) {
    float sp[3] = {1, 2, 4}, px[3] = {4, 1, 3};
    hyper_mat a = create_hyper_mat(2, 1, 3, 4, "bip");
    simple_mat r;
    float t = spectral_angle_mapper(px, sp, 3);
    memcpy(a->data, px, 12);
    memcpy((float *)a->data + 3, sp, 12);
    r = spectrum_SAM_match(a, sp, t);
    CHECK(((char *)r->data)[0] == 1);
    delete_simple_mat(r);
    r = spectrum_SAM_match(a, sp, t * 2);
    CHECK(((char *)r->data)[0] == 0);
    delete_simple_mat(r); delete_hyper_mat(a);
    return 0;
}
'''),
]
