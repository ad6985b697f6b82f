exec(open('/verif/tools/seeds_b.py').read().split('SEEDLIST')[0])
HG = 'modules/highgui/src/'
ALG = CORE + ' modules/algorithm/src/shapematch.c -lm'
SEEDLIST = [
 dict(id='S24', property='C22', edits={HG + 'draw.c': [('		int y = v[k].y;\n', '		int y = v[k].y;\n		if(x<0||x>=cols||y<0||y>=rows)\n			continue;\n')]},
  needs='a point outside the image whose square reaches into it', breaks='the visible part of the square of such a point is not drawn',
  src=CORE + ' modules/highgui/src/draw.c',
  demo=HEAD + '''
#include "highgui/draw.h"
int main(void) {
    simple_mat a = create_simple_mat(5, 9, 1, 1), d = create_simple_mat(5, 9, 1, 1);
    POINT p[3] = {{7, 2}, {-1, 1}, {4, 6}};
    RGB_data c;
    int i, j, k;
    c.r = 200; c.g = 1; c.b = 2;
    for (i = 0; i < 45; i++) ((unsigned char *)a->data)[i] = i;
    draw_POINT(a, d, p, 3, c, 4);
    for (i = 0; i < 5; i++) for (j = 0; j < 9; j++) {
        int hit = 0;
        for (k = 0; k < 3; k++) if (abs(p[k].x - j) <= 2 && abs(p[k].y - i) <= 2) hit = 1;
        CHECK(((unsigned char *)d->data)[i * 9 + j] == (hit ? 200 : i * 9 + j));
    }
    delete_simple_mat(a); delete_simple_mat(d);
    return 0;
}
'''),
 dict(id='S25', property='C26', edits={P + 'GeometricTransformation.c': [('tmp_data[2*i*src->cols*channels+2*j*channels+m]', 'tmp_data[i*(2*src->cols+src->cols%2)*channels+2*j*channels+m]')]},
  needs='an image with an odd number of columns', breaks='the rows of the smaller image come from the wrong place (also beyond the smoothed image)',
  demo=HEAD + '''
static int cl(int v, int n) { return v < 0 ? 0 : v >= n ? n - 1 : v; }
int main(void) {
    static const float w[5] = {1 / 16.f, 4 / 16.f, 6 / 16.f, 4 / 16.f, 1 / 16.f};
    int k, i, j, a, b;
    for (k = 0; k < 12; k++) {
        int R = 4 + k % 4, C = 5 + k % 3;
        simple_mat s = create_simple_mat(R, C, 1, 1), d = create_simple_mat((R + 1) / 2, (C + 1) / 2, 1, 1);
        unsigned char *p = s->data, *q = d->data;
        for (i = 0; i < R * C; i++) p[i] = rnd() % 256;
        hypercv_pyramid_down(s, d);
        for (i = 0; i < d->rows; i++) for (j = 0; j < d->cols; j++) {
            double x = 0;
            for (a = -2; a <= 2; a++) for (b = -2; b <= 2; b++) x += w[a + 2] * w[b + 2] * p[cl(2 * i + a, R) * C + cl(2 * j + b, C)];
            CHECK(fabs(q[i * d->cols + j] - x) < 1.6);
        }
        delete_simple_mat(s); delete_simple_mat(d);
    }
    return 0;
}
'''),
 dict(id='S26', property='C27', edits={A + 'shapematch.c': [('		tmp2 += fabs(hu1[i]+hu2[i]);', '		tmp2 += fabs(hu1[i])+fabs(hu2[i]);')]},
  needs='two shapes with moments of different sign', breaks='the similarity is too large',
  src=ALG,
  demo=HEAD + '''
#include "algorithm/hypercv_algorithm.h"
int main(void) {
    simple_mat m[2];
    double h[2][7], a = 0, b = 0;
    int k, i, neg = 0;
    for (k = 0; k < 40; k++) {
        for (i = 0; i < 2; i++) {
            int j;
            m[i] = create_simple_mat(6, 7, 1, 1);
            for (j = 0; j < 42; j++) ((unsigned char *)m[i]->data)[j] = rnd() % 3 ? 0 : rnd() % 256;
            ((unsigned char *)m[i]->data)[3] = 9;
            calc_hu_moment(h[i], m[i]);
        }
        a = b = 0;
        for (i = 0; i < 7; i++) { a += fabs(h[0][i] - h[1][i]); b += fabs(h[0][i] + h[1][i]); if (h[0][i] * h[1][i] < 0) neg++; }
        CHECK(fabs(hypercv_match_shapes(m[0], m[1]) - (1 - a / b)) <= 1e-12 * (1 + a / b));
        delete_simple_mat(m[0]); delete_simple_mat(m[1]);
    }
    return neg ? 0 : 3;
}
'''),
 dict(id='S27', property='C27', edits={A + 'shapematch.c': [('	Center_y=(int)(s01/s00+0.5);', '	Center_y=(int)(s01/s00)+(s01/s00-(int)(s01/s00)>0.5);')]},
  needs='a shape whose centre of gravity lies exactly between two rows', breaks='its moments are taken about the other row',
  src=ALG,
  demo=HEAD + '''
#include "algorithm/hypercv_algorithm.h"
int main(void) {
    simple_mat a = create_simple_mat(4, 3, 1, 1);
    unsigned char *p = a->data;
    double h[7];
    memset(p, 0, 12);
    p[0] = 10; p[1] = 20; p[5] = 30;      /* rows 0 and 1 with the same weight: centre at 0.5, taken as row 1 */
    calc_hu_moment(h, a);
    {
        /* centre (80/60 -> 1, 1): m20 = 10*1 + 30*1, m02 = 30, m11 = 10 */
        double n20 = 40 / 3600., n02 = 30 / 3600., n11 = 10 / 3600.;
        CHECK(fabs(h[0] - (n20 + n02)) < 1e-12);
        CHECK(fabs(h[1] - ((n20 - n02) * (n20 - n02) + 4 * n11 * n11)) < 1e-12);
    }
    delete_simple_mat(a);
    return 0;
}
'''),
]
