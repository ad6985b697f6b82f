exec(open('/verif/tools/seeds_b.py').read().split('SEEDLIST')[0])
SEEDLIST = [
 dict(id='S37', property='C09', edits={P + 'threshold.c': [('for(int k = i+1;k<256;k++)', 'for(int k = i+1;k<255;k++)')]},
  needs='a picture with saturated pixels (level 255)', breaks='the brightest level is missing from the upper class of the Otsu search',
  demo=HEAD + '''
int otsuThreshold(simple_mat);
static int level(unsigned char *d, int n) {
    double best = -1; int t, k, r = 0;
    for (t = 0; t < 256; t++) {
        double n0 = 0, s0 = 0, s1 = 0, u;
        for (k = 0; k < n; k++) if (d[k] <= t) { n0++; s0 += d[k]; } else s1 += d[k];
        if (n0 == 0 || n0 == n) continue;
        u = s0 / n0 - s1 / (n - n0);
        if (n0 * (n - n0) * u * u > best * (1 + 1e-9) + 1e-9) { best = n0 * (n - n0) * u * u; r = t; }
    }
    return r;
}
int main(void) {
    int s, k;
    for (s = 1; s < 40; s++) {
        simple_mat m = create_simple_mat(4, 5, 1, 1);
        unsigned char *d = (unsigned char *)m->data;
        for (k = 0; k < 20; k++) d[k] = (k * s * 37 + s * s) % 251;
        if (s % 2) for (k = 0; k < 5; k++) d[k * 3] = 255;
        CHECK(otsuThreshold(m) == level(d, 20));
        delete_simple_mat(m);
    }
    return 0;
}
'''),
]
