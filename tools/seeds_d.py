exec(open('/verif/tools/seeds_b.py').read().split('SEEDLIST')[0])
SEEDLIST = [
 dict(id='S28', property='C16', edits={HMC: [('for(int i=0;i<bands-1;i++)\n			fprintf', 'for(int i=0;i<bands-1&&i<256;i++)\n			fprintf')]},
  needs='a cube with more than 257 bands', breaks='the header does not list all the wavelengths',
  demo=HEAD + '''
int main(void) {
    int B = 300, i, n = 0, c;
    hyper_mat m = create_hyper_mat(2, 3, B, 1, "bil");
    FILE *f;
    for (i = 0; i < B; i++) m->wavelength[i] = 400 + i;
    hmsave("cube", m);
    f = fopen("cube.hdr", "r");
    CHECK(f != NULL);
    while ((c = fgetc(f)) != EOF) n += c == ',';
    fclose(f);
    CHECK(n == B - 1);
    delete_hyper_mat(m);
    return 0;
}
'''),
 dict(id='S29', property='C16', edits={HMC: [('if (image_fp == NULL || hdr_fp == NULL)', 'if (image_fp == NULL && hdr_fp == NULL)')]},
  needs='a header without an image file', breaks='the missing image is not noticed',
  demo=HEAD + '''
int main(void) {
    FILE *f = fopen("h", "w");
    fputs("ENVI\\nsamples = 2\\nlines = 2\\nbands = 1\\ndata type = 1\\ninterleave = bsq\\nwavelength = unknown \\n", f);
    fclose(f);
    CHECK(hmread_with_hdr("nothing", "h") == NULL);
    CHECK(hmread_with_hdr("h", "nothing") == NULL);
    return 0;
}
'''),
 dict(id='S30', property='C17', edits={SMC: [('    int lineByte   = (bmpWidth * biBitCount / 8 + 3) / 4 * 4;', '    int lineByte   = (bmpWidth * biBitCount + 23) / 32 * 4;')]},
  needs='an image whose width leaves the remainder 3 modulo 4', breaks='rows are read from the wrong place',
  demo=HEAD + '''
int main(void) {
    int w, h, i;
    for (w = 1; w < 10; w++) for (h = 1; h < 5; h++) {
        simple_mat a = create_simple_mat(h, w, 1, 3), b;
        for (i = 0; i < h * w * 3; i++) ((unsigned char *)a->data)[i] = (i * 37 + 11) & 255;
        smwrite_bmp("p.bmp", a);
        b = smread_bmp("p.bmp");
        CHECK(b->rows == h && b->cols == w && b->channels == 3);
        for (i = 0; i < h * w * 3; i++) CHECK(((unsigned char *)b->data)[i] == ((i * 37 + 11) & 255));
        delete_simple_mat(a); delete_simple_mat(b);
    }
    return 0;
}
'''),
]
