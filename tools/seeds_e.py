exec(open('/verif/tools/seeds_b.py').read().split('SEEDLIST')[0])
HPP = 'modules/core/include/cxx_include/hypermat.hpp'
SEEDLIST = [
 dict(id='S31', property='C23', edits={P + 'filter.c': [('''	unsigned char* src_data = (unsigned char*)src->data;
	int* dst_data = (int*)dst->data;

	for(int i=0;i<rows;i++)''', '''	signed char* src_data = (signed char*)src->data;
	int* dst_data = (int*)dst->data;

	for(int i=0;i<rows;i++)''')]},
  needs='a pixel of at least 128', breaks='bright pixels are subtracted from the sums',
  demo=HEAD + '''
int main(void) {
    int R, C, i, j, a, b;
    for (R = 1; R < 6; R++) for (C = 1; C < 6; C++) {
        simple_mat s = create_simple_mat(R, C, 1, 1), d = create_simple_mat(R, C, 3, 1);
        for (i = 0; i < R * C; i++) ((unsigned char *)s->data)[i] = (i * 97 + 13) & 255;
        hypercv_integral(s, d);
        for (i = 0; i < R; i++) for (j = 0; j < C; j++) {
            int t = 0;
            for (a = 0; a <= i; a++) for (b = 0; b <= j; b++) t += ((unsigned char *)s->data)[a * C + b];
            CHECK(((int *)d->data)[i * C + j] == t);
        }
        delete_simple_mat(s); delete_simple_mat(d);
    }
    return 0;
}
'''),
 dict(id='S32', property='C16', edits={P + 'spectralprocess.c': [('		*sp = temp;\n		sp++;', '		*sp = temp;\n		if (temp >= 0)\n			sp++;')]},
  needs='a negative number in the file', breaks='a negative value is overwritten by the next',
  demo=HEAD + '''
int main(void) {
    float v[] = {1.5f, 0, -2.25f, 3, -0.5f, 7}, *r;
    int i;
    FILE *f = fopen("sp", "w");
    for (i = 0; i < 6; i++) fprintf(f, "%f\\n", v[i]);
    fclose(f);
    r = read_spectrum_file("sp", 6);
    for (i = 0; i < 6; i++) CHECK(r[i] == v[i]);
    free(r);
    return 0;
}
'''),
 dict(id='S33', property='C16', edits={HPP: [('''		if (empty() == 0)
			release();

		create(_samples, _lines, _bands, _dataType, _format);
''', '''		if (empty() || samples != _samples || lines != _lines || bands != _bands || dataType != _dataType)
			create(_samples, _lines, _bands, _dataType, _format);
''')]},
  needs='an object that holds an image of the same size and type in another layout is opened again', breaks='the object keeps the former layout (and wavelengths)',
  cxx=1, src='modules/core/src/c_src/hypermat.c', xsrc='-Imodules -D_cplusplus -Dgdal_switch=1 -I/usr/include/gdal -Wl,--unresolved-symbols=ignore-all', demo=HEADX + '''
int main() {
    FILE *f = fopen("img", "w");
    for (int i = 0; i < 24; i++) fputc(i, f);
    fclose(f);
    hypercv::HyMat m;
    int fmt[] = {0, 1, 2};
    for (int k = 0; k < 3; k++) {
        m.open("img", 2, 3, 4, 1, fmt[k]);
        CHECK(m.format == fmt[k] && m.samples == 2 && m.lines == 3 && m.bands == 4);
        for (int i = 0; i < 24; i++) CHECK(((unsigned char *)m.data)[i] == i);
        m.wavelength[1] = 500;
        for (int b = 0; b < 4; b++) CHECK(m.wavelength[b] == (b == 1 ? 500 : 0));
    }
    return 0;
}
'''),
]
