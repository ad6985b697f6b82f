#define HV_SHIM_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
struct ent { char *p; size_t n; long serial; int live; };
static struct ent *tab;
static long nt, cap, serial;
static void add(void *p, size_t n) {
    if (nt == cap) { cap = cap ? 2 * cap : 1024; tab = realloc(tab, cap * sizeof *tab); }
    tab[nt].p = p; tab[nt].n = n; tab[nt].serial = ++serial; tab[nt].live = 1; nt++;
}
void *hv_malloc(size_t n) { void *p = malloc(n); if (p) { add(p, n); memset(p, 0xCB, n); } return p; }
void *hv_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) add(p, a * b); return p; }
void *hv_block(size_t n, size_t al) { void *p = NULL; if (al < 16) al = 16; if (posix_memalign(&p, al, n ? n : 1)) return NULL; add(p, n); return p; }
static struct ent *get(void *p) { long i; for (i = nt - 1; i >= 0; i--) if (tab[i].p == (char *)p && tab[i].live) return tab + i; return NULL; }
void hv_free(void *p) { struct ent *e; if (!p) return; e = get(p); if (e) e->live = 0; free(p); }
void *hv_realloc(void *p, size_t n) { struct ent *e = p ? get(p) : NULL; void *q = hv_malloc(n); if (p) { size_t k = e ? e->n : 0; memcpy(q, p, k < n ? k : n); hv_free(p); } return q; }
void hv_exit(int n) { fflush(stdout); fprintf(stderr, "\nHV: the code under test called exit(%d)\n", n); _exit(98); }
long hv_mark(void) { return serial; }
/* block containing address a (live ones first): serial, or 0 */
long hv_find(char *a, char **base, size_t *n, int *live) {
    long i; int pass;
    for (pass = 0; pass < 2; pass++)
        for (i = nt - 1; i >= 0; i--)
            if ((pass || tab[i].live) && a >= tab[i].p && a <= tab[i].p + tab[i].n && (a < tab[i].p + tab[i].n || tab[i].n == 0)) {
                *base = tab[i].p; *n = tab[i].n; *live = tab[i].live; return tab[i].serial; }
    return 0;
}
int hv_live(long s) { long i; for (i = 0; i < nt; i++) if (tab[i].serial == s) return tab[i].live; return 0; }
/* first live block with serial > s */
long hv_next(long s, char **base, size_t *n) { long i; for (i = 0; i < nt; i++) if (tab[i].serial > s && tab[i].live) { *base = tab[i].p; *n = tab[i].n; return tab[i].serial; } return 0; }
