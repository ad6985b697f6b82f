/* included before every translation unit of the code under test in replay builds (never in the verified text): allocation
   calls are counted, process exits are turned into a recognisable status. */
#ifndef HV_SHIM_H
#define HV_SHIM_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#ifdef __cplusplus
extern "C" {
#endif
void *hv_malloc(size_t);
void *hv_calloc(size_t, size_t);
void *hv_realloc(void *, size_t);
void hv_free(void *);
void hv_exit(int);
#ifdef __cplusplus
}
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <string>
#include <vector>
#include <iostream>
#include <fstream>
#include <sstream>
#include <memory>
#include <map>
#include <cmath>
#endif
#define malloc(n) hv_malloc(n)
#define calloc(a, b) hv_calloc(a, b)
#define realloc(p, n) hv_realloc(p, n)
#define free(p) hv_free(p)
#define exit(n) hv_exit(n)
#endif
