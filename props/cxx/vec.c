/* the vector macros as functions, one set per element type (the code under contract is the included header). */
#include <stdlib.h>
#include <stdio.h>
#include <stddef.h>
#include "core/include/c_include/vector.h"
#define MAKE(T, N) \
T *hv_vec_push_##N(T *v, T x) { vector_push_back(v, x); return v; } \
T *hv_vec_pop_##N(T *v) { vector_pop_back(v); return v; } \
T *hv_vec_erase_##N(T *v, size_t i) { vector_erase(v, i); return v; } \
T *hv_vec_free_##N(T *v) { vector_free(v); return v; } \
size_t hv_vec_size_##N(T *v) { return vector_size(v); } \
size_t hv_vec_capacity_##N(T *v) { return vector_capacity(v); } \
int hv_vec_empty_##N(T *v) { return vector_empty(v); } \
T *hv_vec_begin_##N(T *v) { return vector_begin(v); } \
T *hv_vec_end_##N(T *v) { return vector_end(v); }
MAKE(unsigned char, u8)
MAKE(short, i16)
MAKE(int, i32)
MAKE(float, f32)
MAKE(double, f64)
MAKE(long, i64)
