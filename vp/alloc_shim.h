/* Included before slope_fitter.c in staged builds: counts live allocations, can fail the n-th one. */
#ifndef VP_ALLOC_SHIM_H
#define VP_ALLOC_SHIM_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdlib.h>
#include <string.h>
long vp_live = 0, vp_allocs = 0, vp_fail_at = -1;
static int vp_fails(void) { return vp_fail_at >= 0 && vp_allocs++ == vp_fail_at; }
static void *vp_note(void *p) { if (p) vp_live++; return p; }
static inline void *vp_malloc(size_t n) { return vp_fails() ? NULL : vp_note(malloc(n)); }
static inline void *vp_calloc(size_t n, size_t s) { return vp_fails() ? NULL : vp_note(calloc(n, s)); }
static inline void *vp_realloc(void *p, size_t n) {
    if (vp_fails()) return NULL;
    void *q = realloc(p, n);
    if (!p && q) vp_live++;
    return q;
}
static inline void vp_free(void *p) { if (p) vp_live--; free(p); }
#define malloc(n) vp_malloc(n)
#define calloc(n, s) vp_calloc(n, s)
#define realloc(p, n) vp_realloc(p, n)
#define free(p) vp_free(p)
#endif
