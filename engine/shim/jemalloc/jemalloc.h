/* Stand-in for jemalloc so that the allocations of librrr go through malloc(), where the
 * address sanitizer (or the scheduler's shadow heap) sees them. */
#ifndef VERIF_JEMALLOC_SHIM_H
#define VERIF_JEMALLOC_SHIM_H
#include <stdlib.h>
#include <string.h>
#define MALLOCX_ZERO 0x40
static inline void *mallocx (size_t s, int f) { return (f & MALLOCX_ZERO) ? calloc(1, s ? s : 1) : malloc(s ? s : 1); }
static inline void *rallocx (void *p, size_t s, int f) { (void)(f); return realloc(p, s ? s : 1); }
static inline void dallocx (void *p, int f) { (void)(f); free(p); }
static inline void sdallocx (void *p, size_t s, int f) { (void)(s); (void)(f); free(p); }
#endif
