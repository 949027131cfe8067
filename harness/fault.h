/* Force-included when the extension is built for the sanitizer runs: counts
   the native allocations and lets a chosen one fail. */
#ifndef VERIF_FAULT_H
#define VERIF_FAULT_H
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
__attribute__((weak, visibility("default"))) long verif_live = 0;
__attribute__((weak, visibility("default"))) long verif_total = 0;
__attribute__((weak, visibility("default"))) long verif_fail_in = 0;
#ifdef __cplusplus
}
#endif
static inline int verif_fails(void)
{
    __atomic_add_fetch(&verif_total, 1, __ATOMIC_SEQ_CST);
    return verif_fail_in > 0 &&
        __atomic_sub_fetch(&verif_fail_in, 1, __ATOMIC_SEQ_CST) == 0;
}
static inline void *verif_malloc(size_t n)
{
    void *p = verif_fails() ? NULL : (malloc)(n);
    if (p) __atomic_add_fetch(&verif_live, 1, __ATOMIC_SEQ_CST);
    return p;
}
static inline void *verif_calloc(size_t k, size_t n)
{
    void *p = verif_fails() ? NULL : (calloc)(k, n);
    if (p) __atomic_add_fetch(&verif_live, 1, __ATOMIC_SEQ_CST);
    return p;
}
static inline void verif_free(void *p)
{
    if (p) __atomic_sub_fetch(&verif_live, 1, __ATOMIC_SEQ_CST);
    (free)(p);
}
static inline void *verif_realloc(void *q, size_t n)
{
    void *p = verif_fails() ? NULL : (realloc)(q, n);
    if (!q && p) __atomic_add_fetch(&verif_live, 1, __ATOMIC_SEQ_CST);
    return p;
}
static inline void *verif_aligned_alloc(size_t a, size_t n)
{
    void *p = verif_fails() ? NULL : (aligned_alloc)(a, n);
    if (p) __atomic_add_fetch(&verif_live, 1, __ATOMIC_SEQ_CST);
    return p;
}
#define malloc(n) verif_malloc(n)
#define calloc(k, n) verif_calloc(k, n)
#define realloc(q, n) verif_realloc(q, n)
#define aligned_alloc(a, n) verif_aligned_alloc(a, n)
#define free(p) verif_free(p)
#endif
