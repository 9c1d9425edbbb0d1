/*
 * memcpy/memmove/memset/memcmp for CBMC runs: the exact C semantics as plain
 * byte loops (CBMC's own models use array theory, which does not scale here).
 * Include before nginx headers.  Native builds use libc.
 */
#ifndef VF_MEM_H
#define VF_MEM_H
#ifdef VF_CBMC

#include <ngx_config.h>

static inline void *
vf_memcpy(void *dst, const void *src, size_t n)
{
    size_t                k;
    const unsigned char  *s = src;
    unsigned char        *d = dst;

#ifdef VF_WORDS
    /* same effect, in words: objects with pointer members stay typed */
    if (n % 8 == 0) {
        for (k = 0; k < n / 8; k++) { ((uint64_t *) dst)[k] = ((uint64_t *) src)[k]; }
        return dst;
    }
#endif
    for (k = 0; k < n; k++) { d[k] = s[k]; }
    return dst;
}

static inline void *
vf_memmove(void *dst, const void *src, size_t n)
{
    size_t                k;
    const unsigned char  *s = src;
    unsigned char        *d = dst;

    if (__CPROVER_POINTER_OBJECT(d) != __CPROVER_POINTER_OBJECT(s) || d < s) {
        for (k = 0; k < n; k++) { d[k] = s[k]; }
    } else {
        for (k = n; k > 0; k--) { d[k - 1] = s[k - 1]; }
    }
    return dst;
}

static inline void *
vf_memset(void *dst, int c, size_t n)
{
    size_t          k;
    unsigned char  *d = dst;

#ifdef VF_WORDS
    if (n % 8 == 0 && c == 0) {
        for (k = 0; k < n / 8; k++) { ((uint64_t *) dst)[k] = 0; }
        return dst;
    }
#endif
    for (k = 0; k < n; k++) { d[k] = (unsigned char) c; }
    return dst;
}

static inline int
vf_memcmp(const void *a, const void *b, size_t n)
{
    size_t                k;
    const unsigned char  *x = a, *y = b;

    for (k = 0; k < n; k++) {
        if (x[k] != y[k]) { return x[k] < y[k] ? -1 : 1; }
    }
    return 0;
}

#undef memcpy
#undef memmove
#undef memset
#undef memcmp
#define memcpy(d, s, n)   vf_memcpy(d, s, n)
#define memmove(d, s, n)  vf_memmove(d, s, n)
#define memset(d, c, n)   vf_memset(d, c, n)
#define memcmp(a, b, n)   vf_memcmp(a, b, n)

#endif
#endif
