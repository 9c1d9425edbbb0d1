/*
 * Assumed contracts of nginx-core functions, as executable stubs (the nginx
 * core sources are not in this sandbox).  Everything in this file is part of
 * the trusted base and is listed in each check's evidence.
 *
 * Include it after the real sources under verification.
 */
#ifndef VF_NGX_H
#define VF_NGX_H

#include "vf.h"
#include <stdarg.h>

/* ---- logging: no effect on the state the properties speak about ---- */

#ifndef VF_NO_LOG
volatile ngx_cycle_t  *ngx_cycle;
void
ngx_log_error_core(ngx_uint_t level, ngx_log_t *log, ngx_err_t err,
    const char *fmt, ...)
{
}
void ngx_cdecl
ngx_conf_log_error(ngx_uint_t level, ngx_conf_t *cf, ngx_err_t err,
    const char *fmt, ...)
{
}
#endif

static ngx_log_t  vf_log;     /* log_level 0: every log macro is a no-op */

/* ---- allocation: fresh, disjoint, uninitialised; succeeds unless told ---- */

static int    vf_alloc_may_fail;
static size_t vf_alloc_count;

static void *
vf_alloc(size_t size)
{
    void  *p;

    if (vf_alloc_may_fail && VF_ND_BOOL()) {
        return NULL;
    }

    vf_alloc_count++;
#ifdef VF_CBMC
    p = __CPROVER_allocate(size, 0);      /* typed by the sizeof in the call */
#else
    p = malloc(size ? size : 1);
    VF_ASSUME(p != NULL);
    memset(p, 0xA5, size);
#endif
    return p;
}

#ifndef VF_NO_PALLOC
void *ngx_palloc(ngx_pool_t *pool, size_t size)  { return vf_alloc(size); }
void *ngx_pnalloc(ngx_pool_t *pool, size_t size) { return vf_alloc(size); }
void *ngx_alloc(size_t size, ngx_log_t *log)     { return vf_alloc(size); }

void *
ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
#ifdef VF_CBMC
    if (vf_alloc_may_fail && VF_ND_BOOL()) { return NULL; }
    vf_alloc_count++;
    return __CPROVER_allocate(size, 1);
#else
    void *p = vf_alloc(size);
    if (p) { memset(p, 0, size); }
    return p;
#endif
}

void *
ngx_calloc(size_t size, ngx_log_t *log)
{
    return ngx_pcalloc(NULL, size);
}

ngx_int_t ngx_pfree(ngx_pool_t *pool, void *p)   { return NGX_DECLINED; }
#endif

#ifndef VF_NO_BUF
ngx_chain_t *
ngx_alloc_chain_link(ngx_pool_t *pool)
{
    return vf_alloc(sizeof(ngx_chain_t));
}

ngx_buf_t *
ngx_create_temp_buf(ngx_pool_t *pool, size_t size)
{
    ngx_buf_t *b;

    b = ngx_pcalloc(pool, sizeof(ngx_buf_t));
    if (b == NULL) { return NULL; }
    b->start = ngx_palloc(pool, size);
    if (b->start == NULL) { return NULL; }
    b->pos = b->start;
    b->last = b->start;
    b->end = b->last + size;
    b->temporary = 1;
    return b;
}
#endif

#ifndef VF_NO_STR
u_char *
ngx_cpystrn(u_char *dst, u_char *src, size_t n)
{
    if (n == 0) { return dst; }
    while (--n) {
        *dst = *src;
        if (*dst == '\0') { return dst; }
        dst++;
        src++;
    }
    *dst = '\0';
    return dst;
}

ngx_int_t
ngx_atoi(u_char *line, size_t n)
{
    ngx_int_t  value, cutoff, cutlim;

    if (n == 0) { return NGX_ERROR; }
    cutoff = NGX_MAX_INT_T_VALUE / 10;
    cutlim = NGX_MAX_INT_T_VALUE % 10;
    for (value = 0; n--; line++) {
        if (*line < '0' || *line > '9') { return NGX_ERROR; }
        if (value >= cutoff && (value > cutoff || *line - '0' > cutlim)) {
            return NGX_ERROR;
        }
        value = value * 10 + (*line - '0');
    }
    return value;
}

ngx_uint_t
ngx_hash_key(u_char *data, size_t len)
{
    ngx_uint_t  i, key = 0;
    for (i = 0; i < len; i++) { key = ngx_hash(key, data[i]); }
    return key;
}
#endif

#endif
