/* stand-ins for the nginx core functions the module under demonstration calls */
#include <ngx_config.h>
#include <ngx_core.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define W __attribute__((weak))
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); exit(1); } } while (0)
#ifndef DEMO_NO_CORE
W volatile ngx_cycle_t *ngx_cycle;
W void ngx_log_error_core(ngx_uint_t l, ngx_log_t *g, ngx_err_t e, const char *f, ...) { }
W void ngx_conf_log_error(ngx_uint_t l, ngx_conf_t *c, ngx_err_t e, const char *f, ...) { }
W void *ngx_palloc(ngx_pool_t *p, size_t n) { return malloc(n ? n : 1); }
W void *ngx_pnalloc(ngx_pool_t *p, size_t n) { return malloc(n ? n : 1); }
W void *ngx_pcalloc(ngx_pool_t *p, size_t n) { return calloc(1, n ? n : 1); }
W void *ngx_alloc(size_t n, ngx_log_t *l) { return malloc(n ? n : 1); }
W void *ngx_calloc(size_t n, ngx_log_t *l) { return calloc(1, n ? n : 1); }
W ngx_int_t ngx_pfree(ngx_pool_t *p, void *q) { return NGX_DECLINED; }
W ngx_chain_t *ngx_alloc_chain_link(ngx_pool_t *p) { return calloc(1, sizeof(ngx_chain_t)); }
W ngx_buf_t *ngx_create_temp_buf(ngx_pool_t *p, size_t n) {
    ngx_buf_t *b = calloc(1, sizeof(ngx_buf_t));
    b->start = b->pos = b->last = malloc(n ? n : 1); b->end = b->start + n; b->temporary = 1; return b; }
W ngx_uint_t ngx_hash_key(u_char *d, size_t n) { ngx_uint_t i, k = 0; for (i = 0; i < n; i++) { k = ngx_hash(k, d[i]); } return k; }
W u_char *ngx_cpystrn(u_char *d, u_char *s, size_t n) {
    if (n == 0) { return d; }
    while (--n) { *d = *s; if (*d == 0) { return d; } d++; s++; }
    *d = 0; return d; }
W ngx_int_t ngx_atoi(u_char *p, size_t n) { ngx_int_t v = 0; if (!n) { return -1; }
    for (; n--; p++) { if (*p < '0' || *p > '9') { return -1; } v = v * 10 + *p - '0'; } return v; }
#endif
