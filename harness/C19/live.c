/*
 * The live registry under every short history of its public operations,
 * against the obvious abstract registry: a set of servers, each a set of
 * stream names.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#ifdef VF_CBMC
#include "ngx_live.h"
/* zeroing a whole stream, as one typed assignment instead of byte by byte */
static const ngx_live_stream_t  vf_blank;
static void
vf_zero(void *p, size_t n)
{
    if (n == sizeof(ngx_live_stream_t)) { *(ngx_live_stream_t *) p = vf_blank; }
    else { vf_memset(p, 0, n); }
}
#undef ngx_memzero
#define ngx_memzero(p, n)  vf_zero(p, n)
#endif
#include "/repo/modules/nginx-rtmp-module/ngx_live.c"

#define NSRV 2
#define NST  2
#define BUCK (BUCKETS)
#ifdef VF_CBMC
#define VF_NO_PALLOC
#include "vf_ngx.h"
struct tab { void *p[BUCK]; };
void *
ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
    if (size == sizeof(struct tab)) { return __CPROVER_allocate(sizeof(struct tab), 1); }
    return __CPROVER_allocate(size, 1);
}
#else
#include "vf_ngx.h"
#endif

volatile ngx_msec_t  ngx_current_msec;
static ngx_pool_t  pool;
static ngx_cycle_t  cyc;
void ngx_map_init(ngx_map_t *map, ngx_map_hash_pt hash, ngx_cmp_pt cmp) { }
ngx_rbtree_key_t ngx_map_hash_int(intptr_t key) { return key; }
int ngx_cmp_int(intptr_t a, intptr_t b) { return a - b; }
ngx_module_t  ngx_rtmp_core_module;
#undef ngx_create_pool
ngx_pool_t *ngx_create_pool(size_t size, ngx_log_t *log) { return &pool; }

static ngx_str_t  sid[NSRV] = { ngx_string("a"), ngx_string("ab") };
static ngx_str_t  nam[NST] = { ngx_string("x"), ngx_string("xy") };

/* abstract registry */
static int                 has[NSRV], del[NSRV], hasst[NSRV][NST];
static ngx_live_server_t  *psrv[NSRV];
static ngx_live_stream_t  *pst[NSRV][NST];

static void
check(void)
{
    int  i, j, k, l, n;
    ngx_live_server_t  *sv;

    for (i = 0; i < NSRV; i++) {
        sv = ngx_live_fetch_server(&sid[i]);
        VF_ASSERT((sv != NULL) == has[i], "a server is found exactly while registered");
        if (sv == NULL) {
            VF_ASSERT(ngx_live_fetch_stream(&sid[i], &nam[0]) == NULL, "an unknown server has no streams");
            continue;
        }
        VF_ASSERT(sv == psrv[i], "it is the same object all the time");
        n = 0;
        for (j = 0; j < NST; j++) {
            ngx_live_stream_t  *st = ngx_live_fetch_stream(&sid[i], &nam[j]);

            VF_ASSERT((st != NULL) == hasst[i][j], "a stream is found exactly while registered");
            VF_ASSERT(st == NULL || st == pst[i][j], "it is the same stream object all the time");
            n += hasst[i][j];
            if (st == NULL) { continue; }
            for (k = 0; k <= i; k++) {
                for (l = 0; l < NST; l++) {
                    if ((k != i || l != j) && has[k] && hasst[k][l]) {
                        VF_ASSERT(pst[k][l] != st, "two streams never share an object");
                    }
                }
            }
        }
        VF_ASSERT(sv->n_stream == (ngx_uint_t) n, "the server counts its streams");
        for (k = 0; k < i; k++) { VF_ASSERT(!has[k] || psrv[k] != sv, "two servers never share an object"); }
    }
}

/* 0,1 create server; 2,3 delete server; 4,5,6 create stream; 7,8,9 delete stream; 10: names too long */
#define NOP 11
static u_char  longname[NGX_LIVE_STREAM_LEN + 1];

static void
step(int op, int look)
{
    int  i, j, n, k;
    ngx_live_stream_t  *st;
    ngx_str_t  ln;

    if (op < 2) {
        i = op;
        psrv[i] = ngx_live_create_server(&sid[i]);
        VF_ASSERT(psrv[i] != NULL, "a server can be created");
        has[i] = 1;
        del[i] = 0;
    } else if (op < 4) {
        i = op - 2;
        ngx_live_delete_server(&sid[i]);
        for (n = 0, j = 0; j < NST; j++) { n += hasst[i][j]; }
        if (has[i]) { if (n == 0) { has[i] = 0; del[i] = 0; } else { del[i] = 1; } }
    } else if (op < 7) {
        i = (op - 4) / NST;
        j = (op - 4) % NST;
        st = ngx_live_create_stream(&sid[i], &nam[j]);
        VF_ASSERT((st != NULL) == has[i], "a stream can be created under a registered server only");
        if (st) {
            if (!hasst[i][j]) {
                VF_ASSERT(st->publish_ctx == NULL && st->play_ctx == NULL && st->ctx == NULL && !st->active
                          && !st->publishing && st->pslot == -1, "a new stream is blank");
                pst[i][j] = st;
                st->active = 1;
                st->publishing = 1;
                st->pslot = 3;
                st->ctx = (void *) &pool;
                st->play_ctx = (void *) &pool;
                st->publish_ctx = (void *) &pool;
            }
            VF_ASSERT(st->active && st->pslot == 3, "an existing stream is left as it is");
            hasst[i][j] = 1;
        }
    } else if (op < 10) {
        i = (op - 7) / NST;
        j = (op - 7) % NST;
        ngx_live_delete_stream(&sid[i], &nam[j]);
        if (has[i] && hasst[i][j]) {
            hasst[i][j] = 0;
            for (n = 0, k = 0; k < NST; k++) { n += hasst[i][k]; }
            if (n == 0 && del[i]) { has[i] = 0; del[i] = 0; }
        }
    } else {
        ln.data = longname;
        ln.len = NGX_LIVE_STREAM_LEN;
        st = ngx_live_create_stream(&sid[0], &ln);
        VF_ASSERT(st == NULL, "a name that does not fit is refused");
        VF_ASSERT(ngx_live_create_server(&ln) == NULL, "a server id that does not fit is refused");
    }
    if (look) { check(); }
}

#define RUN(k, ...)  { static const int h[] = { __VA_ARGS__ }; for (k = 0; k < (int) (sizeof(h) / sizeof(h[0])); k++) { step(h[k], 0); } }

static void  *confs[2];

static void
history(int a, int b, int c)
{
    ngx_live_conf_t    *lcf;
    ngx_core_module_t  *m = ngx_live_module.ctx;
    int  i, j, k;

    lcf = m->create_conf(&cyc);
    VF_ASSERT(lcf != NULL, "configuration created");
    lcf->stream_buckets = BUCK;
    lcf->server_buckets = BUCK;
    confs[1] = lcf;
    VF_ASSERT(m->init_conf(&cyc, lcf) == NGX_CONF_OK, "configuration initialised");
    for (i = 0; i < NSRV; i++) {
        has[i] = del[i] = 0;
        for (j = 0; j < NST; j++) { hasst[i][j] = 0; }
    }

#if ROOT == 1                       /* two servers with streams */
    RUN(k, 0, 1, 4, 5, 6)
#elif ROOT == 2                     /* all used once and released */
    RUN(k, 0, 1, 4, 5, 6, 7, 8, 9, 2, 3)
#elif ROOT == 3                     /* deletion pending on both */
    RUN(k, 0, 1, 4, 5, 6, 2, 3)
#elif ROOT == 4                     /* released in the other order, one left */
    RUN(k, 1, 0, 5, 4, 6, 8, 9, 3)
#elif ROOT == 5                     /* a too long name, then one stream */
    RUN(k, 0, 10, 4)
#endif
    if (a >= 0) { step(a, 0); }
    step(b, 1);
    step(c, 1);
}

void
h_live(void)
{
    int  a, b, c;

    memset(longname, 'l', sizeof(longname));
    ngx_cycle = &cyc;
    cyc.log = &vf_log;
    cyc.pool = &pool;
    cyc.conf_ctx = (void ****) confs;
    ngx_live_module.index = 1;

    for (a = A0; a < A1; a++) {
        for (b = B0; b < B1; b++) {
            for (c = 0; c < NOP; c++) { history(a, b, c); }
        }
    }
    VF_REACH("histories ran");
}
