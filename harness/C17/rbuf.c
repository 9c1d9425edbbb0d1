/*
 * Buffer and pool recycling, through the public functions, over every short
 * history.  The map below them is its proved contract (C16): a finite function.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#include "vf_map_spec.h"
#ifdef POOLD
#include "/repo/modules/nginx-toolkit-module/ngx_poold.c"
#else
#include "/repo/modules/nginx-toolkit-module/ngx_rbuf.c"
#endif
#ifdef VF_CBMC
/* fresh zeroed memory, in objects typed so that the verifier folds pointers */
#define VF_NO_PALLOC
struct blk8  { size_t a; void *b; u_char c[8]; };
struct blk16 { size_t a; void *b; u_char c[16]; };
#include "vf_ngx.h"
void *
ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
#ifndef POOLD
    if (size == sizeof(struct blk8)) { return __CPROVER_allocate(sizeof(struct blk8), 1); }
    if (size == sizeof(struct blk16)) { return __CPROVER_allocate(sizeof(struct blk16), 1); }
#endif
    return __CPROVER_allocate(size, 1);
}
void *ngx_palloc(ngx_pool_t *pool, size_t size) { return __CPROVER_allocate(size, 0); }
#else
#include "vf_ngx.h"
#endif
#include "vf_map_impl.h"

static ngx_cycle_t  the_cycle;
static ngx_pool_t   the_pool;

#undef ngx_create_pool
#undef ngx_destroy_pool

#ifndef POOLD

ngx_pool_t *
ngx_create_pool(size_t size, ngx_log_t *log)
{
    return &the_pool;
}

#define NH  4
#ifndef LAST
#define LAST 1
#endif

typedef struct {
    ngx_chain_t  *cl;
    u_char       *start;
    size_t        size;
    int           alloc;
    u_char        mark;
} held_t;

static held_t  held[NH];
static int     nheld;

static void
get(size_t size, int alloc)
{
    ngx_chain_t  *cl;
    ngx_buf_t    *b;
    int           i;

    cl = ngx_get_chainbuf_debug(size, alloc, "f", 1);
    VF_ASSERT(cl != NULL && cl->next == NULL && cl->buf != NULL, "get yields an unlinked chain link");
    b = cl->buf;
    VF_ASSERT(!b->last_buf && !b->last_in_chain && !b->flush && !b->sync && !b->temporary
              && !b->in_file && b->memory, "no flag of the previous user is left");
    VF_ASSERT(b->pos == b->start && b->last == b->start, "the buffer is empty");
    if (alloc) {
        VF_ASSERT(b->start != NULL && (size_t) (b->end - b->start) == size, "the buffer has the size asked for");
    } else {
        VF_ASSERT(b->start == NULL && b->end == NULL, "no buffer unless asked for");
    }

    for (i = 0; i < nheld; i++) {
        VF_ASSERT(held[i].cl != cl && held[i].cl->buf != b, "a link in use is not handed out");
        VF_ASSERT(!alloc || !held[i].alloc || held[i].start != b->start, "memory in use is not handed out");
    }
    held[nheld].cl = cl;
    held[nheld].start = b->start;
    held[nheld].size = size;
    held[nheld].alloc = alloc;
    if (alloc) {                  /* use all of it, and mark it */
        held[nheld].mark = 0x40 + nheld;
        ngx_memset(b->start, held[nheld].mark, size);
        b->last = b->end;
        b->last_buf = 1;
        b->flush = 1;
    }
    nheld++;
}

static void
put(int i, int twice)
{
    size_t  k;

    for (k = 0; k < (held[i].alloc ? held[i].size : 0); k++) {
        VF_ASSERT(held[i].start[k] == held[i].mark, "memory in use is not written by others");
    }
    ngx_put_chainbuf_debug(held[i].cl, "f", 2);
    if (twice) {
        ngx_put_chainbuf_debug(held[i].cl, "f", 3);
    }
    for (; i + 1 < nheld; i++) { held[i] = held[i + 1]; }
    nheld--;
}

/* 0..2: get; 3: put oldest; 4: put newest; 5: put oldest twice */
static void
step(int op)
{
    if (op == 0) { get(8, 1); }
    if (op == 1) { get(16, 1); }
    if (op == 2) { get(8, 0); }
    if (nheld && op == 3) { put(0, 0); }
    if (nheld && op == 4) { put(nheld - 1, 0); }
    if (nheld && op == 5) { put(0, 1); }
}

static void
drain(void)
{
    int  k;

    for (k = 0; k < NH; k++) { if (nheld) { put(0, 0); } }
}

void
h_rbuf(void)
{
    int  a, b, c, d, e;

    the_cycle.log = &vf_log;
    ngx_cycle = &the_cycle;

    /* every history starts from the free lists the previous ones left */
    for (a = 0; a < 3; a++) {
        for (b = 0; b < 6; b++) {
            for (c = 0; c < 6; c++) {
                for (d = 0; d < 6; d++) {
                    for (e = 0; e < LAST; e++) {
#ifdef SPLIT
                        if (b != SPLIT) { continue; }
#endif
                        nheld = 0;
                        step(a); step(b); step(c); step(d);
                        if (nheld < NH) { step(e); }
                        drain();
                    }
                }
            }
        }
    }
    VF_REACH("histories");
}

#else

static ngx_pool_t  pool0, pool1, pool2;
static ngx_pool_t *const pools[3] = { &pool0, &pool1, &pool2 };

static int
index_of(ngx_pool_t *p)
{
    return p == &pool0 ? 0 : p == &pool1 ? 1 : p == &pool2 ? 2 : -1;
}

static int         npool, destroyed[4];

ngx_pool_t *
ngx_create_pool(size_t size, ngx_log_t *log)
{
    int  i;

    if (size == 4096) { return &the_pool; }
    for (i = 0; i < 3; i++) {      /* like malloc, reuses addresses */
        if (destroyed[i]) { destroyed[i] = 0; return pools[i]; }
    }
    return NULL;
}

void
ngx_destroy_pool(ngx_pool_t *pool)
{
    int  i = index_of(pool);

    VF_ASSERT(i >= 0 && i < 3 && !destroyed[i], "only a live pool is destroyed");
    destroyed[i] = 1;
}

static int
ndestroyed(void)
{
    return destroyed[0] + destroyed[1] + destroyed[2];
}

static void
step(int op)
{
    ngx_pool_t  *p;
    int          n = ndestroyed(), i = op - 1, was;

    if (op == 0) {
        if (n == 0) { return; }
        p = ngx_create_pool_debug(512, &vf_log, "f", 1);
        VF_ASSERT(p != NULL && index_of(p) >= 0 && !destroyed[index_of(p)] && ndestroyed() == n - 1,
                  "create yields one new pool");
        return;
    }
    was = destroyed[i];
    ngx_destroy_pool_debug(pools[i], "f", 2);
    VF_ASSERT(destroyed[i] == 1 && ndestroyed() == n + !was,
              "destroy ends exactly the given pool, and only if it was live");
}

void
h_poold(void)
{
    int  a, b, c, d, e;

    the_cycle.log = &vf_log;
    ngx_cycle = &the_cycle;
    for (a = 0; a < 3; a++) { destroyed[a] = 1; }
    step(0);

    for (a = 0; a < 4; a++) {
        for (b = 0; b < 4; b++) {
            for (c = 0; c < 4; c++) {
                /* the state left by one history is where the next starts */
                step(a); step(b); step(c);
            }
        }
    }
    VF_REACH("pool histories");
}
#endif
