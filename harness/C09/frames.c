/*
 * Shared frames.  Contracts of alloc / acquire / free over an arbitrary state
 * of the pool of frames: any number of references, K recycled frames with
 * stale contents, source data in three pieces.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#define ngx_event_process_posted(c, q)
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c"
#ifdef VF_CBMC
#define VF_NO_PALLOC
#include "vf_ngx.h"
void *ngx_pcalloc(ngx_pool_t *pool, size_t size) { return __CPROVER_allocate(size, 1); }
void *ngx_palloc(ngx_pool_t *pool, size_t size) { return __CPROVER_allocate(size, 0); }
#else
#include "vf_ngx.h"
#endif

ngx_module_t  ngx_rtmp_core_module;
volatile ngx_msec_t  ngx_current_msec;
ngx_pool_t *ngx_create_pool(size_t size, ngx_log_t *log) { return NULL; }
void ngx_rtmp_finalize_session(ngx_rtmp_session_t *s) { }

#if KIND == 0
typedef ngx_rtmp_frame_t    frame_t;
#define ALLOC(cl, m)        ngx_rtmp_shared_alloc_frame(SIZE, cl, m)
#define APPEND(f, cl, m)    ngx_rtmp_shared_append_chain(f, SIZE, cl, m)
#define FREE(f)             ngx_rtmp_shared_free_frame(f)
#define ACQ(f)              ngx_rtmp_shared_acquire_frame(f)
#define POOL(r)             (r).free_frame
#else
typedef ngx_mpegts_frame_t  frame_t;
#define ALLOC(cl, m)        ngx_rtmp_shared_alloc_mpegts_frame(cl, m)
#define APPEND(f, cl, m)    ngx_mpegts_shared_append_chain(f, cl, m)
#define FREE(f)             ngx_rtmp_shared_free_mpegts_frame(f)
#define ACQ(f)              ngx_rtmp_shared_acquire_mpegts_frame(f)
#define POOL(r)             (r).free_mpegts_frame
#endif

typedef struct { ngx_chain_t cl; ngx_buf_t b; u_char mem[SIZE]; int live; } cb_t;
static int    outstanding, nput, asked;
ngx_chain_t *
ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc, char *f, int l)
{
    cb_t  *c = ngx_pcalloc(NULL, sizeof(cb_t));

#if KIND == 0
    VF_ASSERT(size == SIZE && alloc, "a buffer of the frame's buffer size");
#else
    VF_ASSERT(size == NGX_MPEGTS_BUF_SIZE && alloc, "a buffer of the frame's buffer size");
    size = SIZE;      /* scaled down: the code takes the capacity from the buffer */
#endif
    asked++;
    outstanding++;
    c->live = 1;
    c->cl.buf = &c->b;
    c->b.memory = 1;
    c->b.start = c->b.pos = c->b.last = c->mem;
    c->b.end = c->mem + size;
    return &c->cl;
}
void
ngx_put_chainbuf_debug(ngx_chain_t *cl, char *f, int l)
{
    cb_t  *c = (cb_t *) cl;

    VF_ASSERT(cl != NULL && c->live, "a buffer is returned once");
    c->live = 0;
    c->b.pos = c->b.last = NULL;
    c->cl.next = (ngx_chain_t *) &outstanding;      /* stale */
    outstanding--;
    nput++;
}

static ngx_rtmp_shared_conf_t  rscf;
static void     *confs[1];
static ngx_cycle_t  cyc;
static frame_t   pool_fr[3];
static u_char    data[LEN + 1];
static ngx_chain_t  src[3];
static ngx_buf_t    sb[3];

static void
setup(void)
{
    int  k, at[4];

    ngx_cycle = &cyc;
    cyc.conf_ctx = (void ****) confs;
    ngx_rtmp_shared_module.index = 0;
    confs[0] = &rscf;
    for (k = 0; k < NFREE; k++) {          /* recycled frames, stale contents */
#ifdef VF_CBMC
        { frame_t  stale; pool_fr[k] = stale; }
#else
        memset(&pool_fr[k], 0xa5, sizeof(frame_t));
#endif
        pool_fr[k].ref = 0;
        pool_fr[k].chain = NULL;
        pool_fr[k].next = k + 1 < NFREE ? &pool_fr[k + 1] : NULL;
    }
    POOL(rscf) = NFREE ? &pool_fr[0] : NULL;
    rscf.nfree_frame = NFREE;
    rscf.nalloc_frame = NFREE + 5;
    for (k = 0; k < LEN; k++) { data[k] = (u_char) vf_nd(); }
    at[0] = 0; at[1] = S1; at[2] = S2; at[3] = LEN;
    for (k = 0; k < 3; k++) {
        sb[k].pos = sb[k].start = data + at[k];
        sb[k].last = sb[k].end = data + at[k + 1];
        src[k].buf = &sb[k];
        src[k].next = k < 2 ? &src[k + 1] : NULL;
    }
}

static void
holds(frame_t *f, int from, int to)
{
    ngx_chain_t  *cl;
    long  n, k;

    for (cl = f->chain; cl; cl = cl->next) {
        VF_ASSERT(((cb_t *) cl)->live, "a live frame holds live buffers");
        n = cl->buf->last - cl->buf->pos;
        VF_ASSERT(cl->buf->pos == cl->buf->start && n >= 0 && n <= to - from, "a buffer of the data");
        VF_ASSERT(cl->next == NULL || cl->buf->last == cl->buf->end, "every buffer but the last is full");
        for (k = 0; k < n; k++) { VF_ASSERT(cl->buf->pos[k] == data[from + k], "the data is copied unchanged"); }
        from += n;
    }
    VF_ASSERT(from == to, "all data is copied");
}

void
h_frames(void)
{
    frame_t     *f, *g, *top;
    ngx_uint_t   ref, nf, na;
    ngx_chain_t *ch;
    int          n;

    setup();
    top = POOL(rscf);

#if PARTS == 2
    src[0].next = NULL;
    f = ALLOC(&src[0], 0);
    holds(f, 0, S1);
    APPEND(f, &src[1], 0);
#elif PARTS == 0
    f = ALLOC(NULL, 1);
    VF_ASSERT(f->chain != NULL && f->chain->buf->pos == f->chain->buf->last && f->chain->next == NULL,
              "a mandatory buffer is there even without data");
    APPEND(f, src, 0);
#else
    f = ALLOC(src, 0);
#endif
    VF_ASSERT(f != NULL && f->ref == 1 && f->next == NULL, "a frame starts with one reference, unlinked");
    VF_ASSERT(NFREE == 0 || f == top, "a recycled frame is used first");
    VF_ASSERT(NFREE != 0 || (f != &pool_fr[0] && f != &pool_fr[1]), "no frame in use is handed out");
    VF_ASSERT(POOL(rscf) == (NFREE > 1 ? &pool_fr[1] : NULL), "it leaves the pool, the others stay");
    VF_ASSERT(rscf.nfree_frame == (NFREE ? NFREE - 1 : 0) && rscf.nalloc_frame == NFREE + 5 + (NFREE ? 0 : 1), "frames are counted");
#if KIND == 1
    VF_ASSERT(f->pts == 0 && f->dts == 0 && f->pid == 0 && f->sid == 0 && f->cc == 0 && !f->key && f->type == 0
              && f->length == 0 && f->pos == 0, "a recycled frame starts blank");
#endif
    holds(f, 0, LEN);
#if PARTS == 1
    VF_ASSERT(asked == (LEN + SIZE - 1) / SIZE, "as many buffers as the data needs");
#endif
    VF_ASSERT(asked == outstanding && nput == 0, "no buffer is lost");

    ACQ(f);
    ACQ(f);
    FREE(f);
    VF_ASSERT(f->ref == 2, "acquiring adds a reference, releasing takes one back");
    FREE(f);
    VF_ASSERT(f->ref == 1 && nput == 0, "as long as it is referenced it is not recycled");
    holds(f, 0, LEN);

    /* another frame meanwhile */
    g = ALLOC(NULL, 1);
    VF_ASSERT(g != NULL && g != f && g->ref == 1, "a frame in use is not handed out again");
    VF_ASSERT(outstanding == asked, "no buffer is lost");
    holds(f, 0, LEN);

    /* the last reference goes */
    top = POOL(rscf); nf = rscf.nfree_frame; na = rscf.nalloc_frame;
    n = outstanding;
    FREE(f);
    VF_ASSERT(g->chain && ((cb_t *) g->chain)->live, "the buffers of others stay");
    VF_ASSERT(outstanding == 1 && nput == n - 1, "all buffers of the frame, and no others, are returned");
    VF_ASSERT(POOL(rscf) == f && f->next == top && f->chain == NULL && f->ref == 0, "the frame goes to the pool, blank");
    VF_ASSERT(rscf.nfree_frame == nf + 1 && rscf.nalloc_frame == na, "frames are counted");
    FREE((frame_t *) NULL);
    VF_ASSERT(POOL(rscf) == f, "freeing nothing does nothing");

    /* and is used again with other data */
    g = ALLOC(src, 0);
    VF_ASSERT(g == f && g->ref == 1 && g->next == NULL && POOL(rscf) == top, "the recycled frame is used again");
#if PARTS == 2
    holds(g, 0, S1);
#else
    holds(g, 0, LEN);
#endif

    /* with any number of references */
    ref = VF_ND_U32();
    VF_ASSUME(ref >= 1 && ref < 100000);
    g->ref = ref;
    ACQ(g);
    VF_ASSERT(g->ref == ref + 1, "acquiring adds a reference");
    top = POOL(rscf); nf = rscf.nfree_frame; na = rscf.nalloc_frame;
    ch = g->chain;
    n = nput;
    FREE(g);
    VF_ASSERT(g->ref == ref && g->chain == ch && nput == n, "releasing takes a reference back and nothing else");
    VF_ASSERT(POOL(rscf) == top && rscf.nfree_frame == nf && rscf.nalloc_frame == na, "as long as it is referenced it is not recycled");
    VF_REACH("done");
}
