/*
 * Inbound RTMP: the bytes of a peer, in any fragmentation, through the
 * connection's read handler; what the message handlers see against what an
 * independent chunk writer put on the wire.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#define ngx_event_process_posted(c, q)
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_handler.c"

#ifdef VF_CBMC
#define VF_NO_PALLOC
#endif
#include "vf_ngx.h"

/* pools: what was allocated from a destroyed pool is overwritten */
#define NPOOL 4
static ngx_pool_t  pools[NPOOL];
static int         npools, pool_live[NPOOL];
static struct { u_char *p; size_t n; ngx_pool_t *pool; } mem[80];
static int         nmem;
static void *
from_pool(ngx_pool_t *pool, void *p, size_t size)
{
    VF_ASSERT(pool >= &pools[0] && pool < &pools[NPOOL] && pool_live[pool - pools], "memory comes from a live pool");
    VF_ASSERT(nmem < 80, "harness: allocations");
    mem[nmem].p = p;
    mem[nmem].n = size;
    mem[nmem++].pool = pool;
    return p;
}
#ifdef VF_CBMC
void *ngx_palloc(ngx_pool_t *pool, size_t size)  { return from_pool(pool, __CPROVER_allocate(size, 0), size); }
void *ngx_pcalloc(ngx_pool_t *pool, size_t size) { return __CPROVER_allocate(size, 1); }
#else
#define ngx_palloc(pool, size)  from_pool(pool, ngx_palloc(pool, size), size)
#endif
ngx_pool_t *
ngx_create_pool_debug(size_t size, ngx_log_t *log, char *f, int l)
{
    VF_ASSERT(npools < NPOOL, "harness: pools");
    pool_live[npools] = 1;
    return &pools[npools++];
}
void
ngx_destroy_pool_debug(ngx_pool_t *pool, char *f, int l)
{
    int  k;
    size_t  j;

    VF_ASSERT(pool >= &pools[0] && pool < &pools[NPOOL] && pool_live[pool - pools], "a pool is destroyed once");
    pool_live[pool - pools] = 0;
    for (k = 0; k < nmem; k++) {
        if (mem[k].pool == pool) {
            for (j = 0; j < mem[k].n; j++) { mem[k].p[j] = 0xee; }
        }
    }
}

ngx_module_t  ngx_rtmp_core_module;
ngx_rtmp_core_main_conf_t  *ngx_rtmp_core_main_conf;
ngx_uint_t    ngx_rtmp_max_module = 4;
ngx_uint_t    ngx_exiting;
sig_atomic_t  ngx_terminate;
volatile ngx_msec_t  ngx_current_msec;
ngx_queue_t   ngx_posted_events;
static int    finalized;
void ngx_rtmp_finalize_session(ngx_rtmp_session_t *s) { finalized++; }
static uint32_t  counted;
void ngx_rtmp_update_bandwidth(ngx_rtmp_bandwidth_t *bw, uint32_t bytes) { counted += bytes; }
void ngx_rtmp_monitor_frame(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in, ngx_flag_t av, ngx_flag_t o) { }
ngx_int_t ngx_handle_write_event(ngx_event_t *wev, size_t lowat) { return NGX_OK; }
ngx_int_t ngx_handle_read_event(ngx_event_t *rev, ngx_uint_t flags) { return NGX_OK; }
void ngx_rbtree_insert(ngx_rbtree_t *tree, ngx_rbtree_node_t *node) { }
void ngx_rbtree_delete(ngx_rbtree_t *tree, ngx_rbtree_node_t *node) { }
ngx_int_t ngx_rtmp_prepare_merge_frame(ngx_rtmp_session_t *s) { return NGX_OK; }
static uint32_t  acks[32];
static int       nack;
ngx_int_t ngx_rtmp_send_ack(ngx_rtmp_session_t *s, uint32_t seq) { VF_ASSERT(nack < 32, "harness: acks"); acks[nack++] = seq; return NGX_OK; }
ngx_int_t ngx_rtmp_send_ping_request(ngx_rtmp_session_t *s, uint32_t ts) { return NGX_OK; }
void ngx_put_chainbuf_debug(ngx_chain_t *cl, char *f, int l) { }
ngx_chain_t *ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc, char *f, int l) { return NULL; }

#ifndef MAXS
#define MAXS 8
#endif
static ngx_rtmp_stream_t  streams[MAXS];
static ngx_rtmp_session_t  S;
static ngx_rtmp_core_srv_conf_t  cscf;
static ngx_rtmp_core_main_conf_t  cmcf;
static void  *srvs[2], *mains[2];
static ngx_connection_t  c;
static ngx_event_t  wev, rev;
static ngx_cycle_t  cyc;

/* ---- the peer: an independent chunk writer (RTMP specification, 5.3) ---- */
static u_char  wire[400];
static int     nwire, rpos, frag;
static void
emit(int fmt, uint32_t csid, uint32_t t, int ext_again, uint32_t mlen, int type, uint32_t msid, u_char *pay, int n)
{
    int  ext = fmt <= 2 ? t >= 0xffffff : ext_again, k;
    uint32_t  t24 = t >= 0xffffff ? 0xffffff : t;

    if (csid < 64) {
        wire[nwire++] = fmt << 6 | csid;
    } else if (csid < 320) {
        wire[nwire++] = fmt << 6;
        wire[nwire++] = csid - 64;
    } else {
        wire[nwire++] = fmt << 6 | 1;
        wire[nwire++] = (csid - 64) & 0xff;
        wire[nwire++] = (csid - 64) >> 8;
    }
    if (fmt <= 2) { wire[nwire++] = t24 >> 16; wire[nwire++] = t24 >> 8; wire[nwire++] = t24; }
    if (fmt <= 1) { wire[nwire++] = mlen >> 16; wire[nwire++] = mlen >> 8; wire[nwire++] = mlen; wire[nwire++] = type; }
    if (fmt == 0) { wire[nwire++] = msid; wire[nwire++] = msid >> 8; wire[nwire++] = msid >> 16; wire[nwire++] = msid >> 24; }
    if (ext) { wire[nwire++] = t >> 24; wire[nwire++] = t >> 16; wire[nwire++] = t >> 8; wire[nwire++] = t; }
    for (k = 0; k < n; k++) { wire[nwire++] = pay[k]; }
}

static ssize_t
recv_bytes(ngx_connection_t *cn, u_char *buf, size_t size)
{
    int  n = nwire - rpos, k;

    if (n == 0) { return NGX_AGAIN; }
    VF_ASSERT(size > 0, "there is always room to read into");
    if (n > frag) { n = frag; }
    if ((size_t) n > size) { n = size; }
    for (k = 0; k < n; k++) { buf[k] = wire[rpos + k]; }
    rpos += n;
    return n;
}

/* ---- what the handlers see ---- */
static struct { uint32_t csid, ts, mlen, msid; int type; u_char d[64]; int n; } got[8];
static int  ngot, newsize;
static ngx_int_t
handler(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    int  n = 0, k, m;

    VF_ASSERT(ngot < 8, "no more messages than were sent");
    got[ngot].csid = h->csid;
    got[ngot].ts = h->timestamp;
    got[ngot].mlen = h->mlen;
    got[ngot].type = h->type;
    got[ngot].msid = h->msid;
    for (; in; in = in->next) {
        m = in->buf->last - in->buf->pos;
        VF_ASSERT(m >= 0 && n + m <= 64, "no more data than was sent");
        for (k = 0; k < m; k++) { got[ngot].d[n + k] = in->buf->pos[k]; }
        n += m;
    }
    got[ngot++].n = n;
    if (h->type == 1 && newsize) {
        VF_ASSERT(ngx_rtmp_set_chunk_size(s, newsize) == NGX_OK, "chunk size accepted");
    }
    return NGX_OK;
}
static ngx_rtmp_handler_pt  hs[1] = { handler };

static u_char  pay[6][64];
static int     seen;
static void
saw(uint32_t csid, uint32_t ts, int mlen, int type, uint32_t msid, u_char *d)
{
    int  k, i = seen++;

    VF_ASSERT(i < ngot, "every message is handled");
    VF_ASSERT(got[i].csid == csid && got[i].type == type && got[i].msid == msid, "with its chunk stream, type and message stream");
    VF_ASSERT(got[i].ts == ts, "with its timestamp");
    VF_ASSERT(got[i].mlen == (uint32_t) mlen && got[i].n == mlen, "with its length");
    for (k = 0; k < mlen; k++) { VF_ASSERT(got[i].d[k] == d[k], "with its data"); }
}

#ifndef FIX
#define FIX 0
#endif
#ifndef MAXM
#define MAXM 1000
#endif
static void
setup(int chunk)
{
    int  k, j;

    ngx_queue_init(&ngx_posted_events);
    ngx_cycle = &cyc;
    cyc.log = &vf_log;
    ngx_rtmp_core_main_conf = &cmcf;
    ngx_rtmp_core_module.ctx_index = 0;
    srvs[0] = &cscf;
    mains[0] = &cmcf;
    cscf.max_streams = MAXS;
    cscf.max_message = MAXM;
    cscf.publish_time_fix = FIX;
    for (k = 0; k <= NGX_RTMP_MSG_MAX; k++) { cmcf.events[k].elts = hs; cmcf.events[k].nelts = 1; }
    S.srv_conf = srvs;
    S.main_conf = mains;
    S.log = &vf_log;
    S.connection = &c;
    S.in_streams = streams;
    S.in_chunk_size = 128;
    c.data = &S;
    c.log = &vf_log;
    c.read = &rev;
    c.write = &wev;
    c.recv = recv_bytes;
    rev.data = &c;
    rev.log = wev.log = &vf_log;
    wev.data = &c;
    VF_ASSERT(ngx_rtmp_set_chunk_size(&S, chunk) == NGX_OK, "initial chunk size");
    for (k = 0; k < 6; k++) { for (j = 0; j < 64; j++) { pay[k][j] = (u_char) vf_nd(); } }
}

#ifndef CHUNK
#define CHUNK 8
#endif
static void
drain(void)
{
    ngx_rtmp_recv(&rev);
    VF_ASSERT(finalized || rpos == nwire, "everything that arrived is read");
}

void
h_recv(void)
{
    setup(CHUNK);
    frag = FRAG;

#if SCN == 0                       /* one message, every header form */
    int  n, k;
    uint32_t  msid = VF_ND_U32();
    n = LEN < CHUNK ? LEN : CHUNK;
    emit(0, CSID, TS, 0, LEN, 9, msid, pay[0], n);
    for (; n < LEN; n += k) {
        k = LEN - n < CHUNK ? LEN - n : CHUNK;
        emit(3, CSID, TS, REPEAT && TS >= 0xffffff, 0, 0, 0, pay[0] + n, k);
    }
    drain();
    VF_ASSERT(finalized == 0, "the session lives on");
    saw(CSID, TS, LEN, 9, msid, pay[0]);

#elif SCN == 1                     /* two interleaved messages, then delta headers */
    emit(0, 4, 1000, 0, 2 * CHUNK + 1, 8, 1, pay[0], CHUNK);
    emit(0, 6, 5, 0, CHUNK + 1, 9, 0x01020304, pay[1], CHUNK);
    emit(3, 4, 0, 0, 0, 0, 0, pay[0] + CHUNK, CHUNK);
    emit(0, 2, 0, 0, 4, 3, 0, pay[2], 4);
    emit(3, 6, 0, 0, 0, 0, 0, pay[1] + CHUNK, 1);
    emit(3, 4, 0, 0, 0, 0, 0, pay[0] + 2 * CHUNK, 1);
    emit(1, 4, 20, 0, 3, 20, 0, pay[3], 3);
    emit(2, 4, 7, 0, 0, 0, 0, pay[4], 3);
    emit(3, 4, 0, 0, 0, 0, 0, pay[5], 3);
    drain();
    VF_ASSERT(finalized == 0, "the session lives on");
    saw(2, 0, 4, 3, 0, pay[2]);
    saw(6, 5, CHUNK + 1, 9, 0x01020304, pay[1]);
    saw(4, 1000, 2 * CHUNK + 1, 8, 1, pay[0]);
    saw(4, 1020, 3, 20, 1, pay[3]);
    saw(4, 1027, 3, 20, 1, pay[4]);
    saw(4, 1034, 3, 20, 1, pay[5]);

#elif SCN == 2                     /* the peer changes its chunk size in mid message */
    newsize = NEW;
    {
        int  n = CHUNK, k;
        emit(0, 4, 1000, 0, LEN, 8, 1, pay[0], CHUNK);
        if (SEC) { emit(3, 4, 0, 0, 0, 0, 0, pay[0] + n, CHUNK); n += CHUNK; }
        emit(0, 2, 0, 0, 4, 1, 0, pay[2], 4);
        for (; n < LEN; n += k) {
            k = LEN - n < NEW ? LEN - n : NEW;
            emit(3, 4, 0, 0, 0, 0, 0, pay[0] + n, k);
        }
        for (n = 0; n < LEN2; n += k) {
            k = LEN2 - n < NEW ? LEN2 - n : NEW;
            emit(n ? 3 : 0, 5, 9, 0, LEN2, 9, 7, pay[1] + n, k);
        }
    }
    drain();
    VF_ASSERT(finalized == 0, "the session lives on");
    saw(2, 0, 4, 1, 0, pay[2]);
    saw(4, 1000, LEN, 8, 1, pay[0]);
    saw(5, 9, LEN2, 9, 7, pay[1]);
    VF_ASSERT(S.in_old_pool == NULL && !S.in_chunk_size_changing, "the change is complete");
    VF_ASSERT(!pool_live[0] && pool_live[1] && npools == 2, "the pool of the old buffers is gone, the new one in use");

#elif SCN == 3                     /* the peer breaks the rules */
    emit(0, 4, 1000, 0, CHUNK, 8, 1, pay[0], CHUNK);
#if BAD == 0                       /* chunk stream beyond the limit */
    emit(0, MAXS, 0, 0, 2, 8, 1, pay[1], 2);
#elif BAD == 1                     /* message beyond the limit */
    emit(0, 5, 0, 0, MAXM + 1, 8, 1, pay[1], 2);
#elif BAD == 2                     /* a message announced shorter than what has arrived of it */
    emit(0, 5, 0, 0, 2 * CHUNK, 8, 1, pay[1], CHUNK);
    emit(BADFMT, 5, 0, 0, CHUNK - 1, 8, 1, pay[1], CHUNK);
    emit(3, 5, 0, 0, 0, 0, 0, pay[1], CHUNK);
    emit(3, 5, 0, 0, 0, 0, 0, pay[1], CHUNK);
#elif BAD == 3
    emit(0, 64 + 255, 0, 0, 2, 8, 1, pay[1], 2);
#elif BAD == 4
    emit(0, 65599, 0, 0, 2, 8, 1, pay[1], 2);
#endif
    ngx_rtmp_recv(&rev);
    VF_ASSERT(finalized == 1, "the session is ended");
    saw(4, 1000, CHUNK, 8, 1, pay[0]);

#elif SCN == 4                     /* limits that are just kept */
    emit(0, MAXS - 1, 1, 0, MAXM, 8, 1, pay[0], MAXM);
    emit(2, MAXS - 1, 0xfffffe, 0, 0, 0, 0, pay[1], MAXM);
    emit(2, MAXS - 1, 0xff0000ff, 0, 0, 0, 0, pay[2], MAXM);
    drain();
    VF_ASSERT(finalized == 0, "the session lives on");
    saw(MAXS - 1, 1, MAXM, 8, 1, pay[0]);
    saw(MAXS - 1, 0xffffff, MAXM, 8, 1, pay[1]);
    saw(MAXS - 1, 0xff0000ffU + 0xffffffU, MAXM, 8, 1, pay[2]);
#elif SCN == 5                     /* acknowledgements */
    int  i;
    S.ack_size = ACK;
    for (i = 0; i < 4; i++) { emit(0, 4, i, 0, CHUNK, 8, 1, pay[i], CHUNK); }
    drain();
    VF_ASSERT(S.in_bytes == (uint32_t) nwire && counted == (uint32_t) nwire, "bytes received are counted once");
    VF_ASSERT(nack > 0 || nwire < ACK, "an acknowledgement is sent when the window is full");
    for (i = 0; i < nack; i++) {
        VF_ASSERT(acks[i] - (i ? acks[i - 1] : 0) >= ACK, "no acknowledgement before the window is full");
        VF_ASSERT(acks[i] - (i ? acks[i - 1] : 0) < ACK + FRAG, "none is late");
    }
    VF_ASSERT((uint32_t) nwire - (nack ? acks[nack - 1] : 0) < ACK, "nothing stays unacknowledged for long");
    for (i = 0; i < 4; i++) { saw(4, i, CHUNK, 8, 1, pay[i]); }
#endif
    VF_ASSERT(seen == ngot, "nothing else is handled");
    VF_REACH("done");
}
