/*
 * Outbound RTMP: messages queued by ngx_rtmp_send_message and written by the
 * connection's write handler, through merging and arbitrary partial writes.
 * What arrives is read back by an independent chunk-stream reader.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#define ngx_event_process_posted(c, q)
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c"
/* the error mark of send_chain, as an object no chain link can be (-1 as a
 * pointer does not fold in symbolic execution) */
#ifdef VF_CBMC
static ngx_chain_t  chain_error;
#undef NGX_CHAIN_ERROR
#define NGX_CHAIN_ERROR  (&chain_error)
#endif
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_handler.c"

#ifndef OUTQ
#define OUTQ   8
#endif
#define MAXB   96                       /* chain buffers */
#ifdef VF_CBMC
#define VF_NO_PALLOC
#include "vf_ngx.h"
void *ngx_pcalloc(ngx_pool_t *pool, size_t size) { return __CPROVER_allocate(size, 1); }
void *ngx_palloc(ngx_pool_t *pool, size_t size) { return __CPROVER_allocate(size, 0); }
#else
#include "vf_ngx.h"
#endif

ngx_module_t  ngx_rtmp_core_module;
ngx_rtmp_core_main_conf_t  *ngx_rtmp_core_main_conf;
ngx_rtmp_bandwidth_t  ngx_rtmp_bw_out, ngx_rtmp_bw_in;
ngx_uint_t    ngx_rtmp_max_module = 4;
ngx_uint_t    ngx_exiting;
sig_atomic_t  ngx_terminate;
volatile ngx_msec_t  ngx_current_msec;
ngx_queue_t   ngx_posted_events;
static int    finalized;
void ngx_rtmp_finalize_session(ngx_rtmp_session_t *s) { finalized++; }
void ngx_rtmp_update_bandwidth(ngx_rtmp_bandwidth_t *bw, uint32_t bytes) { }
void ngx_rtmp_monitor_frame(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in, ngx_flag_t av, ngx_flag_t o) { }
ngx_int_t ngx_handle_write_event(ngx_event_t *wev, size_t lowat) { return NGX_OK; }
void ngx_rbtree_insert(ngx_rbtree_t *tree, ngx_rbtree_node_t *node) { }
void ngx_rbtree_delete(ngx_rbtree_t *tree, ngx_rbtree_node_t *node) { }

/* chain buffers by contract (C17): fresh, exact size, put once */
typedef struct { ngx_chain_t cl; ngx_buf_t b; u_char mem[64]; int live; u_char *base; long len, done; } cb_t;
static int    ncb, outstanding;
ngx_chain_t *
ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc, char *f, int l)
{
    cb_t  *c = ngx_pcalloc(NULL, sizeof(cb_t));

    VF_ASSERT(size <= 64, "harness: buffer size");
    ncb++;
    outstanding++;
    c->live = 1;
    c->cl.buf = &c->b;
    c->b.memory = 1;
    if (alloc) {
        c->b.start = c->b.pos = c->b.last = c->mem;
        c->b.end = c->mem + size;
    }
    return &c->cl;
}
void
ngx_put_chainbuf_debug(ngx_chain_t *cl, char *f, int l)
{
    cb_t  *c = (cb_t *) cl;

    if (cl == NULL) { return; }
    VF_ASSERT(c->live, "a chain buffer is returned once");
    c->live = 0;
    c->b.pos = c->b.last = NULL;       /* reading it from now on fails */
    outstanding--;
}

static u_char  wire[400];
static int     nwire, per_call;

ngx_chain_t *
send_chain(ngx_connection_t *c, ngx_chain_t *in, off_t limit)
{
    int  room = per_call;
    ngx_chain_t  *cl;
    cb_t  *b;
    long  n, k;

    for (cl = in; cl; cl = cl->next) {
        b = (cb_t *) ((u_char *) cl->buf - offsetof(cb_t, b));
        if (b->base == NULL) {
            b->base = b->b.pos;
            b->len = b->b.last - b->b.pos;
        }
        VF_ASSERT(b->live && b->b.pos == b->base + b->done && b->b.last == b->base + b->len && b->len >= b->done,
                  "what is being sent has not been recycled or changed");
        n = b->len - b->done;
        if (n > room) { n = room; }
        for (k = 0; k < n; k++) { wire[nwire++] = b->base[b->done + k]; }
        b->done += n;
        b->b.pos = b->base + b->done;
        c->sent += n;
        room -= n;
        if (b->done != b->len) { return cl; }
    }
    return NULL;
}

struct sess { ngx_rtmp_session_t s; ngx_rtmp_frame_t *out[OUTQ]; };
static struct sess  S;
static ngx_rtmp_core_srv_conf_t  cscf;
static ngx_rtmp_core_app_conf_t  cacf;
static ngx_rtmp_core_main_conf_t  cmcf;
static ngx_rtmp_shared_conf_t  rscf;
static void  *srvs[2], *apps[2], *confs[2];
static ngx_connection_t  c;
static ngx_event_t  wev, rev;
static ngx_cycle_t  cyc;
static ngx_pool_t  pool;
static ngx_live_stream_t  *no_stream;

static u_char  pay[8][160];
static ngx_rtmp_frame_t  *fr[8];
static ngx_rtmp_header_t  hd[8];
static int  plen[8];

/* a source chain whose pieces are split at s1 and s2 */
static ngx_chain_t  src[3];
static ngx_buf_t    sb[3];
static ngx_chain_t *
source(int i, int len, int s1, int s2)
{
    int  at[4], k;

    at[0] = 0; at[1] = s1 < len ? s1 : len; at[2] = s2 < len ? s2 : len; at[3] = len;
    for (k = 0; k < 3; k++) {
        sb[k].pos = sb[k].start = pay[i] + at[k];
        sb[k].last = sb[k].end = pay[i] + at[k + 1];
        src[k].buf = &sb[k];
        src[k].next = k < 2 ? &src[k + 1] : NULL;
    }
    return src;
}

#ifndef APP
#define APP  -1
#endif
static void
message(int i, uint32_t csid, uint32_t ts, int len, int s1, int s2)
{
    int  k;

    plen[i] = len;
    for (k = 0; k < len; k++) { pay[i][k] = (u_char) vf_nd(); }
    source(i, len, s1, s2);
    if (APP >= 0) {                        /* built in two steps: APP pieces, then the rest */
        src[APP].next = NULL;
        fr[i] = ngx_rtmp_shared_alloc_frame(cscf.chunk_size, src, 0);
        ngx_rtmp_shared_append_chain(fr[i], cscf.chunk_size, &src[APP + 1], 0);
    } else {
        fr[i] = ngx_rtmp_shared_alloc_frame(cscf.chunk_size, src, 0);
    }
    VF_ASSERT(fr[i] != NULL && fr[i]->ref == 1, "a frame starts with one reference");
    hd[i].csid = csid;
    hd[i].timestamp = ts;
    hd[i].type = VF_ND_U8();
    hd[i].msid = VF_ND_U32();
    fr[i]->hdr = hd[i];
}

static int  rp;
/* reads message i back: chunk headers as in the RTMP specification, 5.3 */
static void
expect(int i, int play_time_fix)
{
    uint32_t  csid, ts, mlen;
    int  fmt, got, first = 1, n, ext = 0, k;

    got = 0;
    do {
        VF_ASSERT(rp < nwire, "a chunk header follows");
        fmt = wire[rp] >> 6;
        csid = wire[rp++] & 0x3f;
        if (csid == 0) { csid = 64 + wire[rp++]; }
        else if (csid == 1) { csid = 64 + wire[rp] + 256 * wire[rp + 1]; rp += 2; }
        VF_ASSERT(csid == hd[i].csid, "every chunk names the chunk stream of its message");
        VF_ASSERT(fmt == (first ? 0 : 3), "full header first, then type 3 chunks");
        if (first) {
            ts = wire[rp] << 16 | wire[rp + 1] << 8 | wire[rp + 2];
            mlen = wire[rp + 3] << 16 | wire[rp + 4] << 8 | wire[rp + 5];
            VF_ASSERT(mlen == (uint32_t) plen[i], "the header carries the message length");
            VF_ASSERT(wire[rp + 6] == hd[i].type, "the header carries the message type");
            VF_ASSERT((wire[rp + 7] | wire[rp + 8] << 8 | wire[rp + 9] << 16 | (uint32_t) wire[rp + 10] << 24) == hd[i].msid,
                      "the header carries the stream id, little endian");
            rp += 11;
            ext = ts == 0xffffff;
            VF_ASSERT(ext == (hd[i].timestamp >= 0xffffff), "the extended timestamp is announced when needed");
            VF_ASSERT(ext || ts == hd[i].timestamp, "the header carries the timestamp");
        }
        if (ext && (first || play_time_fix)) {
            ts = (uint32_t) wire[rp] << 24 | wire[rp + 1] << 16 | wire[rp + 2] << 8 | wire[rp + 3];
            VF_ASSERT(ts == hd[i].timestamp, "the extended timestamp follows, big endian");
            rp += 4;
        }
        first = 0;
        n = plen[i] - got < (int) cscf.chunk_size ? plen[i] - got : (int) cscf.chunk_size;
        for (k = 0; k < n; k++) {
            VF_ASSERT(wire[rp + k] == pay[i][got + k], "the payload arrives unchanged, in chunks of the announced size");
        }
        rp += n;
        got += n;
    } while (got < plen[i]);
    VF_ASSERT(rp <= nwire, "the message is complete");
}

static void
setup(int chunk, int merge, int fix, int q0)
{
    ngx_queue_init(&ngx_posted_events);
    ngx_cycle = &cyc;
    cyc.log = &vf_log;
    cyc.conf_ctx = (void ****) confs;
    ngx_rtmp_shared_module.index = 0;
    confs[0] = &rscf;
    rscf.pool = &pool;
    ngx_rtmp_core_main_conf = &cmcf;
    ngx_rtmp_core_module.ctx_index = 0;
    srvs[0] = &cscf;
    apps[0] = &cacf;
    S.s.srv_conf = srvs;
    S.s.app_conf = apps;
    S.s.log = &vf_log;
    S.s.pool = &pool;
    S.s.out_queue = OUTQ;
    S.s.connection = &c;
    c.data = &S.s;
    c.log = &vf_log;
    c.write = &wev;
    c.read = &rev;
    c.send_chain = send_chain;
    wev.data = &c;
    wev.log = &vf_log;
    rev.data = &c;
    cscf.chunk_size = chunk;
    cscf.max_streams = 70000;
    cscf.play_time_fix = fix;
    cacf.merge_frame = merge;
    S.s.out_pos = S.s.out_last = q0;
    c.pool = &pool;
}

static void
drain(int calls)
{
    int  k;

    for (k = 0; k < calls; k++) {
        wev.timer_set = 0;
        ngx_rtmp_send(&wev);
    }
}

void
h_wire(void)
{
    int  i, total;

    setup(CHUNK, MERGE, FIX, Q0);
    per_call = PERCALL;

#if SCN == 0
#define NMSG 1
    message(0, CSID, TS, LEN, S1, S2);
#elif SCN == 1                     /* several messages, merged or not */
#define NMSG 3
    message(0, 4, 0x123456, CHUNK + 1, 1, 2);
    message(1, 70, 0xffffff, CHUNK, CHUNK, CHUNK);
    message(2, 6, 7, 1, 0, 0);
#endif
    for (i = 0; i < NMSG; i++) {
        VF_ASSERT(ngx_rtmp_send_message(&S.s, fr[i], 0) == NGX_OK, "accepted");
        ngx_rtmp_shared_free_frame(fr[i]);        /* the producer lets go at once */
    }
    for (total = 0, i = 0; i < NMSG; i++) { total += plen[i]; }
    /* enough write events for everything: at least one byte goes each time */
    drain(PERCALL >= 1000 ? 2 : (total + NMSG * 18 + (total / CHUNK) * 7) / PERCALL + NMSG + 2);

    VF_ASSERT(finalized == 0, "the session lives on");
    VF_ASSERT(S.s.out_pos == S.s.out_last && S.s.out_chain == NULL, "everything queued has been sent");
    for (i = 0; i < NMSG; i++) { expect(i, FIX); }
    VF_ASSERT(rp == nwire, "nothing else is sent");
    VF_ASSERT(outstanding == 0, "all buffers of sent messages are returned");
    VF_REACH("sent");
}


/*
 * The send queue: what is accepted, what is refused, and what it does to the
 * queue, for every position of the queue and every priority.
 */
static ngx_rtmp_frame_t  F, *old;

void
h_queue(void)
{
    size_t      pos, last, fill, q = OUTQ, j;
    ngx_uint_t  prio, eff, cork, act, posted, obuf;
    ngx_int_t   rc, accept;
    uint32_t    ref;

    setup(8, 1, 0, 0);
    pos = VF_ND_U32(); VF_ASSUME(pos < OUTQ);
    last = VF_ND_U32(); VF_ASSUME(last < OUTQ);
    j = VF_ND_U32(); VF_ASSUME(j < OUTQ);
    prio = VF_ND_U32(); VF_ASSUME(prio < 64);
    cork = VF_ND_U32(); VF_ASSUME(cork <= OUTQ);
    act = VF_ND_U32() & 1; posted = VF_ND_U32() & 1; obuf = VF_ND_U32() & 1;
    ref = VF_ND_U32(); VF_ASSUME(ref >= 1 && ref < 1000000);
    F.ref = ref;
    S.s.out_pos = pos;
    S.s.out_last = last;
    S.s.out_cork = cork;
    S.s.out_buffer = obuf;
    wev.active = act;
    if (posted) { wev.posted = 1; ngx_queue_insert_tail(&ngx_posted_events, &wev.queue); }
    old = VF_ND_U32() & 1 ? &F : NULL;
    S.out[j] = old;                            /* any slot */

    rc = ngx_rtmp_send_message(&S.s, &F, prio);

    fill = last >= pos ? last - pos : last + q - pos;
    eff = prio > 3 ? 3 : prio;
    accept = fill + 1 + eff * q / 4 < q;
    VF_ASSERT(rc == (accept ? NGX_OK : NGX_AGAIN), "accepted exactly when the queue has room at its priority");
    VF_ASSERT(!accept || fill + 1 <= q - 1, "one slot always stays free");
    VF_ASSERT(S.s.out_pos == pos, "the head of the queue is not touched");
    VF_ASSERT(S.s.out_last == (accept ? (last + 1) % q : last), "an accepted message advances the tail by one, a refused one not");
    VF_ASSERT(F.ref == ref + (accept ? 1 : 0), "one reference for a queued message, none for a refused one");
    VF_ASSERT(!accept || S.s.out[last] == &F, "an accepted message goes last");
    VF_ASSERT((accept && j == last) || S.s.out[j] == old, "no other slot of the queue changes");
    VF_ASSERT(wev.posted == (posted || (accept && !act && !(eff && obuf && fill + 1 < cork))),
              "writing is scheduled unless it is under way or may be corked");
    VF_ASSERT(finalized == 0, "the session lives on");
    VF_REACH("refused or accepted");

    /* asking only for a flush queues nothing and always schedules writing */
    last = S.s.out_last;
    VF_ASSERT(ngx_rtmp_send_message(&S.s, NULL, prio) == NGX_OK && S.s.out_last == last && S.s.out_pos == pos,
              "a flush queues nothing");
    VF_ASSERT(act || wev.posted, "a flush schedules writing");
}

/*
 * Histories of queueing and writing: what arrives is what was accepted, in
 * that order, each once; every frame is released once.
 */
#ifndef OPS
#define OPS  "0w0w"
#define NACC 2
#endif
void
h_fifo(void)
{
    static const char  ops[] = OPS;
    int  i, n = 0, na = 0, k, acc[16];
    ngx_int_t  rc;

    setup(CHUNK, MERGE, 0, Q0);
    per_call = PERCALL;
    for (i = 0; ops[i]; i++) {
        if (ops[i] == 'w') {
            drain(1);
        } else {
            message(n, 3 + n, n, LEN, 0, 0);
            rc = ngx_rtmp_send_message(&S.s, fr[n], ops[i] - '0');
            VF_ASSERT(rc == NGX_OK || rc == NGX_AGAIN, "accepted or refused");
            VF_ASSERT(fr[n]->ref == (rc == NGX_OK ? 2 : 1), "a reference for a queued message only");
            if (rc == NGX_OK) { acc[na++] = n; }
            ngx_rtmp_shared_free_frame(fr[n]);
            n++;
        }
    }
    drain(PERCALL >= 1000 ? 2 : na * (12 + LEN) / PERCALL + na + 2);
    VF_ASSERT(finalized == 0, "the session lives on");
    for (k = 0; k < na; k++) { expect(acc[k], 0); }
    VF_ASSERT(rp == nwire, "nothing else is sent");
    VF_ASSERT(na == NACC, "as many accepted as the queue has room for");
    VF_ASSERT(outstanding == 0, "all buffers are returned");
    VF_ASSERT(rscf.nfree_frame == rscf.nalloc_frame, "all frames are returned");
    VF_REACH("done");
}
