/*
 * Control, command and aggregate messages of a peer: ngx_rtmp_receive.c on a
 * message cut into buffers.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#define ngx_event_process_posted(c, q)
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_receive.c"
#ifdef VF_SRC
#include VF_SRC
#else
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_amf.c"
#endif
#include "vf_ngx.h"

ngx_module_t  ngx_rtmp_core_module;
static ngx_rtmp_session_t  S, S0;
static ngx_rtmp_core_main_conf_t  cmcf;
static void  *mains[1];

static u_char  m[TOTAL + 1];
static ngx_chain_t  cl[NB + 1];
static ngx_buf_t    bf[NB + 1];
static int     cuts[] = { 0, CUTS, TOTAL };
#ifdef VF_CBMC
#define AFTER 40                 /* pos + n may be computed, what lies there is unknown */
#else
#define AFTER 1
#endif
static u_char  room[NB][ROOM + AFTER];

static void
chain(void)
{
    int  k, j;

    for (k = 0; k < NB; k++) {
        VF_ASSERT(cuts[k + 1] - cuts[k] <= ROOM, "harness: room");
        for (j = cuts[k]; j < cuts[k + 1]; j++) { room[k][j - cuts[k]] = m[j]; }
#ifdef VF_CBMC
        { u_char  any[AFTER]; for (j = 0; j < AFTER; j++) { room[k][cuts[k + 1] - cuts[k] + j] = any[j]; } }
#endif
        bf[k].start = bf[k].pos = room[k];
        bf[k].last = bf[k].end = room[k] + (cuts[k + 1] - cuts[k]);
        cl[k].buf = &bf[k];
        cl[k].next = k + 1 < NB ? &cl[k + 1] : NULL;
    }
}

/* what is done about a message */
static struct { int what; uint32_t a, b; } did[4];
static int  ndid;
enum { BEGIN = 1, EOS, DRY, BUFLEN, RECORDED, PONG, PINGED, CHUNK };
static ngx_int_t ret;
static ngx_int_t act(int what, uint32_t a, uint32_t b) { VF_ASSERT(ndid < 4, "acted upon once"); did[ndid].what = what; did[ndid].a = a; did[ndid++].b = b; return ret; }
static ngx_int_t on_begin(ngx_rtmp_session_t *s, ngx_rtmp_stream_begin_t *v) { return act(BEGIN, v->msid, 0); }
static ngx_int_t on_eof(ngx_rtmp_session_t *s, ngx_rtmp_stream_eof_t *v) { return act(EOS, v->msid, 0); }
static ngx_int_t on_dry(ngx_rtmp_session_t *s, ngx_rtmp_stream_dry_t *v) { return act(DRY, v->msid, 0); }
static ngx_int_t on_buflen(ngx_rtmp_session_t *s, ngx_rtmp_set_buflen_t *v) { VF_ASSERT(s->buflen == v->buflen, "the buffer length is kept"); return act(BUFLEN, v->msid, v->buflen); }
static ngx_int_t on_recorded(ngx_rtmp_session_t *s, ngx_rtmp_recorded_t *v) { return act(RECORDED, v->msid, 0); }
ngx_rtmp_stream_begin_pt  ngx_rtmp_stream_begin = on_begin;
ngx_rtmp_stream_eof_pt    ngx_rtmp_stream_eof = on_eof;
ngx_rtmp_stream_dry_pt    ngx_rtmp_stream_dry = on_dry;
ngx_rtmp_set_buflen_pt    ngx_rtmp_set_buflen = on_buflen;
ngx_rtmp_recorded_pt      ngx_rtmp_recorded = on_recorded;
ngx_int_t ngx_rtmp_send_ping_response(ngx_rtmp_session_t *s, uint32_t v) { return act(PONG, v, 0); }
void ngx_rtmp_reset_ping(ngx_rtmp_session_t *s) { act(PINGED, 0, 0); }
ngx_int_t ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size) { VF_ASSERT(size <= 0xffffffff, "size"); return act(CHUNK, size, 0); }
char *ngx_rtmp_user_message_type(uint16_t evt) { return "?"; }
char *ngx_rtmp_message_type(uint8_t t) { return "?"; }

static void
setup(void)
{
    int  k;

    mains[0] = &cmcf;
    ngx_rtmp_core_module.ctx_index = 0;
    S.main_conf = mains;
    S.log = &vf_log;
    for (k = 0; k < TOTAL; k++) { m[k] = (u_char) vf_nd(); }
}

#define BE32(i) ((uint32_t) m[i] << 24 | (uint32_t) m[(i) + 1] << 16 | (uint32_t) m[(i) + 2] << 8 | m[(i) + 3])

#if SCN == 0
void
h_receive(void)                  /* protocol and user control messages */
{
    static ngx_rtmp_header_t  h;
    ngx_int_t  rc;
    uint32_t   v = 0, ack, buflen;
    int        ok = 0;

    setup();
    chain();
    h.type = TYPE;
    h.mlen = TOTAL;
    ret = VF_ND_BOOL() ? NGX_OK : NGX_ERROR;
    S.ack_size = ack = VF_ND_U32();
    S.buflen = buflen = VF_ND_U32();
#if TYPE == 4
    rc = ngx_rtmp_user_message_handler(&S, &h, &cl[0]);
#else
    rc = ngx_rtmp_protocol_message_handler(&S, &h, &cl[0]);
#endif

#if TYPE == 1
    if (TOTAL < 4) { VF_ASSERT(rc == NGX_OK && ndid == 0, "too short a message is ignored"); }
    else {
        v = BE32(0);
        if (v == 0) { VF_ASSERT(rc == NGX_ERROR && ndid == 0, "no chunk size of nothing"); }
        else {
            VF_ASSERT(ndid == 1 && did[0].what == CHUNK, "the chunk size is set once");
            VF_ASSERT(v <= 0xffffff ? did[0].a == v : (did[0].a >= 0xffffff && did[0].a <= v), "to the size the peer tells, or the longest message");
            VF_ASSERT(rc == ret, "failing to is reported");
        }
    }
    VF_ASSERT(S.ack_size == ack && S.buflen == buflen, "nothing else changes");
#elif TYPE == 5
    VF_ASSERT(rc == NGX_OK && ndid == 0 && S.buflen == buflen, "nothing else happens");
    VF_ASSERT(S.ack_size == (TOTAL < 4 ? ack : BE32(0)), "the window the peer tells");
#elif TYPE == 4
    if (TOTAL < 6) { VF_ASSERT(rc == NGX_OK && ndid == 0 && S.buflen == buflen, "too short a message is ignored"); }
    else {
        static int  events[] = { BEGIN, EOS, DRY, BUFLEN, RECORDED, 0, PONG, PINGED };
        int  evt = m[0] << 8 | m[1], what = evt < 8 ? events[evt] : 0;

        v = BE32(2);
        if (what == BUFLEN && TOTAL < 10) { what = 0; }
        VF_ASSERT(ndid == (what != 0), "acted upon once, if it is known and complete");
        if (what) {
            VF_ASSERT(did[0].what == what, "the action of the event");
            VF_ASSERT(what == PINGED || did[0].a == v, "with its value");
            VF_ASSERT(what != BUFLEN || did[0].b == BE32(6), "with its second value");
            VF_ASSERT(rc == (what == PINGED ? NGX_OK : ret), "failing to is reported");
        } else { VF_ASSERT(rc == NGX_OK, "other events are ignored"); }
        VF_ASSERT(S.buflen == (what == BUFLEN ? BE32(6) : buflen), "the buffer length changes only when told");
    }
    VF_ASSERT(S.ack_size == ack, "nothing else changes");
#else
    VF_ASSERT(rc == NGX_OK && ndid == 0 && S.ack_size == ack && S.buflen == buflen, "these are ignored");
#endif
    VF_REACH("done");
}

#elif SCN == 1                   /* commands are given to the handlers of their name */
static u_char  asked[130];
static int     nasked, calls[4], ncalls, rets[3];
static ngx_array_t  ch;
ngx_uint_t
ngx_hash_strlow(u_char *dst, u_char *src, size_t n)
{
    ngx_uint_t  key = 0;
    while (n--) { *dst = ngx_tolower(*src); key = ngx_hash(key, *dst); dst++; src++; }
    return key;
}
void *
ngx_hash_find(ngx_hash_t *hash, ngx_uint_t key, u_char *name, size_t len)
{
    int  k;
    ngx_uint_t  want = 0;

    VF_ASSERT(hash == &cmcf.amf_hash && len < 130, "the table of commands");
    for (k = 0; k < (int) len; k++) { asked[k] = name[k]; want = ngx_hash(want, name[k]); }
    VF_ASSERT(key == want, "the hash of the name");
    nasked = len;
    return NH < 0 ? NULL : &ch;
}
static void
handler(int i, ngx_chain_t *in)
{
    int  at = BODY, k;

    VF_ASSERT(ncalls < 4, "each handler is called once");
    calls[ncalls++] = i;
    for (; in; in = in->next) {
        for (k = 0; k < in->buf->last - in->buf->pos; k++) { VF_ASSERT(at < TOTAL && in->buf->pos[k] == m[at], "handlers get what follows the name"); at++; }
    }
    VF_ASSERT(at == TOTAL, "all of it");
}
static ngx_int_t h0(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in) { handler(0, in); return rets[0]; }
static ngx_int_t h1(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in) { handler(1, in); return rets[1]; }
static ngx_int_t h2(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in) { handler(2, in); return rets[2]; }
static ngx_rtmp_handler_pt  hs[3] = { h0, h1, h2 };

void
h_receive(void)
{
    static ngx_rtmp_header_t  h;
    ngx_int_t  rc, want = NGX_OK;
    int   k, at = 0, n;

    setup();
#if TYPE == 15 || TYPE == 16 || TYPE == 17
    at++;                        /* AMF3 messages start with another byte */
#endif
#if TYPE != 16 && TYPE != 19
    m[at++] = 2;
#endif
    m[at++] = LEN >> 8;
    m[at++] = LEN & 255;
    for (k = 0; k < LEN; k++) { m[at + k] = "abCdEfGhIjKlMnOp"[k % 16]; }
    VF_ASSERT(at + LEN == BODY, "harness: body");
    chain();
    ch.elts = hs;
    ch.nelts = NH < 0 ? 0 : NH;
    for (k = 0; k < 3; k++) { rets[k] = (RETS >> (4 * k)) & 15; rets[k] = -rets[k]; }
    h.type = TYPE;
    h.mlen = TOTAL;
#if TWICE                        /* whatever kind of message was there before */
    { static ngx_rtmp_header_t  h2; ngx_chain_t  c2; ngx_buf_t b2; static u_char d[8] = { 2, 0, 1, 'x', 0, 1, 'y', 0 };
      h2.type = TYPE == 19 ? 20 : 19; b2.pos = d + (TYPE == 19 ? 0 : 4); b2.last = d + 8; c2.buf = &b2; c2.next = NULL;
      ch.nelts = 0; ngx_rtmp_amf_message_handler(&S, &h2, &c2); ch.nelts = NH < 0 ? 0 : NH; }
#endif
    rc = ngx_rtmp_amf_message_handler(&S, &h, &cl[0]);
    n = LEN < 127 ? LEN : 127;
    VF_ASSERT(nasked == n, "the name of the command");
    for (k = 0; k < n; k++) { VF_ASSERT(asked[k] == "abcdefghijklmnop"[k % 16], "in lower case"); }
    for (k = 0; k < NH; k++) {
        VF_ASSERT(k < ncalls && calls[k] == k, "handlers are called in order");
        if (rets[k] == NGX_ERROR) { want = NGX_ERROR; k++; break; }
        if (rets[k] == NGX_DONE) { k++; break; }
    }
    VF_ASSERT(ncalls == (k > 0 ? k : 0), "until one has done with it or fails");
    VF_ASSERT(rc == want, "the outcome");
    VF_REACH("done");
}

#elif SCN == 2                   /* aggregates */
static int  types[] = { TYPES }, lens[] = { LENS };
#define NS ((int) (sizeof(lens) / sizeof(lens[0])))
static int  at[NS + 1], ngot;
static ngx_rtmp_header_t  h;
ngx_int_t
ngx_rtmp_receive_message(ngx_rtmp_session_t *s, ngx_rtmp_header_t *x, ngx_chain_t *in)
{
    int  i = ngot++, k, n = 0, b;
    ngx_chain_t  *first = in;

    VF_ASSERT(i < NS && at[i] + 11 + lens[i] < CUT, "only what is there");
    b = at[i];
    VF_ASSERT(x->type == types[i] && x->mlen == (uint32_t) lens[i], "type and length of the inner message");
    VF_ASSERT(x->msid == ((uint32_t) m[b + 8] << 16 | m[b + 9] << 8 | m[b + 10]), "its stream id");
    VF_ASSERT(x->csid == h.csid, "the chunk stream of the aggregate");
#define TS(b) ((uint32_t) m[(b) + 7] << 24 | (uint32_t) m[(b) + 4] << 16 | m[(b) + 5] << 8 | m[(b) + 6])
    VF_ASSERT(x->timestamp == h.timestamp + (TS(b) - TS(0)), "its timestamp counts from the aggregate's");
    for (; in; in = in->next) {
        for (k = 0; k < in->buf->last - in->buf->pos; k++) { VF_ASSERT(n < lens[i] && in->buf->pos[k] == m[b + 11 + n], "its data"); n++; }
    }
    VF_ASSERT(n == lens[i], "all of its data");
    if (EATS && first->buf->pos < first->buf->last) { first->buf->pos++; }
    return ngot == FAILS ? NGX_ERROR : NGX_OK;
}

void
h_receive(void)
{
    ngx_int_t  rc;
    int  k, n = 0, want = 0, bad = 0;

    setup();
    h.timestamp = VF_ND_U32();
    h.csid = VF_ND_U8();
    h.type = 22;
    h.mlen = TOTAL;
    for (k = 0; k < NS; k++) {
        at[k] = n;
        if (n < TOTAL) { m[n] = types[k]; }
        if (n + 3 < TOTAL) { m[n + 1] = 0; m[n + 2] = lens[k] >> 8; m[n + 3] = lens[k]; }
        n += 15 + lens[k];
    }
    chain();
    for (k = 0; k < NS && !bad; k++) {
        if (types[k] == 22 || types[k] == 1) { bad = 1; break; }
        if (at[k] + 11 + lens[k] < CUT) { want++; }
        if (want == FAILS) { break; }
    }
    rc = ngx_rtmp_aggregate_message_handler(&S, &h, &cl[0]);
    VF_ASSERT(ngot == want, "every inner message is handled, none after a failure");
    if (bad || (FAILS && want == FAILS)) { VF_ASSERT(rc != NGX_OK, "failures are reported"); }
    else if (CUT == n) { VF_ASSERT(rc == NGX_OK, "a complete aggregate is fine"); }
    for (k = 0; k < NB; k++) {
        VF_ASSERT(cl[k].next == (k + 1 < NB ? &cl[k + 1] : NULL) && cl[k].buf == &bf[k], "the buffers are linked as before");
        VF_ASSERT(bf[k].last == room[k] + (cuts[k + 1] - cuts[k]) && bf[k].pos >= room[k] && bf[k].pos <= bf[k].last, "and hold what they held");
    }
    VF_REACH("done");
}
#endif
