/*
 * Outgoing control, status and data messages: ngx_rtmp_send.c with the real
 * AMF encoder, every argument symbolic, against an independent writer.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#define ngx_event_process_posted(c, q)
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_send.c"
#ifdef VF_SRC
#include VF_SRC
#else
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_amf.c"
#endif
#include "vf_ngx.h"

ngx_module_t  ngx_rtmp_core_module;
static ngx_rtmp_session_t  S;
static ngx_rtmp_core_srv_conf_t  cscf;
static void  *srvs[1];

#define NBUF (200 / CAP + 3)
static struct { u_char d[CAP]; } mem[NBUF];
static ngx_chain_t  cl[NBUF];
static ngx_buf_t    bf[NBUF];
static int  nbuf, held;
ngx_chain_t *
ngx_get_chainbuf_debug(size_t size, ngx_flag_t alloc, char *f, int l)
{
    VF_ASSERT(size == CAP && alloc && nbuf < NBUF, "a buffer of the chunk size");
    bf[nbuf].start = bf[nbuf].pos = bf[nbuf].last = mem[nbuf].d;
    bf[nbuf].end = mem[nbuf].d + CAP;
    cl[nbuf].buf = &bf[nbuf];
    cl[nbuf].next = NULL;
    held++;
    return &cl[nbuf++];
}
static ngx_rtmp_frame_t  F;
static int  nframe, nfreed, nsent;
ngx_rtmp_frame_t *
ngx_rtmp_shared_alloc_frame(size_t size, ngx_chain_t *c, ngx_flag_t mandatory)
{
    VF_ASSERT(size == CAP && c == NULL && nframe == 0, "one frame");
    nframe++;
    F.ref = 1;
    F.mandatory = mandatory;
    F.chain = ngx_get_chainbuf_debug(size, 1, "", 0);
    return &F;
}
void
ngx_rtmp_shared_free_frame(ngx_rtmp_frame_t *f)
{
    ngx_chain_t  *l;

    VF_ASSERT(f == &F && nfreed == 0, "the frame is released once");
    nfreed++;
    for (l = f->chain; l; l = l->next) { held--; }
}

/* what must come out */
static u_char  w[200];
static int     nw;
static void  b(int v) { w[nw++] = v; }
static void  be32(uint32_t v) { b(v >> 24); b(v >> 16); b(v >> 8); b(v); }
static void  str(char *p) { int n = 0; while (p[n]) { n++; } b(n >> 8); b(n); for (n = 0; p[n]; n++) { b(p[n]); } }
static void  key(char *k, char *v) { str(k); b(2); str(v); }
static void  dbl(double d) { u_char *p = (u_char *) &d; int k = 8; while (k) { w[nw++] = p[--k]; } }

static int        type, csid, msid;
static uint32_t   ts;
static ngx_int_t  rc_send;
ngx_int_t
ngx_rtmp_send_message(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *out, ngx_uint_t priority)
{
    ngx_chain_t  *l;
    int  at = 0, k;

    VF_ASSERT(s == &S && out == &F && nsent == 0 && nfreed == 0 && priority == 0, "sent once, before it is released, with the highest priority");
    nsent++;
    VF_ASSERT(out->hdr.type == type, "the message type");
    VF_ASSERT(out->hdr.csid == (uint32_t) csid && out->hdr.msid == (uint32_t) msid && out->hdr.timestamp == ts, "chunk stream, stream id and time");
    for (l = out->chain; l; l = l->next) {
        for (k = 0; k < l->buf->last - l->buf->pos; k++) { VF_ASSERT(at < nw && l->buf->pos[k] == w[at], "the bytes of the message"); at++; }
        VF_ASSERT(l->buf->last <= l->buf->end, "no buffer is overfull");
    }
    VF_ASSERT(at == nw, "complete");
    return rc_send;
}

void
h_send(void)
{
    uint32_t   v = VF_ND_U32(), x = VF_ND_U32();
    u_char     lim = VF_ND_U8();
    ngx_int_t  rc = NGX_OK;

    srvs[0] = &cscf;
    ngx_rtmp_core_module.ctx_index = 0;
    cscf.chunk_size = CAP;
    S.srv_conf = srvs;
    S.log = &vf_log;
    rc_send = VF_ND_U8();
    rc_send = rc_send == 1 ? NGX_AGAIN : rc_send == 2 ? NGX_ERROR : NGX_OK;
    csid = 2;

#if MSG == 1
    type = 1; be32(v); rc = ngx_rtmp_send_chunk_size(&S, v);
#elif MSG == 2
    type = 2; be32(v); rc = ngx_rtmp_send_abort(&S, v);
#elif MSG == 3
    type = 3; be32(v); rc = ngx_rtmp_send_ack(&S, v);
#elif MSG == 5
    type = 5; be32(v); rc = ngx_rtmp_send_ack_size(&S, v);
#elif MSG == 6
    type = 6; be32(v); b(lim); rc = ngx_rtmp_send_bandwidth(&S, v, lim);
#elif MSG == 10
    type = 4; b(0); b(0); be32(v); rc = ngx_rtmp_send_stream_begin(&S, v);
#elif MSG == 11
    type = 4; b(0); b(1); be32(v); rc = ngx_rtmp_send_stream_eof(&S, v);
#elif MSG == 12
    type = 4; b(0); b(2); be32(v); rc = ngx_rtmp_send_stream_dry(&S, v);
#elif MSG == 13
    type = 4; b(0); b(3); be32(v); be32(x); rc = ngx_rtmp_send_set_buflen(&S, v, x);
#elif MSG == 14
    type = 4; b(0); b(4); be32(v); rc = ngx_rtmp_send_recorded(&S, v);
#elif MSG == 16
    type = 4; b(0); b(6); be32(v); rc = ngx_rtmp_send_ping_request(&S, v);
#elif MSG == 17
    type = 4; b(0); b(7); be32(v); rc = ngx_rtmp_send_ping_response(&S, v);
#elif MSG == 20 || MSG == 21      /* status and error */
    type = 20; csid = NGX_RTMP_CSID_AMF; msid = NGX_RTMP_MSID;
    b(2); str(MSG == 20 ? "onStatus" : "_error");
    b(0); dbl(0);
    b(5);
    b(3); key("level", L1); key("code", L2); key("description", L3); b(0); b(0); b(9);
    rc = MSG == 20 ? ngx_rtmp_send_status(&S, L2, L1, L3) : ngx_rtmp_send_error(&S, L2, L1, L3);
#elif MSG == 22                   /* play status */
    type = 18; csid = NGX_RTMP_CSID_AMF; msid = NGX_RTMP_MSID; ts = v;
    b(2); str("onPlayStatus");
    b(3); key("code", L2); key("level", L1);
    str("duration"); b(0); dbl((double) v);
    str("bytes"); b(0); dbl((double) x);
    b(0); b(0); b(9);
    rc = ngx_rtmp_send_play_status(&S, L2, L1, v, x);
#elif MSG == 23
    type = 18; csid = NGX_RTMP_CSID_AMF; msid = NGX_RTMP_MSID;
    b(2); str("|RtmpSampleAccess"); b(1); b(1); b(1); b(1);
    rc = ngx_rtmp_send_sample_access(&S);
#elif MSG == 24                   /* caller's values with the caller's header */
    {
        static ngx_rtmp_header_t  h;
        static double  d;
        static char  t[] = "name";
        static ngx_rtmp_amf_elt_t  o[] = { { NGX_RTMP_AMF_STRING, ngx_string("who"), L1, 0 } };
        static ngx_rtmp_amf_elt_t  e[] = { { NGX_RTMP_AMF_STRING, ngx_null_string, t, 0 }, { NGX_RTMP_AMF_NUMBER, ngx_null_string, &d, 0 }, { NGX_RTMP_AMF_OBJECT, ngx_null_string, o, sizeof(o) } };
        h.type = type = 20; h.csid = csid = 7; h.msid = msid = 3; h.timestamp = ts = v;
        d = 42;
        b(2); str(t); b(0); dbl(42); b(3); key("who", L1); b(0); b(0); b(9);
        rc = ngx_rtmp_send_amf(&S, &h, e, 3);
    }
#elif MSG == 25                   /* a value that cannot be written */
    {
        static ngx_rtmp_header_t  h;
        static ngx_rtmp_amf_elt_t  e[] = { { NGX_RTMP_AMF_STRING, ngx_null_string, L1, 0 }, { 0x55, ngx_null_string, NULL, 0 } };
        rc = ngx_rtmp_send_amf(&S, &h, e, 2);
        VF_ASSERT(rc == NGX_ERROR && nsent == 0, "nothing is sent");
        rc_send = NGX_ERROR;
        nsent = 1;
    }
#endif
    VF_ASSERT(nsent == 1, "the message is sent");
    VF_ASSERT(rc == rc_send, "the outcome of sending is returned");
    VF_ASSERT(nfreed == 1 && held == 0, "the frame is released with all of its buffers");
    VF_REACH("done");
}
