/*
 * MPEG-TS segment writer (hls/ngx_rtmp_mpegts.c): the frame writer under
 * contract.  The write handler the caller supplies is the observer: it gets
 * every packet the writer emits and holds it against ISO/IEC 13818-1.
 */
#include "vf_mem.h"
#include "vf.h"
#include "/repo/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c"
#include "vf_ngx.h"

#ifndef MAXLEN
#define MAXLEN 400
#endif

static ngx_rtmp_mpegts_file_t   file;
static ngx_rtmp_mpegts_frame_t  fr;
static ngx_buf_t                b;
static u_char                  *pay;
static u_char                   arena[MAXLEN];
static size_t                   len;

/* ghost state of the observer */
static size_t     g_off;        /* elementary-stream bytes seen so far */
static size_t     g_pkts;
static ngx_uint_t g_cc0;
static uint64_t   g_pts, g_dts;
static size_t     g_j;          /* arbitrary probe index */

#define MASK33 0x1ffffffffULL
#define DELAY  63000            /* 700 ms at 90 kHz */

static uint64_t
ts33(const u_char *p)
{
    return ((uint64_t) (p[0] >> 1 & 7) << 30) | ((uint64_t) p[1] << 22)
           | ((uint64_t) (p[2] >> 1) << 15) | ((uint64_t) p[3] << 7) | (p[4] >> 1);
}

static ssize_t
sink(ngx_rtmp_mpegts_file_t *f, u_char *in, size_t in_size)
{
    size_t    st, hl, n, total;
    int       first = g_pkts == 0;
    uint64_t  pcr;

    VF_ASSERT(f == &file, "packets go to the right file");
    VF_ASSERT(in_size == 188, "every write is one 188-byte packet");
    VF_ASSERT(in[0] == 0x47, "sync byte");
    VF_ASSERT((in[1] & 0x80) == 0 && (in[1] & 0x20) == 0, "no error/priority bit");
    VF_ASSERT(((in[1] & 0x40) != 0) == first, "unit start set exactly on the first packet");
    VF_ASSERT((((ngx_uint_t) (in[1] & 0x1f) << 8) | in[2]) == fr.pid, "PID");
    VF_ASSERT((in[3] & 0xc0) == 0, "not scrambled");
    VF_ASSERT((in[3] & 0x0f) == ((g_cc0 + 1 + g_pkts) & 0x0f), "continuity counter increments by one");
    VF_ASSERT((in[3] & 0x10) != 0, "packet carries payload");

    st = 4;
    if (in[3] & 0x20) {
        st = 5 + (size_t) in[4];
        VF_ASSERT(st <= 188, "adaptation field fits the packet");
        if (in[4] > 0) {
            if (first && fr.key) {
                VF_ASSERT(in[5] == 0x50, "keyframe: random access + PCR only");
                VF_ASSERT(in[4] >= 7, "PCR fits");
                pcr = ((uint64_t) in[6] << 25) | ((uint64_t) in[7] << 17)
                      | ((uint64_t) in[8] << 9) | ((uint64_t) in[9] << 1) | (in[10] >> 7);
                VF_ASSERT(pcr == ((g_dts - DELAY) & MASK33), "PCR base is dts minus the delay");
                VF_ASSERT((in[10] & 0x7f) == 0x7e && in[11] == 0, "PCR reserved bits and extension");
                if (g_j >= 12 && g_j < st) {
                    VF_ASSERT(in[g_j] == 0xff, "stuffing is 0xff");
                }
            } else {
                VF_ASSERT(in[5] == 0, "no adaptation flags");
                if (g_j >= 6 && g_j < st) {
                    VF_ASSERT(in[g_j] == 0xff, "stuffing is 0xff");
                }
            }
        }
    }
    if (first && fr.key) {
        VF_ASSERT((in[3] & 0x20) && in[4] >= 7, "keyframe has an adaptation field with PCR");
    }

    if (first) {
        u_char *q = in + st;
        hl = g_pts != g_dts ? 10 : 5;
        VF_ASSERT(st + 9 + hl <= 188, "PES header fits the first packet");
        VF_ASSERT(q[0] == 0 && q[1] == 0 && q[2] == 1, "PES start code");
        VF_ASSERT(q[3] == (u_char) fr.sid, "PES stream id");
        total = len + 3 + hl;
        VF_ASSERT((((size_t) q[4] << 8) | q[5]) == (total > 0xffff ? 0 : total),
                  "PES packet length, 0 when it does not fit");
        VF_ASSERT(q[6] == 0x80, "PES marker");
        VF_ASSERT(q[7] == (hl == 10 ? 0xc0 : 0x80), "DTS present exactly when it differs from PTS");
        VF_ASSERT(q[8] == hl, "PES header length");
        VF_ASSERT(ts33(q + 9) == ((g_pts + DELAY) & MASK33), "PTS");
        VF_ASSERT((q[9] >> 4) == (hl == 10 ? 3 : 2), "PTS prefix");
        VF_ASSERT((q[9] & 1) && (q[11] & 1) && (q[13] & 1), "PTS marker bits");
        if (hl == 10) {
            VF_ASSERT(ts33(q + 14) == ((g_dts + DELAY) & MASK33), "DTS");
            VF_ASSERT((q[14] >> 4) == 1 && (q[14] & 1) && (q[16] & 1) && (q[18] & 1), "DTS prefix and markers");
            VF_REACH("dts");
        }
        st += 9 + hl;
    }

    n = 188 - st;
    VF_ASSERT(n <= len - g_off, "no more payload than the frame has");
    VF_ASSERT(n > 0 || len == 0, "every packet carries frame bytes");
    if (g_j < n) {
        VF_ASSERT(in[st + g_j] == pay[g_off + g_j], "payload bytes are the frame's, in order");
    }
    g_off += n;
    g_pkts++;
    VF_REACH("packet");
    return 188;
}

void
h_frame(void)
{
    size_t      room;
    ngx_int_t   rc;

#ifdef LEN
    len = LEN;
#else
    len = vf_range(1, MAXLEN);
#endif
    /* right-aligned, so that reading past the frame leaves the object */
    vf_fill(arena, MAXLEN);
    pay = arena + MAXLEN - len;
    b.start = b.pos = pay;
    b.end = b.last = pay + len;

    file.log = &vf_log;
    file.whandle = sink;
    file.encrypt = 0;

    fr.pts = g_pts = VF_ND_U64();
    fr.dts = g_dts = VF_ND_U64();
    fr.pid = vf_range(0, 0x1fff);
    fr.sid = vf_range(0, 0xff);
    fr.cc = g_cc0 = vf_range(0, 1UL << 60);
#ifdef CC
    fr.cc = g_cc0 = CC;
#endif
    fr.key = VF_ND_BOOL();
#ifdef KEY
    fr.key = KEY;
    fr.pts = g_pts = 0x1d2345678ULL;
    fr.dts = g_dts = DTS ? 0x1d2345000ULL : g_pts;
#endif
    g_j = vf_range(0, 187);

    rc = ngx_rtmp_mpegts_write_frame(&file, &fr, &b);

    VF_ASSERT(rc == NGX_OK, "writing succeeds");
    VF_ASSERT(g_off == len && b.pos == b.last && b.last == pay + len, "the whole frame is written");
    VF_ASSERT(fr.cc == g_cc0 + g_pkts, "the counter moved by the number of packets");
    VF_ASSERT(fr.pts == g_pts && fr.dts == g_dts, "timestamps untouched");
    VF_REACH("end");
}
