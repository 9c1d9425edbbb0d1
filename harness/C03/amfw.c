/*
 * AMF0 encoding: ngx_rtmp_amf_write into buffers of CAP bytes against an
 * independent writer; values symbolic, shapes enumerated.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#ifdef VF_SRC
#include VF_SRC
#else
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_amf.c"
#endif
#include "vf_ngx.h"

#if SHAPE == 5
#define NBUF (900 / CAP + 3)
#else
#define NBUF (160 / CAP + 3)
#endif
static struct { u_char d[CAP]; } mem[NBUF];
static ngx_chain_t  cl[NBUF];
static ngx_buf_t    bf[NBUF];
static int  nalloc;
static ngx_chain_t *
alloc_link(void *arg)
{
    VF_ASSERT(arg == (void *) &nalloc, "the allocator gets its argument");
    if (nalloc == FAILAT) { return NULL; }
    VF_ASSERT(nalloc < NBUF, "no more buffers than the data needs");
    bf[nalloc].start = bf[nalloc].pos = bf[nalloc].last = mem[nalloc].d;
    bf[nalloc].end = mem[nalloc].d + CAP;
    cl[nalloc].buf = &bf[nalloc];
    return &cl[nalloc++];
}

/* what must come out */
static u_char  w[900];
static int     nw;
static void  b(int v) { w[nw++] = v; }
static void  be(u_char *p, int n) { while (n) { w[nw++] = p[--n]; } }
static void  raw(u_char *p, int n) { int k; for (k = 0; k < n; k++) { w[nw++] = p[k]; } }
static void  str(char *p, int n) { b(n >> 8); b(n); raw((u_char *) p, n); }

static char    longtxt[261];
static u_char  num[3][8], boo[2], txt[6], i16[2], i32[4], i8[1];
static ngx_rtmp_amf_elt_t  top[8], in1[4], in2[2];
#define E(e, t, nm, dat, ln)  ((e).type = (t), (e).name.data = (u_char *) (nm), (e).name.len = sizeof(nm) - 1, (e).data = (dat), (e).len = (ln))

void
h_write(void)
{
    static ngx_rtmp_amf_ctx_t  ctx;
    ngx_chain_t  *l;
    ngx_int_t  rc;
    int  k, n = 0, at = 0, pre = 0, cnt = 0;

    for (k = 0; k < 8; k++) { num[0][k] = vf_nd(); num[1][k] = vf_nd(); num[2][k] = vf_nd(); }
    for (k = 0; k < 6; k++) { txt[k] = vf_nd(); }
    for (k = 0; k < 4; k++) { i32[k] = vf_nd(); }
    i16[0] = vf_nd(); i16[1] = vf_nd(); i8[0] = vf_nd(); boo[0] = vf_nd(); boo[1] = vf_nd();
#if SHAPE == 5
    for (k = 0; k < 260; k++) { longtxt[k] = 'a' + k % 23; }
#endif
    ctx.alloc = alloc_link;
    ctx.arg = &nalloc;
    ctx.log = &vf_log;
#if PRE >= 0                     /* a first buffer of which PRE bytes are used */
    alloc_link(&nalloc);
    for (k = 0; k < PRE; k++) { b(k + 1); mem[0].d[k] = k + 1; }
    bf[0].last += PRE;
    ctx.link = &cl[0];
    pre = PRE;
#endif

#if SHAPE == 0                   /* a command with an object */
    E(in1[0], 2, "code", "Net", 0);
    E(in1[1], 0, "n", num[1], 0);
    E(in1[2], 1, "flag", boo, 0);
    E(in1[3], 2, "", txt, 5);
    E(top[0], 2, "", "onStatus", 0);
    E(top[1], 0, "", num[0], 0);
    E(top[2], 5, "", NULL, 0);
    E(top[3], 3, "", in1, sizeof(in1));
    E(top[4], 6, "", NULL, 0);
    n = 5;
    b(2); str("onStatus", 8);
    b(0); be(num[0], 8);
    b(5);
    b(3);
    str("code", 4); b(2); str("Net", 3);
    str("n", 1); b(0); be(num[1], 8);
    str("flag", 4); b(1); b(boo[0]);
    str("", 0); b(2); str((char *) txt, 5);
    b(0); b(0); b(9);
    b(6);
#elif SHAPE == 1                 /* nesting: mixed array, array, object */
    E(in2[0], 0, "x", num[0], 0);
    E(in2[1], 2, "yy", txt, 6);
    E(in1[0], 3, "o", in2, sizeof(in2));
    E(in1[1], 10, "a", in2, sizeof(in2));
    E(in1[2], 8, "m", in2, sizeof(in2[0]));
    E(top[0], 8, "", in1, 3 * sizeof(in1[0]));
    E(top[1], 10, "", NULL, 0);
    E(top[2], 3, "", NULL, 0);
    n = 3;
    b(8); b(0); b(0); b(0); b(0);
    str("o", 1); b(3); str("x", 1); b(0); be(num[0], 8); str("yy", 2); b(2); str((char *) txt, 6); b(0); b(0); b(9);
    str("a", 1); b(10); b(0); b(0); b(0); b(2); b(0); be(num[0], 8); b(2); str((char *) txt, 6);
    str("m", 1); b(8); b(0); b(0); b(0); b(0); str("x", 1); b(0); be(num[0], 8); b(0); b(0); b(9);
    b(0); b(0); b(9);
    b(10); b(0); b(0); b(0); b(0);
    b(3); b(0); b(0); b(9);
#elif SHAPE == 2                 /* values without markers */
    E(top[0], 0x100 | NGX_RTMP_AMF_TYPELESS, "", i8, 0);
    E(top[1], 0x101 | NGX_RTMP_AMF_TYPELESS, "", i16, 0);
    E(top[2], 0x102 | NGX_RTMP_AMF_TYPELESS, "", i32, 0);
    E(top[3], 0 | NGX_RTMP_AMF_TYPELESS, "", num[2], 0);
    E(top[4], 2 | NGX_RTMP_AMF_TYPELESS, "", txt, 6);
    E(top[5], 1 | NGX_RTMP_AMF_TYPELESS, "", boo + 1, 0);
    E(top[6], 2, "", NULL, 0);
    n = 7;
    be(i8, 1); be(i16, 2); be(i32, 4); be(num[2], 8); str((char *) txt, 6); b(boo[1]);
    b(2); b(0); b(0);
#elif SHAPE == 5                 /* long strings and keys */
    E(in1[0], 2, "", longtxt, 0);
    in1[0].name.data = (u_char *) longtxt;
    in1[0].name.len = 259;
    E(top[0], 3, "", in1, sizeof(in1[0]));
    E(top[1], 2, "", longtxt, 257);
    n = 2;
    b(3); str(longtxt, 259); b(2); str(longtxt, 260); b(0); b(0); b(9);
    b(2); str(longtxt, 257);
#elif SHAPE == 3                 /* a type that cannot be written */
    E(top[0], 1, "", boo, 0);
    E(top[1], BADTYPE, "", num[0], 0);
    n = 2;
#elif SHAPE == 4                 /* such a type inside of others */
    E(in2[0], 1, "z", boo, 0);
    E(in2[1], BADTYPE, "b", num[0], 0);
    E(in1[0], INTO, "i", in2, sizeof(in2));
    E(top[0], 3, "", in1, sizeof(in1[0]));
    E(top[1], 1, "", boo, 0);
    n = 2;
#endif
    rc = ngx_rtmp_amf_write(&ctx, top, n);

#if SHAPE == 3 || SHAPE == 4
    VF_ASSERT(rc != NGX_OK, "a value that cannot be written is an error");
#elif FAILAT < 1000
    VF_ASSERT(rc != NGX_OK, "running out of buffers is an error");
#else
    VF_ASSERT(rc == NGX_OK, "written");
    VF_ASSERT(ctx.first == &cl[0], "the first buffer is told");
    for (l = ctx.first; l; l = l->next) {
        VF_ASSERT(cnt < nalloc && l == &cl[cnt], "buffers in the order of allocation");
        VF_ASSERT(l->buf->pos == mem[cnt].d && l->buf->last > l->buf->pos && l->buf->last <= l->buf->end, "no buffer is empty or overfull");
        for (k = 0; k < l->buf->last - l->buf->pos; k++) { VF_ASSERT(at < nw && l->buf->pos[k] == w[at], "the encoding of the values"); at++; }
        cnt++;
    }
    VF_ASSERT(at == nw, "complete");
    VF_ASSERT(cnt == nalloc && ctx.link == &cl[cnt - 1], "the last buffer is told");
#endif
    VF_REACH("done");
}
