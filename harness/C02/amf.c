/*
 * AMF0 decoding: ngx_rtmp_amf_read on a message cut into buffers against an
 * independent decoder of the flat bytes.  The structure of the message is
 * given, every value byte marked V is symbolic.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#ifdef VF_SRC
#include VF_SRC
#else
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_amf.c"
#endif
#include "vf_ngx.h"

#define V -1
static const short  shape[] = { MSG };
#define TOTAL ((int) (sizeof(shape) / sizeof(shape[0])))
#ifndef CUT
#define CUT TOTAL
#endif
static u_char  m[TOTAL + 1];
#ifdef VF_CBMC
#define AFTER (TOTAL > 300 ? 320 : 40)
#define ROOM(n) ((n) + AFTER)       /* pos + n may be computed, what lies there is unknown */
#else
#define ROOM(n) ((n) ? (n) : 1)
#endif
static u_char  b1[ROOM(C1)], b2[ROOM(C2 - C1)], b3[ROOM(CUT - C2)];
static ngx_chain_t  cl[3];
static ngx_buf_t    bf[3];

typedef struct {
    u_char  cmd[8], trans[8], app[5], x[8], flag[1], opt[4], i8[1], i16[2], i32[4], last[8];
} out_t;
static out_t  real, want;
static ngx_rtmp_amf_ctx_t  saved, rsaved;
static int    wsaved;

/* templates */
enum { t_num = 0, t_bool = 1, t_str = 2, t_obj = 3, t_arr = 10, t_i8 = 0x100, t_i16, t_i32, t_var };
static ngx_rtmp_amf_elt_t  obj[3], top[5];
static int  ntop;

static void
elt(ngx_rtmp_amf_elt_t *e, int type, char *name, int nlen, void *data, size_t len)
{
    e->type = type;
    e->name.data = (u_char *) name;
    e->name.len = nlen;
    e->data = data;
    e->len = len;
}
static void
template(out_t *o, ngx_rtmp_amf_ctx_t *ctx)
{
#if TPL == 0                     /* a command */
    elt(&obj[0], t_str, "app", 3, o->app, sizeof(o->app));
    elt(&obj[1], t_num, "x", 1, o->x, 0);
    elt(&obj[2], t_bool, "flag", 4, o->flag, 0);
    elt(&top[0], t_str, "", 0, o->cmd, sizeof(o->cmd));
    elt(&top[1], t_num, "", 0, o->trans, 0);
    elt(&top[2], t_obj, "", 0, obj, sizeof(obj));
    elt(&top[3], t_str | NGX_RTMP_AMF_OPTIONAL, "", 0, o->opt, sizeof(o->opt));
    ntop = 4;
#elif TPL == 1                   /* an array of values */
    elt(&obj[0], t_num, "", 0, o->x, 0);
    elt(&obj[1], t_str, "", 0, o->app, sizeof(o->app));
    elt(&top[0], t_arr, "", 0, obj, 2 * sizeof(obj[0]));
    elt(&top[1], t_num, "", 0, o->last, 0);
    ntop = 2;
#elif TPL == 2                   /* a value of any of these types */
    elt(&obj[0], t_num, "", 0, o->x, 0);
    elt(&obj[1], t_str, "", 0, o->app, sizeof(o->app));
    elt(&obj[2], t_bool, "", 0, o->flag, 0);
    elt(&top[0], NGX_RTMP_AMF_VARIANT, "", 0, obj, sizeof(obj));
    elt(&top[1], t_num, "", 0, o->last, 0);
    ntop = 2;
#elif TPL == 3                   /* values without a type marker */
    elt(&top[0], t_i8 | NGX_RTMP_AMF_TYPELESS, "", 0, o->i8, 0);
    elt(&top[1], t_i16 | NGX_RTMP_AMF_TYPELESS, "", 0, o->i16, 0);
    elt(&top[2], t_i32 | NGX_RTMP_AMF_TYPELESS, "", 0, o->i32, 0);
    elt(&top[3], t_num | NGX_RTMP_AMF_TYPELESS, "", 0, o->x, 0);
    elt(&top[4], t_str | NGX_RTMP_AMF_TYPELESS, "", 0, o->cmd, sizeof(o->cmd));
    ntop = 5;
#elif TPL == 4                   /* the place of a value */
    elt(&top[0], t_str, "", 0, o->cmd, sizeof(o->cmd));
    elt(&top[1], t_obj | NGX_RTMP_AMF_CONTEXT, "", 0, ctx, sizeof(*ctx));
    elt(&top[2], t_num, "", 0, o->last, 0);
    ntop = 3;
#endif
}

/* ---- the independent decoder: position and bytes only ---- */
static int  at;
static int  skip(int n) { if (CUT - at < n) { return 0; } at += n; return 1; }
static int  decode(ngx_rtmp_amf_elt_t *e, int type, int depth);

static int
marked(ngx_rtmp_amf_elt_t *e, int depth)        /* 1 read, 0 broken, 2 nothing left, 3 an end marker */
{
    int  t;

    if (e && e->type & NGX_RTMP_AMF_TYPELESS) { return decode(e, e->type & ~NGX_RTMP_AMF_TYPELESS, depth); }
    if (at == CUT) { return 2; }
    t = m[at++];
    if (e) {
        int  w = e->type & 0xff, same = w == t || (w == 3 && t == 8) || (w == 8 && t == 3);
        if (e->type & NGX_RTMP_AMF_CONTEXT) { if (same) { wsaved = at; } same = 0; }
        if (!same) { e = NULL; }
    }
    return decode(e, t, depth);
}

static int
pairs(ngx_rtmp_amf_elt_t *e, int n, int depth)
{
    int  len, k, i, hit;

    for (;;) {
        if (CUT - at < 2) { return 1; }           /* unfinished objects are put up with */
        len = m[at] << 8 | m[at + 1];
        at += 2;
        if (len == 0) { break; }
        if (CUT - at < len) { return 0; }
        for (k = 0; k < n; k++) {
            hit = (int) e[k].name.len == len;
            for (i = 0; hit && i < len; i++) { hit = e[k].name.data[i] == m[at + i]; }
            if (hit) { break; }
        }
        at += len;
        if (marked(k < n ? &e[k] : NULL, depth + 1) % 2 == 0) { return 0; }
    }
    if (CUT - at < 1 || m[at] != 9) { return 0; }
    at++;
    return 1;
}

static int
decode(ngx_rtmp_amf_elt_t *e, int t, int depth)
{
    u_char  *d = e ? e->data : NULL;
    int      n, k, sub = e ? (int) (e->len / sizeof(*e)) : 0;

    if (depth > 64) { return 0; }
    switch (t) {
    case 0: case 1: case t_i8: case t_i16: case t_i32:
        n = t == 0 ? 8 : t == t_i16 ? 2 : t == t_i32 ? 4 : 1;
        if (!skip(n)) { return 0; }
        if (d) { for (k = 0; k < n; k++) { d[k] = m[at - 1 - k]; } }     /* network to host order */
        return 1;
    case 2:
        if (!skip(2)) { return 0; }
        n = m[at - 2] << 8 | m[at - 1];
        if (!skip(n)) { return 0; }
        if (d) {
            int  w = n < (int) e->len ? n : (int) e->len - 1;
            for (k = 0; k < w; k++) { d[k] = m[at - n + k]; }
            d[w] = 0;
        }
        return 1;
    case 5: case 6: return 1;
    case 8:
        if (!skip(4)) { return 0; }
        /* fall through */
    case 3: return pairs((ngx_rtmp_amf_elt_t *) d, d ? sub : 0, depth);
    case 10:
        if (!skip(4)) { return 0; }
        n = m[at - 2] << 8 | m[at - 1];
        if (m[at - 4] || m[at - 3]) { n = 65536; }     /* more than any message here holds */
        for (k = 0; k < n; k++) {
            if (marked(d && k < sub ? (ngx_rtmp_amf_elt_t *) d + k : NULL, depth + 1) % 2 == 0) { return 0; }
        }
        return 1;
    case t_var:
        if (!skip(1)) { return 1 + 1; }
        t = m[at - 1];
        {
            ngx_rtmp_amf_elt_t  *v = (ngx_rtmp_amf_elt_t *) d, *hit = NULL;
            for (k = 0; d && k < sub; k++) { if (v[k].type == t) { hit = &v[k]; } }
            return decode(hit, t, depth + 1) % 2;
        }
    case 9: return 3;
    }
    return 0;
}

void
h_read(void)
{
    static ngx_rtmp_amf_ctx_t  ctx;
    ngx_int_t  rc;
    int  k, ok, used;
    u_char  *r, *w;

    for (k = 0; k < TOTAL; k++) { if (shape[k] == V) { m[k] = (u_char) vf_nd(); } else { m[k] = shape[k]; } }
    for (k = 0; k < CUT; k++) {
        if (k < C1) { b1[k] = m[k]; } else if (k < C2) { b2[k - C1] = m[k]; } else { b3[k - C2] = m[k]; }
    }
    #ifdef VF_CBMC
    { u_char  any[AFTER]; for (k = 0; k < AFTER; k++) { b1[C1 + k] = b2[C2 - C1 + k] = b3[CUT - C2 + k] = any[k]; } }
#endif
    bf[0].start = bf[0].pos = b1; bf[0].last = bf[0].end = b1 + C1;
    bf[1].start = bf[1].pos = b2; bf[1].last = bf[1].end = b2 + (C2 - C1);
    bf[2].start = bf[2].pos = b3; bf[2].last = bf[2].end = b3 + (CUT - C2);
    for (k = 0; k < 3; k++) { cl[k].buf = &bf[k]; cl[k].next = k < 2 ? &cl[k + 1] : NULL; }
    ctx.link = &cl[0];
    ctx.log = &vf_log;
    r = (u_char *) &real;
    w = (u_char *) &want;
    for (k = 0; k < (int) sizeof(out_t); k++) { r[k] = w[k] = 0xa5; }

    template(&real, &saved);
    rc = ngx_rtmp_amf_read(&ctx, top, ntop);
    VF_ASSERT(ctx.depth == 0, "nesting is counted back to none");

    template(&want, &rsaved);
    ok = 1;
    for (k = 0; k < ntop; k++) {
        int  res = marked(&top[k], 0);
        if (res == 2 && top[k].type & NGX_RTMP_AMF_OPTIONAL) { break; }
        if (res == 3) { break; }                       /* an end marker ends the message */
        if (res != 1) { ok = 0; break; }
    }
    VF_ASSERT((rc == NGX_OK) == ok, "a message is accepted exactly when it holds the values asked for");
    if (ok) {
        for (k = 0; k < (int) sizeof(out_t); k++) { VF_ASSERT(r[k] == w[k], "every value lands in its place, nothing else is written"); }
        if (at > 0) {
            for (used = 0, k = 0; k < 3; k++) {
                if (ctx.link == &cl[k]) { used += ctx.offset; break; }
                used += k == 0 ? C1 : k == 1 ? C2 - C1 : 0;
            }
            VF_ASSERT(used == at, "the decoder stands after what it has read");
        }
    }
#if TPL == 4
    if (wsaved) {
        VF_ASSERT(saved.link != NULL, "the place is told");
        for (used = 0, k = 0; k < 3; k++) {
            if (saved.link == &cl[k]) { used += saved.offset; break; }
            used += k == 0 ? C1 : k == 1 ? C2 - C1 : 0;
        }
        VF_ASSERT(used == wsaved, "the place of the value after its marker");
    }
#endif
    VF_REACH("done");
}
