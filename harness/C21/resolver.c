/*
 * Histories of the dynamic resolver (ngx_dynamic_resolver.c on top of
 * ngx_event_resolver.c): names are added, deleted, asked for and refreshed
 * while answers come in, in any order the script (SEQ) says.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#include <ngx_event.h>
static long rnd_v = RND;
static long vf_random(void) { return rnd_v += 5; }
#define random() vf_random()
#ifdef VF_CBMC      /* copies of addresses: the same bytes, in one typed assignment */
static void *
vf_copy_sa(void *d, const void *s, size_t n)
{
    if (n == sizeof(struct sockaddr_in)) {
        *(struct sockaddr_in *) d = *(const struct sockaddr_in *) s;
    } else if (n == sizeof(struct sockaddr_in6)) {
        *(struct sockaddr_in6 *) d = *(const struct sockaddr_in6 *) s;
    } else {
        VF_ASSERT(n == 0, "an address is copied whole");
    }
    return d;
}
static void *
vf_copy_b(void *d, const void *s, size_t n)
{
    size_t  k;

    for (k = 0; k < n; k++) { ((u_char *) d)[k] = ((const u_char *) s)[k]; }
    return d;
}
static void *
vf_zero_b(void *d, int c, size_t n)
{
    size_t  k;

    for (k = 0; k < n; k++) { ((u_char *) d)[k] = 0; }
    return d;
}
#undef ngx_memzero
#define ngx_memzero(d, n)  (_Generic(&(d)[0], u_char *: vf_zero_b, default: vf_memset)((d), 0, (n)))
#undef ngx_memcpy
#define ngx_memcpy(d, s, n)  (_Generic(&(d)[0], ngx_sockaddr_t *: vf_copy_sa, struct sockaddr *: vf_copy_sa, u_char *: vf_copy_b, default: vf_memcpy)((d), (s), (n)))
#endif

static ngx_resolver_ctx_t  vf_none;      /* the mark for "no resolver": an address of its own */
#undef NGX_NO_RESOLVER
#define NGX_NO_RESOLVER  (&vf_none)

static void *vf_rec(int which, size_t size);
#define ngx_pcalloc(pool, size)  vf_rec(0, size)
#include "/repo/modules/nginx-toolkit-module/ngx_event_resolver.c"
#undef ngx_pcalloc
#define ngx_pcalloc(pool, size)  vf_rec(1, size)
#include "/repo/modules/nginx-toolkit-module/ngx_dynamic_resolver.c"
#undef ngx_pcalloc
#include "vf_ngx.h"

ngx_uint_t  ngx_exiting;
ngx_module_t  ngx_events_module, ngx_core_module;

/* records come from typed pools: one for each kind */
static ngx_dynamic_resolver_domain_t  dp0, dp1, dp2, dp3;
static ngx_dynamic_resolver_ctx_t     cp[8];
static ngx_event_resolver_ctx_t       ep[16];
static int                            ndp, ncp, nep;

static void *
vf_rec(int which, size_t size)
{
    if (size == sizeof(ngx_dynamic_resolver_domain_t)) { VF_ASSUME(ndp < 4); ndp++; return ndp == 1 ? &dp0 : ndp == 2 ? &dp1 : ndp == 3 ? &dp2 : &dp3; }
    if (which == 0) { VF_ASSUME(nep < 16 && size <= sizeof(ep[0])); return &ep[nep++]; }
    VF_ASSUME(ncp < 8 && size <= sizeof(cp[0]));
    return &cp[ncp++];
}

/* ---- nginx core: the resolver ---- */

#define MAXP  6
static ngx_resolver_ctx_t  *pend[MAXP];
static int                  pdone[MAXP], pname[MAXP], npend, nstarted;
static int                  rs_mode;       /* 0 works, 1 no memory, 2 none, 3 refuses, 4 answers at once */
static ngx_resolver_t       R0;

static void answer(ngx_resolver_ctx_t *ctx, int ok, int nm);
static int  name_of(u_char *p, size_t n);

ngx_resolver_ctx_t *
ngx_resolve_start(ngx_resolver_t *r, ngx_resolver_ctx_t *temp)
{
    ngx_resolver_ctx_t  *c;

    if (rs_mode == 1) { return NULL; }
    if (rs_mode == 2) { return NGX_NO_RESOLVER; }
    c = vf_alloc(sizeof(ngx_resolver_ctx_t));
    nstarted++;
    return c;
}

ngx_int_t
ngx_resolve_name(ngx_resolver_ctx_t *ctx)
{
    if (rs_mode == 3) {
        nstarted--;
        return NGX_ERROR;
    }
    VF_ASSERT(ctx->timeout == 5000, "the configured timeout");
    if (rs_mode == 4) {
        answer(ctx, 1, name_of(ctx->name.data, ctx->name.len));
        return NGX_OK;
    }
    pname[npend] = name_of(ctx->name.data, ctx->name.len);
    pend[npend++] = ctx;
    return NGX_OK;
}

void
ngx_resolve_name_done(ngx_resolver_ctx_t *ctx)
{
    VF_ASSERT(ctx != NULL && ctx != NGX_NO_RESOLVER, "only a started lookup is done with");
    nstarted--;
}

char *ngx_resolver_strerror(ngx_int_t err) { return ""; }

ngx_int_t
ngx_event_timer_add_timer(ngx_msec_t timer, ngx_timer_handler_pt h, void *data)
{
    VF_ASSERT(h == ngx_dynamic_resolver_on_timer && timer == 7000, "the refresh is set again");
    return NGX_OK;
}

ngx_uint_t
ngx_hash_strlow(u_char *dst, u_char *src, size_t n)
{
    ngx_uint_t  key = 0;

    while (n--) {
        *dst = (*src >= 'A' && *src <= 'Z') ? (*src | 0x20) : *src;
        key = ngx_hash(key, *dst);
        dst++;
        src++;
    }
    return key;
}

/* literal addresses by the contract of C20 */
static socklen_t  lit_len;
static u_char     lit[128];

socklen_t
ngx_sock_pton(struct sockaddr *sa, u_char *text, size_t len)
{
    u_char     *p = (u_char *) sa;
    socklen_t   i;

    for (i = 0; i < lit_len; i++) { p[i] = lit[i]; }
    return lit_len;
}


/* ---- what is expected ---- */

#define NAMES   3
static u_char  nm_text[NAMES][8] = { "a.b", "C.d", "e" };
static u_char  nm_upper[NAMES][8] = { "A.B", "c.D", "E" };
static int     nm_len[NAMES] = { 3, 3, 1 };

static int     known[NAMES];             /* in the table */
static int     gen[NAMES];               /* which life of the name */
static int     have[NAMES];              /* addresses of the last answer */
static uint32_t  first[NAMES][8];        /* one word of each of them */
static int     pgen[MAXP];

#define MAXW  8
static int     w_name[MAXW], w_calls[MAXW], w_ok[MAXW], w_open[MAXW], nw;

static int
name_of(u_char *p, size_t n)
{
    int  i;

    for (i = 0; i < NAMES; i++) {
        if ((int) n == nm_len[i] && (p[0] | 0x20) == (nm_text[i][0] | 0x20)) { return i; }
    }
    VF_ASSERT(0, "only names that were asked for are looked up");
    return 0;
}

static int
among(int nm, uint32_t b, socklen_t l)
{
    int  i, ok = 0;

    for (i = 0; i < 8; i++) {
        if (i < have[nm] && first[nm][i] == b) { ok = 1; }
    }
    return ok && l == (nm == 1 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in));
}

static int  lit_calls;

static void
on_done(void *data, struct sockaddr *sa, socklen_t len)
{
    int  w = (int) (intptr_t) data;

    if (w == 100) {
        VF_ASSERT(len == lit_len && (((u_char *) sa)[lit_len - 1] == lit[lit_len - 1]), "a literal address is its own answer");
        lit_calls++;
        return;
    }
    w_calls[w]++;
    w_open[w] = 0;
    if (sa != NULL) {
        w_ok[w] = 1;
        VF_ASSERT(among(w_name[w], ((struct sockaddr_in *) sa)->sin_addr.s_addr, len), "the answer is one of the addresses of that name");
    } else {
        VF_ASSERT(len == 0, "failure has no address");
    }
}

static ngx_resolver_addr_t  ra[12];
static union { struct sockaddr sa; struct sockaddr_in s4; struct sockaddr_in6 s6; }  rb[12];

#ifndef NADDR
#define NADDR 2
#endif

static void
answer(ngx_resolver_ctx_t *ctx, int ok, int nm)
{
    static uint32_t  v[12];
    int  i, live;

    if (!ok) {
        ctx->state = NGX_RESOLVE_NXDOMAIN;
        ctx->naddrs = 0;
        ctx->addrs = NULL;
        ctx->handler(ctx);
        return;
    }
    live = known[nm];
    for (i = 0; i < 12; i++) {
        if (i >= NADDR) { break; }
        v[i] = VF_ND_U32();
        if (nm == 1) {
            rb[i].s6.sin6_flowinfo = v[i];
            rb[i].s6.sin6_scope_id = v[i];
        } else {
            rb[i].s4.sin_addr.s_addr = v[i];
        }
        ra[i].sockaddr = &rb[i].sa;
        ra[i].socklen = nm == 1 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_in);
        if (live && i < 8) { first[nm][i] = v[i]; }
    }
    if (live) { have[nm] = NADDR > 8 ? 8 : NADDR; }
    ctx->state = 0;
    ctx->naddrs = NADDR;
    ctx->addrs = ra;
    ctx->handler(ctx);
}

static ngx_cycle_t                   C;
static void                         *ev0[8];
static void                        **ev1;
static void                       ***cfc[8];
static ngx_dynamic_resolver_conf_t   D;
static ngx_event_resolver_conf_t     E;

static void
take(int k, int ok)         /* the k-th outstanding answer arrives */
{
    int  i, n = 0, j = -1, nm, w;

    for (i = 0; i < npend; i++) {
        if (!pdone[i]) {
            if (n == k) { j = i; break; }
            n++;
        }
    }
    if (j < 0) { return; }
    pdone[j] = 1;
    nm = pname[j];
    if (pgen[j] == gen[nm] && known[nm]) {
        answer(pend[j], ok, nm);
        for (w = 0; w < nw; w++) {
            if (w_name[w] == nm) { VF_ASSERT(!w_open[w], "an answer reaches everyone who waits"); }
            if (w_name[w] == nm && w_open[w] == 0 && w_calls[w] == 0) { VF_ASSERT(0, "asked, not answered"); }
        }
    } else {                /* the name has been deleted since (and maybe added again) */
        int  kn = known[nm];
        known[nm] = 0;
        answer(pend[j], ok, nm);
        known[nm] = kn;
    }
}

static void
lookup(int nm)
{
    static ngx_sockaddr_t  out;
    ngx_str_t  d;
    socklen_t  l;

    d.data = nm_upper[nm];
    d.len = nm_len[nm];
    l = ngx_dynamic_resolver_gethostbyname(&d, &out.sockaddr);
    if (known[nm] && have[nm]) {
        VF_ASSERT(l != 0 && among(nm, out.sockaddr_in.sin_addr.s_addr, l), "a name that was resolved gives one of its addresses");
        if (nm == 1) { VF_ASSERT(out.sockaddr_in6.sin6_scope_id == out.sockaddr_in6.sin6_flowinfo, "the whole address"); }
    } else {
        VF_ASSERT(l == 0, "a name without addresses gives none");
    }
}

static void
step(int op, int nm)
{
    ngx_str_t  d;
    int        i, p0 = npend;

    d.data = nm_text[nm % 3];
    d.len = nm_len[nm % 3];
    switch (op) {
    case 1:
        ngx_dynamic_resolver_add_domain(&d, &C);
        if (!known[nm]) { known[nm] = 1; gen[nm]++; have[nm] = 0; }
        break;
    case 2:
        d.data = nm_upper[nm];
        known[nm] = 0;
        ngx_dynamic_resolver_del_domain(&d);
        have[nm] = 0;
        for (i = 0; i < nw; i++) {
            if (w_name[i] == nm) { VF_ASSERT(!w_open[i], "deleting a name answers everyone who waits for it"); }
        }
        break;
    case 3:
        w_name[nw] = nm;
        w_open[nw] = 1;
        nw++;
        if (!known[nm]) { known[nm] = 1; gen[nm]++; have[nm] = 0; }
        i = have[nm];
        ngx_dynamic_resolver_start_resolver(&d, on_done, (void *) (intptr_t) (nw - 1));
        if (i) {
            VF_ASSERT(w_calls[nw - 1] == 1 && w_ok[nw - 1], "a resolved name is answered at once");
        } else if (rs_mode == 0) {
            VF_ASSERT(w_calls[nw - 1] == 0 && npend == p0 + 1, "an unresolved name is looked up");
        } else {
            VF_ASSERT(w_calls[nw - 1] == 1 && w_ok[nw - 1] == (rs_mode == 4), "a failed lookup is reported");
        }
        break;
    case 4:
        ngx_dynamic_resolver_on_timer(NULL);
        VF_ASSERT(npend - p0 == (rs_mode ? 0 : known[0] + known[1] + known[2]), "the refresh looks up every name");
        break;
    case 5: take(nm, 1); break;
    case 6: take(nm, 0); break;
    case 7: rs_mode = nm; break;
    case 8: E.resolver = NULL; rs_mode = 5; break;
    case 9:
        lit_len = nm == 0 ? sizeof(struct sockaddr_in) : nm == 1 ? sizeof(struct sockaddr_in6) : sizeof(struct sockaddr_un);
        for (i = 0; i < 128; i++) { lit[i] = i; }
        lit[lit_len - 1] = 77;
        ngx_dynamic_resolver_start_resolver(&d, on_done, (void *) (intptr_t) 100);
        VF_ASSERT(lit_calls == 1, "a literal address is its own answer");
        ngx_dynamic_resolver_add_domain(&d, &C);
        ngx_dynamic_resolver_del_domain(&d);
        lit_calls = 0;
        lit_len = 0;
        break;
    }
    for (i = p0; i < npend; i++) { pgen[i] = gen[pname[i]]; }
    for (i = 0; i < nw; i++) {
        VF_ASSERT(w_calls[i] <= 1 && w_calls[i] == 1 - w_open[i], "everyone who asks is answered exactly once");
    }
    for (i = 0; i < NAMES; i++) { lookup(i); }
}

#define P(i)   { static const int s[] = { SEQ }; if (i < (int) (sizeof(s) / sizeof(int))) { step(s[i] / 10, s[i] % 10); } }

void
h_res(void)
{
    static ngx_dynamic_resolver_domain_t  *hash[2];

    ngx_cycle = &C;
    C.log = &vf_log;
    ngx_events_module.index = 1;
    C.conf_ctx = (void ****) cfc;
    cfc[1] = &ev1;
    ev1 = ev0;
    ngx_dynamic_resolver_module.ctx_index = 2;
    ngx_event_resolver_module.ctx_index = 3;
    ev0[2] = &D;
    ev0[3] = &E;
    D.refresh_interval = 7000;
    D.domain_buckets = BUCKETS;
    D.resolver_hash = hash;
    E.resolver = &R0;
    E.resolver_timeout = 5000;
    P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7) P(8) P(9)
    VF_REACH("end of history");
    {
        int  i, open = 0;
        for (i = 0; i < npend; i++) { open += !pdone[i]; }
        VF_ASSERT(nstarted == open, "every lookup that was started is done with or outstanding");
        VF_ASSERT(E.nalloc - E.nfree == (ngx_uint_t) open, "its context is released with it");
    }
}
