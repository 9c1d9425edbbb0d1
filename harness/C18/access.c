/*
 * RTMP access rules end to end through the module's public faces: its
 * directive handlers, its configuration create/merge callbacks and the
 * publish/play hooks it installs.
 */
#include "vf_mem.h"
#include "vf.h"

/* assumed contract: dynamic arrays (nginx core) append; CAP is never exceeded */
#define CAP  4
#define ngx_array_init(a, pool, n, sz)                                        \
    ((a)->elts = ngx_palloc(pool, CAP * (sz)), (a)->nelts = 0,                \
     (a)->size = (sz), (a)->nalloc = CAP, (a)->elts ? NGX_OK : NGX_ERROR)

#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_access_module.c"
#include "vf_ngx.h"

#define PUBLISH  1
#define PLAY     2

ngx_rtmp_publish_pt  ngx_rtmp_publish;
ngx_rtmp_play_pt     ngx_rtmp_play;

void *
ngx_array_push_n(ngx_array_t *a, ngx_uint_t n)
{
    void  *p;

    VF_ASSERT(a->nelts + n <= CAP, "harness capacity");
    p = (u_char *) a->elts + a->size * a->nelts;
    a->nelts += n;
    return p;
}

void *
ngx_array_push(ngx_array_t *a)
{
    return ngx_array_push_n(a, 1);
}

size_t
ngx_inet6_ntop(u_char *p, u_char *text, size_t len)
{
    return 0;
}

/* assumed contract: ngx_ptocidr yields the family, address and mask the text
 * denotes, with the address already masked */
static ngx_cidr_t  cidrs[CAP];
static ngx_int_t   cidr_rc;
static int         cidr_i;

ngx_int_t
ngx_ptocidr(ngx_str_t *text, ngx_cidr_t *cidr)
{
    *cidr = cidrs[cidr_i];
    return cidr_rc;
}

static ngx_int_t  published, played;
static ngx_int_t  rc_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v) { published++; return NGX_OK; }
static ngx_int_t  rc_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v) { played++; return NGX_OK; }

/* the rules as written, in their order of precedence */
typedef struct {
    int         deny, all, v6;
    ngx_uint_t  flags;
    ngx_cidr_t  c;
} spec_rule;

static spec_rule  rules[CAP];
static ngx_rtmp_session_t  S;
static void               *appconf[8];
static struct sockaddr_in   sin4;
static struct sockaddr_in6  sin6;
static ngx_conf_t  cf;
static ngx_pool_t  pool;

static ngx_command_t *
directive(char *name, size_t len)
{
    ngx_command_t  *c;

    for (c = ngx_rtmp_access_module.commands; c->name.len; c++) {
        if (c->name.len == len && c->name.data[0] == (u_char) name[0]) {
            return c;
        }
    }
    return NULL;
}

/* one directive:  allow|deny [publish|play] all|cidr */
static void
add_rule(void *conf, int i, int shape)
{
    static ngx_str_t    args[3];
    static ngx_array_t  a;
    ngx_command_t      *c;
    spec_rule          *r = &rules[i];
    size_t              k, n = 0;
    int                 f;

    r->deny = VF_ND_BOOL();
    r->all = shape % 3 == 0;
    r->v6 = shape % 3 == 1;
    f = shape / 3;

    n++;

    r->flags = PUBLISH | PLAY;
    if (f == 1) {
        r->flags = PUBLISH;
        args[n].data = (u_char *) "publish";
        args[n++].len = 7;
    } else if (f == 2) {
        r->flags = PLAY;
        args[n].data = (u_char *) "play";
        args[n++].len = 4;
    }

    args[n].data = (u_char *) (r->all ? "all" : "net");
    args[n++].len = 3;

    ngx_memzero(&cidrs[i], sizeof(ngx_cidr_t));
    cidrs[i].family = r->v6 ? AF_INET6 : AF_INET;
    if (r->v6) {
        /* with several rules only the outer bytes are constrained; every byte
         * is in the single-rule units */
        for (k = 0; k < 16; k += NC + NP > 1 ? 15 : 1) {
            cidrs[i].u.in6.mask.s6_addr[k] = VF_ND_U8();
            cidrs[i].u.in6.addr.s6_addr[k] = VF_ND_U8() & cidrs[i].u.in6.mask.s6_addr[k];
        }
    } else {
        cidrs[i].u.in.mask = VF_ND_U32();
        cidrs[i].u.in.addr = VF_ND_U32() & cidrs[i].u.in.mask;
    }
    r->c = cidrs[i];
    cidr_i = i;
    cidr_rc = i % 2 ? NGX_OK : NGX_DONE;

    a.elts = args;
    a.nelts = n;
    a.size = sizeof(ngx_str_t);
    cf.args = &a;

    /* two branches, so that the verifier sees a concrete handler in each */
    if (r->deny) {
        args[0].data = (u_char *) "deny";
        args[0].len = 4;
        c = directive("deny", 4);
        VF_ASSERT(c->set(&cf, c, conf) == NGX_CONF_OK, "a valid deny rule is accepted");
    } else {
        args[0].data = (u_char *) "allow";
        args[0].len = 5;
        c = directive("allow", 5);
        VF_ASSERT(c->set(&cf, c, conf) == NGX_CONF_OK, "a valid allow rule is accepted");
    }
}

static int
in4(spec_rule *r, in_addr_t a)
{
    return r->all || (!r->v6 && (a & r->c.u.in.mask) == r->c.u.in.addr);
}

static int
in6(spec_rule *r, u_char *a)
{
    int  k, ok = 1;

    if (r->all) { return 1; }
    if (!r->v6) { return 0; }
    for (k = 0; k < 16; k++) {
        ok &= (a[k] & r->c.u.in6.mask.s6_addr[k]) == r->c.u.in6.addr.s6_addr[k];
    }
    return ok;
}

static void
decide(int n, int np, int kind)
{
    int                   i, k, play, mapped, deny;
    in_addr_t             a4;
    ngx_int_t             rc;

    play = VF_ND_BOOL();
    S.interprocess = VF_ND_BOOL();

    sin4.sin_family = AF_INET;
    sin6.sin6_family = AF_INET6;
    a4 = VF_ND_U32();
    sin4.sin_addr.s_addr = a4;
    for (k = 0; k < 16; k++) { sin6.sin6_addr.s6_addr[k] = VF_ND_U8(); }
    if (kind == 2) {                    /* ::ffff:a.b.c.d */
        for (k = 0; k < 10; k++) { sin6.sin6_addr.s6_addr[k] = 0; }
        sin6.sin6_addr.s6_addr[10] = 0xff;
        sin6.sin6_addr.s6_addr[11] = 0xff;
    }
    mapped = 1;
    for (k = 0; k < 10; k++) { mapped &= sin6.sin6_addr.s6_addr[k] == 0; }
    mapped &= sin6.sin6_addr.s6_addr[10] == 0xff && sin6.sin6_addr.s6_addr[11] == 0xff;
    if (kind > 0 && kind < 3 && mapped) {
        u_char *p = (u_char *) &a4;
        for (k = 0; k < 4; k++) { p[k] = sin6.sin6_addr.s6_addr[12 + k]; }
    }

    S.sockaddr = kind == 3 ? NULL
                 : kind == 0 ? (struct sockaddr *) &sin4 : (struct sockaddr *) &sin6;

    published = played = 0;
    rc = play ? ngx_rtmp_play(&S, NULL) : ngx_rtmp_publish(&S, NULL);

    /* spec: the first rule, inner block first, that names this address and
     * this operation decides; without one, access is allowed */
    deny = 0;
    for (i = np ? NC : 0; i < n; i++) {
        if ((rules[i].flags & (play ? PLAY : PUBLISH))
            && (kind == 0 || mapped ? in4(&rules[i], a4) : in6(&rules[i], sin6.sin6_addr.s6_addr)))
        {
            deny = rules[i].deny;
            break;
        }
    }
    if (kind == 3 || (!play && S.interprocess)) { deny = 0; }

    VF_ASSERT(rc == (deny ? NGX_ERROR : NGX_OK), "the first matching rule decides");
    VF_ASSERT(published == (!deny && !play) && played == (!deny && play),
              "a denied request goes no further, an allowed one does");
    if (deny) { VF_REACH("denied"); } else { VF_REACH("allowed"); }
}

static void
one(int shape0, int shape1, int shape2)
{
    ngx_rtmp_module_t    *m = ngx_rtmp_access_module.ctx;
    void                 *parent, *child;
    int                   i, n, np, kind;

    cf.pool = &pool;
    cf.log = &vf_log;
    pool.log = &vf_log;
    S.log = &vf_log;
    S.app_conf = appconf;
    ngx_rtmp_access_module.ctx_index = 3;

    ngx_rtmp_publish = rc_publish;
    ngx_rtmp_play = rc_play;
    VF_ASSERT(m->postconfiguration(&cf) == NGX_OK, "postconfiguration");

    parent = m->create_app_conf(&cf);
    child = m->create_app_conf(&cf);
    VF_ASSUME(parent && child);

    /* NC rules in the inner block, then NP in the enclosing one */
    n = 0;
    for (i = 0; i < NC; i++) { add_rule(child, n, n == 0 ? shape0 : n == 1 ? shape1 : shape2); n++; }
    for (i = 0; i < NP; i++) { add_rule(parent, n, n == 0 ? shape0 : n == 1 ? shape1 : shape2); n++; }
    VF_ASSERT(m->merge_app_conf(&cf, parent, child) == NGX_CONF_OK, "merge");
    for (np = 0; np < 2; np++) {
        /* np: a session of the enclosing block itself */
        appconf[3] = np ? parent : child;
        for (kind = 0; kind < (np ? 2 : NC + NP > 1 ? 3 : 4); kind++) { decide(n, np, kind); }
    }
}

/* every combination of shapes: {all, v6, v4} x {both, publish, play} */
void
h_access(void)
{
    int  a, b, c;

    for (a = A0; a < A1; a++) {
        for (b = 0; b < (NC + NP > 1 ? 9 : 1); b++) {
#if (NC + NP > 2)
            /* three rules: the third shares the operations of the first */
            for (c = 0; c < 3; c++) { one(a, b, c + a / 3 * 3); }
#else
            one(a, b, 0);
#endif
        }
    }
}
