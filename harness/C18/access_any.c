/*
 * The rule lookup for any number of rules, by loop contract.
 */
#include "vf_mem.h"
#include <ngx_config.h>
#undef NGX_DEBUG            /* these units drop the debug log calls */
#define NGX_DEBUG 0
#include "vf.h"
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_access_module.c"

#define PUBLISH  1
#define PLAY     2

static ngx_log_t           vf_log;
static ngx_rtmp_session_t  S;
static void               *appconf[8];
static struct sockaddr_in   sin4;
static struct sockaddr_in6  sin6;

void
ngx_log_error_core(ngx_uint_t level, ngx_log_t *log, ngx_err_t err,
    const char *fmt, ...)
{
}

static ngx_int_t  rc_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v) { return NGX_OK; }
static ngx_int_t  rc_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v) { return NGX_OK; }

/* ---- unbounded: any number of rules (loop contracts) ---- */

size_t                   vf_k, vf_n;
ngx_uint_t               vf_flag;


/* vf_k: ghost index of the first matching rule, or vf_n */

#ifdef V6
struct r6 { u_char addr[16]; u_char mask[16]; ngx_uint_t deny; ngx_uint_t flags; };
struct r6               *vf_rules;
u_char                   vf_p[16];
#define E(b)  ((vf_p[b] & vf_rules[j].mask[b]) == vf_rules[j].addr[b])
#define MATCH(j)  (E(0) & E(1) & E(2) & E(3) & E(4) & E(5) & E(6) & E(7)          \
    & E(8) & E(9) & E(10) & E(11) & E(12) & E(13) & E(14) & E(15)                  \
    & ((vf_flag & vf_rules[j].flags) != 0))
#else
struct r4 { in_addr_t mask; in_addr_t addr; ngx_uint_t deny; ngx_uint_t flags; };
struct r4               *vf_rules;
in_addr_t                vf_a;
#define MATCH(j) (((vf_a & vf_rules[j].mask) == vf_rules[j].addr) & ((vf_flag & vf_rules[j].flags) != 0))
#endif

ngx_rtmp_access_app_conf_t  vf_conf;

void
h_unb(void)
{
    size_t     j, n, k;
    ngx_int_t  rc;
    int        play;

    n = vf_range(0, 1000000);
    k = vf_range(0, 1000000);
    __CPROVER_assume(k <= n);
    vf_n = n;
    vf_k = k;
    vf_rules = malloc(n * sizeof(*vf_rules));
    __CPROVER_assume(vf_rules != NULL);
    play = VF_ND_BOOL();
    vf_flag = play ? PLAY : PUBLISH;
    S.log = &vf_log;
    S.app_conf = appconf;
    ngx_rtmp_access_module.ctx_index = 3;
    appconf[3] = &vf_conf;
    S.interprocess = 0;
    vf_log.log_level = 0;
    next_publish = rc_publish;
    next_play = rc_play;
#ifdef V6
    vf_conf.rules6.elts = vf_rules;
    vf_conf.rules6.nelts = n;
    sin6.sin6_family = AF_INET6;
    for (j = 0; j < 16; j++) { vf_p[j] = VF_ND_U8(); sin6.sin6_addr.s6_addr[j] = vf_p[j]; }
    __CPROVER_assume(vf_p[10] != 0xff);
    S.sockaddr = (struct sockaddr *) &sin6;
#else
    vf_conf.rules.elts = vf_rules;
    vf_conf.rules.nelts = n;
    sin4.sin_family = AF_INET;
    vf_a = VF_ND_U32();
    sin4.sin_addr.s_addr = vf_a;
    S.sockaddr = (struct sockaddr *) &sin4;
#endif
    j = k;
    __CPROVER_assume(k == n || MATCH(j));
#ifdef PROBE        /* vacuity probe: the instance k = 0, for the SAT back end */
    __CPROVER_assume(k == 0);
#else
    __CPROVER_assume(__CPROVER_forall { size_t j; j < vf_k ==> !MATCH(j) });
#endif

    rc = play ? ngx_rtmp_access_play(&S, NULL) : ngx_rtmp_access_publish(&S, NULL);

    if (k < n && vf_rules[k].deny) {
        VF_ASSERT(rc == NGX_ERROR, "first matching rule denies");
#ifdef PROBE
        VF_REACH("unbounded denied");
#endif
    } else {
        VF_ASSERT(rc == NGX_OK, "first matching rule allows, or there is none");
#ifdef PROBE
        VF_REACH("unbounded allowed");
#endif
    }
}
