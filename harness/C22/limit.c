/*
 * max_connections: the module's own configuration callbacks and the connect
 * and disconnect hooks it registers, with other workers interfering on the
 * shared counter whenever the mutex is not held.
 */
#include "vf_mem.h"
#include "vf.h"
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c"
#include "vf_ngx.h"

ngx_module_t  ngx_rtmp_core_module;
ngx_uint_t    ngx_pagesize = 4096;

static ngx_slab_pool_t  shpool;
static uint32_t         counter;
static uint32_t         at_lock;      /* value found when the mutex was taken */
static int              locked, nlock, slabs;

void
ngx_shmtx_lock(ngx_shmtx_t *mtx)
{
    VF_ASSERT(!locked && mtx == &shpool.mutex, "the zone's mutex is taken, not twice");
    locked = 1;
    nlock++;
    counter = VF_ND_U32();            /* whatever the other workers left */
    VF_ASSUME(counter < 0xffffffff && counter > 0);
    at_lock = counter;
}

static long  delta;

void
ngx_shmtx_unlock(ngx_shmtx_t *mtx)
{
    VF_ASSERT(locked && mtx == &shpool.mutex, "the zone's mutex is released");
    locked = 0;
    delta = (long) counter - (long) at_lock;
    counter = VF_ND_U32();            /* other workers go on */
}

void *
ngx_slab_alloc(ngx_slab_pool_t *pool, size_t size)
{
    VF_ASSERT(pool == &shpool && size >= sizeof(uint32_t), "the counter lives in the zone");
    slabs++;
    return &counter;
}

static ngx_rtmp_handler_pt  hc, hd;
void *
ngx_array_push(ngx_array_t *a)
{
    return a->elts;
}

static ngx_shm_zone_t  zone;
static int             zones;
ngx_shm_zone_t *
ngx_shared_memory_add(ngx_conf_t *cf, ngx_str_t *name, size_t size, void *tag)
{
    zones++;
    return &zone;
}

char *ngx_conf_set_num_slot(ngx_conf_t *cf, ngx_command_t *cmd, void *conf) { return NGX_CONF_OK; }

void
h_limit(void)
{
    static ngx_conf_t  cf;
    static ngx_pool_t  pool;
    static void  *mains[4];
    static ngx_rtmp_conf_ctx_t  ctx;
    static ngx_rtmp_core_main_conf_t  cmcf;
    static ngx_rtmp_session_t  s;
    ngx_rtmp_module_t  *m = ngx_rtmp_limit_module.ctx;
    uint32_t   before;
    ngx_int_t  rc, max;
    int        set;

    ngx_rtmp_core_module.ctx_index = 0;
    ngx_rtmp_limit_module.ctx_index = 1;
    cf.pool = &pool;
    cf.ctx = &ctx;
    ctx.main_conf = mains;
    mains[0] = &cmcf;
    mains[1] = m->create_main_conf(&cf);
    VF_ASSERT(mains[1] != NULL, "main configuration created");
    cmcf.events[NGX_RTMP_CONNECT].elts = &hc;
    cmcf.events[NGX_RTMP_DISCONNECT].elts = &hd;
    s.main_conf = mains;
    s.log = &vf_log;

    set = VF_ND_BOOL();
    max = (ngx_int_t) (uint32_t) VF_ND_U32();
    VF_ASSUME(max < 0x7fffffff);
    if (set) {       /* the generic number slot stores where the directive says */
        *(ngx_int_t *) ((char *) mains[1] + ngx_rtmp_limit_commands[0].offset) = max;
    }
    VF_ASSERT(m->postconfiguration(&cf) == NGX_OK, "configured");
    VF_ASSERT(hc != NULL && hd != NULL, "hooks on connect and disconnect are installed");
    VF_ASSERT(zones == set, "a zone is requested exactly when a limit is set");

    if (!set) {
        VF_ASSERT(hc(&s, NULL, NULL) == NGX_OK && hd(&s, NULL, NULL) == NGX_OK && nlock == 0,
                  "without a limit everyone connects");
        VF_REACH("no limit");
        return;
    }

    zone.shm.addr = (u_char *) &shpool;
    VF_ASSERT(zone.init != NULL, "the zone has an initialiser");
    if (VF_ND_BOOL()) {
        counter = 77;
        VF_ASSERT(zone.init(&zone, NULL) == NGX_OK && slabs == 1 && counter == 0,
                  "a new zone counts from zero");
    } else {
        before = counter = VF_ND_U32();
        VF_ASSERT(zone.init(&zone, &counter) == NGX_OK && slabs == 0 && counter == before,
                  "a reload keeps the count");
    }

    if (VF_ND_BOOL()) {
        rc = hc(&s, NULL, NULL);
        VF_ASSERT(nlock == 1 && !locked && delta == 1, "connect counts one, under the mutex");
        VF_ASSERT((rc == NGX_OK) == (at_lock < (uint32_t) max), "refused exactly when max are connected already");
        VF_ASSERT(rc == NGX_OK || rc == NGX_ERROR, "refusal is an error");
        if (rc == NGX_OK) { VF_REACH("admitted"); } else { VF_REACH("refused"); }
    } else {
        rc = hd(&s, NULL, NULL);
        VF_ASSERT(nlock == 1 && !locked && delta == -1 && rc == NGX_OK, "disconnect takes one off, under the mutex");
        VF_REACH("left");
    }
}
