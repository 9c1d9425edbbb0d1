/*
 * Accepting a connection and tearing a session down, through
 * ngx_rtmp_init_connection, the close event and ngx_rtmp_finalize_session.
 */
#define VF_WORDS
#include "vf_mem.h"
#include "vf.h"
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_init.c"
#define OUTQ  4
#ifdef VF_CBMC
/* fresh zeroed memory, the session with its queue as one typed object */
#define VF_NO_PALLOC
#include "vf_ngx.h"
struct sess { ngx_rtmp_session_t s; ngx_rtmp_frame_t *out[OUTQ]; };
struct strm { ngx_rtmp_stream_t s[2]; };
struct ptrs { void *p[OUTQ]; };
struct ctxs { void *p[8]; };
void *
ngx_pcalloc(ngx_pool_t *pool, size_t size)
{
    if (size == sizeof(struct sess)) { return __CPROVER_allocate(sizeof(struct sess), 1); }
    if (size == sizeof(struct strm)) { return __CPROVER_allocate(sizeof(struct strm), 1); }
    if (size == sizeof(struct ptrs)) { return __CPROVER_allocate(sizeof(struct ptrs), 1); }
    if (size == sizeof(struct ctxs)) { return __CPROVER_allocate(sizeof(struct ctxs), 1); }
    return __CPROVER_allocate(size, 1);
}
#else
#include "vf_ngx.h"
#endif

#ifndef NADDR
#define NADDR 2
#endif

ngx_module_t  ngx_rtmp_core_module, ngx_live_relay_module;
ngx_uint_t    ngx_rtmp_naccepted, ngx_rtmp_max_module = 8;
ngx_queue_t   ngx_posted_events;
static ngx_atomic_t  act = 1;
ngx_atomic_t *ngx_stat_active = &act;
volatile ngx_msec_t  ngx_current_msec;

static ngx_pool_t  pools[6], cpool;
static int         npool, pool_live[6], cpool_live = 1, closed, handshakes, proxies;
static ngx_rtmp_session_t  *started;

ngx_pool_t *
ngx_create_pool_debug(size_t size, ngx_log_t *log, char *file, int line)
{
    int  i = npool++;

    pool_live[i] = 1;
    return i == 0 ? &pools[0] : i == 1 ? &pools[1] : i == 2 ? &pools[2] : &pools[3];
}

void
ngx_destroy_pool_debug(ngx_pool_t *p, char *file, int line)
{
    int  i = p == &pools[0] ? 0 : p == &pools[1] ? 1 : p == &pools[2] ? 2 : 3;

    VF_ASSERT(p == &pools[i] && pool_live[i], "a session pool is destroyed once");
    pool_live[i] = 0;
}

#undef ngx_destroy_pool
void
ngx_destroy_pool(ngx_pool_t *p)
{
    VF_ASSERT(p == &cpool && cpool_live, "the connection pool is destroyed once");
    cpool_live = 0;
}

void ngx_close_connection(ngx_connection_t *c) { VF_ASSERT(!closed, "the connection is closed once"); closed++; }

static ngx_int_t  local_rc;
static struct sockaddr  *local;
ngx_int_t
ngx_connection_local_sockaddr(ngx_connection_t *c, ngx_str_t *s, ngx_uint_t port)
{
    if (local_rc == NGX_OK) { c->local_sockaddr = local; }
    return local_rc;
}

void ngx_rtmp_handshake(ngx_rtmp_session_t *s)       { handshakes++; started = s; }
void ngx_rtmp_proxy_protocol(ngx_rtmp_session_t *s)  { proxies++; started = s; }
ngx_int_t
ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
{
    s->in_chunk_size = size;
    s->in_pool = ngx_create_pool_debug(4096, NULL, "f", 1);
    return NGX_OK;
}

static int  fired_connect, fired_disconnect;
ngx_int_t
ngx_rtmp_fire_event(ngx_rtmp_session_t *s, ngx_uint_t evt, ngx_rtmp_header_t *h, ngx_chain_t *in)
{
    fired_connect += evt == NGX_RTMP_CONNECT;
    if (evt == NGX_RTMP_DISCONNECT) {
        VF_ASSERT(!closed && pool_live[0], "disconnect hooks still see the connection and the session");
        fired_disconnect++;
    }
    return NGX_OK;
}

void ngx_rtmp_free_handshake_buffers(ngx_rtmp_session_t *s) { }
void ngx_rtmp_free_merge_frame(ngx_rtmp_session_t *s) { }
static ngx_rtmp_frame_t    fr[OUTQ];
static ngx_mpegts_frame_t  tfr[OUTQ];
static int                 freed[OUTQ], nfreed;
void
ngx_rtmp_shared_free_frame(ngx_rtmp_frame_t *f)
{
    int  k;
    for (k = 0; k < OUTQ; k++) { if (f == &fr[k]) { break; } }
    VF_ASSERT(k < OUTQ && !freed[k], "a queued frame is released once");
    freed[k]++;
    nfreed++;
}
void
ngx_rtmp_shared_free_mpegts_frame(ngx_mpegts_frame_t *f)
{
    int  k;
    for (k = 0; k < OUTQ; k++) { if (f == &tfr[k]) { break; } }
    VF_ASSERT(k < OUTQ && !freed[k], "a queued frame is released once");
    freed[k]++;
    nfreed++;
}
static ngx_chain_t  ch[2];
static int  put[2];
void
ngx_put_chainbuf_debug(ngx_chain_t *cl, char *f, int l)
{
    int  k = cl == &ch[1];
    VF_ASSERT(cl == &ch[k] && !put[k], "an input buffer is returned once");
    put[k]++;

}
static int  hcf, hrf;
void ngx_http_client_finalize_request(ngx_http_request_t *r, ngx_flag_t c) { hcf++; }
void ngx_http_finalize_request(ngx_http_request_t *r, ngx_int_t rc) { hrf++; }
void ngx_http_run_posted_requests(ngx_connection_t *c) { }

static ngx_rtmp_in_addr_t   a4[4];
static ngx_rtmp_in6_addr_t  a6[4];
static ngx_rtmp_core_srv_conf_t  cscf[4];
static ngx_rtmp_conf_ctx_t  cctx[4];
static void  *mains[4], *srvs[4][2];
static ngx_rtmp_core_main_conf_t  cmcf;
static ngx_listening_t  ls;
static ngx_rtmp_port_t  port;
static ngx_connection_t  c;
static ngx_event_t  rev, wev;
static ngx_cycle_t  cyc;
static struct sockaddr_in   l4, r4;
static struct sockaddr_in6  l6, r6;
static u_char  txt[4] = "1.2", atx[4] = "a:b";

static ngx_rtmp_addr_conf_t *
conf_of(int v6, ngx_uint_t i)
{
    return v6 ? &a6[i].conf : &a4[i].conf;
}

static void
setup(int v6, ngx_uint_t n, int pp)
{
    ngx_uint_t  i;

    ngx_queue_init(&ngx_posted_events);
    ngx_cycle = &cyc;
    cyc.log = &vf_log;
    ngx_rtmp_core_module.ctx_index = 0;
    mains[0] = &cmcf;
    cmcf.variables.nelts = 1;
    for (i = 0; i < n; i++) {
        conf_of(v6, i)->default_server = &cscf[i];
        conf_of(v6, i)->addr_text.data = atx;
        conf_of(v6, i)->addr_text.len = 3;
        conf_of(v6, i)->proxy_protocol = pp;
        cscf[i].ctx = &cctx[i];
        cscf[i].out_queue = OUTQ;
        cscf[i].max_streams = 2;
        cctx[i].main_conf = mains;
        cctx[i].srv_conf = srvs[i];
        srvs[i][0] = &cscf[i];
    }
    ls.servers = &port;
    port.naddrs = n;
    port.addrs = v6 ? (void *) a6 : (void *) a4;
    c.listening = &ls;
    c.read = &rev;
    c.write = &wev;
    c.log = &vf_log;
    c.pool = &cpool;
    c.addr_text.data = txt;
    c.addr_text.len = 3;
}

#ifndef CLOSE

static void
one(int lv6, int rv6, ngx_uint_t n, int explicit)
{
    ngx_uint_t  i, k, pp = VF_ND_BOOL();
    u_char     *ra;

    setup(lv6, n, pp);
    memset(&l6.sin6_addr, 0x35, 16);
    ((u_char *) &l6.sin6_addr)[0] = 0x20;
    ((u_char *) &l6.sin6_addr)[15] = 0x07;
    l4.sin_addr.s_addr = 0x0100007f;
    l4.sin_family = AF_INET;
    l6.sin6_family = AF_INET6;
    local = lv6 ? (struct sockaddr *) &l6 : (struct sockaddr *) &l4;
    c.local_sockaddr = local;
    local_rc = NGX_OK;
    /* the first MATCH addresses differ from the local one, in one place or another */
    for (i = 0; i + 1 < n; i++) {
        a6[i].addr6 = l6.sin6_addr;
        a4[i].addr = l4.sin_addr.s_addr;
        if (i < MATCH) {
            ((u_char *) &a6[i].addr6)[i % 2 ? 0 : 15] ^= 0xff;
            a4[i].addr ^= i % 2 ? 0x01 : 0x80000000;
        }
    }

    /* the client */
    vf_fill((u_char *) &r6, sizeof(r6));
    vf_fill((u_char *) &r4, sizeof(r4));
    r6.sin6_family = AF_INET6;
    r4.sin_family = AF_INET;
    if (rv6) { c.sockaddr = (struct sockaddr *) &r6; c.socklen = sizeof(r6); ra = (u_char *) &r6; }
    else     { c.sockaddr = (struct sockaddr *) &r4; c.socklen = sizeof(r4); ra = (u_char *) &r4; }

    ngx_rtmp_init_connection(&c);

    VF_ASSERT(started != NULL && handshakes + proxies == 1 && proxies == (int) pp,
              "the session starts with the PROXY header if configured, with the handshake otherwise");
    VF_ASSERT(started->connection == &c && c.data == started, "session and connection know each other");

    /* first exact match, the wildcard (last) otherwise */
    k = MATCH;
    VF_ASSERT(started->addr_conf == conf_of(lv6, k), "the configuration of the listening address is used");
    VF_ASSERT(started->srv_conf == srvs[k] && started->main_conf == mains, "the default server of that address");

    for (k = 0; k < (rv6 ? sizeof(r6) : sizeof(r4)); k++) {
        VF_ASSERT(((u_char *) started->sockaddr)[k] == ra[k], "the whole client address is kept");
    }
    VF_ASSERT(started->remote_addr_text.len == 3 && started->remote_addr_text.data[0] == '1'
              && started->remote_addr_text.data[2] == '2', "the address text is kept");
    VF_ASSERT(!started->interprocess && started->out_pos == started->out_last && started->out_queue == OUTQ
              && started->in_chunk_size == NGX_RTMP_DEFAULT_CHUNK_SIZE && started->live_type == NGX_RTMP_LIVE
              && !started->finalized && !started->destroyed, "the session starts empty");
    VF_REACH("accepted");
#ifdef ANNOUNCE
    VF_ASSERT(fired_connect == 1, "connect hooks hear of the new connection");
#endif
}

void
h_init(void)
{
    one(LV6, RV6, NADDR, 1);
}

#else

/* one session of each kind, finalised as often as anyone likes */
void
h_close(void)
{
    ngx_rtmp_session_t  *s;
    ngx_event_t         *ev;
    ngx_queue_t         *q;
    ngx_uint_t           i, posted, pos = POS, n = NFR;
    static ngx_http_request_t  req;

    setup(0, 1, 0);
    l4.sin_family = AF_INET;
    c.sockaddr = c.local_sockaddr = (struct sockaddr *) &l4;
    c.socklen = sizeof(l4);
    ngx_rtmp_init_connection(&c);
    s = started;
    VF_ASSERT(s != NULL, "started");
    s->live_type = TYPE;
    s->request = &req;
    req.connection = &c;
    if (TYPE == NGX_HTTP_FLV_LIVE) { s->in_streams[0].in = &ch[0]; ch[0].next = &ch[1]; }
    s->relay = RELAY;

    /* n frames queued, starting anywhere in the ring */
    s->out_pos = s->out_last = pos;
    for (i = 0; i < n; i++) {
        s->out[s->out_last] = &fr[i];
        s->mpegts_out[s->out_last] = &tfr[i];
        s->out_last = (s->out_last + 1) % OUTQ;
    }

    ngx_rtmp_finalize_session(s);
    if (TYPE != NGX_HLS_LIVE) {
        ngx_rtmp_finalize_session(s);
    }

    posted = 0;
    for (q = ngx_posted_events.next, i = 0; q != &ngx_posted_events && i < 3; q = q->next, i++) {
        posted++;
        ev = ngx_queue_data(q, ngx_event_t, queue);
        VF_ASSERT(ev == &s->close && ev->handler != NULL && ev->data == s, "the close event is posted");
    }
    if (TYPE == NGX_HLS_LIVE) {
        VF_ASSERT(posted == 0, "closed at once");
    } else {
        VF_ASSERT(posted == 1, "closing is asked for once");
        VF_ASSERT(fired_disconnect == 0 && pool_live[0] && !closed, "nothing is torn down under the caller");
        s->close.handler(&s->close);
        if (TYPE != NGX_RTMP_LIVE) {
            VF_ASSERT(hcf + hrf == 1 && hcf == RELAY, "the HTTP side is finalised, client or server");
            VF_ASSERT(fired_disconnect == 0, "the session outlives the request");
            ngx_rtmp_finalize_fake_session(s);        /* from the request's cleanup */
        }
    }
    VF_ASSERT(fired_disconnect == 1, "disconnect hooks run once");
    VF_ASSERT(nfreed == (int) n, "every frame still queued is released");
    for (i = 0; i < n; i++) { VF_ASSERT(freed[i] == 1, "every frame still queued is released once"); }
    VF_ASSERT(!pool_live[0] && !pool_live[1], "the session's pools are destroyed");
    VF_ASSERT((TYPE == NGX_RTMP_LIVE) == (closed == 1) && (TYPE == NGX_RTMP_LIVE) == !cpool_live, "an RTMP connection is closed");
    VF_ASSERT(TYPE != NGX_HTTP_FLV_LIVE || (put[0] == 1 && put[1] == 1), "its input buffers are returned");
    VF_REACH("closed");
}
#endif
