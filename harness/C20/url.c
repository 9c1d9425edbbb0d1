/*
 * URLs, ports and socket addresses (ngx_toolkit_misc.c), against an
 * independent reading of scheme://[user@]host[:port]/path[?args][#fragment].
 */
#include "vf_mem.h"
#include "vf.h"
#include "/repo/modules/nginx-toolkit-module/ngx_toolkit_misc.c"
#include "vf_ngx.h"

#ifndef LEN
#define LEN 1
#endif

u_char *
ngx_strnstr(u_char *s1, char *s2, size_t len)      /* nginx core */
{
    u_char  c1, c2;
    size_t  n, i;

    c2 = *(u_char *) s2++;
    n = 0;
    while (s2[n]) { n++; }
    do {
        do {
            if (len-- == 0) { return NULL; }
            c1 = *s1++;
            if (c1 == 0) { return NULL; }
        } while (c1 != c2);
        if (n > len) { return NULL; }
        for (i = 0; i < n && s1[i] == (u_char) s2[i]; i++) { /* void */ }
    } while (i < n);
    return --s1;
}

/* address text: any answer; what was asked is remembered */
static u_char     *a_text;
static size_t      a_len;
static int         a_asked;
static in_addr_t   a_v4;
static u_char      a_v6[16];
static ngx_int_t   a_rc;

in_addr_t
ngx_inet_addr(u_char *text, size_t len)
{
    a_asked = 4;
    a_text = text;
    a_len = len;
    return a_v4;
}

ngx_int_t
ngx_inet6_addr(u_char *p, size_t len, u_char *addr)
{
    int  i;

    a_asked = 6;
    a_text = p;
    a_len = len;
    if (a_rc == NGX_OK) {
        for (i = 0; i < 16; i++) { addr[i] = a_v6[i]; }
    }
    return a_rc;
}

void
ngx_inet_set_port(struct sockaddr *sa, in_port_t port)
{
    if (sa->sa_family == AF_INET6) {
        ((struct sockaddr_in6 *) sa)->sin6_port = htons(port);
    } else if (sa->sa_family == AF_INET) {
        ((struct sockaddr_in *) sa)->sin_port = htons(port);
    }
}

ngx_int_t
ngx_strncasecmp(u_char *s1, u_char *s2, size_t n)
{
    u_char  c1, c2;

    while (n--) {
        c1 = *s1++;
        c2 = *s2++;
        c1 = (c1 >= 'A' && c1 <= 'Z') ? (c1 | 0x20) : c1;
        c2 = (c2 >= 'A' && c2 <= 'Z') ? (c2 | 0x20) : c2;
        if (c1 != c2) { return c1 - c2; }
        if (c1 == 0) { return 0; }
    }
    return 0;
}

ssize_t ngx_read_file_unused;
void ngx_md5_init(ngx_md5_t *ctx) {}
void ngx_md5_update(ngx_md5_t *ctx, const void *data, size_t size) {}
void ngx_md5_final(u_char result[16], ngx_md5_t *ctx) {}
u_char * ngx_cdecl ngx_sprintf(u_char *buf, const char *fmt, ...) { return buf; }

static u_char  *txt;

static void
text(void)
{
    u_char  *p;
    int      i;

    static ngx_cycle_t  cycle;

    ngx_cycle = &cycle;
    cycle.log = &vf_log;
#ifdef VF_CBMC       /* two bytes of unknown room: a pointer past the end may be formed */
    p = malloc(LEN + 2);
#else
    p = malloc(LEN ? LEN : 1);
#endif
    VF_ASSUME(p != NULL);
    for (i = 0; i < LEN; i++) {
        p[i] = VF_ND_U8();
#if LEN > 20        /* the long paths: fixed contents, the length is what matters */
        p[i] = (u_char) ('a' + i % 7);
#endif
#ifndef VF_CBMC
        if (LEN <= 20 && vf_is_random()) {   /* random runs: an alphabet that gets somewhere */
            static const char  alpha[] = "/:@?#a1[]/:?";
            if (p[i] < 128 && p[i] % 3) { p[i] = alpha[p[i] % 12]; }
        }
#endif
        VF_ASSUME(p[i] != 0);
    }
    txt = p;
}

/* ---- URL ---- */

typedef struct { int at, n; } span;
static span  e_scheme, e_user, e_host, e_port, e_path, e_args, e_frag, e_hp, e_uri;

static int
find(int from, int to, u_char c)
{
    int  i;

    for (i = 0; i < LEN; i++) {
        if (i >= from && i < to && txt[i] == c) { return i; }
    }
    return -1;
}

#define SPAN(s, a, b) do { (s).at = (a); (s).n = (b) - (a); } while (0)

static int
spec_url(void)
{
    int  i, at, end, k, path;

    at = -1;
    for (i = LEN - 3; i >= 0; i--) {
        if (txt[i] == ':' && txt[i + 1] == '/' && txt[i + 2] == '/') { at = i; }
    }
    if (at < 0) { return 0; }
    SPAN(e_scheme, 0, at);
    at += 3;
    if (at == LEN) { return 0; }
    end = find(at, LEN, '/');
    if (end < 0) { end = LEN; }
    k = find(at, end, '@');
    if (k >= 0) {
        if (k == at || k + 1 == end) { return 0; }
        SPAN(e_user, at, k);
        at = k + 1;
    }
    SPAN(e_hp, at, end);
    k = find(at, end, ':');
    if (k >= 0) {
        if (k + 1 == end) { return 0; }
        SPAN(e_host, at, k);
        SPAN(e_port, k + 1, end);
    } else {
        SPAN(e_host, at, end);
    }
    if (end + 1 >= LEN) { return 1; }
    path = end + 1;
    SPAN(e_uri, path, LEN);
    k = find(path, LEN, '?');
    if (k < 0) {
        SPAN(e_path, path, LEN);
        return 1;
    }
    SPAN(e_path, path, k);
    at = k + 1;
    if (at == LEN) { return 0; }
    k = find(at, LEN, '#');
    if (k < 0) {
        SPAN(e_args, at, LEN);
        return 1;
    }
    SPAN(e_args, at, k);
    if (k + 1 == LEN) { return 0; }
    SPAN(e_frag, k + 1, LEN);
    return 1;
}

#define SAME(f, s, name)                                                      \
    VF_ASSERT((f).len == (size_t) (s).n && ((s).n == 0 || (f).data == txt + (s).at), "url: " name)

void
h_url(void)
{
    static ngx_request_url_t  u;
    ngx_str_t                 s;
    ngx_int_t                 rc;
    int                       ok;

    text();
    s.data = txt;
    s.len = LEN;
    ok = spec_url();
    rc = ngx_parse_request_url(&u, &s);
    VF_ASSERT((rc == NGX_OK) == ok, "url: accepted exactly when it is complete");
    VF_ASSERT(rc == NGX_OK || rc == NGX_ERROR, "url: answer");
    if (ok) {
        SAME(u.scheme, e_scheme, "scheme");
        SAME(u.user, e_user, "user");
        SAME(u.host, e_host, "host");
        SAME(u.port, e_port, "port");
        SAME(u.path, e_path, "path");
        SAME(u.args, e_args, "args");
        SAME(u.fragment, e_frag, "fragment");
        SAME(u.host_with_port, e_hp, "host with port");
        SAME(u.uri_with_args, e_uri, "path and everything after it");
#if LEN > 3
        VF_REACH("a good URL");
#endif
    }
#if LEN < 4
    if (!ok) { VF_REACH("a bad URL"); }
#endif
}

/* ---- ports ---- */

#ifndef SL
#define SL 4
#endif

void
h_port(void)
{
    static u_char  sch[8];
    ngx_str_t      s, p;
    in_port_t      rc, want;
    long           v;
    int            i, bad;

    text();
    p.data = txt;
    p.len = LEN;
    for (i = 0; i < SL; i++) { sch[i] = VF_ND_U8(); }
    s.data = sch;
    s.len = SL;
    want = 0;
    if (LEN) {
        v = 0;
        bad = 0;
        for (i = 0; i < LEN; i++) {
            if (txt[i] < '0' || txt[i] > '9') { bad = 1; }
            v = v > 100000 ? v : v * 10 + (txt[i] - '0');
        }
        if (!bad && v >= 1 && v <= 65535) { want = (in_port_t) v; }
    } else {
        if (SL == 4 && !memcmp(sch, "http", 4)) { want = 80; }
        if (SL == 5 && !memcmp(sch, "https", 5)) { want = 443; }
        if (SL == 4 && !memcmp(sch, "rtmp", 4)) { want = 1935; }
    }
    rc = ngx_request_port(&s, &p);
    VF_ASSERT(rc == want, "port: the number given, or the default of the scheme, or 0");
    VF_REACH("port");
}

/* ---- socket addresses ---- */

static union { struct sockaddr sa; struct sockaddr_in s4; struct sockaddr_in6 s6; struct sockaddr_un un; } A, A0;

static long
number(int from)                    /* -1: not a port */
{
    long  v = 0;
    int   i, bad = from >= LEN;

    for (i = 0; i < LEN; i++) {
        if (i < from) { continue; }
        if (txt[i] < '0' || txt[i] > '9') { bad = 1; }
        v = v > 100000 ? v : v * 10 + (txt[i] - '0');
    }
    return bad || v > 65535 ? -1 : v;
}

void
h_sock(void)
{
    socklen_t  n;
    long       port;
    int        i;
#ifndef UNIX
    int        k, six;
#endif

    text();
    a_v4 = VF_ND_U32();
    a_rc = VF_ND_BOOL() ? NGX_OK : NGX_ERROR;
    for (i = 0; i < 16; i++) { a_v6[i] = VF_ND_U8(); }
#ifdef UNIX
    txt[0] = VF_ND_BOOL() ? 'u' : 'U'; txt[1] = 'n'; txt[2] = 'i'; txt[3] = VF_ND_BOOL() ? 'x' : 'X'; txt[4] = ':';
#else
#ifndef SIX
    int  unx = LEN >= 5 && (txt[0] | 0x20) == 'u' && (txt[1] | 0x20) == 'n' && (txt[2] | 0x20) == 'i'
          && (txt[3] | 0x20) == 'x' && txt[4] == ':';
    VF_ASSUME(!unx && (LEN == 0 || txt[0] != '['));
#else
    txt[0] = '[';
#endif
#endif
    n = ngx_sock_pton(&A.sa, txt, LEN);

#ifdef UNIX
        if (LEN == 5 || LEN - 5 > 107) {
            VF_ASSERT(n == 0, "address: no path, or one too long for a socket");
        } else {
            VF_ASSERT(n == sizeof(struct sockaddr_un) && A.un.sun_family == AF_UNIX, "address: unix");
            for (i = 0; i < LEN - 5; i++) {
                VF_ASSERT(A.un.sun_path[i] == (char) txt[i + 5], "address: the path");
            }
            VF_ASSERT(A.un.sun_path[LEN - 5] == 0, "address: terminated path");
        }
        VF_REACH("unix");
#else
    six = LEN > 0 && txt[0] == '[';
    k = find(0, LEN, six ? ']' : ':');
    port = -1;
    if (six) {
        if (k < 0) { VF_ASSERT(n == 0, "address: closed bracket"); }
#if LEN < 2 && defined(SIX)
        VF_REACH("no bracket");
#endif
        if (k < 0) { return; }
        VF_ASSERT(n == 0 || a_asked == 6, "address: v6 text");
        if (n) {
            VF_ASSERT(a_text == txt + 1 && a_len == (size_t) (k - 1), "address: v6 between the brackets");
        }
        if (a_rc != NGX_OK) { VF_ASSERT(n == 0, "address: not v6"); return; }
        if (k + 1 < LEN) {
            port = txt[k + 1] == ':' ? number(k + 2) : -1;
            if (port < 0) { VF_ASSERT(n == 0, "address: v6 port"); return; }
        }
        VF_ASSERT(n == sizeof(struct sockaddr_in6) && A.s6.sin6_family == AF_INET6, "address: v6");
        for (i = 0; i < 16; i++) {
            VF_ASSERT(A.s6.sin6_addr.s6_addr[i] == a_v6[i], "address: v6 bytes");
        }
        VF_ASSERT(A.s6.sin6_port == htons(port < 0 ? 0 : (in_port_t) port), "address: v6 port number");
#if LEN >= 2 && defined(SIX)
        VF_REACH("v6");
#endif
        return;
    }
    VF_ASSERT(a_asked == 4 && a_text == txt && a_len == (size_t) (k < 0 ? LEN : k), "address: v4 text before the colon");
    if (a_v4 == INADDR_NONE) { VF_ASSERT(n == 0, "address: not v4"); return; }
    if (k >= 0) {
        port = number(k + 1);
        if (port < 0) { VF_ASSERT(n == 0, "address: v4 port"); return; }
    }
    VF_ASSERT(n == sizeof(struct sockaddr_in) && A.s4.sin_family == AF_INET && A.s4.sin_addr.s_addr == a_v4, "address: v4");
    VF_ASSERT(A.s4.sin_port == htons(port < 0 ? 0 : (in_port_t) port), "address: v4 port number");
#ifndef SIX
    VF_REACH("v4");
#endif
#endif
}

/* ---- copies ---- */

void
h_copy(void)
{
    ngx_str_t  d, s;
    ngx_int_t  rc;
    int        i;

    text();
    s.data = txt;
    s.len = LEN;
    d.data = NULL;
    d.len = 0;
    vf_alloc_may_fail = 1;
    rc = ngx_copy_str(NULL, &d, &s);
    if (rc == NGX_OK) {
        VF_ASSERT(d.len == LEN && (LEN == 0 || d.data != s.data), "copy: length, private");
        for (i = 0; i < LEN; i++) { VF_ASSERT(d.data[i] == txt[i], "copy: bytes"); }
        VF_REACH("copied");
    } else {
        VF_ASSERT(vf_alloc_count == 0 && LEN, "copy: fails only without memory");
    }
}
