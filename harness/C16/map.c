/*
 * The ordered map against its abstract view: a finite function from keys to
 * nodes.  Keys, hashes and the sequence of operations are symbolic; distinct
 * keys may share a hash.
 */
#include "vf_mem.h"
#include "vf.h"
#include "/repo/modules/nginx-toolkit-module/ngx_map.c"
#include "vf_ngx.h"
#include "vf_rbtree.h"

ngx_int_t
ngx_memn2cmp(u_char *s1, u_char *s2, size_t n1, size_t n2)
{
    size_t  k, n = n1 <= n2 ? n1 : n2;
    int     z = n1 <= n2 ? -1 : 1;

    for (k = 0; k < n; k++) {
        if (s1[k] != s2[k]) { return (ngx_int_t) s1[k] - (ngx_int_t) s2[k]; }
    }
    return n1 == n2 ? 0 : z;
}

#define NK    4
#ifndef PAT
#define PAT   0
#define DEPTH 3
#endif

/*
 * The map branches only on comparisons, so concrete keys stand for every key
 * of the same order; PAT picks which keys share a hash and how hashes order.
 */
static ngx_rbtree_key_t  pats[5][NK] = {
    { 10, 20, 30, 40 }, { 7, 7, 7, 7 }, { 40, 30, 20, 10 }, { 5, 5, 9, 9 }, { 9, 2, 9, 2 }
};
#define hv  pats[PAT]

static ngx_rbtree_key_t hash(intptr_t k) { return hv[k]; }
static int cmp(intptr_t a, intptr_t b) { return a < b ? -1 : a > b; }

static int
before(int a, int b)
{
    return hv[a] != hv[b] ? hv[a] < hv[b] : a < b;
}

static ngx_map_t        m;
static ngx_map_node_t  *view[NK], nodes[8];

static void
examine(void)
{
    ngx_map_node_t  *p, *last;
    int              k, n, j;

    n = 0;
    for (k = 0; k < NK; k++) {
        n += view[k] != NULL;
        VF_ASSERT(ngx_map_find(&m, k) == view[k],
                  "find returns the node stored under the key, or none");
    }

    /* forward: ascending order, each stored node once; prev undoes next */
    last = NULL;
    j = 0;
    for (p = ngx_map_begin(&m); p && j <= NK; p = ngx_map_next(p)) {
        VF_ASSERT(p->raw_key >= 0 && p->raw_key < NK && view[p->raw_key] == p,
                  "iteration yields stored nodes");
        if (last) {
            VF_ASSERT(before(last->raw_key, p->raw_key), "iteration is ascending");
            VF_ASSERT(ngx_map_prev(p) == last, "prev undoes next");
        } else {
            VF_ASSERT(ngx_map_prev(p) == NULL, "nothing precedes the first");
        }
        last = p;
        j++;
    }
    VF_ASSERT(j == n, "iteration visits every stored node once");
    VF_ASSERT(ngx_map_rbegin(&m) == last, "rbegin is the last node");
    if (n == 4) { VF_REACH("four keys"); }
    if (n == 0) { VF_REACH("emptied"); }
}

/* op: 0 insert, 1 covering insert, 2 delete */
static void
apply(int i, int op, int k)
{
    ngx_map_node_t  *node = &nodes[i];

    if (op < 2) {
        node->raw_key = k;
        ngx_map_insert(&m, node, op);
        if (view[k] == NULL || op) { view[k] = node; }
    } else {
        ngx_map_delete(&m, k);
        view[k] = NULL;
    }
}

/* seq: keys inserted one after the other (-1: none), then one more operation */
static void
history(int a, int b, int c, int d, int op, int k)
{
    int  i;

    for (i = 0; i < NK; i++) { view[i] = NULL; }
    ngx_map_init(&m, hash, cmp);
    if (a < 0) {
        VF_ASSERT(ngx_map_begin(&m) == NULL && ngx_map_rbegin(&m) == NULL
                  && ngx_map_find(&m, 0) == NULL, "a new map is empty");
    }
    if (a >= 0) { apply(0, 0, a); }
    if (b >= 0) { apply(1, 0, b); }
    if (c >= 0) { apply(2, 0, c); }
    if (d >= 0) { apply(3, 0, d); }
    apply(4, op, k);
    examine();
}

void
h_map(void)
{
    int  a, b, c, d, op, k;

    for (a = -1; a < NK; a++) {
        for (b = -1; b < NK; b++) {
            if (b >= 0 && (a < 0 || b == a)) { continue; }
            for (c = -1; c < NK; c++) {
                if (c >= 0 && (b < 0 || c == b || c == a)) { continue; }
                for (d = -1; d < (DEPTH > 3 ? NK : 0); d++) {
                    if (d >= 0 && (c < 0 || d == c || d == b || d == a)) { continue; }
                    for (op = 0; op < 3; op++) {
                        for (k = 0; k < NK; k++) { history(a, b, c, d, op, k); }
                    }
                }
            }
        }
    }
}

void
h_cmp(void)
{
    intptr_t  a = (intptr_t) vf_nd(), b = (intptr_t) vf_nd();

    VF_ASSERT(ngx_cmp_int(a, b) == (a < b ? -1 : a > b ? 1 : 0), "signed order");
    VF_ASSERT(ngx_cmp_uint(a, b) == ((uintptr_t) a < (uintptr_t) b ? -1
              : (uintptr_t) a > (uintptr_t) b ? 1 : 0), "unsigned order");
    VF_ASSERT(a != b || (ngx_map_hash_int(a) == ngx_map_hash_int(b)
              && ngx_map_hash_uint(a) == ngx_map_hash_uint(b)), "equal keys, equal hashes");
    VF_REACH("cmp");
}

#define SL 4
void
h_cmp_str(void)
{
    static u_char  x[SL], y[SL];
    ngx_str_t      a, b;
    size_t         k;
    int            c, r;

    vf_fill(x, SL);
    vf_fill(y, SL);
    a.data = x;
    a.len = vf_range(0, SL);
    b.data = y;
    b.len = vf_range(0, SL);

    c = 0;
    for (k = 0; k < SL && c == 0; k++) {
        if (k >= a.len || k >= b.len) {
            c = a.len < b.len ? -1 : a.len > b.len;
            break;
        }
        c = x[k] < y[k] ? -1 : x[k] > y[k];
    }
    r = ngx_cmp_str((intptr_t) &a, (intptr_t) &b);
    VF_ASSERT(r == c, "string keys are ordered lexicographically");
    VF_ASSERT(c != 0 || ngx_map_hash_str((intptr_t) &a) == ngx_map_hash_str((intptr_t) &b),
              "equal strings, equal hashes");
    if (c == 0 && a.len == SL) { VF_REACH("equal strings"); }
}
