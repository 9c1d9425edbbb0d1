/*
 * The map's contract (proved of the real code by C16), executable: a list of
 * nodes with distinct keys, in the order of the map's own hash and cmp.
 */
#define VF_MAPS   4
#define VF_NODES  8
static struct { ngx_map_t *map; ngx_map_node_t *n[VF_NODES]; int cnt; } vf_maps[VF_MAPS];

static int
vf_map_of(ngx_map_t *map)
{
    int  i;

    for (i = 0; i < VF_MAPS; i++) { if (vf_maps[i].map == map) { return i; } }
    VF_ASSERT(0, "the map is initialised before use");
    return 0;
}

ngx_rbtree_key_t ngx_map_hash_uint(intptr_t k) { return (ngx_rbtree_key_t) k; }
int ngx_cmp_uint(intptr_t a, intptr_t b) { return (ngx_uint_t) a < (ngx_uint_t) b ? -1 : (ngx_uint_t) a > (ngx_uint_t) b; }

void
ngx_map_init(ngx_map_t *map, ngx_map_hash_pt hash, ngx_cmp_pt cmp)
{
    int  i;

    for (i = 0; i < VF_MAPS; i++) {
        if (vf_maps[i].map == map || vf_maps[i].map == NULL) {
            vf_maps[i].map = map;
            vf_maps[i].cnt = 0;
            return;
        }
    }
}

ngx_map_node_t *
ngx_map_find(ngx_map_t *map, intptr_t key)
{
    int  m = vf_map_of(map), i;

    for (i = 0; i < vf_maps[m].cnt; i++) {
        if (vf_maps[m].n[i]->raw_key == key) { return vf_maps[m].n[i]; }
    }
    return NULL;
}

void
ngx_map_delete(ngx_map_t *map, intptr_t key)
{
    int  m = vf_map_of(map), i, hit = 0;

    for (i = 0; i < vf_maps[m].cnt; i++) {
        if (vf_maps[m].n[i]->raw_key == key) { hit = 1; }
        if (hit && i + 1 < vf_maps[m].cnt) { vf_maps[m].n[i] = vf_maps[m].n[i + 1]; }
    }
    vf_maps[m].cnt -= hit;
}

void
ngx_map_insert(ngx_map_t *map, ngx_map_node_t *node, ngx_flag_t covered)
{
    int  m = vf_map_of(map);

    node->map = map;
    if (ngx_map_find(map, node->raw_key)) {
        if (!covered) { return; }
        ngx_map_delete(map, node->raw_key);
    }
    VF_ASSERT(vf_maps[m].cnt < VF_NODES, "harness capacity");
    vf_maps[m].n[vf_maps[m].cnt++] = node;
}
