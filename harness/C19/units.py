FUNCTIONS = ['nginx-rtmp-module/ngx_live.c: ngx_live_create_conf, ngx_live_init_conf, ngx_live_create_server, ngx_live_fetch_server, '
             'ngx_live_delete_server, ngx_live_create_stream, ngx_live_fetch_stream, ngx_live_delete_stream, and the find/get/put helpers']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'nginx pools: fresh memory', 'ngx_hash_key (nginx core)']
ASSUMPTIONS = ['allocation succeeds', 'names contain no NUL byte (they are kept as C strings)']
B = ['--max-field-sensitivity-array-size', '64']
UNITS = []
for root in range(6):
    for buckets in (1, 2):
        for b in range(0, 11, 3):
            UNITS.append(dict(name='live%d_%d_%d' % (root, buckets, b), kind='bounded', src='live.c', entry='h_live', unwind=530, cbmc=B,
                object_bits=12, timeout=600, defs=['ROOT=%d' % root, 'BUCKETS=%d' % buckets, 'A0=-1', 'A1=0', 'B0=%d' % b, 'B1=%d' % min(b + 3, 11)],
                what='registry refines the abstract one', thorough_only=buckets == 2 or root in (0, 1) or (root == 5 and b not in (3, 6)),
                bound='every history of 2 operations after set-up %d, %d hash buckets' % (root, buckets)))
