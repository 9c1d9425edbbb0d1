FUNCTIONS = ['nginx-toolkit-module/ngx_rbuf.c: ngx_get_chainbuf_debug, ngx_put_chainbuf_debug, ngx_rbuf_init, ngx_rbuf_get_buf, '
             'ngx_rbuf_put_buf, ngx_rbuf_alloc, ngx_rbuf_free',
             'nginx-toolkit-module/ngx_poold.c: ngx_create_pool_debug, ngx_destroy_pool_debug, ngx_poold_init, ngx_poold_get_node, ngx_poold_put_node']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'ngx_pcalloc: fresh zeroed memory', 'ngx_create_pool/ngx_destroy_pool',
           'the map contract, which C16 checks on the real map']
ASSUMPTIONS = ['single threaded use within one worker, as in nginx']
B = ['--max-field-sensitivity-array-size', '1024']
UNITS = [dict(name='rbuf%d' % i, kind='bounded', src='rbuf.c', entry='h_rbuf', unwind=20,
              defs=['SPLIT=%d' % i], cbmc=B, object_bits=11, timeout=800, thorough=dict(defs=['SPLIT=%d' % i, 'LAST=3']),
              bound='every history of 5 gets and puts (two sizes, with and without buffer, double puts), free lists carried over',
              what='get/put contract: no aliasing, exact capacity, clean state, double put harmless') for i in range(6)] + [
 dict(name='poold', kind='bounded', src='rbuf.c', entry='h_poold', unwind=20, defs=['POOLD'], cbmc=B, bound='every history of 3 creates and destroys over 3 pools, one after the other',
      what='tracked pools: destroyed once, double destroy harmless'),
]
