FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_limit_module.c: ngx_rtmp_limit_create_main_conf, ngx_rtmp_limit_postconfiguration, '
             'ngx_rtmp_limit_shm_init, ngx_rtmp_limit_connect, ngx_rtmp_limit_disconnect']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'ngx_shmtx_lock/unlock give mutual exclusion between workers; the counter may change arbitrarily while unlocked (rely)',
           'ngx_shared_memory_add, ngx_slab_alloc, ngx_array_push, ngx_conf_set_num_slot (nginx core)']
ASSUMPTIONS = ['fewer than 2^32-1 connections', 'between connect and disconnect of a session the count includes it, so it is above zero at disconnect']
UNITS = [dict(name='limit', kind='proof', src='limit.c', entry='h_limit', unwind=70, timeout=200,
              what='every limit, count and interference of other workers')]
UNITS.append(dict(name='announce', kind='proof', src='../C29/init.c', entry='h_init', unwind=66, object_bits=11,
              cbmc=['--max-field-sensitivity-array-size', '1024'], defs=['NADDR=1', 'LV6=0', 'RV6=0', 'MATCH=0', 'ANNOUNCE'], timeout=300,
              what='accepting a connection runs the connect hooks, so that the limit applies'))
