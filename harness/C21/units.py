FUNCTIONS = ['nginx-toolkit-module/ngx_dynamic_resolver.c: ngx_dynamic_resolver_add_domain, ngx_dynamic_resolver_del_domain, '
             'ngx_dynamic_resolver_start_resolver, ngx_dynamic_resolver_gethostbyname, ngx_dynamic_resolver_on_result, ngx_dynamic_resolver_on_timer, '
             'ngx_dynamic_resolver_get_ctx, ngx_dynamic_resolver_put_ctx, ngx_dynamic_resolver_get_domain, ngx_dynamic_resolver_put_domain',
             'nginx-toolkit-module/ngx_event_resolver.c: ngx_event_resolver_start_resolver, ngx_event_resolver_handler, ngx_event_resolver_get_ctx, ngx_event_resolver_put_ctx']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'ngx_resolve_start, ngx_resolve_name, ngx_resolve_name_done, ngx_hash_strlow (nginx core) by contract',
           'literal addresses by the contract of C20', 'ngx_random: one sequence of numbers per history']
ASSUMPTIONS = ['allocation succeeds', 'callbacks do not call back into the resolver']
UNITS = []
# op*10+arg: 1 add, 2 delete, 3 ask, 4 refresh, 5 k-th outstanding answer arrives, 6 it fails, 7 core resolver mode, 8 none configured, 9 literal
H = {
 'waiters': '30,30,31,20,50,50', 'waitall': '31,31,31,40,20,51,50,30,50',
 'ask': '30,50,30,31,50', 'fail': '30,60,30,50,30', 'two': '30,30,31,52,50,50', 'refresh': '10,11,40,50,51,31,30', 'again': '10,10,20,20,10,40,50,40,50',
 'delete': '30,20,50,30,50', 'late': '30,20,10,50,50', 'reuse': '30,20,11,50,40,50', 'stale': '10,40,20,31,50,50', 'three': '30,31,32,21,51,50,50',
 'nomem': '71,30,70,30,50', 'none': '72,31,40,70,31,50', 'refuse': '73,30,30,70,30,50', 'now': '74,30,31,40', 'unset': '10,80,30,40', 'literal': '90,91,92,10,40,50',
 'twice': '10,40,20,40,50,10,40,50', 'keepold': '31,50,40,60,31', 'both': '30,40,50,60', 'mid': '10,11,12,21,40,50,50,11,31,50', 'del2': '30,40,20,50,12,50,32,50'}
Q = ('waiters', 'ask', 'fail', 'two', 'delete', 'late', 'reuse', 'stale', 'refuse', 'nomem', 'none', 'unset', 'literal', 'now', 'keepold', 'refresh', 'mid')
for i, (k, v) in enumerate(H.items()):
    for b, n in ((1, 2), (2, 9), (1, 1)):
        q = k in Q and (b, n) == ((1, 2), (2, 9), (1, 2))[i % 3]
        UNITS.append(dict(name='%s_%d_%d' % (k, b, n), kind='bounded', src='resolver.c', entry='h_res', unwind=400, timeout=400,
            object_bits=10, cbmc=['--max-field-sensitivity-array-size', '512'], thorough_only=not q,
            defs=['SEQ=' + v, 'BUCKETS=%d' % b, 'NADDR=%d' % n, 'RND=%d' % (i % 2 * 3)], bound='one history of %d steps, %d addresses per answer' % (v.count(',') + 1, n),
            what='history %s: all addresses' % k))
