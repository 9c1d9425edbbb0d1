FUNCTIONS = ['nginx-toolkit-module/ngx_map.c: every function']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end',
           'ngx_rbtree_insert/delete (nginx core): keep the in-order sequence and parent links, any tree shape',
           'ngx_memn2cmp, ngx_hash_key (nginx core)']
ASSUMPTIONS = ['a node handed to insert is not in a map already']
UNITS = [dict(name='map%d_%d' % (d, p), kind='bounded', src='map.c', entry='h_map', unwind=10, defs=['PAT=%d' % p, 'DEPTH=%d' % d],
      bound='every tree of up to %d nodes, then any operation; hash pattern %d of 5' % (d, p), thorough_only=d > 3 or p in (2, 3), timeout=800,
      what='insert, covering insert, delete, find and iteration both ways against a finite function')
      for d in (3, 4) for p in range(5)] + [
 dict(name='cmp', kind='proof', src='map.c', entry='h_cmp', what='integer comparison and hash callbacks'),
 dict(name='cmp_str', kind='bounded', src='map.c', entry='h_cmp_str', unwind=6, bound='strings up to 4 bytes', what='string comparison and hash callbacks'),
]
