FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_access_module.c: ngx_rtmp_access_rule, ngx_rtmp_access_create_app_conf, '
             'ngx_rtmp_access_merge_app_conf, ngx_rtmp_access_merge_rules, ngx_rtmp_access_publish, ngx_rtmp_access_play, '
             'ngx_rtmp_access, ngx_rtmp_access_inet, ngx_rtmp_access_inet6, ngx_rtmp_access_found']
TRUSTED = ['CBMC 6.11 C semantics, goto-instrument DFCC loop contracts, SAT and cvc5 back ends',
           'ngx_array_init/push/push_n (nginx core) as an append on a large enough array',
           'ngx_ptocidr (nginx core): family, mask and masked address of the text', 'ngx_inet6_ntop: debug text only']
ASSUMPTIONS = ['the configuration parser hands a directive one or two arguments, as its declaration says']
UNITS = []
B = ['--max-field-sensitivity-array-size', '1024']
W = ['vf_memcpy.0:30', 'vf_memcpy.1:200', 'vf_memset.0:30', 'vf_memset.1:200']
for nc, np in ((1, 0), (0, 1), (1, 1), (2, 0), (0, 2), (2, 1), (1, 2)):
    step = 9 if nc + np == 1 else 1
    for a in range(0, 9, step):
        UNITS.append(dict(name='access_%d%d_%d' % (nc, np, a), kind='bounded', src='access.c', entry='h_access', unwind=18,
            defs=['VF_WORDS', 'NC=%d' % nc, 'NP=%d' % np, 'A0=%d' % a, 'A1=%d' % (a + step)], timeout=800 if nc + np > 2 else 300,
            cbmc=B, object_bits=12, unwindset=W, solver='cadical',
            thorough_only=not (nc + np == 1 or (nc, np) == (1, 1) or ((nc, np) == (2, 0) and a in (1, 2))),
            bound='%d rules in the block, %d in the enclosing one' % (nc, np),
            what='configure, merge and decide: all rules, addresses (v4, v6, v4-mapped, none), operations'))
for v in ('',):     # the 16-byte IPv6 comparison under the quantifier is beyond cvc5 in 400 s
    l = dict(function='ngx_rtmp_access_inet' + v, loop=0, nloops=2 if v else 1, inv='i <= vf_k', assigns='i',
             vars={'i': 'ngx_rtmp_access_inet%s::1::i' % v})
    if v:
        l['assigns'] = 'i,n'
        l['vars']['n'] = 'ngx_rtmp_access_inet6::1::n'
    c = dict(kind='proof', src='access_any.c', entry='h_unb', noreplay=True, companion='access_20_2', soft=True,
             timeout=400, loops=[l], weight=5)
    if v:
        c['pre_unwindset'] = 'ngx_rtmp_access_inet6.0:17'
    d = ['V6'] if v else []
    UNITS.append(dict(c, name='inet%s_any' % v, defs=d, solver='cvc5', reach=[],
        what='IPv%s decision for any number of rules (loop contract, first-match ghost index)' % (v or '4')))
    UNITS.append(dict(c, name='inet%s_probe' % v, defs=d + ['PROBE'], unwind=18,
        what='vacuity probe of inet%s_any: the instance with the match at index 0' % v))
