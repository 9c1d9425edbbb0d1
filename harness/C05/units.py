FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_handler.c: ngx_rtmp_send_message, ngx_rtmp_send, ngx_rtmp_prepare_out_chain',
             'nginx-rtmp-module/ngx_rtmp_shared_module.c: ngx_rtmp_shared_alloc_frame, ngx_rtmp_shared_append_chain, '
             'ngx_rtmp_prepare_merge_frame, ngx_rtmp_free_merge_frame, ngx_rtmp_shared_free_frame']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'chain buffers by their contract (C17)',
           'c->send_chain: sends a prefix and reports it (nginx core)', 'timers and posted events (nginx core)']
ASSUMPTIONS = ['allocation succeeds']
B = ['--max-field-sensitivity-array-size', '512']
UNITS = []
def u(name, thor=False, **d):
    d = dict(dict(CHUNK=8, MERGE=1, FIX=1, Q0=0, PERCALL=1000, SCN=0, CSID=6, TS='0x0a0b0cU', LEN=8, S1=3, S2=5), **d)
    UNITS.append(dict(name=name, kind='bounded', src='wire.c', entry='h_wire', unwind=180, cbmc=B, object_bits=10, timeout=300,
        defs=['%s=%s' % kv for kv in d.items()], thorough_only=thor,
        bound='chunk size %(CHUNK)s, %(LEN)s bytes, chunk stream %(CSID)s, timestamp %(TS)s, %(PERCALL)s bytes a write' % d if d['SCN'] == 0
              else 'three messages, chunk size %(CHUNK)s, merging %(MERGE)s, %(PERCALL)s bytes a write' % d,
        what='bytes on the wire read back as the messages queued'))
for i, cs in enumerate((2, 3, 63, 64, 65, 319, 320, 321, 575, 576, 65599)):
    u('csid%d' % cs, CSID=cs, LEN=(9, 17, 8)[i % 3], TS=('0x010203U', '0x01ffffffU')[i % 2], FIX=i % 2 if i % 4 != 3 else 1)
for i, ts in enumerate(('0', '0xfffffeU', '0xffffffU', '0x1000000U', '0x12345678U', '0xffffffffU')):
    for fix in (0, 1):
        u('ts%d_%d' % (i, fix), TS=ts, FIX=fix, LEN=17, CSID=(5, 300)[i % 2])
for ln in range(0, 26):
    u('len%d' % ln, thor=ln not in (0, 1, 7, 8, 15, 16, 24, 25), LEN=ln, S1=(ln * 3) % 11, S2=(ln * 3) % 11 + (ln * 5) % 7)
for s1 in range(0, 18):
    u('split%d' % s1, thor=s1 % 4 != 0, LEN=17, S1=s1, S2=min(17, s1 + (s1 * 7) % 9))
for pc in (1, 2, 3, 5, 7, 11, 12, 13, 16, 20, 23):
    u('part%d' % pc, thor=pc in (2, 5, 11, 13, 20), PERCALL=pc, LEN=11, TS='0x01000000U')
for m in (1, 2, 3, 64):
    for pc in (1000, 9, 17):
        u('multi%d_%d' % (m, pc), thor=m == 64 or pc == 17, SCN=1, MERGE=m, PERCALL=pc, Q0=6)
for ap, ln, s1, s2 in ((0, 17, 8, 12), (1, 17, 3, 9), (0, 16, 16, 16), (1, 16, 4, 16), (0, 8, 8, 8), (1, 24, 8, 17), (0, 9, 0, 4)):
    u('app%d_%d_%d' % (ap, ln, s1), APP=ap, LEN=ln, S1=s1, S2=s2)
