FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_shared_module.c: ngx_rtmp_shared_alloc_frame, ngx_rtmp_shared_append_chain, ngx_rtmp_shared_free_frame, '
             'ngx_rtmp_shared_alloc_mpegts_frame, ngx_mpegts_shared_append_chain, ngx_rtmp_shared_free_mpegts_frame, ngx_rtmp_shared_acquire_frame']
ASSUMED_SCALE = 'MPEG-TS frame buffers scaled from 1316 to 8 bytes (the code takes the capacity from the buffer)'
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'chain buffers by their contract (C17)']
ASSUMPTIONS = [ASSUMED_SCALE, 'allocation succeeds', 'fewer than 10^5 references']
UNITS = []
def u(kind, nfree, size, ln, s1, s2, parts=1, thor=False):
    UNITS.append(dict(name='%s_%d_%d_%d_%d_%d_%d' % (('rtmp', 'mpegts')[kind], nfree, size, ln, s1, s2, parts), kind='bounded', src='frames.c', entry='h_frames',
        unwind=max(ln, size, 90) + 3, timeout=150, object_bits=10, cbmc=['--max-field-sensitivity-array-size', '512'], thorough_only=thor,
        defs=['KIND=%d' % kind, 'NFREE=%d' % nfree, 'SIZE=%d' % size, 'LEN=%d' % ln, 'S1=%d' % s1, 'S2=%d' % s2, 'PARTS=%d' % parts],
        bound='%d bytes in pieces split at %d and %d, buffers of %d, %d recycled frames' % (ln, s1, s2, size, nfree),
        what='life of a shared frame, any number of references'))
for i, (size, ln, s1, s2) in enumerate(((8, 5, 0, 3), (8, 8, 8, 8), (8, 9, 8, 8), (8, 17, 3, 12), (8, 16, 8, 16), (5, 23, 1, 22), (1, 3, 1, 2))):
    u(0, i % 3, size, ln, s1, s2, (1, 2, 0)[i % 3])
    u(0, (i + 1) % 3, size, ln, s1, s2, (2, 0, 1)[i % 3], True)
for ln, s1, s2 in ((8, 8, 8), (16, 8, 8), (16, 3, 12), (1, 0, 0)):
    u(0, 1, 8, ln, s1, s2)
    u(1, 1, 8, ln, s1, s2)
for i, (ln, s1, s2) in enumerate(((8, 0, 8), (9, 3, 9), (16, 8, 8), (5, 2, 3), (25, 8, 17))):
    u(1, i % 3, 8, ln, s1, s2, (1, 2, 0)[i % 3])
