FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_init.c: ngx_rtmp_init_connection, ngx_rtmp_create_session, ngx_rtmp_init_session, '
             'ngx_rtmp_finalize_session, ngx_rtmp_finalize_fake_session, ngx_rtmp_close_session_handler, ngx_rtmp_close_session, '
             'ngx_rtmp_close_connection, ngx_rtmp_async_finalize_http_client, ngx_rtmp_async_finalize_http_request']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'nginx pools, sockets, posted-event queue, timers (core)',
           'ngx_rtmp_fire_event, ngx_rtmp_set_chunk_size, frame and buffer release by contract']
ASSUMPTIONS = ['allocation succeeds']
B = ['--max-field-sensitivity-array-size', '1024']
UNITS = []
for n in (1, 2, 3, 4):
    for l in (0, 1):
        for m in range(n):
            r = (n + l + m) % 2
            UNITS.append(dict(name='accept_%d_%d_%d' % (n, l, m), kind='proof', src='init.c', entry='h_init', unwind=66, cbmc=B, object_bits=11,
                defs=['NADDR=%d' % n, 'LV6=%d' % l, 'RV6=%d' % r, 'MATCH=%d' % m], timeout=300, thorough_only=n == 4 or (n == 2 and m != l),
                what='%d addresses on an IPv%d port, number %d matches, IPv%d client' % (n, 6 if l else 4, m, 6 if r else 4)))
for t in (0, 1, 2, 3):
    for n, pos in ((0, 0), (1, 3), (3, 0), (3, 2)):
        for relay in ((0, 1) if t in (1, 3) else (0,)):
            UNITS.append(dict(name='close_%d_%d_%d_%d' % (t, n, pos, relay), kind='bounded', src='init.c', entry='h_close', unwind=66, cbmc=B,
                object_bits=11, defs=['CLOSE', 'TYPE=%d' % t, 'NFR=%d' % n, 'POS=%d' % pos, 'RELAY=%d' % relay],
                bound='%d frames queued from slot %d of 4' % (n, pos), thorough_only=(n, pos) not in ((3, 2), (0, 0)),
                what='tear-down of a session of type %d' % t))
