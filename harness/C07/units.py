FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_send.c: all ngx_rtmp_send_* and ngx_rtmp_create_* functions, ngx_rtmp_send_shared_packet, ngx_rtmp_append_amf, ngx_rtmp_alloc_amf_buf',
             'nginx-rtmp-module/ngx_rtmp_amf.c: ngx_rtmp_amf_write']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'shared frames and chain buffers by their contracts (C09, C17)']
ASSUMPTIONS = ['chunk_size is configured to at least 10 bytes', 'in ngx_rtmp_amf.c uint16_t/uint32_t locals without initialiser start at zero (lets constants fold)']
UNITS = []
def u(name, thor=False, **d):
    bounded = d['MSG'] >= 20
    UNITS.append(dict(name=name, kind='bounded' if bounded else 'proof', src='send.c', entry='h_send', unwind=max(120, d['CAP'] + 2), timeout=150, object_bits=10,
        zero_locals='nginx-rtmp-module/ngx_rtmp_amf.c', cbmc=['--max-field-sensitivity-array-size', '512'], thorough_only=thor,
        defs=['%s=%s' % kv for kv in d.items()], bound=' '.join('%s=%s' % kv for kv in d.items()), what='the bytes sent for any arguments'))
for m in (1, 2, 3, 5, 6, 10, 11, 12, 13, 14, 16, 17):
    u('ctl%d' % m, MSG=m, CAP=16)
S = dict(L1='"status"', L2='"NetStream.Play.Start"', L3='"Start live"')
E = dict(L1='"error"', L2='"NetConnection.Connect.Rejected"', L3='""')
for m in (20, 21, 22, 23, 24, 25):
    for cap in (128, 10, 37, 64, 256):
        u('amf%d_%d' % (m, cap), MSG=m, CAP=cap, thor=cap == 256 or (cap == 64 and m % 2 == 0) or (cap == 10 and m in (22, 24)), **(S if (m + cap) % 2 else E))
