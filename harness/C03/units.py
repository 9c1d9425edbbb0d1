FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_amf.c: ngx_rtmp_amf_write, ngx_rtmp_amf_write_object, ngx_rtmp_amf_write_array, ngx_rtmp_amf_put, ngx_rtmp_amf_reverse_copy']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'strlen of libc']
ASSUMPTIONS = ['little-endian host', 'the verified text is the file with one mechanical change: uint16_t/uint32_t locals without initialiser start at zero (lets constants fold)',
               'strings and keys are shorter than 64 kB']
UNITS = []
def u(name, thor=False, **d):
    d = dict(dict(SHAPE=0, CAP=64, PRE=-1, FAILAT=1000), **d)
    UNITS.append(dict(name=name, kind='bounded', src='amfw.c', entry='h_write', unwind=max(270, d['CAP'] + 2), timeout=250, object_bits=10,
        zero_locals='nginx-rtmp-module/ngx_rtmp_amf.c', cbmc=['--max-field-sensitivity-array-size', '1100'], thorough_only=thor,
        defs=['%s=%s' % kv for kv in d.items()], bound=' '.join('%s=%s' % kv for kv in d.items()), what='encoder against an independent writer, any values'))
for sh in (0, 1, 2):
    for cap in (3, 5, 7, 8, 11, 16, 23, 64, 128):
        u('shape%d_%d' % (sh, cap), SHAPE=sh, CAP=cap, thor=cap in (3, 8, 11, 23))
    for pre in (0, 3, 7, 8):
        u('pre%d_%d' % (sh, pre), SHAPE=sh, CAP=8, PRE=pre, thor=pre == 3)
    for f in (0, 1, 2, 3, 4):
        u('fail%d_%d' % (sh, f), SHAPE=sh, CAP=(64, 8, 7, 5, 4)[f], FAILAT=f, thor=f == 3)
u('long', SHAPE=5, CAP=128); u('long1', SHAPE=5, CAP=1000); u('long2', SHAPE=5, CAP=256)
for t in (4, 7, 9, 11, 0x103):
    u('bad%d' % t, SHAPE=3, BADTYPE=t)
for i in (3, 8, 10):
    u('badin%d' % i, SHAPE=4, INTO=i, BADTYPE=17, CAP=9)
