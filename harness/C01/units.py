FUNCTIONS = [
 'nginx-rtmp-module/ngx_rtmp_bitop.c: ngx_rtmp_bit_init_reader, ngx_rtmp_bit_read, ngx_rtmp_bit_read_golomb',
 'nginx-ts-module/src/ngx_ts_avc.c: ngx_ts_avc_init_reader, ngx_ts_avc_read, ngx_ts_avc_read_golomb',
]
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'memset (ngx_memzero) as a byte loop']
ASSUMPTIONS = [
 'a read asks for at most 64 bits (larger requests in the code only skip data)',
 'a buffer with more bytes left than a read can touch (9 for 64 bits, 17 for an Exp-Golomb code) behaves like one with just that many',
]
UNITS = []
for ts in (0, 1):
    f = 'ngx_ts_avc_read' if ts else 'ngx_rtmp_bit_read'
    p = 'ts_' if ts else ''
    d = ['TS'] if ts else []
    for lo, hi in ((0, 12), (13, 33), (34, 50), (51, 64)):
        UNITS.append(dict(name='%sread_%d' % (p, lo), kind='proof', src='bitop.c', entry='h_read',
            unwind=70, defs=d + ['LO=%d' % lo, 'HI=%d' % hi], reach=['read ok', 'read past end'] if hi == 33 else [],
            what='%s: %d..%d bits, every offset, every number of bytes left, all bytes' % (f, lo, hi)))
    UNITS.append(dict(name=p + 'golomb', kind='proof', src='bitop.c', entry='h_golomb', unwind=70,
        defs=d + ['LO=0', 'HI=0'], replace_calls=[(f, 'spec_read')], 
        what='%s_golomb against the contract of the reader: all codes, all truncations' % f))
