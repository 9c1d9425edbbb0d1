FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_receive.c: ngx_rtmp_protocol_message_handler, ngx_rtmp_user_message_handler, ngx_rtmp_peek, ngx_rtmp_amf_message_handler',
             'nginx-rtmp-module/ngx_rtmp_amf.c: ngx_rtmp_amf_read (string)']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'ngx_hash_find, ngx_hash_strlow (nginx core)']
ASSUMPTIONS = ['comparing pos + n with last is taken to be defined up to 40 bytes past the data',
               'in ngx_rtmp_amf.c uint16_t/uint32_t locals without initialiser start at zero (lets constants fold)']
UNITS = []
def u(name, total, cuts, thor=False, **d):
    cuts = sorted(min(c, total) for c in cuts)
    al = [0] + cuts + [total]
    d = dict(d, TOTAL=total, NB=len(cuts) + 1, CUTS=','.join(map(str, cuts)), ROOM=max(1, max(b - a for a, b in zip(al, al[1:]))))
    UNITS.append(dict(name=name, kind='bounded', src='../C08/receive.c', entry='h_receive', unwind=max(total, 140) + 2, timeout=150, object_bits=10,
        zero_locals='nginx-rtmp-module/ngx_rtmp_amf.c', cbmc=['--max-field-sensitivity-array-size', '512'], thorough_only=thor,
        defs=['%s=%s' % kv for kv in d.items()], bound='%d bytes cut at %s' % (total, cuts), what='what a message does, any content'))
for t in (1, 2, 3, 5, 6):
    for n, c in ((4, (4, 4)), (4, (1, 2)), (4, (0, 3)), (5, (2, 4)), (3, (1, 1)), (0, (0, 0)), (9, (3, 3))):
        u('ctl%d_%d_%d' % (t, n, c[0]), n, c, t in (2, 3, 6) and n in (0, 3, 5, 9), SCN=0, TYPE=t)
for n, c in ((6, (6, 6)), (6, (1, 3)), (6, (2, 4)), (10, (0, 10)), (10, (4, 7)), (10, (5, 9)), (9, (3, 6)), (5, (1, 2)), (0, (0, 0)), (14, (1, 13))):
    u('user_%d_%d' % (n, c[0]), n, c, SCN=0, TYPE=4)
def body(t, n): return n + 2 + (t in (15, 16, 17)) + (t not in (16, 19))
for i, t in enumerate((15, 16, 17, 18, 19, 20)):
    for j, (ln, rest, c, nh, rets) in enumerate(((7, 5, (3, 9), 2, 0x000), (4, 0, (30, 30), 3, 0x400), (9, 3, (1, 2), 3, 0x010), (5, 6, (2, 8), -1, 0), (0, 4, (2, 3), 1, 0), (3, 9, (5, 7), 3, 0x240), (130, 3, (60, 133), 1, 0x001))):
        u('amf%d_%d' % (t, j), body(t, ln) + rest, c, (i + j) % 2 == 1, SCN=1, TYPE=t, LEN=ln, BODY=body(t, ln), NH=nh, RETS=rets, TWICE=int((i + j) % 3 != 1))
