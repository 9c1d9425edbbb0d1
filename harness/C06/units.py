FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_handler.c: ngx_rtmp_send_message, ngx_rtmp_send',
             'nginx-rtmp-module/ngx_rtmp_shared_module.c: ngx_rtmp_prepare_merge_frame']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'posted events and timers (nginx core)']
ASSUMPTIONS = ['fewer than 10^6 references to a frame', 'priority below 64']
UNITS = []
for q in (2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 31, 64, 256, 2048):
    UNITS.append(dict(name="queue%d" % q, thorough_only=q == 2048, kind='proof', src='../C05/wire.c', entry='h_queue', unwind=3, timeout=120,
        defs=['OUTQ=%d' % q, 'CHUNK=8', 'MERGE=1', 'FIX=0', 'Q0=0', 'PERCALL=1000', 'SCN=0', 'CSID=6', 'TS=0', 'LEN=1', 'S1=0', 'S2=0'],
        cbmc=['--max-field-sensitivity-array-size', '64'], object_bits=10,
        what='room rule, position, reference and scheduling for every fill, position and priority of a queue of %d' % q))


def accepted(q, merge, per, ops):
    """the number of messages accepted, by an independent model of the queue"""
    waiting, flight, acc = 0, 0, 0
    for o in ops:
        if o == 'w':
            while True:
                if flight == 0:
                    k = min(merge, waiting)
                    waiting -= k
                    flight = 13 * k          # 12 bytes of header and one of payload
                    if flight == 0:
                        break
                flight -= min(per, flight)
                if flight:
                    break
        elif waiting + 1 + min(3, int(o)) * q // 4 < q:
            waiting += 1
            acc += 1
    return acc


for q, q0, m, pc, ops in ((4, 2, 1, 13, '00w00w0w'), (4, 3, 2, 20, '0000w000'), (3, 0, 64, 7, '0w0w00w0'), (8, 7, 3, 1000, '3322w1100'),
                               (2, 1, 1, 5, '00w0w0ww0w'), (5, 4, 2, 1000, '000w1230w0'), (2, 0, 1, 1000, '0w0w0w0w')):
    UNITS.append(dict(name='fifo_%d_%s' % (q, ops), kind='bounded', src='../C05/wire.c', entry='h_fifo', unwind=60, timeout=150,
        defs=['OUTQ=%d' % q, 'CHUNK=8', 'MERGE=%d' % m, 'FIX=0', 'Q0=%d' % q0, 'PERCALL=%d' % pc, 'SCN=0', 'CSID=6', 'TS=0', 'LEN=1', 'S1=0', 'S2=0',
              'OPS="%s"' % ops, 'NACC=%d' % accepted(q, m, pc, ops)],
        cbmc=['--max-field-sensitivity-array-size', '512'], object_bits=10, bound='history %s on a queue of %d, %d bytes a write' % (ops, q, pc),
        what='what arrives is what was accepted, in order, once'))
