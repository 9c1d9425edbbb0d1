FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_handler.c: ngx_rtmp_recv, ngx_rtmp_receive_message, ngx_rtmp_alloc_in_buf, ngx_rtmp_set_chunk_size, '
             'ngx_rtmp_finalize_set_chunk_size']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end', 'c->recv, pools, timers and posted events (nginx core)']
ASSUMPTIONS = ['allocation succeeds']
UNITS = []
def u(name, thor=False, **d):
    d = dict(dict(SCN=0, CHUNK=8, FRAG=1000), **d)
    UNITS.append(dict(name=name, kind='bounded', src='recv.c', entry='h_recv', unwind=400, timeout=100, object_bits=10,
        cbmc=['--max-field-sensitivity-array-size', '512'], thorough_only=thor, defs=['%s=%s' % kv for kv in d.items()],
        bound=' '.join('%s=%s' % kv for kv in d.items()), what='messages handled against messages sent, any content'))
for i, cs in enumerate((2, 3, 63, 64, 319, 320, 400)):
    u('csid%d' % cs, CSID=cs, MAXS=cs + 1, LEN=(9, 17, 8)[i % 3], TS=('0x010203U', '0x01ffffffU')[i % 2], FRAG=(1000, 1, 5)[i % 3], FIX=1, REPEAT=1)
for cs in (64, 319, 320, 400):
    for fr in (1, 2):
        u('split%d_%d' % (cs, fr), CSID=cs, MAXS=cs + 1, LEN=9, TS='0x01ffffffU', FRAG=fr, FIX=1, REPEAT=1)
for i, ts in enumerate(('0U', '0xfffffeU', '0xffffffU', '0x1000000U', '0xffffffffU')):
    for fix in (0, 1):
        u('ts%d_%d' % (i, fix), TS=ts, FIX=fix, REPEAT=fix, LEN=17, CSID=5, FRAG=(1, 1000, 3, 7)[i % 4])
for ln in (0, 1, 7, 8, 9, 15, 16, 24, 25):
    u('len%d' % ln, LEN=ln, TS='7U', CSID=6, REPEAT=0, FRAG=(2, 1000, 4)[ln % 3])
for fr in (1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 19, 26, 1000):
    u('inter%d' % fr, thor=fr in (4, 6, 8, 13, 19), SCN=1, FRAG=fr)
for i, (ln, ln2, new, ch, sec) in enumerate(((20, 9, 16, 8, 0), (20, 5, 2, 8, 0), (30, 9, 3, 8, 1), (20, 9, 8, 8, 0), (40, 40, 64, 8, 1), (20, 20, 1, 8, 0), (33, 33, 12, 16, 1), (50, 9, 1, 40, 0), (60, 30, 2, 40, 0))):
    for fr in (1000, 1, 9):
        u('chunk%d_%d' % (i, fr), thor=i > 2 and fr != 1000, SCN=2, LEN=ln, LEN2=ln2, NEW=new, CHUNK=ch, SEC=sec, FRAG=fr)
for b in range(5):
    u('bad%d' % b, SCN=3, BAD=b, BADFMT=0, FRAG=(1000, 3)[b % 2])
u('bad2_1', SCN=3, BAD=2, BADFMT=1)
u('limits', SCN=4, MAXM=8); u('limits3', SCN=4, MAXM=8, FRAG=3)
for a, fr in ((1, 1000), (20, 3), (33, 1), (76, 1000), (100, 7)):
    u('ack%d_%d' % (a, fr), SCN=5, ACK=a, FRAG=fr, thor=a == 20)
