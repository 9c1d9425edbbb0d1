import os
_g = {}
exec(open(os.path.join(os.path.dirname(__file__), '..', 'C08', 'units.py')).read().split('for t in (1,')[0], _g)
FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_receive.c: ngx_rtmp_aggregate_message_handler, ngx_rtmp_fetch, ngx_rtmp_fetch_uint8, ngx_rtmp_fetch_uint32']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end']
ASSUMPTIONS = ['the handlers of the inner messages leave the buffers as they are but for the position in the first']
UNITS = _g['UNITS']
def u(name, types, lens, cuts, cut=None, fails=0, eats=0, thor=False):
    n = sum(lens) + 15 * len(lens)
    if cut is not None: n = cut
    _g['u'](name, n, cuts, thor, SCN=2, TYPES=','.join(map(str, types)), LENS=','.join(map(str, lens)), CUT=n, FAILS=fails, EATS=eats)
for i, c in enumerate(((1, 4), (11, 12), (14, 15), (18, 33), (20, 21), (7, 40), (0, 0), (13, 30), (5, 6, 7, 8, 9, 10, 16, 17, 30))):
    u('cut%d' % i, (8, 9, 18), (5, 3, 4), c, eats=i % 2)
for ch in (1, 2, 3, 5, 8, 16):
    u('chunks%d' % ch, (9, 8), (4, 6), tuple(range(ch, 40, ch)), eats=ch % 2)
for t in range(0, 57):
    u('trunc%d' % t, (8, 9, 18), (5, 3, 4), (t // 3, t // 2 + 1), t, thor=t not in (0, 1, 3, 4, 8, 10, 11, 15, 16, 17, 19, 20, 31, 33, 34, 35, 37, 52, 53, 56))
u('empty', (8, 9), (0, 2), (11, 13)); u('empty2', (8, 9, 8), (0, 0, 0), (15, 26), eats=1)
u('fail1', (8, 9, 18), (5, 3, 4), (9, 20), fails=1); u('fail2', (8, 9, 18), (5, 3, 4), (16, 29), fails=2)
u('nested', (8, 22, 9), (5, 20, 4), (16, 29)); u('chunksize', (8, 1, 9), (5, 4, 4), (12, 31)); u('long', (9, 8), (300, 2), (128, 256))
