FUNCTIONS = ['nginx-rtmp-module/ngx_rtmp_amf.c: ngx_rtmp_amf_read, ngx_rtmp_amf_read_object, ngx_rtmp_amf_read_array, ngx_rtmp_amf_read_variant, '
             'ngx_rtmp_amf_read_nested, ngx_rtmp_amf_get, ngx_rtmp_amf_reverse_copy, ngx_rtmp_amf_is_compatible_type']
TRUSTED = ['CBMC 6.11 C semantics and its SAT back end']
ASSUMPTIONS = ['comparing pos + n with last is taken to be defined up to 40 bytes past the data', 'the verified text is the file with one mechanical change: uint16_t/uint32_t locals without initialiser start at zero (lets constants fold)', 'little-endian host', 'templates give strings a buffer of at least one byte']
UNITS = []
V = 'V'
def num(): return [0] + [V] * 8
def boo(): return [1, V]
def s(n): return [2, n >> 8, n & 255] + [V] * n
def key(k, v): return [0, len(k)] + [ord(c) for c in k] + v
END = [0, 0, 9]
def obj(*kv): return [3] + sum(kv, []) + END
def mixed(*kv): return [8, V, V, V, V] + sum(kv, []) + END
def arr(*v): return [10, 0, 0, 0, len(v)] + sum(v, [])
def deep(n, t='o'):
    if t == 'o': return sum([[3, 0, 1, 97] for _ in range(n)], []) + [5] + END * n
    return sum([[10, 0, 0, 0, 1] for _ in range(n)], []) + [5]
def u(name, tpl, msg, cuts=None, cut=None, thor=False):
    n = len(msg) if cut is None else cut
    c1, c2 = cuts or (n, n)
    c1, c2 = min(c1, n), min(c2, n)
    UNITS.append(dict(name=name, kind='bounded', src='amf.c', entry='h_read', unwind=max(len(msg), 325) + 3, timeout=100, object_bits=10, zero_locals='nginx-rtmp-module/ngx_rtmp_amf.c',
        cbmc=['--max-field-sensitivity-array-size', '2048'], thorough_only=thor,
        defs=['TPL=%d' % tpl, 'MSG=' + ','.join(map(str, msg)), 'C1=%d' % c1, 'C2=%d' % c2, 'CUT=%d' % n],
        bound='a message of %d bytes cut at %d and %d' % (n, c1, c2), what='decoder against an independent decoder, any values'))
full = s(7) + num() + obj(key('flag', boo()), key('app', s(3)), key('x', num())) + s(2)
for i, c in enumerate(((1, 2), (3, 11), (9, 10), (13, 27), (19, 20), (24, 40), (33, 36), (5, 5), (0, 30), (44, 54))):
    u('cut%d' % i, 0, full, c, thor=i in (3, 6))
for t in range(0, len(full)):
    u('trunc%d' % t, 0, full, (t // 2, t // 2 + 1), t, thor=t % 5 != 1)
junk = s(12) + num() + obj(key('ap', s(3)), key('appl', num()), key('xx', obj(key('app', s(2)), key('x', num()))), key('verylongkey', boo()), key('x', num()), key('n', [5]),
    key('app', s(9)), key('a', arr(num(), s(2), [6])), key('y', mixed(key('x', num()))), key('flag', boo()), key('x', num()))
u('junk', 0, junk); u('junk_cut', 0, junk, (26, 61)); u('junk_cut2', 0, junk, (43, 90), thor=True)
for t in (24, 30, 50, 67, 88, 101):
    u('junk_trunc%d' % t, 0, junk, (10, t - 1), t, thor=t in (30, 88))
u('mismatch', 0, num() + s(3) + obj(key('x', s(2)), key('app', num()), key('flag', obj(key('flag', boo())))) + num(), (12, 20))
u('mixed', 0, s(1) + num() + mixed(key('app', s(4)), key('x', num())) + s(3), (15, 18))
u('bounds', 0, s(8) + num() + obj(key('app', s(5))) + s(4), (4, 30)); u('bounds1', 0, s(0) + num() + obj(key('app', s(0))) + s(5))
u('null', 0, [5] + [6] + [5] + [5]); u('missing', 0, s(2) + num()); u('noopt', 0, s(2) + num() + obj())
u('unfinished', 0, s(2) + num() + [3] + key('x', num())); u('badend', 0, s(2) + num() + [3] + key('x', num()) + [0, 0, 8])
u('object_end_lost', 0, s(2) + num() + [3] + key('x', num()) + [0, 0])
u('strayend', 0, s(2) + num() + obj(key('x', [9]), key('flag', boo())) + s(2))
for t in (4, 7, 9, 11, 12, 16, 17, 255):
    u('type%d' % t, 0, s(2) + [t] + [V] * 12, thor=t in (7, 12, 16))
u('nested16', 0, s(2) + num() + deep(16) + s(2), (30, 60)); u('nested_arr', 0, s(2) + num() + deep(30, 'a') + s(2), (30, 60))
u('toodeep', 0, s(2) + num() + deep(80)); u('toodeep_arr', 0, s(2) + num() + deep(80, 'a'), (100, 101)); u('toodeep_key', 0, s(2) + num() + obj(key('app', deep(70))))
u('array', 1, arr(num(), s(3)) + num(), (7, 15)); u('array_short', 1, arr(num()) + num()); u('array_long', 1, arr(num(), s(7), num(), obj(key('x', num())), boo()) + num(), (3, 25))
u('array_none', 1, arr() + num()); u('array_huge', 1, [10, 255, 255, 255, 255] + num() + s(2)); u('array_big', 1, [10, 0, 1, 0, 0] + num() + s(2)); u('array_trunc', 1, arr(num(), s(3)), (2, 3), 18)
for i, v in enumerate((num(), s(3), boo(), s(8), [5], obj(key('x', num())), arr(num()), [99])):
    u('variant%d' % i, 2, v + num(), (1, 3)); 
u('variant_none', 2, [2], (0, 0), 0)
t3 = [V] + [V] * 2 + [V] * 4 + [V] * 8 + [0, 4] + [V] * 4
u('typeless', 3, t3); u('typeless_cut', 3, t3, (2, 10)); u('typeless_trunc', 3, t3, (4, 6), 14)
u('context', 4, s(2) + obj(key('x', num())) + num(), (6, 9)); u('context_mixed', 4, s(2) + mixed(key('x', num())) + num(), (5, 6)); u('context_other', 4, s(2) + num() + num())
lng = s(300) + num() + obj(key('k' * 258, num()), key('x', num()), key('app', s(261))) + s(256)
u('long', 0, lng); u('long_cut', 0, lng, (150, 420)); u('long_trunc', 0, lng, (150, 420), len(lng) - 1)
