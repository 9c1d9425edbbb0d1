/*
 * The bit readers under contract: ngx_rtmp_bitop.c, or (with -DTS) the one in
 * ngx_ts_avc.c.  The geometry (bit offset, bytes left, bits asked for) is
 * enumerated completely up to the point where it stops mattering; the bytes
 * are symbolic.
 */
#include "vf_mem.h"
#include "vf.h"
#ifdef TS
#include "/repo/modules/nginx-ts-module/src/ngx_ts_avc.c"
typedef ngx_ts_avc_reader_t  reader_t;
#define READ    ngx_ts_avc_read
#define GOLOMB  ngx_ts_avc_read_golomb
#define SHIFT   shift
#define INIT(b, p, n)  ngx_ts_avc_init_reader(b, p, n, &vf_log)
#else
#include "/repo/modules/nginx-rtmp-module/ngx_rtmp_bitop.c"
typedef ngx_rtmp_bit_reader_t  reader_t;
#define READ    ngx_rtmp_bit_read
#define GOLOMB  ngx_rtmp_bit_read_golomb
#define SHIFT   offs
#define INIT(b, p, n)  ngx_rtmp_bit_init_reader(b, p, (p) + (n))
#endif
#include "vf_ngx.h"

#define SZ 10

static u_char    arena[SZ];
static u_char   *buf;
static size_t    len, off;
static reader_t  br;

/* spec: the n <= 64 bits that follow bit offset o, most significant first */
static uint64_t
bits(size_t o, size_t n)
{
    size_t    i;
    uint64_t  v = 0;

    for (i = 0; i < n; i++) {
        v = (v << 1) | ((buf[(o + i) >> 3] >> (7 - ((o + i) & 7))) & 1);
    }

    return v;
}

static void
setup(void)
{
    /* right-aligned: the end of the data is the end of the object */
    buf = arena + SZ - len;
    INIT(&br, buf, len);
    VF_ASSERT(br.pos == buf && br.last == arena + SZ && br.SHIFT == 0
              && br.err == 0, "a new reader stands at bit 0 without error");
    br.pos += off / 8;
    br.SHIFT = off % 8;
}

#define POS  ((size_t) (br.pos - buf) * 8 + br.SHIFT)

static void
one_read(size_t n)
{
    uint64_t  v;

    setup();
    v = READ(&br, n);

    VF_ASSERT(br.last == arena + SZ && br.pos <= br.last && br.SHIFT < 8,
              "reader stays inside the buffer");
    if (off + n <= len * 8) {
        VF_ASSERT(v == bits(off, n), "value is the next n bits, msb first");
        VF_ASSERT(POS == off + n, "reader advances by exactly n bits");
        VF_ASSERT(br.err == 0, "no error while bits remain");
        if (n == 33) { VF_REACH("read ok"); }
    } else {
        VF_ASSERT(br.err != 0, "running out of bits sets the error");
#ifndef TS
        VF_ASSERT(v == 0, "a failed read yields 0");
#else
        VF_ASSERT(READ(&br, n) == 0 && br.err != 0, "the error sticks");
#endif
        if (n == 33) { VF_REACH("read past end"); }
    }
}

/* LO..HI: bit widths of this unit */
void
h_read(void)
{
    size_t  n;

    vf_fill(arena, SZ);

    for (off = 0; off < 8; off++) {
        for (len = (off > 0); len <= 10; len++) {
            for (n = LO; n <= HI; n++) {
                one_read(n);
            }
        }
    }
}

/*
 * Exp-Golomb (ISO/IEC 14496-10 9.1): n zero bits, a one, n info bits, value
 * 2^n - 1 + info.  Codes with n >= 64 have no 64-bit value.
 *
 * Modular: the reader is replaced by its contract, stated over the abstract
 * view (g_left bits remain, the first 128 of them are g_w); the h_read units
 * prove that contract.  In native runs the real reader runs instead.
 */
static unsigned __int128  g_w;
static size_t             g_left;

#ifdef VF_CBMC
uint64_t
spec_read(reader_t *b, ngx_uint_t n)
{
    uint64_t  v;

    VF_ASSERT(b == &br && n <= 64, "reader called within its contract");

#ifdef TS
    if (b->err) { return 0; }
#endif
    if (n > g_left) {
        b->err = 1;
        g_left = 0;
#ifdef TS
        return vf_nd();          /* unspecified */
#else
        return 0;
#endif
    }

    v = n ? (uint64_t) (g_w >> (128 - n)) : 0;
    g_w <<= n;
    g_left -= n;

    return v;
}
#endif

void
h_golomb(void)
{
    size_t             n, left;
    uint64_t           v, info;
    unsigned __int128  w;

    w = ((unsigned __int128) VF_ND_U64() << 64) | VF_ND_U64();
    left = vf_range(0, 128);
    g_w = w;
    g_left = left;

#ifndef VF_CBMC
    {
        static u_char      nb[16];
        size_t             k;

        len = (left + 7) / 8;
        off = len * 8 - left;
        for (k = 0; k < len; k++) { nb[k] = (w >> off) >> (120 - 8 * k); }
        INIT(&br, nb, len);
        br.SHIFT = off;
    }
#else
    INIT(&br, arena, 0);
#endif

    v = GOLOMB(&br);

#ifndef VF_CBMC
    g_left = (br.last - br.pos) * 8 - br.SHIFT;
#endif

    for (n = 0; n < 64 && !(w >> 127); n++) { w <<= 1; }
    w <<= 1;

    if (n < 64 && 2 * n + 1 <= left) {
        info = n ? (uint64_t) (w >> (128 - n)) : 0;
        VF_ASSERT(br.err == 0, "a complete code is read without error");
        VF_ASSERT(v == ((uint64_t) 1 << n) - 1 + info, "value of the code");
        VF_ASSERT(g_left == left - (2 * n + 1), "exactly the code is consumed");
        VF_REACH("golomb ok");
    } else {
        VF_ASSERT(br.err != 0, "a truncated or over-long code sets the error");
        VF_REACH("golomb error");
    }
}
