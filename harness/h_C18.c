/* C18: every CRC against bit-by-bit polynomial division, whole and split, at every alignment */
#include "h.h"
#include <bfdev/crc.h>
static uint64_t lsb(const uint8_t *p, size_t n, uint64_t c, uint64_t poly)
{
    while (n--) { c ^= *p++; for (int i = 0; i < 8; ++i) c = c >> 1 ^ (c & 1 ? poly : 0); }
    return c;
}
static uint64_t msb(const uint8_t *p, size_t n, uint64_t c, uint64_t poly, int w)
{
    while (n--) { c ^= (uint64_t)*p++ << (w - 8); for (int i = 0; i < 8; ++i) { int t = c >> (w - 1) & 1; c <<= 1; if (w < 64) c &= (1ull << w) - 1; if (t) c ^= poly; } }
    return c;
}
static uint64_t crc4_ref(const uint8_t *p, size_t bits, uint64_t c)
{
    for (; bits; ) {
        int k = bits < 8 ? bits : 8, v = *p++ & ((1 << k) - 1);
        c = (c & 15) << 4 ^ v << 0;
        /* sixteen-bit division of crc*x^8 + byte*x^4 by x^4+x^2+x+1 */
        uint32_t r = c << 4;
        for (int i = 11; i >= 4; --i) if (r >> i & 1) r ^= 0x17u << (i - 4);
        c = r & 15;
        bits -= k;
    }
    return c;
}
#define W16(f) static uint64_t w_##f(const uint8_t *p, size_t n, uint64_t c) { return bfdev_##f(p, n, c); }
W16(crc4) W16(crc7) W16(crc8) W16(crc16) W16(crc32) W16(crc64) W16(crc_ccitt) W16(crc_itut) W16(crc_t10dif) W16(crc_rocksoft)
static const struct { const char *name; uint64_t (*f)(const uint8_t *, size_t, uint64_t); int w, le; uint64_t poly; } T[] = {
    {"crc7", w_crc7, 8, 0, 0x12}, {"crc8", w_crc8, 8, 0, 0x07}, {"crc16", w_crc16, 16, 1, 0xa001}, {"crc32", w_crc32, 32, 1, 0xedb88320},
    {"crc64", w_crc64, 64, 0, 0x42f0e1eba9ea3693ull}, {"crc_ccitt", w_crc_ccitt, 16, 1, 0x8408}, {"crc_itut", w_crc_itut, 16, 0, 0x1021},
    {"crc_t10dif", w_crc_t10dif, 16, 0, 0x8bb7}, {"crc_rocksoft", w_crc_rocksoft, 64, 1, 0x9a6c9329ac4bc9b5ull},
};
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 40000 * h_n; ++c) {
        CASE();
        int k = rnd(9), n = rnd(4) ? rnd(40) : rnd(300), al = rnd(8), cut = rnd(n + 1);
        uint64_t m = T[k].w == 64 ? ~0ull : (1ull << T[k].w) - 1, start = (rnd(3) ? rnd64() : 0) & m;
        uint8_t *mem = malloc(al + n), *p = mem + al;
        for (int i = 0; i < n; ++i) p[i] = rnd(5) ? rnd64() : 0;
        LOG("%s start %lx length %d alignment %d split %d:", T[k].name, start, n, al, cut);
        for (int i = 0; i < n && i < 40; ++i) LOG(" %02x", p[i]);
        uint64_t want = T[k].le ? lsb(p, n, start, T[k].poly) : msb(p, n, start, T[k].poly, T[k].w);
        uint64_t got = T[k].f(p, n, start), two = T[k].f(p + cut, n - cut, T[k].f(p, cut, start));
        CHECK(got == want, "%lx, should be %lx", got, want);
        CHECK(two == want, "in two pieces %lx, should be %lx", two, want);
        size_t bits = rnd(8 * n + 1);
        uint8_t *e = malloc((bits + 7) / 8);
        memcpy(e, p, (bits + 7) / 8);
        uint64_t c4 = bfdev_crc4(e, bits, start & 15);
        LOG(" crc4 bits %zu", bits);
        CHECK(c4 == crc4_ref(e, bits, start & 15), "crc4 is %lx, should be %lx", c4, crc4_ref(e, bits, start & 15));
        free(e);
        free(mem);
    }
    return h_done();
}
