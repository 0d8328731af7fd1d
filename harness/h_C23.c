/* C23: sort and binary search: all element sizes, against a stable reference order */
#include "h.h"
#include <bfdev/sort.h>
#include <bfdev/bsearch.h>
static size_t esz; static int mode; static void *thepd; static unsigned char *blk; static size_t blen;
static long keyof(const unsigned char *p)
{
    CHECK(p >= blk && p + esz <= blk + blen && (p - blk) % esz == 0, "callback given an address that is no element");
    long k = 0;
    for (size_t i = 0; i < esz && i < 4; ++i) k = k << 8 | p[i];
    switch (mode) { case 0: return k; case 1: return -k; case 2: return k & 3; default: return 0; }
}
static long cmp(const void *a, const void *b, void *pd)
{
    CHECK(pd == thepd, "callback data");
    long x = keyof(a), y = keyof(b);
    return x < y ? -1 - (long)rnd(3) * 0x2000000000000000 : x > y ? 1 + (long)rnd(2) * 0x7fffffff0000000 : 0;
}
static long want;
static long find(const void *a, void *pd) { CHECK(pd == thepd, "callback data"); long x = keyof(a); return x < want ? -5 : x > want; }
static int raw(const void *a, const void *b) { return memcmp(a, b, esz); }
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 6000 * h_n; ++c) {
        CASE();
        size_t n = rnd(3) ? rnd(14) : rnd(600);
        esz = rnd(3) ? 1 + rnd(12) : 1 + rnd(70);
        mode = rnd(4); thepd = &n; blen = n * esz;
        blk = malloc(blen + 1);
        unsigned char *ref = malloc(blen + 1);
        int dom = 1 + rnd(rnd(2) ? 4 : 256);
        for (size_t i = 0; i < blen; ++i) blk[i] = rnd(dom);
        if (rnd(4) == 0 && esz >= 2) for (size_t i = 0; i < n; ++i) { blk[i * esz] = i >> 8; blk[i * esz + 1] = i; }
        memcpy(ref, blk, blen);
        LOG("%zu elements of %zu bytes, order %d, %d values", n, esz, mode, dom);
        int r = bfdev_sort(blk, n, esz, cmp, thepd);
        CHECK(r == (n < 2 ? -BFDEV_EINVAL : 0), "returned %d", r);
        for (size_t i = 1; i < n; ++i) CHECK(keyof(blk + (i - 1) * esz) <= keyof(blk + i * esz), "positions %zu and %zu out of order", i - 1, i);
        for (int q = 0; q < 8; ++q) {
            want = n && rnd(2) ? keyof(blk + rnd(n) * esz) + (long)rnd(3) - 1 : rnd(5) - 2;
            int have = 0;
            for (size_t i = 0; i < n; ++i) have |= keyof(blk + i * esz) == want;
            unsigned char *p = bfdev_bsearch(blk, n, esz, find, thepd), *p2 = bfdev_bsearch_inline(blk, n, esz, find, thepd);
            CHECK(!p == !have && p == p2, "search for %ld: %s", want, p ? "found" : "not found");
            if (p) CHECK(keyof(p) == want, "search found another element");
        }
        unsigned char *got = malloc(blen + 1);
        memcpy(got, blk, blen);
        qsort(ref, n, esz, raw); qsort(got, n, esz, raw);
        CHECK(!memcmp(ref, got, blen), "not a permutation of the input");
        CHECK(bfdev_sort(NULL, n, esz, cmp, thepd) < 0 && bfdev_sort(blk, n, esz, NULL, thepd) < 0, "missing argument accepted");
        free(blk); free(ref); free(got);
    }
    return h_done();
}
