/* C22: allocator front end (custom operations recorded) and the fixed pool */
#include "h.h"
#include <bfdev/allocpool.h>
#include <bfdev/align.h>
static struct { int op; size_t n; void *b, *pd; } last;
static char cell[64];
static void *r_al(size_t n, void *p) { last.op = 1; last.n = n; last.pd = p; return cell; }
static void *r_zal(size_t n, void *p) { last.op = 2; last.n = n; last.pd = p; return cell + 1; }
static void *r_re(void *o, size_t n, void *p) { last.op = 3; last.n = n; last.b = o; last.pd = p; return cell + 2; }
static void r_fr(void *o, void *p) { last.op = 4; last.b = o; last.pd = p; }
static void front(void)
{
    bfdev_alloc_ops_t ops = { r_al, r_zal, r_re, r_fr };
    int pd;
    bfdev_alloc_t a = { &ops, &pd };
    size_t n = rnd_edge(), m = rnd(2) ? rnd_edge() : rnd(100), t;
    void *blk = rnd(4) ? &pd : NULL;
    int ov = __builtin_mul_overflow(n, m, &t), arr = rnd(2), which = rnd(4);
    if (which == 3) arr = 0;
    if (!arr) { t = n; ov = 0; }
    LOG("op %d %s n %zx m %zx block %p", which, arr ? "array" : "plain", n, m, blk);
    memset(&last, 0, sizeof last);
    void *r = NULL;
    switch (which) {
    case 0: r = arr ? bfdev_malloc_array(&a, n, m) : bfdev_malloc(&a, n); break;
    case 1: r = arr ? bfdev_zalloc_array(&a, n, m) : bfdev_zalloc(&a, n); break;
    case 2: r = arr ? bfdev_realloc_array(&a, blk, n, m) : bfdev_realloc(&a, blk, n); break;
    case 3: bfdev_free(&a, blk); break;
    }
    int want = ov ? 0 : which == 3 ? blk ? 4 : 0 : which == 2 ? !blk ? t ? 1 : 0 : t ? 3 : 4 : t ? which + 1 : 0;
    CHECK(last.op == want, "callback %d called instead of %d", last.op, want);
    if (want) CHECK(last.pd == &pd, "wrong callback data");
    if (want && want != 4) CHECK(last.n == t, "asked for %zx bytes instead of %zx", last.n, t);
    if (want == 3 || want == 4) CHECK(last.b == blk, "wrong block");
    CHECK(r == (want && want < 4 ? cell + want - 1 : NULL), "wrong result");
}
static void deflt(void)
{
    bfdev_alloc_ops_t none = { 0 };
    bfdev_alloc_t a1 = { &none, NULL }, a2 = { NULL, NULL }, *a = rnd(3) == 0 ? NULL : rnd(2) ? &a1 : &a2;
    size_t n = 1 + rnd(4000), m = 1 + rnd(4000);
    LOG("default n %zu m %zu", n, m);
    unsigned char *p = rnd(2) ? bfdev_malloc(a, n) : bfdev_malloc_array(a, n, 1);
    CHECK(p, "no block");
    memset(p, 0x5a, n);
    p = bfdev_realloc(a, p, m);
    CHECK(p, "no block");
    for (size_t i = 0; i < n && i < m; ++i) CHECK(p[i] == 0x5a, "content lost");
    memset(p, 1, m);
    bfdev_free(a, p);
    p = rnd(2) ? bfdev_zalloc(a, n) : bfdev_zalloc_array(a, 1, n);
    CHECK(p, "no block");
    for (size_t i = 0; i < n; ++i) CHECK(!p[i], "not zeroed");
    CHECK(!bfdev_realloc(a, p, 0) && !bfdev_malloc(a, 0) && !bfdev_zalloc(a, 0), "zero size");
    bfdev_free(a, NULL);
}
static unsigned char buf[4096 + 64];
static void pool(void)
{
    size_t size = rnd(4) ? rnd(300) : rnd(4000), off = rnd(64);
    static struct { uintptr_t lo, hi; } bl[4096];
    int n = 0;
    bfdev_allocpool_t p = BFDEV_ALLOCPOOL_INIT(buf + off, size);
    LOG("pool of %zu at +%zu:", size, off);
    for (int s = 0; s < 60; ++s) {
        if (rnd(5)) {
            size_t want = rnd(8) ? rnd(40) : rnd_edge(), al = rnd(3) ? (size_t)1 << rnd(8) : rnd(8) ? 0 : (size_t)1 << rnd(64);
            LOG(" alloc(%zx,%zx)", want, al);
            uintptr_t last = p.last;
            unsigned char *r = bfdev_allocpool_alloc(&p, want, al);
            if (r) {
                uintptr_t lo = (uintptr_t)r, hi = lo + want;
                CHECK(want, "a block of no bytes");
                CHECK(lo >= (uintptr_t)(buf + off) && want <= size && hi <= (uintptr_t)(buf + off) + size, "outside the pool");
                CHECK(!(lo & 7) && (!al || !(lo & (al - 1))), "not aligned");
                for (int i = 0; i < n; ++i) CHECK(hi <= bl[i].lo || lo >= bl[i].hi, "overlaps a live block");
                bl[n].lo = lo; bl[n++].hi = hi;
            } else {
                size_t a2 = al > 8 ? al : 8;
                unsigned __int128 lo = ((unsigned __int128)(uintptr_t)(buf + off) + last + a2 - 1) / a2 * a2;
                CHECK(!want || lo + want > (unsigned __int128)(uintptr_t)(buf + off) + size, "refused although there is room");
                CHECK(p.last == last, "a refused allocation changes the pool");
            }
        } else if (n) {
            int k = rnd(n);
            bfdev_allocpool_free(&p, (void *)bl[k].lo);
            bl[k] = bl[--n];
            CHECK(p.count == (unsigned long)n, "counts %lu of %d", p.count, n);
            if (!n) CHECK(p.last == 0, "an empty pool starts over");
        } else if (rnd(3) == 0) bfdev_allocpool_reset(&p);
    }
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 20000 * h_n; ++c) {
        CASE();
        switch (rnd(3)) { case 0: front(); break; case 1: deflt(); break; default: pool(); }
    }
    return h_done();
}
