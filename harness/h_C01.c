#include "h.h"
#include <bfdev/array.h>

static uint8_t *model; static unsigned long mlen;

static void check(bfdev_array_t *a, unsigned cells)
{
    CHECK(bfdev_array_index(a) == mlen, "length %lu expected %lu", bfdev_array_index(a), mlen);
    CHECK(a->capacity >= mlen && a->cells == cells, "capacity below length");
    CHECK(bfdev_array_size(a) == mlen * cells, "size");
    if (mlen) CHECK(!memcmp(a->data, model, mlen * cells), "element values changed");
    for (int t = 0; t < 3; ++t) {
        unsigned long i = rnd(mlen + 3);
        uint8_t *p = bfdev_array_data(a, i);
        CHECK(p == (i < mlen ? (uint8_t *)a->data + i * cells : NULL), "data(%lu)", i);
    }
}

static void case1(void)
{
    unsigned cells = 1 + rnd(rnd(3) ? 8 : 40);
    bfdev_array_t a;
    CASE();
    h_alloc_reset(-1);
    bfdev_array_init(&a, &h_alloc, cells);
    mlen = 0;
    LOG("cells=%u ", cells);
    for (int t = 0, ops = 4 + rnd(40); t < ops; ++t) {
        unsigned long n = rnd(5) ? rnd(20) : rnd(200);
        int huge = rnd(6) == 0;
        if (huge) n = rnd(2) ? ~0ul - rnd(300) : ((~0ul) / cells) + rnd(100) - 50 + (rnd(2) ? 1ul << (rnd(63)) : 0);
        if (huge && n < 1ul << 40) n = ~0ul;
        if (rnd(12) == 0) h_fail_at = h_allocs; else h_fail_at = -1;
        unsigned long cap0 = a.capacity;
        switch (rnd(6)) {
        case 0: case 1: {
            LOG("push(%lu) ", n);
            uint8_t *p = bfdev_array_push(&a, n);
            if (huge) { CHECK(!p, "push of an impossible amount succeeded"); break; }
            if (mlen + n <= cap0) CHECK(p || !a.data, "push within capacity failed");
            if (!p) { CHECK(h_fail_at >= 0 || (!n && !a.data), "push failed without reason"); break; }
            CHECK(p == (uint8_t *)a.data + mlen * cells, "push position");
            CHECK((mlen + n) <= a.capacity, "push beyond capacity");
            for (unsigned long i = 0; i < n * cells; ++i) p[i] = model[mlen * cells + i] = rnd64();
            mlen += n;
            break;
        }
        case 2: {
            LOG("pop(%lu) ", n);
            uint8_t *p = bfdev_array_pop(&a, n);
            if (n > mlen) { CHECK(!p, "pop of more than stored"); break; }
            mlen -= n;
            CHECK(p == (uint8_t *)a.data + mlen * cells, "pop position");
            break;
        }
        case 3: {
            LOG("peek(%lu) ", n);
            uint8_t *p = bfdev_array_peek(&a, n);
            CHECK(p == (n > mlen ? NULL : (uint8_t *)a.data + (mlen - n) * cells), "peek");
            break;
        }
        case 4: {
            LOG("resize(%lu) ", n);
            int r = bfdev_array_resize(&a, n);
            if (huge) { CHECK(r, "impossible resize succeeded"); break; }
            if (n <= cap0) CHECK(!r, "resize within capacity failed");
            if (r) { CHECK(h_fail_at >= 0, "resize failed"); break; }
            CHECK(a.index == n && a.capacity >= n, "resize length");
            for (unsigned long i = mlen * cells; i < n * cells; ++i) ((uint8_t *)a.data)[i] = model[i] = rnd64();
            mlen = n;
            break;
        }
        case 5: {
            LOG("reserve(%lu) ", n);
            int r = bfdev_array_reserve(&a, n);
            if (huge) { CHECK(r, "impossible reserve succeeded"); break; }
            if (r) CHECK(h_fail_at >= 0 && mlen + n > cap0, "reserve failed");
            else CHECK(a.capacity - a.index >= n, "reserve too small");
            break;
        }
        }
        if (mlen > 3000) { bfdev_array_reset(&a); mlen = 0; LOG("reset "); }
        check(&a, cells);
    }
    bfdev_array_release(&a);
    CHECK(h_live == 0 && !a.data && !a.index && !a.capacity, "release");
}

int main(int argc, char **argv)
{
    h_init(argc, argv);
    model = malloc(1 << 20);
    for (unsigned long i = 0; i < h_n * 20000; ++i) case1();
    return h_done();
}
