/* C28: reference counts against exact integers, and by eight threads at once */
#include "h.h"
#include <pthread.h>
#define V_NODEBUG
#include "tu_refcnt.c"
static int64_t pick(void) { return rnd(3) ? (int64_t)rnd(9) - 1 : (int64_t)(rnd_edge() >> 2) * (rnd(2) ? 1 : -1); }
static R shared;
static long won[8], revived[8];
static volatile int go;
static void *worker(void *p)
{
    long id = (long)p;
    while (!go);
    for (int i = 0; i < 3000; ++i) {
        A old = 0;
        switch ((i + id) % 3) {
        case 0: if (!v_fetch_incnz_test(&shared, &old)) { ++revived[id]; if (old <= 0) won[id] += 1000000; v_dec(&shared); } break;
        case 1: v_inc(&shared); if (v_dec_test(&shared)) ++won[id]; break;
        default: v_add(&shared, 3); v_fetch_sub(&shared, 2, &old); if (old < 3) won[id] += 1000000; if (v_sub_test(&shared, 1)) ++won[id]; break;
        }
    }
    if (v_dec_test(&shared)) ++won[id]; /* own reference */
    for (int i = 0; i < 200; ++i) if (!v_incnz_test(&shared)) { ++revived[id]; if (v_dec_test(&shared)) ++won[id]; }
    return NULL;
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 200000 * h_n; ++c) {
        CASE();
        int64_t v = pick(), n = pick();
        R r; A old;
        LOG("count %ld operand %ld\n", (long)v, (long)n);
#define T(call, want) do { old = 0x7777; v_set(&r, v); call; if (v_get(&r) != (want)) FAIL(#call ": count is %ld, should be %ld", (long)v_get(&r), (long)(want)); } while (0)
#define RT(call, ret, want) T(if ((call) != (ret)) FAIL(#call " returned %d", !(ret)), want)
#define O(x) if (old != (x)) FAIL("previous value reported as %ld, should be %ld", (long)old, (long)(x))
        T(, v); T(v_add(&r, n), v + n); T(v_inc(&r), v + 1); T(v_fetch_inc(&r, &old), v + 1); O(v);
        T(v_sub(&r, n), v - n); T(v_dec(&r), v - 1); RT(v_sub_test(&r, n), v == n, v - n); RT(v_dec_test(&r), v == 1, v - 1);
        T(v_fetch_sub(&r, n, &old), v - n); O(v); T(v_fetch_dec(&r, &old), v - 1); O(v); RT(v_fetch_dec_test(&r, &old), v == 1, v - 1); O(v);
        int64_t nz = v ? v + n : 0, n1 = v ? v + 1 : 0;
        T(v_addnz(&r, n), nz); RT(v_addnz_test(&r, n), !v, nz); T(v_fetch_addnz(&r, n, &old), nz); O(v);
        T(v_incnz(&r), n1); RT(v_incnz_test(&r), !v, n1); T(v_fetch_incnz(&r, &old), n1); O(v); RT(v_fetch_incnz_test(&r, &old), !v, n1); O(v);
    }
    for (int round = 0; round < 40 * (int)h_n; ++round) {
        CASE();
        LOG("eight threads, round %d\n", round);
        pthread_t t[8]; long w = 0;
        v_set(&shared, 8); memset(won, 0, sizeof won); go = 0;
        for (long i = 0; i < 8; ++i) pthread_create(&t[i], NULL, worker, (void *)i);
        go = 1;
        for (int i = 0; i < 8; ++i) { pthread_join(t[i], NULL); w += won[i]; }
        CHECK(v_get(&shared) == 0, "count is %ld after all references were dropped", (long)v_get(&shared));
        CHECK(w == 1, "release reported %ld times", w);
        CHECK(v_incnz_test(&shared) && v_get(&shared) == 0, "revived from zero");
    }
    return h_done();
}
