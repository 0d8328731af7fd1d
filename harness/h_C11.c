/* C11: hash map against an array model, through growth, shrink and failing allocations */
#include "h.h"
#include <bfdev/hashmap.h>
#define MAXK 400
struct item { long key; int id; int in; bfdev_hlist_node_t n; };
#define ITEM(p) bfdev_hlist_entry(p, struct item, n)
static struct item it[MAXK * 3];
static int hmode, extm;
static void *thepd;
static unsigned long hk(const void *key, void *pd)
{
    unsigned long k = *(const long *)key;
    CHECK(pd == thepd, "callback data not passed");
    switch (hmode) {
    case 0: return k;
    case 1: return 7;
    case 2: return k & 3;
    case 3: return k << 40;
    case 4: return ~k * 0x9E3779B97F4A7C15ull;
    default: return k & 1 ? ~0ull : 0;
    }
}
static unsigned long hn(const bfdev_hlist_node_t *n, void *pd) { return hk(&ITEM(n)->key, pd); }
static long eq(const bfdev_hlist_node_t *a, const bfdev_hlist_node_t *b, void *pd) { CHECK(pd == thepd, "callback data"); return ITEM(a)->key - ITEM(b)->key; }
static long fd(const bfdev_hlist_node_t *a, const void *key, void *pd) { CHECK(pd == thepd, "callback data"); return ITEM(a)->key - *(const long *)key; }
static bool ext(const bfdev_hashmap_t *m, void *pd) { (void)pd; return extm == 1 ? m->used >= m->capacity : m->capacity < 64 && rnd(5) == 0; }
static bool shr(const bfdev_hashmap_t *m, void *pd) { (void)pd; return extm == 1 ? m->used < m->capacity / 8 : rnd(4) == 0; }
static const bfdev_hashmap_ops_t ops0 = { hk, hn, eq, fd, NULL, NULL }, ops1 = { hk, hn, eq, fd, ext, shr };
static int cnt(long key) { int r = 0; for (int i = 0; i < MAXK * 3; ++i) r += it[i].in && it[i].key == key; return r; }
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 250 * h_n; ++c) {
        CASE();
        hmode = rnd(6); extm = rnd(3);
        int keys = 1 + rnd(rnd(2) ? 8 : MAXK - 1), bias = rnd(5), n = 0, oom = rnd(3) == 0;
        thepd = &keys;
        memset(it, 0, sizeof it);
        h_alloc_reset(-1);
        BFDEV_DEFINE_HASHMAP(m, &h_alloc, extm ? &ops1 : &ops0, thepd);
        LOG("hash %d, sizing %d, %d keys:", hmode, extm, keys);
        int steps = keys < 10 ? 100 : 500;
        for (int s = 0; s < steps; ++s) {
            long key = rnd(keys);
            if (rnd(40) == 0) bias = rnd(5);
            int have = cnt(key);
            h_fail_at = oom && rnd(3) == 0 ? h_allocs : -1;
            if (rnd(6) < 1 + (unsigned)bias) {
                int st = rnd(4), i;
                for (i = 0; i < MAXK * 3 && (it[i].in || rnd(4)); ++i) ;
                if (i == MAXK * 3) continue;
                it[i].key = key; it[i].id = i;
                it[i].n.next = (void *)8; it[i].n.pprev = (void *)16;
                bfdev_hlist_node_t *old = (void *)24;
                LOG(" %s(%ld)%s", st == 0 ? "add" : st == 1 ? "set" : st == 2 ? "update" : "append", key, h_fail_at >= 0 ? "!" : "");
                long before = h_live;
                int r = st == 0 ? bfdev_hashmap_add(&m, &it[i].n) : st == 1 ? bfdev_hashmap_set(&m, &it[i].n, &old)
                      : st == 2 ? bfdev_hashmap_update(&m, &it[i].n, &old) : bfdev_hashmap_append(&m, &it[i].n);
                if (st == 0 && have) CHECK(r == -BFDEV_EEXIST, "adding a present key returned %d", r);
                else if (st == 2 && !have) CHECK(r == -BFDEV_ENOENT, "updating an absent key returned %d", r);
                else if ((st == 1 || st == 2) && have) {
                    CHECK(r == 0 && old != (void *)24, "replacing returned %d", r);
                    CHECK(ITEM(old)->in && ITEM(old)->key == key, "replaced the wrong element");
                    ITEM(old)->in = 0; it[i].in = 1;
                } else if (r) {
                    CHECK(r == -BFDEV_ENOMEM && h_fail_at >= 0, "insertion returned %d", r);
                    CHECK(h_live == before, "failed insertion leaks");
                } else { it[i].in = 1; ++n; }
            } else if (rnd(3)) {
                bfdev_hlist_node_t *nd = (void *)24;
                LOG(" del(%ld)%s", key, h_fail_at >= 0 ? "!" : "");
                int r = bfdev_hashmap_del(&m, &key, rnd(6) ? &nd : NULL);
                CHECK(r == (have ? 0 : -BFDEV_ENOENT), "deletion returned %d", r);
                if (have) {
                    if (nd == (void *)24) { /* find out which one went */
                        unsigned long k; bfdev_hlist_node_t *p;
                        for (int i = 0; i < MAXK * 3; ++i) it[i].id = -it[i].in;
                        bfdev_hashmap_for_each(p, &m, k) ITEM(p)->id = 1;
                        int gone = 0;
                        for (int i = 0; i < MAXK * 3; ++i) if (it[i].id == -1) { ++gone; nd = &it[i].n; }
                        CHECK(gone == 1, "%d elements vanished", gone);
                    }
                    CHECK(ITEM(nd)->in && ITEM(nd)->key == key, "deleted the wrong element");
                    ITEM(nd)->in = 0; --n;
                    ITEM(nd)->n.next = (void *)8; ITEM(nd)->n.pprev = (void *)16;
                } else CHECK(nd == (void *)24, "result written on failure");
            } else {
                bfdev_hlist_node_t *p = bfdev_hashmap_find(&m, &key);
                CHECK(!p == !have, "find(%ld): %s", key, p ? "present" : "absent");
                if (p) CHECK(ITEM(p)->key == key && ITEM(p)->in, "find(%ld) returned a wrong element", key);
            }
            h_fail_at = -1;
            CHECK(m.used == (unsigned long)n, "counts %lu of %d", m.used, n);
            CHECK(h_live <= 1, "buckets leaked");
            if (s % 7 == 0 || s == steps - 1) {
                unsigned long k; bfdev_hlist_node_t *p, *t;
                int seen = 0;
                for (int i = 0; i < MAXK * 3; ++i) it[i].id = 0;
                bfdev_hashmap_for_each_safe(p, t, &m, k) { CHECK(ITEM(p)->in && !ITEM(p)->id++, "iteration meets a stray node"); ++seen; }
                CHECK(seen == n, "iteration meets %d of %d", seen, n);
                for (long q = 0; q < keys; ++q) {
                    bfdev_hlist_node_t *x = bfdev_hashmap_find(&m, &q);
                    CHECK(x ? ITEM(x)->in && ITEM(x)->key == q : !cnt(q), "find(%ld) is wrong", q);
                }
            }
        }
        bfdev_hashmap_release(&m);
        CHECK(h_live == 0 && !m.used && !m.capacity, "release");
    }
    return h_done();
}
