/* C07: heap against the set of its nodes: order, shape, links, traversals after every step */
#include "h.h"
#include <bfdev/heap.h>
#define MAXN 300
struct item { bfdev_heap_node_t n; int key; };
static struct item it[MAXN];
static char in[MAXN];
static long cmp(const bfdev_heap_node_t *a, const bfdev_heap_node_t *b, void *p)
{
    long *s = p;
    long ka = ((struct item *)a)->key, kb = ((struct item *)b)->key;
    return (ka < kb ? -1 : ka > kb) * *s;
}
static int seen[MAXN];
static void walk(bfdev_heap_root_t *r, bfdev_heap_node_t *n, bfdev_heap_node_t *parent, unsigned long i, long *s, unsigned long *cnt)
{
    if (!n) return;
    int k = (struct item *)n - it;
    CHECK(k >= 0 && k < MAXN && in[k], "foreign node in the heap");
    CHECK(!seen[k]++, "node reached twice");
    CHECK(n->parent == parent, "wrong parent link");
    CHECK(i <= r->count, "shape is not complete (position %lu of %lu)", i, r->count);
    if (parent) CHECK(cmp(n, parent, s) >= 0, "child orders before its parent");
    ++*cnt;
    walk(r, n->left, n, 2 * i, s, cnt);
    walk(r, n->right, n, 2 * i + 1, s, cnt);
}
static void post(bfdev_heap_node_t *n, bfdev_heap_node_t **o, unsigned *k) { if (n) { post(n->left, o, k); post(n->right, o, k); o[(*k)++] = n; } }
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 2500 * h_n; ++c) {
        CASE();
        long sgn = rnd(2) ? 1 : -1000;
        int total = 1 + rnd(rnd(3) ? 12 : MAXN - 1), keys = 1 + rnd(rnd(2) ? 5 : 1000), live = 0;
        BFDEV_HEAP_ROOT(root);
        memset(in, 0, sizeof in);
        LOG("keys below %d:", keys);
        for (int step = 0; step < 60 || (step < 400 && total > 12); ++step) {
            int k = rnd(total);
            if (!in[k] && rnd(3)) {
                it[k].key = rnd(keys); in[k] = 1; ++live;
                LOG(" insert %d (key %d)", k, it[k].key);
                bfdev_heap_insert(&root, &it[k].n, cmp, &sgn);
            } else if (in[k]) {
                if (rnd(3) == 0) { k = (struct item *)root.node - it; }
                LOG(" delete %d", k);
                bfdev_heap_delete(&root, &it[k].n, cmp, &sgn);
                in[k] = 0; --live;
            } else continue;
            unsigned long cnt = 0;
            memset(seen, 0, sizeof seen);
            walk(&root, root.node, NULL, 1, &sgn, &cnt);
            CHECK(cnt == (unsigned long)live && root.count == cnt, "holds %lu nodes, count %lu, should be %d", cnt, root.count, live);
            if (rnd(8) == 0) {
                unsigned long idx, j = 0;
                bfdev_heap_node_t *p, *q, *ord[MAXN];
                unsigned np = 0, i = 0;
                bfdev_heap_for_each(p, &idx, &root) {
                    unsigned long at = ++j;
                    q = root.node;
                    for (int d = 62 - __builtin_clzl(at); d >= 0 && q; --d) q = at >> d & 1 ? q->right : q->left;
                    CHECK(bfdev_heap_find(&root, at) == q, "find returns another node at %lu of %lu", at, root.count);
                    CHECK(p == q, "level order visits another node at %lu", at);
                }
                CHECK(j == root.count, "level order visits %lu nodes", j);
                post(root.node, ord, &np);
                bfdev_heap_post_for_each(p, &root) { CHECK(i < np && ord[i] == p, "postorder differs at %u", i); ++i; }
                CHECK(i == np, "postorder stops early");
            }
        }
    }
    return h_done();
}
