/* C06: red-black tree against a sorted array of the live keys after every step */
#include "h.h"
#include <bfdev/rbtree.h>
#define MAXN 200
struct item { int key; int max; bfdev_rb_node_t n; };
static struct item it[MAXN * 2], *live[MAXN * 2];
static int nl;
#define ITEM(p) bfdev_rb_entry(p, struct item, n)
static long cmp(const bfdev_rb_node_t *a, const bfdev_rb_node_t *b, void *p)
{
    long *s = p, ka = ITEM(a)->key, kb = ITEM(b)->key;
    return (ka < kb ? -1 : ka > kb) * *s;
}
static long sgn;
static long findf(const bfdev_rb_node_t *a, const void *key)
{
    long ka = ITEM(a)->key, kb = *(int *)key;
    return (ka > kb ? 1 : ka < kb ? -1 : 0) * sgn;
}
#define OWN(n) ((n)->key)
BFDEV_RB_DECLARE_CALLBACKS_MAX(static, augmax, struct item, n, int, max, OWN);
static int black(bfdev_rb_node_t *n, bfdev_rb_node_t *par, int *k, int aug)
{
    if (!n) return 0;
    CHECK(n->parent == par, "wrong parent link");
    if (!n->color && par) CHECK(par->color, "red node with a red parent");
    CHECK(par || n->color, "red root");
    int m = ITEM(n)->key;
    int l = black(n->left, n, k, aug);
    CHECK(*k < nl && ITEM(n) == live[*k], "in-order position %d holds the wrong node", *k);
    ++*k;
    int r = black(n->right, n, k, aug);
    CHECK(l == r, "black heights differ");
    if (aug) {
        if (n->left && ITEM(n->left)->max > m) m = ITEM(n->left)->max;
        if (n->right && ITEM(n->right)->max > m) m = ITEM(n->right)->max;
        CHECK(m == ITEM(n)->max, "augmented maximum is stale");
    }
    return l + n->color;
}
static void pre(bfdev_rb_node_t *n, bfdev_rb_node_t **o, int *k) { if (n) { o[(*k)++] = n; pre(n->left, o, k); pre(n->right, o, k); } }
static void post(bfdev_rb_node_t *n, bfdev_rb_node_t **o, int *k) { if (n) { post(n->left, o, k); post(n->right, o, k); o[(*k)++] = n; } }
static int at(int key) { int i = 0; while (i < nl && (sgn > 0 ? live[i]->key < key : live[i]->key > key)) ++i; return i; }
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 2500 * h_n; ++c) {
        CASE();
        sgn = rnd(2) ? 1 : -1000000007L;
        int total = 1 + rnd(rnd(3) ? 14 : MAXN - 1), mode = rnd(3), grow = 1 + rnd(4);
        bfdev_rb_root_cached_t root = BFDEV_RB_CACHED_INIT();
        nl = 0;
        LOG("order %ld, %s:", sgn, mode == 0 ? "plain" : mode == 1 ? "cached" : "augmented");
        for (int step = 0; step < 80 || (step < 500 && total > 14); ++step) {
            int key = rnd(total), i = at(key), used = i < nl && live[i]->key == key;
            if (rnd(16) == 0) grow = 1 + rnd(4);
            if (!used || rnd(5) == 0) {
                if (!used && rnd(5) >= (unsigned)grow) continue;
                struct item *x = &it[key];
                if (used || (i < nl && 0)) x = &it[MAXN + key == live[i] - it ? key : MAXN + key];
                for (int k = 0; k < nl; ++k) if (live[k] == x) x = &it[MAXN + key];
                x->key = x->max = key;
                LOG(" insert %d", key);
                bool ok = mode == 0 ? bfdev_rb_insert(&root.root, &x->n, cmp, &sgn) : mode == 1 ? bfdev_rb_cached_insert(&root, &x->n, cmp, &sgn)
                    : bfdev_rb_insert_augmented(&root.root, &x->n, cmp, &sgn, &augmax);
                CHECK(ok == !used, "insert of %s key says %d", used ? "a present" : "a new", ok);
                if (ok && mode == 2) for (bfdev_rb_node_t *p = &x->n; p; p = p->parent) augmax_compute_max(ITEM(p), false);
                if (ok) { memmove(live + i + 1, live + i, sizeof *live * (nl - i)); live[i] = x; ++nl; }
            } else if (rnd(6) == 0 && mode != 2) {
                struct item *x = live[i] >= it + MAXN ? &it[key] : &it[MAXN + key];
                x->key = x->max = key;
                LOG(" replace %d", key);
                bfdev_rb_node_t old = live[i]->n;
                if (mode == 1) bfdev_rb_cached_replace(&root, &live[i]->n, &x->n); else bfdev_rb_replace(&root.root, &live[i]->n, &x->n);
                (void)old; memset(&live[i]->n, 0x5a, sizeof old);
                live[i] = x;
            } else {
                LOG(" delete %d", key);
                struct item *x = live[i];
                if (mode == 0) bfdev_rb_delete(&root.root, &x->n); else if (mode == 2) bfdev_rb_delete_augmented(&root.root, &x->n, &augmax);
                else {
                    bfdev_rb_node_t *lm = bfdev_rb_cached_delete(&root, &x->n);
                    CHECK(lm == (i == 0 && nl > 1 ? &live[1]->n : NULL), "cached delete returns the wrong leftmost");
                }
                memmove(live + i, live + i + 1, sizeof *live * (nl - i - 1)); --nl;
            }
            int k = 0;
            black(root.root.node, NULL, &k, mode == 2);
            CHECK(k == nl, "holds %d nodes, should be %d", k, nl);
            if (mode == 1) CHECK(root.leftmost == (nl ? &live[0]->n : NULL), "leftmost is stale");
            if (rnd(4) == 0) {
                bfdev_rb_node_t *p, *o[2 * MAXN], *q, **link; int j = 0, n = 0; bool lm;
                bfdev_rb_for_each(p, &root.root) { CHECK(j < nl && p == &live[j]->n, "in-order walk differs at %d", j); ++j; }
                CHECK(j == nl, "in-order walk stops early");
                bfdev_rb_for_each_reverse(p, &root.root) { --j; CHECK(j >= 0 && p == &live[j]->n, "reverse walk differs at %d", j); }
                CHECK(j == 0, "reverse walk stops early");
                pre(root.root.node, o, &n);
                bfdev_rb_pre_for_each(p, &root.root) { CHECK(j < n && p == o[j], "preorder differs at %d", j); ++j; }
                CHECK(j == n, "preorder stops early");
                j = n = 0; post(root.root.node, o, &n);
                bfdev_rb_post_for_each(p, &root.root) { CHECK(j < n && p == o[j], "postorder differs at %d", j); ++j; }
                CHECK(j == n, "postorder stops early");
                key = rnd(total + 2) - 1; i = at(key); used = i < nl && live[i]->key == key;
                p = bfdev_rb_find(&root.root, &key, findf);
                CHECK(p == (used ? &live[i]->n : NULL), "find of %d is wrong", key);
                p = bfdev_rb_find_last(&root.root, &key, findf, &q, &link, &lm);
                CHECK(p == (used ? &live[i]->n : NULL), "find_last of %d is wrong", key);
                if (!used) {
                    CHECK(*link == NULL && lm == (i == 0), "find_last: link in use or wrong leftmost");
                    CHECK(q == NULL ? nl == 0 && link == &root.root.node : (link == &q->left && i < nl && q == &live[i]->n) || (link == &q->right && i && q == &live[i - 1]->n), "find_last: wrong place");
                }
            }
        }
    }
    return h_done();
}
