#include "h.h"
#include <bfdev/hlist.h>
#include <bfdev/slist.h>
#include <bfdev/llist.h>
#include <bfdev/hashtbl.h>
#define MAXN 48
typedef struct { int v; bfdev_hlist_node_t h; bfdev_slist_head_t s; } N;
static N nodes[MAXN]; static int used[MAXN];
static N *A[2][MAXN]; static int n[2];
static N *freshn(void) { for (int t = 0; t < 200; ++t) { int i = rnd(MAXN); if (!used[i]) { used[i] = 1; return &nodes[i]; } } return NULL; }
static void insat(int w, int q, N *x) { memmove(A[w] + q + 1, A[w] + q, (n[w] - q) * sizeof *A[w]); A[w][q] = x; ++n[w]; }
static void remat(int w, int q) { used[A[w][q] - nodes] = 0; memmove(A[w] + q, A[w] + q + 1, (n[w] - q - 1) * sizeof *A[w]); --n[w]; }

static void hcheck(bfdev_hlist_head_t *h, int w)
{
    bfdev_hlist_node_t **pp = &h->node; int m = n[w]; N **a = A[w];
    for (int i = 0; i < m; ++i) {
        CHECK(*pp == &a[i]->h, "hlist %d: next link %d of %d", w, i, m);
        CHECK(a[i]->h.pprev == pp, "hlist %d: pprev of node %d of %d", w, i, m);
        pp = &a[i]->h.next;
    }
    CHECK(*pp == NULL, "hlist %d not terminated after %d", w, m);
    CHECK(bfdev_hlist_check_empty(h) == !m, "empty");
    N *p, *t; int k = 0; bfdev_hlist_node_t *q, *qt;
    bfdev_hlist_for_each_entry(p, h, h) { CHECK(k < m && p == a[k], "entry iteration"); ++k; } CHECK(k == m, "short"); k = 0;
    bfdev_hlist_for_each_entry_safe(p, t, h, h) { CHECK(k < m && p == a[k], "entry safe iteration"); ++k; } CHECK(k == m, "short"); k = 0;
    bfdev_hlist_for_each(q, h) { CHECK(k < m && q == &a[k]->h, "iteration"); ++k; } CHECK(k == m, "short"); k = 0;
    bfdev_hlist_for_each_safe(q, qt, h) { CHECK(k < m && q == &a[k]->h, "safe iteration"); ++k; } CHECK(k == m, "short");
    if (m) {
        int i = rnd(m);
        p = a[k = i]; bfdev_hlist_for_each_entry_from(p, h) { CHECK(k < m && p == a[k], "from"); ++k; } CHECK(k == m, "from short");
        p = a[i]; k = i + 1; bfdev_hlist_for_each_entry_continue(p, h) { CHECK(k < m && p == a[k], "continue"); ++k; } CHECK(k == m, "continue short");
        p = a[k = i]; bfdev_hlist_for_each_entry_from_safe(p, t, h) { CHECK(k < m && p == a[k], "from_safe"); ++k; } CHECK(k == m, "from_safe short");
        p = a[i]; k = i + 1; bfdev_hlist_for_each_entry_continue_safe(p, t, h) { CHECK(k < m && p == a[k], "continue_safe"); ++k; } CHECK(k == m, "continue_safe short");
        CHECK(bfdev_hlist_check_first(h, &a[i]->h) == (i == 0) && bfdev_hlist_check_end(&a[i]->h) == (i == m - 1) && bfdev_hlist_check_another(h, &a[i]->h) == (m == 1), "first/end/another");
        CHECK(!bfdev_hlist_check_unhashed(&a[i]->h), "unhashed");
    }
}
static void hops(void)
{
    CASE(); memset(used, 0, sizeof used);
    bfdev_hlist_head_t H[2]; n[0] = n[1] = 0;
    bfdev_hlist_head_init(&H[0]); bfdev_hlist_head_init(&H[1]);
    for (int s = 0; s < 60; ++s) {
        int w = rnd(2), op = rnd(9);
        if (op < 4 || !n[w]) {
            if (n[0] + n[1] > 40) continue;
            N *x = freshn(); if (!x) continue;
            int q = n[w] ? rnd(n[w]) : 0;
            if (op == 1 && n[w]) { LOG("next_add%d(%d) ", w, q); bfdev_hlist_next_add(&A[w][q]->h, &x->h); insat(w, q + 1, x); }
            else if (op == 2 && n[w]) { LOG("prev_add%d(%d) ", w, q); bfdev_hlist_prev_add(&A[w][q]->h, &x->h); insat(w, q, x); }
            else { LOG("head_add%d ", w); bfdev_hlist_head_add(&H[w], &x->h); insat(w, 0, x); }
        } else if (op < 7) {
            int q = rnd(n[w]); N *x = A[w][q]; LOG("del%d(%d,%d) ", w, op, q);
            if (op == 4) bfdev_hlist_del(&x->h); else if (op == 5) bfdev_hlist_deluf(&x->h);
            else { bfdev_hlist_del_init(&x->h); CHECK(bfdev_hlist_check_unhashed(&x->h) && !x->h.next, "del_init leaves unhashed"); }
            remat(w, q);
        } else if (op == 7) {
            int q = rnd(n[w]); N *x = freshn(); if (!x) continue; LOG("replace%d(%d) ", w, q);
            bfdev_hlist_replace(&A[w][q]->h, &x->h); used[A[w][q] - nodes] = 0; A[w][q] = x;
        } else if (n[!w] == 0) {
            LOG("head_replace%d ", w);
            bfdev_hlist_head_replace(&H[w], &H[!w]);
            memcpy(A[!w], A[w], sizeof A[w]); n[!w] = n[w]; n[w] = 0;
        }
        hcheck(&H[0], 0); hcheck(&H[1], 1);
    }
}
static void scheck(bfdev_slist_head_t *h)
{
    int m = n[0], k = 0; N **a = A[0], *p, *t; bfdev_slist_head_t *q = h, *qt;
    for (int i = 0; i < m; ++i) { CHECK(q->next == &a[i]->s, "slist link %d of %d", i, m); q = q->next; }
    CHECK(!q->next, "slist not terminated"); CHECK(bfdev_slist_check_empty(h) == !m, "empty");
    bfdev_slist_for_each_entry(p, h, s) { CHECK(k < m && p == a[k], "entry"); ++k; } CHECK(k == m, "short"); k = 0;
    bfdev_slist_for_each_entry_safe(p, t, h, s) { CHECK(k < m && p == a[k], "entry safe"); ++k; } CHECK(k == m, "short"); k = 0;
    bfdev_slist_for_each(q, h) { CHECK(k < m && q == &a[k]->s, "each"); ++k; } CHECK(k == m, "short"); k = 0;
    bfdev_slist_for_each_safe(q, qt, h) { CHECK(k < m && q == &a[k]->s, "each safe"); ++k; } CHECK(k == m, "short");
    if (m) {
        int i = rnd(m);
        p = a[k = i]; bfdev_slist_for_each_entry_from(p, s) { CHECK(k < m && p == a[k], "from"); ++k; } CHECK(k == m, "from short");
        p = a[i]; k = i + 1; bfdev_slist_for_each_entry_continue(p, s) { CHECK(k < m && p == a[k], "continue"); ++k; } CHECK(k == m, "continue short");
        CHECK(bfdev_slist_check_first(h, &a[i]->s) == (i == 0) && bfdev_slist_check_end(&a[i]->s) == (i == m - 1) && bfdev_slist_check_another(h, &a[i]->s) == (m == 1), "first/end/another");
    }
}
static void sops(int ll)
{
    CASE(); memset(used, 0, sizeof used); n[0] = 0;
    bfdev_slist_head_t H; bfdev_slist_head_init(&H);
    LOG(ll ? "llist " : "slist ");
    for (int s = 0; s < 50; ++s) {
        int op = rnd(6);
        if (op < 3 || !n[0]) {
            if (n[0] > 40) continue;
            N *x = freshn(); if (!x) continue;
            int q = rnd(n[0] + 1);
            if (ll) {
                if (rnd(3) == 0) {
                    N *y = freshn(); if (!y) { y = x; }
                    LOG("split "); x->s.next = y == x ? NULL : &y->s;
                    bool e = bfdev_llist_split(&H, &x->s, &y->s);
                    CHECK(e == (n[0] == 0), "split reports empty");
                    if (y != x) insat(0, 0, y);
                    insat(0, 0, x);
                } else { LOG("ladd "); bool e = bfdev_llist_add(&H, &x->s); CHECK(e == (n[0] == 0), "add reports whether it was empty"); insat(0, 0, x); }
            }
            else { LOG("add(%d) ", q); bfdev_slist_add(q ? &A[0][q - 1]->s : &H, &x->s); insat(0, q, x); }
        } else if (ll) {
            if (rnd(8) == 0) { LOG("destroy "); bfdev_slist_head_t *f = bfdev_llist_destroy(&H); CHECK(f == &A[0][0]->s, "destroy returns the chain"); n[0] = 0; memset(used, 0, sizeof used); }
            else { LOG("ldel "); bfdev_slist_head_t *f = bfdev_llist_del(&H); CHECK(f == &A[0][0]->s, "del returns the first"); remat(0, 0); }
        } else if (op == 3 || op == 4) {
            int q = rnd(n[0]); LOG("del(%d) ", q); bfdev_slist_del(&H, &A[0][q]->s); remat(0, q);
        } else {
            int q = rnd(n[0]); N *x = freshn(); if (!x) continue; LOG("replace(%d) ", q);
            bfdev_slist_replace(&H, &A[0][q]->s, &x->s); used[A[0][q] - nodes] = 0; A[0][q] = x;
        }
        scheck(&H);
    }
    if (ll && n[0] == 0) CHECK(!bfdev_llist_del(&H), "del on empty");
}
#define TBL 16
typedef struct { unsigned long key; int live; bfdev_hlist_node_t h; } E;
static void tbl(void)
{
    CASE();
    static E e[64]; memset(e, 0, sizeof e);
    bfdev_hlist_head_t tab[TBL]; memset(tab, 0x5a, sizeof tab);
    unsigned long size = 1ul << (1 + rnd(4));
    bfdev_hashtbl_init(tab, size);
    CHECK(bfdev_hashtbl_empty(tab, size), "empty after init");
    LOG("hashtbl size %lu ", size);
    for (int s = 0; s < 80; ++s) {
        int i = rnd(64);
        if (e[i].live) { LOG("del%d ", i); bfdev_hashtbl_del(&e[i].h); e[i].live = 0; }
        else { e[i].key = rnd(2) ? rnd(20) : rnd_edge(); LOG("add%d(%lu) ", i, e[i].key); bfdev_hashtbl_add(tab, size, &e[i].h, e[i].key); e[i].live = 1; }
        int cnt = 0, live = 0;
        unsigned long idx; E *p, *t;
        for (int j = 0; j < 64; ++j) live += e[j].live;
        CHECK(bfdev_hashtbl_empty(tab, size) == !live, "table empty");
        bfdev_hashtbl_for_each_entry(p, tab, size, h, idx) { CHECK(p >= e && p < e + 64 && p->live, "dead node in table"); CHECK(bfdev_hashtbl_index(size, p->key) == idx, "node in wrong bucket"); ++cnt; }
        CHECK(cnt == live, "table holds %d of %d", cnt, live);
        cnt = 0;
        bfdev_hashtbl_for_each_entry_safe(p, t, tab, size, h, idx) ++cnt;
        CHECK(cnt == live, "safe iteration");
        bfdev_hlist_node_t *q; cnt = 0;
        bfdev_hashtbl_for_each(q, tab, size, idx) ++cnt;
        CHECK(cnt == live, "node iteration");
        unsigned long k = rnd(20);
        int found = 0, want = 0;
        bfdev_hashtbl_for_each_idx_entry(p, tab, size, h, bfdev_hashtbl_index(size, k)) found += p->key == k;
        for (int j = 0; j < 64; ++j) want += e[j].live && e[j].key == k;
        CHECK(found == want, "lookup of key %lu: %d of %d", k, found, want);
    }
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned i = 0; i < 1500 * h_n; ++i) { hops(); sops(0); sops(1); tbl(); }
    return h_done();
}
