#include "h.h"
#include <bfdev/list.h>
typedef struct { int key, seq; bfdev_list_head_t l; } N;
#define MAXN 48
static bfdev_list_head_t HA, HB;
static N nodes[MAXN];
static N *A[MAXN], *B[MAXN];
static int na, nb;
static int used[MAXN];

static void check(bfdev_list_head_t *h, N **a, int n, const char *w)
{
    bfdev_list_head_t *p = h;
    for (int i = 0; i < n; ++i) {
        CHECK(p->next == &a[i]->l, "%s: forward link %d of %d", w, i, n);
        CHECK(a[i]->l.prev == p, "%s: backward link %d of %d", w, i, n);
        p = &a[i]->l;
    }
    CHECK(p->next == h && h->prev == p, "%s: ring not closed after %d", w, n);
    CHECK(bfdev_list_check_empty(h) == (n == 0), "%s: check_empty", w);
    N *pos, *tmp;
    int k = 0;
    bfdev_list_for_each_entry(pos, h, l) { CHECK(k < n && pos == a[k], "%s: for_each_entry %d", w, k); ++k; }
    CHECK(k == n, "for_each_entry ends early");
    k = n;
    bfdev_list_for_each_entry_reverse(pos, h, l) { --k; CHECK(k >= 0 && pos == a[k], "%s: reverse %d", w, k); }
    CHECK(k == 0, "reverse ends early");
    k = 0;
    bfdev_list_for_each_entry_safe(pos, tmp, h, l) { CHECK(k < n && pos == a[k], "safe %d", k); ++k; }
    CHECK(k == n, "safe ends early");
    k = n;
    bfdev_list_for_each_entry_reverse_safe(pos, tmp, h, l) { --k; CHECK(k >= 0 && pos == a[k], "rsafe %d", k); }
    CHECK(k == 0, "rsafe ends early");
    bfdev_list_head_t *q, *qt;
    k = 0;
    bfdev_list_for_each(q, h) { CHECK(k < n && q == &a[k]->l, "for_each"); ++k; }
    CHECK(k == n, "for_each short");
    k = n;
    bfdev_list_for_each_reverse(q, h) { --k; CHECK(k >= 0 && q == &a[k]->l, "for_each_reverse"); }
    CHECK(k == 0, "for_each_reverse short");
    k = 0;
    bfdev_list_for_each_safe(q, qt, h) { CHECK(k < n && q == &a[k]->l, "for_each_safe"); ++k; }
    CHECK(k == n, "for_each_safe short");
    k = n;
    bfdev_list_for_each_reverse_safe(q, qt, h) { --k; CHECK(k >= 0 && q == &a[k]->l, "for_each_reverse_safe"); }
    CHECK(k == 0, "for_each_reverse_safe short");
    if (n) {
        int m = rnd(n);
        pos = a[m]; k = m;
        bfdev_list_for_each_entry_from(pos, h, l) { CHECK(k < n && pos == a[k], "from"); ++k; }
        CHECK(k == n, "from short");
        pos = a[m]; k = m + 1;
        bfdev_list_for_each_entry_continue(pos, h, l) { CHECK(k < n && pos == a[k], "continue"); ++k; }
        CHECK(k == n, "continue short");
        pos = a[m]; k = m + 1;
        bfdev_list_for_each_entry_reverse_from(pos, h, l) { --k; CHECK(k >= 0 && pos == a[k], "rfrom"); }
        CHECK(k == 0, "rfrom short");
        pos = a[m]; k = m;
        bfdev_list_for_each_entry_reverse_continue(pos, h, l) { --k; CHECK(k >= 0 && pos == a[k], "rcontinue"); }
        CHECK(k == 0, "rcontinue short");
        CHECK(bfdev_list_first_entry(h, N, l) == a[0] && bfdev_list_last_entry(h, N, l) == a[n - 1], "first/last entry");
        N *nx = bfdev_list_next_entry_or_null(a[m], h, l), *pv = bfdev_list_prev_entry_or_null(a[m], h, l);
        CHECK(nx == (m + 1 < n ? a[m + 1] : NULL), "next_entry_or_null");
        CHECK(pv == (m ? a[m - 1] : NULL), "prev_entry_or_null");
        CHECK(bfdev_list_check_first(h, &a[m]->l) == (m == 0) && bfdev_list_check_end(h, &a[m]->l) == (m == n - 1), "first/end");
        CHECK(bfdev_list_check_another(h, &a[m]->l) == (n == 1), "another");
    }
    CHECK(bfdev_list_first_entry_or_null(h, N, l) == (n ? a[0] : NULL), "first_or_null");
    CHECK(bfdev_list_last_entry_or_null(h, N, l) == (n ? a[n - 1] : NULL), "last_or_null");
}
static N *freshn(void) { for (int t = 0; t < 200; ++t) { int i = rnd(MAXN); if (!used[i]) { used[i] = 1; return &nodes[i]; } } return NULL; }
static void insat(N **a, int *n, int q, N *x) { memmove(a + q + 1, a + q, (*n - q) * sizeof *a); a[q] = x; ++*n; }
static N *remat(N **a, int *n, int q) { N *x = a[q]; memmove(a + q, a + q + 1, (*n - q - 1) * sizeof *a); --*n; return x; }
#define ND(a, n, h, i) ((i) == 0 ? (h) : &(a)[(i) - 1]->l)

static void ops(void)
{
    CASE();
    bfdev_list_head_init(&HA); bfdev_list_head_init(&HB);
    na = nb = 0;
    memset(used, 0, sizeof used);
    for (int s = 0; s < 60; ++s) {
        int op = rnd(14), second = rnd(4) == 0;
        N **a = second ? B : A; int *n = second ? &nb : &na; bfdev_list_head_t *h = second ? &HB : &HA;
        if (op < 3 || !*n) {
            if (na + nb >= 40) continue;
            N *x = freshn(); if (!x) continue;
            int p = rnd(*n + 1);
            LOG("add%d(%d@%d/%d) ", op == 0, (int)(x - nodes), p, second);
            if (op == 0) { bfdev_list_add_prev(ND(a, *n, h, p), &x->l); insat(a, n, p ? p - 1 : *n, x); }
            else { bfdev_list_add(ND(a, *n, h, p), &x->l); insat(a, n, p, x); }
        } else if (op < 6) {
            int p = rnd(*n); LOG("del%d(%d/%d) ", op, p, second);
            N *x = a[p];
            if (op == 3) bfdev_list_del(&x->l);
            else if (op == 4) { bfdev_list_del_init(&x->l); CHECK(bfdev_list_check_empty(&x->l) && x->l.prev == &x->l, "del_init leaves an empty node"); }
            else bfdev_list_deluf(&x->l);
            remat(a, n, p); used[x - nodes] = 0;
        } else if (op < 8) {
            int p = rnd(*n); N *x = freshn(); if (!x) continue;
            LOG("replace%d(%d/%d) ", op, p, second);
            N *o = a[p];
            if (op == 6) bfdev_list_replace(&o->l, &x->l);
            else { bfdev_list_replace_init(&o->l, &x->l); CHECK(o->l.next == &o->l && o->l.prev == &o->l, "replace_init"); }
            a[p] = x; used[o - nodes] = 0;
        } else if (op < 10) {
            int p = rnd(*n), q = rnd(*n + 1); if (q == p + 1) continue;
            LOG("move%d(%d->%d/%d) ", op, p, q, second);
            bfdev_list_head_t *ref = ND(a, *n, h, q);
            if (op == 8) bfdev_list_move(ref, &a[p]->l); else bfdev_list_move_prev(ref, &a[p]->l);
            N *x = remat(a, n, p);
            int k = ref == h ? 0 : 1; if (ref != h) while (&a[k - 1]->l != ref) ++k;
            if (op == 8) insat(a, n, k, x); else insat(a, n, k ? k - 1 : *n, x);
        } else if (op == 10) {
            int p = rnd(*n), q = rnd(*n); if (p == q) continue;
            LOG("swap(%d,%d/%d) ", p, q, second);
            bfdev_list_swap(&a[p]->l, &a[q]->l);
            N *t = a[p]; a[p] = a[q]; a[q] = t;
        } else {
            if (rnd(3)) continue;
            int p = rnd(na + 1), k = rnd(4);
            LOG("splice%d(%d) nb=%d ", k, p, nb);
            bfdev_list_head_t *ref = ND(A, na, &HA, p);
            int q = (k & 1) ? (p ? p - 1 : na) : p;
            if (k == 0) { bfdev_list_splice(ref, &HB); bfdev_list_head_init(&HB); }
            else if (k == 1) { bfdev_list_splice_prev(ref, &HB); bfdev_list_head_init(&HB); }
            else if (k == 2) bfdev_list_splice_init(ref, &HB);
            else bfdev_list_splice_tail_init(ref, &HB);
            for (int i = 0; i < nb; ++i) insat(A, &na, q + i, B[i]);
            nb = 0;
        }
        check(&HA, A, na, "A"); check(&HB, B, nb, "B");
    }
    /* safe iteration while deleting */
    N *pos, *tmp; int k = 0, n0 = na;
    bfdev_list_for_each_entry_safe(pos, tmp, &HA, l) { CHECK(pos == A[k], "safe delete"); ++k; bfdev_list_del(&pos->l); }
    CHECK(k == n0, "safe delete count");
    CHECK(bfdev_list_check_empty(&HA), "all deleted");
}
static void *cookie = &HA;
static N *sa[4096];
static int sn, mode;
static long cmp(const bfdev_list_head_t *a, const bfdev_list_head_t *b, void *pd)
{
    CHECK(pd == cookie, "comparator cookie");
    int x = bfdev_container_of(a, N, l)->key, y = bfdev_container_of(b, N, l)->key;
    return mode == 0 ? (x > y) - (x < y) : mode == 1 ? (x > y) : (long)x - y;
}
static void sortcase(int n, int range)
{
    CASE();
    LOG("sort n=%d range=%d mode=%d keys:", n, range, mode);
    N *p = malloc(sizeof *p * (n + 1));
    bfdev_list_head_init(&HA);
    for (int i = 0; i < n; ++i) {
        p[i].key = (int)rnd(range) - range / 2; p[i].seq = i;
        if (i < 200) LOG(" %d", p[i].key);
        bfdev_list_add_prev(&HA, &p[i].l);
    }
    bfdev_list_sort(&HA, cmp, cookie);
    int c = 0; bfdev_list_head_t *q = &HA; N *prev = NULL;
    unsigned char *seen = calloc(1, n + 1);
    while (q->next != &HA) {
        CHECK(q->next && q->next->prev == q, "sorted list: backward link at %d", c);
        q = q->next; N *x = bfdev_container_of(q, N, l);
        CHECK(c < n, "sorted list too long");
        CHECK(x >= p && x < p + n && !seen[x - p], "not a permutation at %d", c);
        seen[x - p] = 1;
        CHECK(!prev || prev->key < x->key || (prev->key == x->key && prev->seq < x->seq), "order or stability broken at %d", c);
        prev = x; ++c;
    }
    CHECK(c == n && HA.prev == q, "sorted list lost nodes: %d of %d", c, n);
    free(p); free(seen);
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    (void)sa; (void)sn;
    for (unsigned i = 0; i < 1500 * h_n; ++i) ops();
    for (unsigned i = 0; i < 3000 * h_n; ++i) { mode = rnd(3); sortcase(rnd(10) ? rnd(40) : rnd(700), 1 + rnd(rnd(2) ? 4 : 1000)); }
    return h_done();
}
