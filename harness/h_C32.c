/* C32: index lists and notifier chains against a sorted array */
#include "h.h"
#include <bfdev/ilist.h>
#include <bfdev/notifier.h>
#define NN 12
static struct tn { bfdev_ilist_node_t l; int key; } *tn[NN];
static long cmp(const bfdev_ilist_node_t *a, const bfdev_ilist_node_t *b, void *p)
{
    CHECK(p == (void *)tn, "private data not handed on");
    int x = ((struct tn *)a)->key, y = ((struct tn *)b)->key;
    return x == y ? 0 : x < y ? -(long)(1 + rnd(9)) : (long)(1 + rnd(9));
}
static void ring(bfdev_list_head_t *h, const char *what, unsigned max)
{
    bfdev_list_head_t *p = h;
    unsigned n = 0;
    do { CHECK(p->next->prev == p, "%s: links do not agree", what); p = p->next; CHECK(++n <= max, "%s: not a ring", what); } while (p != h);
}
static void ilist_case(void)
{
    BFDEV_ILIST_HEAD(head);
    int in[NN] = {0}, order[NN], n = 0;
    for (int i = 0; i < NN; ++i) { tn[i] = malloc(sizeof **tn); bfdev_ilist_node_init(&tn[i]->l); }
    unsigned range = 1 + rnd(5), steps = rnd(24);
    for (unsigned s = 0; s < steps; ++s) {
        int i = rnd(NN);
        if (!in[i]) {
            tn[i]->key = rnd(range);
            LOG("add node %d key %d\n", i, tn[i]->key);
            bfdev_ilist_add(&head, &tn[i]->l, cmp, tn);
            int p = n;
            while (p > 0 && tn[order[p - 1]]->key > tn[i]->key) { order[p] = order[p - 1]; --p; }
            order[p] = i; ++n;
            in[i] = 1;
        } else {
            LOG("del node %d key %d\n", i, tn[i]->key);
            bfdev_ilist_del(&head, &tn[i]->l);
            int p = 0;
            while (order[p] != i) ++p;
            for (--n; p < n; ++p) order[p] = order[p + 1];
            in[i] = 0;
            CHECK(tn[i]->l.node_list.next == &tn[i]->l.node_list && tn[i]->l.index_list.next == &tn[i]->l.index_list, "deleted node not initialised");
            if (rnd(2)) { free(tn[i]); tn[i] = malloc(sizeof **tn); bfdev_ilist_node_init(&tn[i]->l); }
        }
        ring(&head.node_list, "node list", NN + 1);
        bfdev_list_head_t *q = head.node_list.next;
        for (int p = 0; p < n; ++p, q = q->next) CHECK(q == &tn[order[p]]->l.node_list, "wrong node at position %d (expected node %d)", p, order[p]);
        CHECK(q == &head.node_list, "nodes left over");
        if (!n) continue;
        /* the index visits the first node of every run, in order */
        ring(&tn[order[0]]->l.index_list, "index", NN + 1);
        q = &tn[order[0]]->l.index_list;
        for (int p = 0; p < n; ++p) {
            bfdev_list_head_t *x = &tn[order[p]]->l.index_list;
            if (!p || tn[order[p]]->key != tn[order[p - 1]]->key) { CHECK(q == x, "run starting at position %d is not indexed", p); q = q->next; }
            else CHECK(x->next == x, "position %d indexed inside a run", p);
        }
        CHECK(q == &tn[order[0]]->l.index_list, "index longer than the list");
    }
    for (int i = 0; i < NN; ++i) free(tn[i]);
}
static bfdev_notifier_node_t *nn[NN];
static int calls[NN * 2], ncalls, ret[NN];
static void *parg;
static bfdev_notifier_ret_t entry(void *arg, void *pd)
{
    int i = (int)(intptr_t)pd - 1;
    CHECK(arg == parg, "argument not handed on");
    CHECK(ncalls < 2 * NN, "called too often");
    calls[ncalls++] = i;
    return ret[i];
}
static void notifier_case(void)
{
    BFDEV_DEFINE_NOTIFIER(head);
    int in[NN] = {0}, seq[NN], n = 0;
    for (int i = 0; i < NN; ++i) nn[i] = malloc(sizeof **nn);
    unsigned range = 1 + rnd(6), steps = rnd(24);
    for (unsigned s = 0; s < steps; ++s) {
        int i = rnd(NN);
        if (!rnd(3)) {
            unsigned budget = rnd(3) ? ~0u : rnd(NN), called = rnd(100), c0 = called;
            for (int k = 0; k < NN; ++k) ret[k] = rnd(4) ? 0 : rnd(4);
            parg = &budget;
            ncalls = 0;
            int use = rnd(4);
            LOG("call budget %u\n", budget);
            int r = bfdev_notifier_call(&head, parg, budget, use ? &called : NULL), want = 0, p = 0, k = 0;
            while (p < n && (unsigned)k < budget) {
                int x = seq[p];
                CHECK(k < ncalls && calls[k] == x, "call %d did not reach handler %d (of %d calls)", k, x, ncalls);
                ++k;
                want = ret[x] & ~BFDEV_NOTIFI_RET_REMOVE;
                if (ret[x] & BFDEV_NOTIFI_RET_REMOVE) { in[x] = 0; for (int z = p; z + 1 < n; ++z) seq[z] = seq[z + 1]; --n; }
                else ++p;
                if (ret[x] & BFDEV_NOTIFI_RET_STOP) break;
            }
            CHECK(k == ncalls, "%d calls, expected %d", ncalls, k);
            CHECK(r == want, "returned %d, expected %d", r, want);
            CHECK(called == c0 + (use ? k : 0), "counted %u calls from %u, %d made", called, c0, k);
        } else if (!in[i]) {
            memset(nn[i], 0xa5, sizeof **nn);
            nn[i]->priority = rnd(8) ? (int)rnd(range) - 2 : (int)rnd_edge();
            nn[i]->entry = rnd(12) ? entry : NULL;
            nn[i]->pdata = (void *)(intptr_t)(i + 1);
            LOG("register %d priority %d\n", i, nn[i]->priority);
            int r = bfdev_notifier_register(&head, nn[i]);
            if (!nn[i]->entry) { CHECK(r == -BFDEV_EINVAL, "handler without entry accepted"); continue; }
            CHECK(!r, "register failed");
            int p = n;   /* equal priorities: any order, take the chain's */
            bfdev_list_head_t *q = head.nodes.node_list.next;
            for (p = 0; p < n && q != &nn[i]->list.node_list; ++p) q = q->next;
            CHECK(q == &nn[i]->list.node_list, "not in the chain");
            for (int z = n; z > p; --z) seq[z] = seq[z - 1];
            seq[p] = i; ++n; in[i] = 1;
        } else {
            LOG("unregister %d\n", i);
            bfdev_notifier_unregister(&head, nn[i]);
            int p = 0;
            while (seq[p] != i) ++p;
            for (--n; p < n; ++p) seq[p] = seq[p + 1];
            in[i] = 0;
        }
        ring(&head.nodes.node_list, "chain", NN + 1);
        bfdev_list_head_t *q = head.nodes.node_list.next;
        for (int p = 0; p < n; ++p, q = q->next) {
            CHECK(q == &nn[seq[p]]->list.node_list, "position %d is not handler %d", p, seq[p]);
            CHECK(!p || nn[seq[p - 1]]->priority <= nn[seq[p]]->priority, "chain not in priority order at %d", p);
        }
        CHECK(q == &head.nodes.node_list, "chain too long");
    }
    for (int i = 0; i < NN; ++i) free(nn[i]);
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 20000 * h_n; ++c) { CASE(); if (c & 1) ilist_case(); else notifier_case(); }
    return h_done();
}
