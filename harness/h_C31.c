/* C31: random machines against an interpreter of the declarations; every callback is recorded */
#include "h.h"
#include <bfdev/fsm.h>
#define NS 7
static bfdev_fsm_state_t S[NS];
static bfdev_fsm_transition_t T[NS][4], X[NS];
typedef struct { int kind; const void *who, *a, *b; } ev;
static ev got[400], want[400];
static int ng, nw, failat, guardbits;
static bfdev_fsm_event_t E;
static int names[64];
static int rec(ev *l, int *n, int kind, const void *who, const void *a, const void *b)
{
    if (*n < 400) { l[*n] = (ev){kind, who, a, b}; ++*n; }
    return *n == failat ? 77 : 0;
}
static int enter(bfdev_fsm_event_t *e, void *d) { if (e != &E) FAIL("event"); return rec(got, &ng, 1, d, 0, 0); }
static int leave(bfdev_fsm_event_t *e, void *d) { if (e != &E) FAIL("event"); return rec(got, &ng, 2, d, 0, 0); }
static int action(bfdev_fsm_event_t *e, void *d, void *c, void *n) { if (e != &E) FAIL("event"); return rec(got, &ng, 3, d, c, n); }
static long guard(bfdev_fsm_event_t *e, const void *c) { if (e != &E) FAIL("event"); return guardbits >> (long)c & 1; }
static bfdev_fsm_transition_t *except(bfdev_fsm_event_t *e, void *d)
{
    int i = (int *)d - names;
    return guardbits >> i & 1 ? &X[i] : NULL;
}
static void mk(bfdev_fsm_transition_t *t)
{
    memset(t, 0, sizeof *t);
    t->type = rnd(3);
    t->guard = rnd(3) ? NULL : guard;
    t->cond = (void *)(long)rnd(8);
    t->next = rnd(8) ? &S[rnd(NS)] : NULL;
    t->stack = rnd(3) ? 0 : (int)rnd(5) - 2;
    t->cross = !rnd(4);
    t->action = rnd(2) ? action : NULL;
    t->data = &names[20 + rnd(20)];
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 20000 * h_n; ++c) {
        CASE();
        for (int i = 0; i < NS; ++i) {
            memset(&S[i], 0, sizeof S[i]);
            S[i].data = &names[i];
            S[i].enter = rnd(3) ? enter : NULL;
            S[i].exit = rnd(3) ? leave : NULL;
            S[i].exception = rnd(5) ? NULL : except;
            S[i].trans = T[i];
            S[i].tnum = rnd(4);
            S[i].parent = i && rnd(2) ? &S[rnd(i)] : NULL;
            S[i].entry = i + 1 < NS && !rnd(4) ? &S[i + 1 + rnd(NS - 1 - i)] : NULL;
            for (int k = 0; k < 4; ++k) mk(&T[i][k]);
            mk(&X[i]);
        }
        bfdev_fsm_t F;
        bfdev_fsm_state_t *err = rnd(4) ? &S[rnd(NS)] : NULL, *cur = &S[rnd(NS)], *prev = NULL;
        const bfdev_fsm_state_t *stk[200];
        int depth = 0, oom = -1;
        if (!rnd(4)) oom = rnd(3);
        h_alloc_reset(oom);
        bfdev_fsm_init(&F, &h_alloc, cur, err);
        for (int round = 0; round < 12; ++round) {
            E.type = rnd(3); guardbits = rnd(256); failat = rnd(4) ? -1 : 1 + (int)rnd(4);
            ng = nw = 0;
            bfdev_fsm_state_t *pc = cur, *pp = prev;
            int n0 = depth, ret, loops = 0, changed = 0;
            /* interpretation */
            bfdev_fsm_state_t *own = cur;
            ret = BFDEV_FSM_NOCHANGE;
            while (own) {
                if (++loops > 60) break;
                const bfdev_fsm_transition_t *t = NULL;
                for (unsigned k = 0; k < own->tnum && !t; ++k)
                    if (T[own - S][k].type == E.type && (!T[own - S][k].guard || !(guardbits >> (long)T[own - S][k].cond & 1))) t = &T[own - S][k];
                if (!t && own->exception && (guardbits >> (own - S) & 1)) t = &X[own - S];
                if (!t) { own = (void *)own->parent; continue; }
                const bfdev_fsm_state_t *nx = t->next;
                if (!nx && t->stack < 0) {
                    if (-t->stack > depth) { ret = -BFDEV_EOVERFLOW; break; }
                    depth += t->stack; nx = stk[depth];
                }
                if (!nx) {
                    prev = cur; cur = err; ret = 0;
                    if (err && err->enter) ret = rec(want, &nw, 1, err->data, 0, 0);
                    if (!ret) ret = -BFDEV_ENOENT;
                    break;
                }
                while (nx->entry) nx = nx->entry;
                int r = 0;
                if (own != nx && t->stack <= 0 && own->exit) r = rec(want, &nw, 2, own->data, 0, 0);
                if (!r && t->action) r = rec(want, &nw, 3, t->data, own->data, nx->data);
                if (!r && own != nx && t->stack >= 0 && nx->enter) r = rec(want, &nw, 1, nx->data, 0, 0);
                if (r) { ret = r; break; }
                prev = cur; cur = (void *)nx; ++changed;
                if (nx == err) { ret = -BFDEV_EFAULT; break; }
                if (own == nx) { ret = BFDEV_FSM_SELFLOOP; break; }
                if (!nx->tnum && !nx->exception) { ret = BFDEV_FSM_FINISH; break; }
                if (t->stack > 0) { if (depth < 199) stk[depth] = own; ++depth; }
                if (!t->cross) { ret = BFDEV_FSM_CHANGED; break; }
                own = (void *)nx;
            }
            if (loops > 60 || depth > 150) break;   /* a declared endless loop of crossings */
            int oomhit = h_fail_at >= 0 && h_allocs <= h_fail_at ? 1 : 0;
            long before = h_allocs;
            int r = bfdev_fsm_handle(&F, &E);
            LOG("state %ld event %u -> %d\n", (long)(pc - S), E.type, r);
            if (r == -BFDEV_ENOMEM) { CHECK(oomhit && h_allocs > before, "no memory reported without a failed allocation"); break; }
            if (!pc) { CHECK(r == -BFDEV_EINVAL && ng == 0, "machine without a state"); depth = n0; cur = pc; prev = pp; continue; }
            CHECK(r == ret, "returned %d, declared %d", r, ret);
            CHECK(ng == nw, "%d callbacks, declared %d", ng, nw);
            for (int i = 0; i < nw; ++i)
                CHECK(got[i].kind == want[i].kind && got[i].who == want[i].who && got[i].a == want[i].a && got[i].b == want[i].b, "callback %d is kind %d, declared %d", i, got[i].kind, want[i].kind);
            CHECK(bfdev_fsm_curr(&F) == cur, "state is %ld, declared %ld", (long)(bfdev_fsm_curr(&F) - S), (long)(cur - S));
            CHECK(round == 0 && !changed && prev == pp ? 1 : bfdev_fsm_prev(&F) == prev, "previous state");
            CHECK(bfdev_array_index(&F.stack) == (unsigned)depth, "stack depth %lu, declared %d", (unsigned long)bfdev_array_index(&F.stack), depth);
            for (int i = 0; i < depth; ++i) CHECK(((const bfdev_fsm_state_t **)F.stack.data)[i] == stk[i], "stack slot %d", i);
            if (cur) CHECK(bfdev_fsm_finished(&F) == (!cur->tnum && !cur->exception), "finished");
        }
        bfdev_array_release(&F.stack);
        CHECK(h_live == 0, "allocations left");
    }
    return h_done();
}
