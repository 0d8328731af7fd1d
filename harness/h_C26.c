/* C26: matrices against plain arrays */
#include "h.h"
#include <bfdev/matrix.h>
#include <bfdev/array.h>
typedef unsigned long W;
#define NM 4
static struct { unsigned r, c; W v[64]; } mod[NM], exp_;
static bfdev_matrix_t mat[NM];
static unsigned char fill;
static void *al(size_t n, void *p) { void *b = h_al(n, p); if (b) memset(b, fill, n); return b; }
static void check(unsigned k)
{
    CHECK(mat[k].row == mod[k].r && mat[k].col == mod[k].c, "matrix %u is %u x %u, expected %u x %u", k, mat[k].row, mat[k].col, mod[k].r, mod[k].c);
    for (unsigned i = 0; i < mod[k].r + 2; ++i) for (unsigned j = 0; j < mod[k].c + 2; ++j) {
        const W *p = bfdev_matrix_data(&mat[k], i, j);
        if (i >= mod[k].r || j >= mod[k].c) { CHECK(!p, "matrix %u: cell (%u, %u) is outside but was found", k, i, j); continue; }
        CHECK(p, "matrix %u: cell (%u, %u) not found", k, i, j);
        CHECK(*p == mod[k].v[i * mod[k].c + j], "matrix %u cell (%u, %u) is %lx, expected %lx", k, i, j, *p, mod[k].v[i * mod[k].c + j]);
    }
    const W *p = mat[k].value.data;
    for (unsigned i = 0; i < mod[k].r * mod[k].c; ++i) CHECK(p[i] == mod[k].v[i], "matrix %u storage cell %u", k, i);
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    bfdev_alloc_ops_t ops = *h_alloc.ops;
    ops.alloc = al;
    bfdev_alloc_t A = h_alloc;
    A.ops = &ops;
    for (unsigned long c = 0; c < 3000 * h_n; ++c) {
        CASE();
        fill = rnd(256);
        h_alloc_reset(-1);
        for (unsigned k = 0; k < NM; ++k) { bfdev_matrix_init(&mat[k], &A); mod[k].r = mod[k].c = 0; }
        unsigned steps = 1 + rnd(14);
        for (unsigned s = 0; s < steps; ++s) {
            unsigned op = rnd(6), d = rnd(NM), x = rnd(NM), y = rnd(NM), ok = 1;
            int ret;
            if (s < NM) op = 5, d = s;
            if (op != 5 && (!mod[x].r || !mod[y].r)) continue;
            if ((op == 3 || op == 4) && d == x) continue;
            int fail = !rnd(10);
            h_fail_at = fail ? (int)rnd(2) : -1; h_allocs = 0;
            exp_ = mod[d];
            switch (op) {
            case 0: case 1:
                LOG("%s(m%u, m%u, m%u)\n", op ? "sub" : "add", d, x, y);
                ok = mod[x].r == mod[y].r && mod[x].c == mod[y].c;
                if (ok) { exp_ = mod[x]; for (unsigned i = 0; i < exp_.r * exp_.c; ++i) exp_.v[i] = op ? mod[x].v[i] - mod[y].v[i] : mod[x].v[i] + mod[y].v[i]; }
                ret = (op ? bfdev_matrix_sub : bfdev_matrix_add)(&mat[d], &mat[x], &mat[y]);
                break;
            case 2:
                LOG("mul(m%u, m%u, m%u)\n", d, x, y);
                ok = mod[x].c == mod[y].r;
                if (ok) {
                    exp_.r = mod[x].r; exp_.c = mod[y].c;
                    for (unsigned i = 0; i < exp_.r; ++i) for (unsigned j = 0; j < exp_.c; ++j) {
                        W v = 0;
                        for (unsigned k = 0; k < mod[x].c; ++k) v += mod[x].v[i * mod[x].c + k] * mod[y].v[k * mod[y].c + j];
                        exp_.v[i * exp_.c + j] = v;
                    }
                }
                ret = bfdev_matrix_mul(&mat[d], &mat[x], &mat[y]);
                break;
            case 3:
                LOG("trans(m%u, m%u)\n", d, x);
                exp_.r = mod[x].c; exp_.c = mod[x].r;
                for (unsigned i = 0; i < exp_.r; ++i) for (unsigned j = 0; j < exp_.c; ++j) exp_.v[i * exp_.c + j] = mod[x].v[j * exp_.r + i];
                ret = bfdev_matrix_trans(&mat[d], &mat[x]);
                break;
            case 4:
                LOG("set(m%u, m%u)\n", d, x);
                exp_ = mod[x];
                ret = bfdev_matrix_set(&mat[d], &mat[x]);
                break;
            default:
                exp_.r = 1 + rnd(6); exp_.c = 1 + rnd(6);
                if (rnd(2)) exp_.r = exp_.c = 1 + rnd(4);
                if (mod[x].r && rnd(2)) { exp_.r = mod[x].c; }
                W buf[64];
                LOG("import(m%u, %u x %u:", d, exp_.r, exp_.c);
                for (unsigned i = 0; i < exp_.r * exp_.c; ++i) { buf[i] = exp_.v[i] = rnd(2) ? rnd(10) : rnd_edge(); LOG(" %lx", buf[i]); }
                LOG(")\n");
                ret = bfdev_matrix_import(&mat[d], buf, exp_.r, exp_.c);
            }
            if (!ok) CHECK(ret == -BFDEV_EINVAL, "shapes do not fit but %d was returned", ret);
            else if (fail && ret == -BFDEV_ENOMEM) ;
            else { CHECK(!ret, "returned %d", ret); mod[d] = exp_; }
            for (unsigned k = 0; k < NM; ++k) if (mod[k].r) check(k);
        }
        for (unsigned k = 0; k < NM; ++k) {
            bfdev_matrix_release(&mat[k]);
            CHECK(!mat[k].row && !mat[k].col && !bfdev_matrix_data(&mat[k], 0, 0), "released matrix not empty");
        }
        CHECK(!h_live, "memory not released");
    }
    return h_done();
}
