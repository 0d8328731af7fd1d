/* C13: every bit search, out of line and single-word, with exact-size buffers, against a bit by bit search */
#include "h.h"
#include "tu_bitmap.c"
#include <bfdev/swab.h>
static ul *buf(ui n) { ui w = (n + 63) / 64; return malloc(w ? w * 8 : 1); }
static void fillw(ul *p, ui w)
{
    ui mode = rnd(6);
    for (ui i = 0; i < w; ++i)
        switch (mode) {
        case 0: p[i] = 0; break;
        case 1: p[i] = ~0ul; break;
        case 2: p[i] = rnd(4) ? 0 : 1ul << rnd(64); break;
        case 3: p[i] = rnd(4) ? ~0ul : ~(1ul << rnd(64)); break;
        case 4: p[i] = rnd_edge(); break;
        default: p[i] = rnd64();
        }
    if (w && !rnd(3)) p[rnd(w)] = rnd_edge();
}
static int bit(const ul *a, const ul *b, ui i, ul inv, int swap)
{
    ul v = a[i / 64]; if (b) v &= b[i / 64]; v ^= inv; if (swap) v = __builtin_bswap64(v);
    return v >> (i % 64) & 1;
}
static ui r_next(const ul *a, const ul *b, ui n, ui o, ul inv, int s) { for (ui i = o; i < n; ++i) if (bit(a, b, i, inv, s)) return i; return n; }
static ui r_prev(const ul *a, const ul *b, ui n, ui o, ul inv, int s) { if (o >= n) return n; for (ui i = o + 1; i--;) if (bit(a, b, i, inv, s)) return i; return n; }
#define EQ(what, want) do { ui g_ = (what), w_ = (want); if (g_ != w_) FAIL(#what " = %u, the first matching position is %u", g_, w_); } while (0)

int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (ul c = 0; c < 60000 * h_n; ++c) {
        CASE();
        ui n = rnd(4) ? rnd(300) : rnd(8) * 64 + rnd(3);
        ui w = (n + 63) / 64;
        ul *a = buf(n), *b = buf(n);
        fillw(a, w); fillw(b, w);
        LOG("size %u words:", n);
        for (ui i = 0; i < w; ++i) LOG(" %lx", a[i]);
        LOG(" second:");
        for (ui i = 0; i < w; ++i) LOG(" %lx", b[i]);
        for (int k = 0; k < 6; ++k) {
            ui o = rnd(5) ? rnd(n + 2) : n - 1 + rnd(3);
            LOG(" start %u", o);
            for (int s = 0; s < 2; ++s)
                for (ul inv = 0; ; inv = ~0ul) {
                    EQ(bfdev_comp_find_first_bit(a, n, inv, s), r_next(a, NULL, n, 0, inv, s));
                    EQ(bfdev_comp_find_last_bit(a, n, inv, s), n ? r_prev(a, NULL, n, n - 1, inv, s) : 0);
                    EQ(bfdev_comp_find_next_bit(a, NULL, n, o, inv, s), r_next(a, NULL, n, o, inv, s));
                    EQ(bfdev_comp_find_prev_bit(a, NULL, n, o, inv, s), r_prev(a, NULL, n, o, inv, s));
                    EQ(bfdev_comp_find_next_bit(a, b, n, o, inv, s), r_next(a, b, n, o, inv, s));
                    EQ(bfdev_comp_find_prev_bit(a, b, n, o, inv, s), r_prev(a, b, n, o, inv, s));
                    if (inv) break;
                }
            EQ(w_find_first_bit(a, n), r_next(a, NULL, n, 0, 0, 0));
            EQ(w_find_first_zero(a, n), r_next(a, NULL, n, 0, ~0ul, 0));
            EQ(w_find_last_bit(a, n), n ? r_prev(a, NULL, n, n - 1, 0, 0) : 0);
            EQ(w_find_last_zero(a, n), n ? r_prev(a, NULL, n, n - 1, ~0ul, 0) : 0);
            EQ(w_find_next_bit(a, n, o), r_next(a, NULL, n, o, 0, 0));
            EQ(w_find_next_zero(a, n, o), r_next(a, NULL, n, o, ~0ul, 0));
            EQ(w_find_prev_bit(a, n, o), r_prev(a, NULL, n, o, 0, 0));
            EQ(w_find_prev_zero(a, n, o), r_prev(a, NULL, n, o, ~0ul, 0));
            EQ(w_find_next_and_bit(a, b, n, o), r_next(a, b, n, o, 0, 0));
            EQ(w_find_prev_and_bit(a, b, n, o), r_prev(a, b, n, o, 0, 0));
        }
        /* walks visit every set (clear) position once, in order */
        for (int z = 0; z < 2; ++z) {
            ul inv = z ? ~0ul : 0;
            ui at = 0, i;
            if (z) { bfdev_for_each_zero(i, a, n) { EQ(i, r_next(a, NULL, n, at, inv, 0)); at = i + 1; } }
            else { bfdev_for_each_bit(i, a, n) { EQ(i, r_next(a, NULL, n, at, inv, 0)); at = i + 1; } }
            CHECK(r_next(a, NULL, n, at, inv, 0) == n, "walk over the bits stopped at %u", at);
            if (!n) continue;
            ui left = n;
            if (z) { bfdev_for_each_zero_reverse(i, a, n) { CHECK(left, "reverse walk goes on"); EQ(i, r_prev(a, NULL, n, left - 1, inv, 0)); left = i; } }
            else { bfdev_for_each_bit_reverse(i, a, n) { CHECK(left, "reverse walk goes on"); EQ(i, r_prev(a, NULL, n, left - 1, inv, 0)); left = i; } }
            CHECK(!left || r_prev(a, NULL, n, left - 1, inv, 0) == n, "reverse walk stopped at %u", left);
        }
        free(a); free(b);
    }
    return h_done();
}
