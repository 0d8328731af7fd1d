/* C12: bitmap operations, general, constant-size (literal sizes compiled in) and in place, against a bit model */
#include "h.h"
#include <bfdev/bitmap.h>
typedef unsigned long ul; typedef unsigned int ui;
#define MAXW 8
static ul a0[MAXW], b0[MAXW], c0[MAXW], m0[MAXW], d0[MAXW];
static ui n, w;
static int B(const ul *p, ui i) { return p[i / 64] >> (i % 64) & 1; }
static ul *dup_(const ul *p) { ul *q = malloc(w ? w * 8 : 1); memcpy(q, p, w * 8); return q; }
static void fillw(ul *p)
{
    ui mode = rnd(5);
    for (ui i = 0; i < MAXW; ++i)
        p[i] = mode == 0 ? 0 : mode == 1 ? ~0ul : mode == 2 ? rnd_edge() : mode == 3 ? (rnd(4) ? 0 : 1ul << rnd(64)) : rnd64();
}
static const char *op;
static void want(const ul *d, int (*f)(ui), ui upto)
{
    for (ui i = 0; i < upto; ++i)
        if (B(d, i) != f(i))
            FAIL("%s, %u bits: bit %u is %d, should be %d", op, n, i, B(d, i), f(i));
}
/* no word beyond the bitmap's own words is touched: buffers are exactly w words (sanitizer) */
static ui arg1;
static int f_and(ui i) { return B(a0, i) & B(b0, i); }
static int f_andnot(ui i) { return B(a0, i) & !B(b0, i); }
static int f_or(ui i) { return B(a0, i) | B(b0, i); }
static int f_xor(ui i) { return B(a0, i) ^ B(b0, i); }
static int f_com(ui i) { return !B(a0, i); }
static int f_shl(ui i) { return i >= arg1 && B(a0, i - arg1); }
static int f_shr(ui i) { return (u_int64_t)i + arg1 < n && B(a0, i + arg1); }
static int f_rep(ui i) { return B(m0, i) ? B(b0, i) : B(a0, i); }
static int f_src(ui i) { return B(a0, i); }
static int f_zero(ui i) { (void)i; return 0; }
static int f_one(ui i) { (void)i; return 1; }
static ui rs, rl;
static int f_set(ui i) { return (i >= rs && i < rs + rl) ? 1 : B(d0, i); }
static int f_clr(ui i) { return (i >= rs && i < rs + rl) ? 0 : B(d0, i); }
static int any(int (*f)(ui)) { for (ui i = 0; i < n; ++i) if (f(i)) return 1; return 0; }
static int eq(const ul *x, const ul *y) { for (ui i = 0; i < n; ++i) if (B(x, i) != B(y, i)) return 0; return 1; }
#define RET(e, v) do { int g_ = !!(e), w_ = !!(v); if (g_ != w_) FAIL("%s, %u bits: returned %d, should be %d", op, n, g_, w_); } while (0)
/* one round with size n given by the expression N (a literal for the constant-size paths) */
#define ROUND(N, SH) do { \
    ul *a = dup_(a0), *b = dup_(b0), *d = dup_(d0), *c, *m = dup_(m0); \
    op = "and"; RET(bfdev_bitmap_and(d, a, b, N), any(f_and)); want(d, f_and, n); \
    op = "andnot"; RET(bfdev_bitmap_andnot(d, a, b, N), any(f_andnot)); want(d, f_andnot, n); \
    op = "or"; bfdev_bitmap_or(d, a, b, N); want(d, f_or, n); \
    op = "or_equal"; RET(bfdev_bitmap_or_equal(a, b, d, N), 1); if (n) { ui k = rnd(n); d[k / 64] ^= 1ul << k % 64; RET(bfdev_bitmap_or_equal(a, b, d, N), 0); } \
    op = "xor"; bfdev_bitmap_xor(d, a, b, N); want(d, f_xor, n); \
    op = "complement"; bfdev_bitmap_complement(d, a, N); want(d, f_com, n); \
    arg1 = (SH); \
    op = "shl"; memcpy(d, d0, w * 8); bfdev_bitmap_shl(d, a, SH, N); want(d, f_shl, n); \
    op = "shr"; memcpy(d, d0, w * 8); bfdev_bitmap_shr(d, a, SH, N); want(d, f_shr, n); \
    op = "replace"; bfdev_bitmap_comp_replace(d, a, b, m, N); want(d, f_rep, n); \
    op = "equal"; c = dup_(a0); RET(bfdev_bitmap_equal(a, c, N), 1); if (n % 64) { c[n / 64] ^= 1ul << (n % 64); RET(bfdev_bitmap_equal(a, c, N), 1); } \
    if (n) { ui k = rnd(n); c[k / 64] ^= 1ul << k % 64; RET(bfdev_bitmap_equal(a, c, N), 0); } RET(bfdev_bitmap_equal(a, b, N), eq(a, b)); \
    op = "intersects"; RET(bfdev_bitmap_intersects(a, b, N), any(f_and)); \
    op = "empty"; RET(bfdev_bitmap_empty(a, N), !any(f_src)); op = "full"; RET(bfdev_bitmap_full(a, N), !any(f_com)); \
    op = "copy"; bfdev_bitmap_copy(d, a, N); want(d, f_src, n); \
    op = "zero"; bfdev_bitmap_zero(d, N); want(d, f_zero, n); RET(bfdev_bitmap_empty(d, N), 1); \
    op = "fill"; bfdev_bitmap_fill(d, N); want(d, f_one, n); RET(bfdev_bitmap_full(d, N), 1); \
    want(a, f_src, w * 64); \
    op = "shl in place"; memcpy(c, a0, w * 8); bfdev_bitmap_shl(c, c, SH, N); want(c, f_shl, n); \
    op = "shr in place"; memcpy(c, a0, w * 8); bfdev_bitmap_shr(c, c, SH, N); want(c, f_shr, n); \
    op = "and in place"; memcpy(c, a0, w * 8); bfdev_bitmap_and(c, c, b, N); want(c, f_and, n); \
    op = "xor in place"; memcpy(c, a0, w * 8); bfdev_bitmap_xor(c, b, c, N); want(c, f_xor, n); \
    op = "complement in place"; memcpy(c, a0, w * 8); bfdev_bitmap_complement(c, c, N); want(c, f_com, n); \
    free(a); free(b); free(c); free(d); free(m); } while (0)
#define RANGE(S, L) do { ul *d; rs = (S); rl = (L); \
    op = "set"; LOG(" set [%u,+%u)", rs, rl); d = dup_(d0); bfdev_bitmap_set(d, S, L); want(d, f_set, w * 64); free(d); \
    op = "clr"; d = dup_(d0); bfdev_bitmap_clr(d, S, L); want(d, f_clr, w * 64); free(d); } while (0)

static void setup(ui bits)
{
    CASE();
    n = bits; w = (n + 63) / 64;
    fillw(a0); fillw(b0); fillw(m0); fillw(d0);
    if (!rnd(4)) for (int i = 0; i < MAXW; ++i) b0[i] = a0[i];
    LOG("%u bits a:", n); for (ui i = 0; i < w; ++i) LOG(" %lx", a0[i]);
    LOG(" b:"); for (ui i = 0; i < w; ++i) LOG(" %lx", b0[i]);
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (ul c = 0; c < 30000 * h_n; ++c) {
        volatile ui N = rnd(4) ? rnd(MAXW * 64 - 64) : rnd(MAXW - 1) * 64 + rnd(2);
        setup(N);
        volatile ui sh = rnd(6) ? rnd(N + 2) : rnd(MAXW) * 64 + rnd(2);
        LOG(" shift %u", sh);
        ROUND(N, sh);
        if (N) {
            volatile ui S = rnd(N), Lg = rnd(N - S + 1);
            RANGE(S, Lg);
            S = S / 64 * 64; Lg = (N - S) / 64 * 64; RANGE(S, Lg);
            S = rnd(N); Lg = N - S; RANGE(S, Lg);
        }
#define K(x) if (c % 8 == 0) { setup(x); arg1 = rnd(x); LOG(" constant size, shift %u", arg1); ROUND(x, arg1); RANGE(0, x); RANGE(x - 1, 1); { ui s = rnd(x); RANGE(s, 1); } { ui s = rnd((x) + 1); RANGE(s, x - s); RANGE(0, s); } }
        K(1) K(7) K(8) K(32) K(63) K(64) K(65) K(72) K(120) K(128) K(200) K(256)
#define R(s, l) if (c % 8 == 1) { setup(256); RANGE(s, l); }
        R(0, 8) R(8, 16) R(64, 64) R(8, 0) R(16, 120) R(3, 7) R(60, 8) R(0, 256) R(128, 128)
        if (c % 64 == 2) {
            setup(1 + rnd(400));
            h_alloc_reset(rnd(3) ? -1 : 0);
            ul *p = bfdev_bitmap_zalloc(&h_alloc, n);
            if (p) { op = "zalloc"; want(p, f_zero, w * 64); bfdev_bitmap_free(&h_alloc, p); }
            p = bfdev_bitmap_alloc(&h_alloc, n);
            if (p) { bfdev_bitmap_comp_complement(p, a0, n); op = "alloc"; want(p, f_com, n); bfdev_bitmap_free(&h_alloc, p); }
            CHECK(h_live == 0, "bitmap storage leaked");
        }
    }
    return h_done();
}
