/* C14: every bit primitive against its definition */
#include "h.h"
#include "tu_bits.c"
static ui r_ffsuf(u64 x) { for (ui i = 0; i < 64; ++i) if (x >> i & 1) return i; return 64; }
static ui r_flsuf(u64 x) { for (int i = 63; i >= 0; --i) if (x >> i & 1) return i; return 64; }
static ui r_pop(u64 x) { ui n = 0; for (int i = 0; i < 64; ++i) n += x >> i & 1; return n; }
static u64 r_rev(u64 x, int w) { u64 r = 0; for (int i = 0; i < w; ++i) if (x >> i & 1) r |= 1ull << (w - 1 - i); return r; }
static u64 r_swap(u64 x, int w, int g) { /* exchange adjacent groups of g bits pairwise; g == 0: reverse bytes */
    u64 r = 0; for (int i = 0; i < w; ++i) { int j = g ? (i ^ g) : (w - 8 - i / 8 * 8 + i % 8); if (x >> i & 1) r |= 1ull << j; } return r; }
static u64 r_rol(u64 x, int w, ui n) { u64 r = 0; for (int i = 0; i < w; ++i) if (x >> i & 1) r |= 1ull << ((i + n) % w); return r; }
static ui r_nth(u64 x, ui n) { for (int i = 0; i < 64; ++i) if (x >> i & 1) if (!n--) return i; return 64; }
static ui r_nthl(u64 x, ui n) { for (int i = 63; i >= 0; --i) if (x >> i & 1) if (!n--) return i; return 64; }
#define EQ(f, a, want) do { u64 g_ = (u64)(f), w_ = (u64)(want); if (g_ != w_) { LOG(#f " argument 0x%llx: got 0x%llx, want 0x%llx\n", (long long)(a), (long long)g_, (long long)w_); FAIL("bit primitive differs from its definition"); } } while (0)

static void one64(u64 x)
{
    CASE();
    if (x) { EQ(v_bfdev_ffsuf(x), x, r_ffsuf(x)); EQ(v_bfdev_flsuf(x), x, r_flsuf(x)); EQ(v_bfdev_ffsuf64(x), x, r_ffsuf(x)); EQ(v_bfdev_flsuf64(x), x, r_flsuf(x)); }
    if (~x) { EQ(v_bfdev_ffzuf(x), x, r_ffsuf(~x)); EQ(v_bfdev_flzuf(x), x, r_flsuf(~x)); EQ(v_bfdev_ffzuf64(x), x, r_ffsuf(~x)); EQ(v_bfdev_flzuf64(x), x, r_flsuf(~x)); }
    EQ(v_bfdev_ffs(x), x, x ? r_ffsuf(x) + 1 : 0); EQ(v_bfdev_fls(x), x, x ? r_flsuf(x) + 1 : 0);
    EQ(v_bfdev_ffs64(x), x, x ? r_ffsuf(x) + 1 : 0); EQ(v_bfdev_fls64(x), x, x ? r_flsuf(x) + 1 : 0);
    EQ(v_bfdev_ffz(x), x, ~x ? r_ffsuf(~x) + 1 : 0); EQ(v_bfdev_flz(x), x, ~x ? r_flsuf(~x) + 1 : 0);
    EQ(v_bfdev_ffz64(x), x, ~x ? r_ffsuf(~x) + 1 : 0); EQ(v_bfdev_flz64(x), x, ~x ? r_flsuf(~x) + 1 : 0);
    EQ(v_bfdev_ctz(x), x, r_ffsuf(x)); EQ(v_bfdev_clz(x), x, x ? 63 - r_flsuf(x) : 64);
    EQ(v_bfdev_ctz64(x), x, r_ffsuf(x)); EQ(v_bfdev_clz64(x), x, x ? 63 - r_flsuf(x) : 64);
    for (ui n = 0; n < 66; n += 1 + rnd(5)) {
        ui k = n;
        EQ(v_ffns(x, n), x, r_nth(x, n)); EQ(v_flns(x, n), x, r_nthl(x, n)); EQ(v_ffnz(x, n), x, r_nth(~x, n)); EQ(v_flnz(x, n), x, r_nthl(~x, n));
        EQ(v_ffnsp(x, &k), x, r_nth(x, n)); if (n >= r_pop(x)) EQ(k, x, n - r_pop(x));
        k = n; EQ(v_flnsp(x, &k), x, r_nthl(x, n)); if (n >= r_pop(x)) EQ(k, x, n - r_pop(x));
        k = n; EQ(v_ffnzp(x, &k), x, r_nth(~x, n)); k = n; EQ(v_flnzp(x, &k), x, r_nthl(~x, n));
        EQ(v_rol64(x, n), x, r_rol(x, 64, n)); EQ(v_ror64(x, n), x, r_rol(x, 64, 128 - n)); EQ(v_rol32(x, n), x, r_rol((u32)x, 32, n)); EQ(v_ror32(x, n), x, r_rol((u32)x, 32, 96 - n));
        EQ(v_rol16(x, n), x, r_rol((u16)x, 16, n)); EQ(v_ror16(x, n), x, r_rol((u16)x, 16, 80 - n)); EQ(v_rol8(x, n), x, r_rol((u8)x, 8, n)); EQ(v_ror8(x, n), x, r_rol((u8)x, 8, 80 - n));
    }
#define W(w) EQ(v_bitrev##w##_const(x), x, r_rev((u##w)x, w)); EQ(v_bitrev##w##_dynamic(x), x, r_rev((u##w)x, w)); EQ(v_bitrev##w(x), x, r_rev((u##w)x, w)); \
    EQ(v_popcount##w##_const(x), x, r_pop((u##w)x)); EQ(v_popcount##w##_dynamic(x), x, r_pop((u##w)x)); EQ(v_popcount##w(x), x, r_pop((u##w)x)); \
    EQ(v_popparity##w##_const(x), x, r_pop((u##w)x) & 1); EQ(v_popparity##w##_dynamic(x), x, r_pop((u##w)x) & 1); EQ(v_popparity##w(x), x, r_pop((u##w)x) & 1);
    W(8) W(16) W(32) W(64)
    EQ(v_ilog2_dynamic(x), x, x < 2 ? 0 : r_flsuf(x)); EQ(v_ilog2_64_dynamic(x), x, x < 2 ? 0 : r_flsuf(x)); EQ(v_ilog2_l(x), x, x < 2 ? 0 : r_flsuf(x)); EQ(v_ilog2_i(x), x, (u32)x < 2 ? 0 : r_flsuf((u32)x));
    if (x <= 1ull << 63) { u64 up = x < 2 ? x : 1ull << (r_flsuf(x - 1) + (x > 1)); if (x == 2) up = 2; EQ(v_roundup(x), x, up); EQ(v_roundup_dynamic(x), x, up); }
    EQ(v_rounddown(x), x, x ? 1ull << r_flsuf(x) : 0); EQ(v_rounddown_dynamic(x), x, x ? 1ull << r_flsuf(x) : 0); EQ(v_pow2_check(x), x, r_pop(x) == 1);
#define S(w) { u##w t = x, u = x; EQ(v_swab##w(x), x, r_swap((u##w)x, w, 0)); EQ(v_swab##w##_const(x), x, r_swap((u##w)x, w, 0)); EQ(v_fswab##w(x), x, r_swap((u##w)x, w, 0)); EQ(v_swab##w##p(&t), x, r_swap((u##w)x, w, 0)); v_swab##w##s(&u); EQ(u, x, r_swap((u##w)x, w, 0)); \
    EQ(v_cpu_to_le##w(x), x, (u##w)x); EQ(v_le##w##_to_cpu(x), x, (u##w)x); EQ(v_cpu_to_le##w##c(x), x, (u##w)x); EQ(v_le##w##_to_cpuc(x), x, (u##w)x); EQ(v_cpu_to_le##w##p(&t), x, (u##w)x); EQ(v_le##w##_to_cpup(&t), x, (u##w)x); \
    EQ(v_cpu_to_be##w(x), x, r_swap((u##w)x, w, 0)); EQ(v_be##w##_to_cpu(x), x, r_swap((u##w)x, w, 0)); EQ(v_cpu_to_be##w##c(x), x, r_swap((u##w)x, w, 0)); EQ(v_be##w##_to_cpuc(x), x, r_swap((u##w)x, w, 0)); EQ(v_cpu_to_be##w##p(&t), x, r_swap((u##w)x, w, 0)); EQ(v_be##w##_to_cpup(&t), x, r_swap((u##w)x, w, 0)); }
    S(16) S(32) S(64)
#define G(n, w, g) { u##w t = x, u = x; u64 k = r_swap((u##w)x, w, g); EQ(v_##n(x), x, k); EQ(v_##n##_const(x), x, k); EQ(v_f##n(x), x, k); EQ(v_##n##p(&t), x, k); v_##n##s(&u); EQ(u, x, k); }
    G(swahb32, 32, 8) G(swahw32, 32, 16) G(swahb64, 64, 8) G(swahw64, 64, 16) G(swahl64, 64, 32)
    EQ(v_swab(x), x, r_swap(x, 64, 0)); { ul u = x; v_swabs(&u); EQ(u, x, r_swap(x, 64, 0)); }
    { ul y = 1ul << rnd(64); ul m = y - 1; if (x <= ~m) { EQ(v_round_up(x, y), x, (x + m) & ~m); EQ(v_align_high(x, y), x, (x + m) & ~m); } EQ(v_round_down(x, y), x, x & ~m); EQ(v_align_low(x, y), x, x & ~m); EQ(v_align_check(x, y), x, !(x & m)); }
}
static void bits(void)
{
    ul a[4], b[4];
    ui bit = rnd(256), w = bit / 64; ul m = 1ul << bit % 64;
    CASE();
    for (int i = 0; i < 4; ++i) a[i] = b[i] = rnd_edge();
    LOG("bit %u words %lx %lx %lx %lx\n", bit, a[0], a[1], a[2], a[3]);
#define RESET memcpy(a, b, sizeof a)
#define SAME(k, x) do { ul c[4]; memcpy(c, b, sizeof c); c[k] = (x); if (memcmp(a, c, sizeof c)) FAIL("line %d: wrong bits changed", __LINE__); RESET; } while (0)
#define T4(sfx, W_, M_) { ui k = W_; ul M = M_; int old = !!(b[k] & M); ui v = rnd(2); \
    v_bit_set##sfx(a, bit); SAME(k, b[k] | M); v_bit_clr##sfx(a, bit); SAME(k, b[k] & ~M); v_bit_flip##sfx(a, bit); SAME(k, b[k] ^ M); \
    v_bit_atomic_set##sfx(a, bit); SAME(k, b[k] | M); v_bit_atomic_clr##sfx(a, bit); SAME(k, b[k] & ~M); v_bit_atomic_flip##sfx(a, bit); SAME(k, b[k] ^ M); \
    CHECK(v_bit_test##sfx(a, bit) == old, "test"); SAME(k, b[k]); CHECK(v_bit_atomic_test##sfx(a, bit) == old, "test"); SAME(k, b[k]); \
    CHECK(v_bit_test_set##sfx(a, bit) == old, "test_set"); SAME(k, b[k] | M); CHECK(v_bit_atomic_test_set##sfx(a, bit) == old, "atomic test_set"); SAME(k, b[k] | M); \
    CHECK(v_bit_test_clr##sfx(a, bit) == old, "test_clr"); SAME(k, b[k] & ~M); CHECK(v_bit_atomic_test_clr##sfx(a, bit) == old, "atomic test_clr"); SAME(k, b[k] & ~M); \
    CHECK(v_bit_test_flip##sfx(a, bit) == old, "test_flip"); SAME(k, b[k] ^ M); CHECK(v_bit_atomic_test_flip##sfx(a, bit) == old, "atomic test_flip"); SAME(k, b[k] ^ M); \
    ul nv = v ? b[k] | M : b[k] & ~M; v_bit_change##sfx(a, bit, v); SAME(k, nv); v_bit_atomic_change##sfx(a, bit, v); SAME(k, nv); \
    CHECK(v_bit_atomic_test_change##sfx(a, bit, v) == old, "atomic test_change"); SAME(k, nv); }
    T4(, w, m) T4(_le, w, m) T4(_be, w, 1ul << ((bit ^ 56) % 64))
    { ui v = rnd(2); ul nv = v ? b[w] | m : b[w] & ~m; CHECK(v_bit_test_change(a, bit, v) == !!(b[w] & m), "test_change"); SAME(w, nv); }
    { ui v = rnd(2); ul M = 1ul << ((bit ^ 56) % 64), nv = v ? b[w] | M : b[w] & ~M; CHECK(v_bit_test_change_be(a, bit, v) == !!(b[w] & M), "test_change_be"); SAME(w, nv); }
}
static void arrays(void)
{
    ui n = rnd(20);
    CASE();
    u64 s[24], t[24];
    for (int i = 0; i < 24; ++i) s[i] = rnd64();
    LOG("swab arrays, count %u\n", n);
#define A(w, f) { memcpy(t, s, sizeof s); f((void *)t, n); for (ui i = 0; i < 24 * 64 / w; ++i) { u64 o = ((u##w *)s)[i]; EQ(((u##w *)t)[i], o, i < n ? r_swap(o, w, 0) : o); } }
    A(16, v_swab16_array) A(32, v_swab32_array) A(64, v_swab64_array) A(64, v_swab_array)
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (ui x = 0; x < 256; ++x) {
        if (x < 100) { u8 b = x / 10 * 16 + x % 10; EQ(v_bin2bcd(x), x, b); EQ(v_bin2bcd_dynamic(x), x, b); EQ(v_bin2bcd_const(x), x, b); EQ(v_bcd2bin(b), b, x); EQ(v_bcd2bin_dynamic(b), b, x); EQ(v_bcd2bin_const(b), b, x); }
        EQ(v_low_mask(x % 64 + 1), x, ~0ul >> (63 - x % 64)); EQ(v_high_mask(x % 64), x, ~0ul << x % 64); EQ(v_bit(x), x, 1ul << x % 64); EQ(v_bit_ull(x), x, 1ul << x % 64);
        for (ui l = 0; l <= x % 64; ++l) { u64 k = 0; for (ui i = l; i <= x % 64; ++i) k |= 1ull << i; EQ(v_range(x % 64, l), x, k); EQ(v_range_ull(x % 64, l), x, k); }
    }
    for (u32 x = h_job; x < 65536; x += h_jobs) one64(x);
    for (int h = h_job; h < 64; h += h_jobs) for (int l = 0; l <= h; ++l) { u64 m = (~0ull >> (63 - h)) & (~0ull << l); one64(m); one64(~m); one64(m ^ 1ull << rnd(64)); }
    for (unsigned long k = 0; k < 20000 * h_n; ++k) { one64(rnd_edge()); bits(); if (k % 8 == 0) arrays(); }
    return h_done();
}
