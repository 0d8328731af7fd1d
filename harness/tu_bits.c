/* every public bit arithmetic primitive as an ordinary function, so the VC generator and the harness see the same code */
#include <bfdev/config.h>
#include <bfdev/types.h>
#include <bfdev/stddef.h>
#include <bfdev/bits.h>
#include <bfdev/bitops.h>
#include <bfdev/bitops-endian.h>
#include <bfdev/bitrev.h>
#include <bfdev/popcount.h>
#include <bfdev/log2.h>
#include <bfdev/swab.h>
#include <bfdev/byteorder.h>
#include <bfdev/bcd.h>
#include <bfdev/math.h>
#include <bfdev/align.h>
#define F1(n, rt, at, e) rt n(at x) { return e; }
#define F2(n, rt, at, bt, e) rt n(at x, bt y) { return e; }
typedef unsigned long ul; typedef unsigned int ui;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define LIST(X) \
 X(bfdev_ffsuf) X(bfdev_flsuf) X(bfdev_ffzuf) X(bfdev_flzuf) X(bfdev_ffs) X(bfdev_fls) X(bfdev_ffz) X(bfdev_flz) X(bfdev_ctz) X(bfdev_clz)
#define X(f) ui v_##f(ul x) { return f(x); }
LIST(X)
#undef X
#define LIST64(X) X(ffsuf64) X(flsuf64) X(ffzuf64) X(flzuf64) X(ffs64) X(fls64) X(ffz64) X(flz64) X(ctz64) X(clz64)
#define X(f) ui v_bfdev_##f(u64 x) { return bfdev_##f(x); }
LIST64(X)
#undef X
#define X(f) ui v_##f(ul x, ui n) { return bfdev_##f(x, n); }
X(ffns) X(flns) X(ffnz) X(flnz)
#undef X
#define X(f) ui v_##f(ul x, ui *n) { return bfdev_##f(x, n); }
X(ffnsp) X(flnsp) X(ffnzp) X(flnzp)
#undef X
#define R(w) u##w v_rol##w(u##w x, ui n) { return bfdev_rol##w(x, n); } u##w v_ror##w(u##w x, ui n) { return bfdev_ror##w(x, n); }
R(8) R(16) R(32) R(64)
#define BR(w) u##w v_bitrev##w##_const(u##w x) { return bfdev_bitrev##w##_const(x); } u##w v_bitrev##w(u##w x) { return bfdev_bitrev##w(x); } u##w v_bitrev##w##_dynamic(u##w x) { return bfdev_bitrev##w##_dynamic(x); } \
 ui v_popcount##w##_const(u##w x) { return bfdev_popcount##w##_const(x); } ui v_popcount##w(u##w x) { return bfdev_popcount##w(x); } ui v_popcount##w##_dynamic(u##w x) { return bfdev_popcount##w##_dynamic(x); } \
 ui v_popparity##w##_const(u##w x) { return bfdev_popparity##w##_const(x); } ui v_popparity##w(u##w x) { return bfdev_popparity##w(x); } ui v_popparity##w##_dynamic(u##w x) { return bfdev_popparity##w##_dynamic(x); }
BR(8) BR(16) BR(32) BR(64)
ui v_ilog2_dynamic(ul x) { return bfdev_ilog2_dynamic(x); }
ui v_ilog2_64_dynamic(u64 x) { return bfdev_ilog2_64_dynamic(x); }
ui v_ilog2_l(ul x) { return bfdev_ilog2(x); }
ui v_ilog2_i(ui x) { return bfdev_ilog2(x); }
ul v_roundup(ul x) { return bfdev_pow2_roundup(x); }
ul v_rounddown(ul x) { return bfdev_pow2_rounddown(x); }
ul v_roundup_dynamic(ul x) { return bfdev_pow2_roundup_dynamic(x); }
ul v_rounddown_dynamic(ul x) { return bfdev_pow2_rounddown_dynamic(x); }
int v_pow2_check(ul x) { return bfdev_pow2_check(x); }
u16 v_swab16(u16 x) { return bfdev_swab16(x); } u16 v_swab16_const(u16 x) { return bfdev_swab16_const(x); } u16 v_fswab16(u16 x) { return bfdev_fswab16(x); } u16 v_swab16p(u16 *x) { return bfdev_swab16p(x); }
u32 v_swab32(u32 x) { return bfdev_swab32(x); } u32 v_swab32_const(u32 x) { return bfdev_swab32_const(x); } u32 v_fswab32(u32 x) { return bfdev_fswab32(x); } u32 v_swab32p(u32 *x) { return bfdev_swab32p(x); }
u64 v_swab64(u64 x) { return bfdev_swab64(x); } u64 v_swab64_const(u64 x) { return bfdev_swab64_const(x); } u64 v_fswab64(u64 x) { return bfdev_fswab64(x); } u64 v_swab64p(u64 *x) { return bfdev_swab64p(x); }
u64 v_swab(u64 x) { return bfdev_swab(x); }
#define H(n, w) u##w v_##n##_const(u##w x) { return bfdev_##n##_const(x); } u##w v_##n(u##w x) { return bfdev_##n(x); } u##w v_f##n(u##w x) { return bfdev_f##n(x); } u##w v_##n##p(u##w *x) { return bfdev_##n##p(x); } void v_##n##s(u##w *x) { bfdev_##n##s(x); }
H(swahb32, 32) H(swahw32, 32) H(swahb64, 64) H(swahw64, 64) H(swahl64, 64)
void v_swab16s(u16 *x) { bfdev_swab16s(x); } void v_swab32s(u32 *x) { bfdev_swab32s(x); } void v_swab64s(u64 *x) { bfdev_swab64s(x); } void v_swabs(ul *x) { bfdev_swabs(x); }
void v_swab16_array(u16 *x, ui n) { bfdev_swab16_array(x, n); } void v_swab32_array(u32 *x, ui n) { bfdev_swab32_array(x, n); } void v_swab64_array(u64 *x, ui n) { bfdev_swab64_array(x, n); } void v_swab_array(ul *x, ui n) { bfdev_swab_array(x, n); }
#define E1(w) u##w v_cpu_to_le##w(u##w x) { return bfdev_cpu_to_le##w(x); } u##w v_cpu_to_be##w(u##w x) { return bfdev_cpu_to_be##w(x); } u##w v_le##w##_to_cpu(u##w x) { return bfdev_le##w##_to_cpu(x); } u##w v_be##w##_to_cpu(u##w x) { return bfdev_be##w##_to_cpu(x); } \
 u##w v_cpu_to_le##w##c(u##w x) { return bfdev_cpu_to_le##w##_const(x); } u##w v_cpu_to_be##w##c(u##w x) { return bfdev_cpu_to_be##w##_const(x); } u##w v_le##w##_to_cpuc(u##w x) { return bfdev_le##w##_to_cpu_const(x); } u##w v_be##w##_to_cpuc(u##w x) { return bfdev_be##w##_to_cpu_const(x); } \
 u##w v_cpu_to_le##w##p(u##w *x) { return bfdev_cpu_to_le##w##p(x); } u##w v_cpu_to_be##w##p(u##w *x) { return bfdev_cpu_to_be##w##p(x); } u##w v_le##w##_to_cpup(u##w *x) { return bfdev_le##w##_to_cpup(x); } u##w v_be##w##_to_cpup(u##w *x) { return bfdev_be##w##_to_cpup(x); }
E1(16) E1(32) E1(64)
u8 v_bcd2bin(u8 x) { return bfdev_bcd2bin(x); } u8 v_bin2bcd(u8 x) { return bfdev_bin2bcd(x); }
u8 v_bcd2bin_dynamic(u8 x) { return bfdev_bcd2bin_dynamic(x); } u8 v_bin2bcd_dynamic(u8 x) { return bfdev_bin2bcd_dynamic(x); }
u8 v_bcd2bin_const(u8 x) { return bfdev_bcd2bin_const(x); } u8 v_bin2bcd_const(u8 x) { return bfdev_bin2bcd_const(x); }
ul v_low_mask(ui n) { return BFDEV_BIT_LOW_MASK(n); } ul v_high_mask(ui n) { return BFDEV_BIT_HIGH_MASK(n); } ul v_bit(ui n) { return BFDEV_BIT(n); } u64 v_bit_ull(ui n) { return BFDEV_BIT_ULL(n); }
ul v_range(ui h, ui l) { return BFDEV_BIT_RANGE(h, l); } u64 v_range_ull(ui h, ui l) { return BFDEV_BIT_RANGE_ULL(h, l); }
ul v_round_up(ul x, ul y) { return bfdev_round_up(x, y); } ul v_round_down(ul x, ul y) { return bfdev_round_down(x, y); }
ul v_align_high(ul x, ul y) { return bfdev_align_high(x, y); } ul v_align_low(ul x, ul y) { return bfdev_align_low(x, y); } int v_align_check(ul x, ul y) { return bfdev_align_check(x, y); }
ul v_div_up(ul x, ul y) { return BFDEV_DIV_ROUND_UP(x, y); }
#define B0(n) void v_bit_##n(ul *a, ui b) { bfdev_bit_##n(a, b); } void v_bit_atomic_##n(ul *a, ui b) { bfdev_bit_atomic_##n(a, b); } void v_bit_##n##_le(ul *a, ui b) { bfdev_bit_##n##_le(a, b); } void v_bit_##n##_be(ul *a, ui b) { bfdev_bit_##n##_be(a, b); } \
 void v_bit_atomic_##n##_le(ul *a, ui b) { bfdev_bit_atomic_##n##_le(a, b); } void v_bit_atomic_##n##_be(ul *a, ui b) { bfdev_bit_atomic_##n##_be(a, b); }
B0(set) B0(clr) B0(flip)
#define B1(n) int v_bit_##n(ul *a, ui b) { return bfdev_bit_##n(a, b); } int v_bit_atomic_##n(ul *a, ui b) { return bfdev_bit_atomic_##n(a, b); } int v_bit_##n##_le(ul *a, ui b) { return bfdev_bit_##n##_le(a, b); } int v_bit_##n##_be(ul *a, ui b) { return bfdev_bit_##n##_be(a, b); } \
 int v_bit_atomic_##n##_le(ul *a, ui b) { return bfdev_bit_atomic_##n##_le(a, b); } int v_bit_atomic_##n##_be(ul *a, ui b) { return bfdev_bit_atomic_##n##_be(a, b); }
B1(test) B1(test_set) B1(test_clr) B1(test_flip)
void v_bit_change(ul *a, ui b, ui v) { bfdev_bit_change(a, b, v & 1); } void v_bit_atomic_change(ul *a, ui b, ui v) { bfdev_bit_atomic_change(a, b, v & 1); }
void v_bit_change_le(ul *a, ui b, ui v) { bfdev_bit_change_le(a, b, v & 1); } void v_bit_change_be(ul *a, ui b, ui v) { bfdev_bit_change_be(a, b, v & 1); }
void v_bit_atomic_change_le(ul *a, ui b, ui v) { bfdev_bit_atomic_change_le(a, b, v & 1); } void v_bit_atomic_change_be(ul *a, ui b, ui v) { bfdev_bit_atomic_change_be(a, b, v & 1); }
int v_bit_test_change(ul *a, ui b, ui v) { return bfdev_bit_test_change(a, b, v & 1); } int v_bit_atomic_test_change(ul *a, ui b, ui v) { return bfdev_bit_atomic_test_change(a, b, v & 1); }
int v_bit_test_change_be(ul *a, ui b, ui v) { return bfdev_bit_test_change_be(a, b, v & 1); }
int v_bit_atomic_test_change_le(ul *a, ui b, ui v) { return bfdev_bit_atomic_test_change_le(a, b, v & 1); } int v_bit_atomic_test_change_be(ul *a, ui b, ui v) { return bfdev_bit_atomic_test_change_be(a, b, v & 1); }
