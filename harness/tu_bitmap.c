/* bit searches and bitmaps: the out-of-line functions, and the single-word variants that the
   headers select for compile-time constant sizes (here selected for every size up to 64) */
#include <bfdev/config.h>
#include <bfdev/types.h>
#include <bfdev/stddef.h>
#include <bfdev/bits.h>
#include <bfdev/bitops.h>
#include <bfdev/string.h>
#include <bfdev/limits.h>
#include <bfdev/align.h>
#include <bfdev/byteorder.h>
#include <bfdev/bitwalk-comp.h>
#include <bfdev/bitmap-comp.h>
#undef bfdev_const_small_nbits
#define bfdev_const_small_nbits(nbits) ((nbits) <= BFDEV_BITS_PER_LONG && (nbits) > 0)
#include <bfdev/bitwalk.h>
#include <bfdev/bitmap.h>
typedef unsigned long ul; typedef unsigned int ui;
#define A const unsigned long *
ui w_find_first_bit(A a, ui n) { return bfdev_find_first_bit(a, n); }
ui w_find_last_bit(A a, ui n) { return bfdev_find_last_bit(a, n); }
ui w_find_first_zero(A a, ui n) { return bfdev_find_first_zero(a, n); }
ui w_find_last_zero(A a, ui n) { return bfdev_find_last_zero(a, n); }
ui w_find_next_bit(A a, ui n, ui o) { return bfdev_find_next_bit(a, n, o); }
ui w_find_prev_bit(A a, ui n, ui o) { return bfdev_find_prev_bit(a, n, o); }
ui w_find_next_zero(A a, ui n, ui o) { return bfdev_find_next_zero(a, n, o); }
ui w_find_prev_zero(A a, ui n, ui o) { return bfdev_find_prev_zero(a, n, o); }
ui w_find_next_and_bit(A a, A b, ui n, ui o) { return bfdev_find_next_and_bit(a, b, n, o); }
ui w_find_prev_and_bit(A a, A b, ui n, ui o) { return bfdev_find_prev_and_bit(a, b, n, o); }
bool w_empty(A a, ui n) { return bfdev_bitmap_empty(a, n); }
bool w_full(A a, ui n) { return bfdev_bitmap_full(a, n); }
bool w_equal(A a, A b, ui n) { return bfdev_bitmap_equal(a, b, n); }
bool w_or_equal(A a, A b, A c, ui n) { return bfdev_bitmap_or_equal(a, b, c, n); }
bool w_intersects(A a, A b, ui n) { return bfdev_bitmap_intersects(a, b, n); }
bool w_and(ul *d, A a, A b, ui n) { return bfdev_bitmap_and(d, a, b, n); }
bool w_andnot(ul *d, A a, A b, ui n) { return bfdev_bitmap_andnot(d, a, b, n); }
void w_or(ul *d, A a, A b, ui n) { bfdev_bitmap_or(d, a, b, n); }
void w_xor(ul *d, A a, A b, ui n) { bfdev_bitmap_xor(d, a, b, n); }
void w_shl(ul *d, A a, ui s, ui n) { bfdev_bitmap_shl(d, a, s, n); }
void w_shr(ul *d, A a, ui s, ui n) { bfdev_bitmap_shr(d, a, s, n); }
void w_complement(ul *d, A a, ui n) { bfdev_bitmap_complement(d, a, n); }
