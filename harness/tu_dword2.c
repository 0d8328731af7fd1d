/* src/dword.c itself, with the inner division and multiplication macros (proved separately in
   tu_dword.c) expanded to contract calls through the header's own override points */
#include <bfdev/config.h>
#include <bfdev/types.h>
#include <bfdev/stddef.h>
#include <bfdev/bits.h>
extern void c_qrnnd(bfdev_uw_t *q, bfdev_uw_t *r, bfdev_uw_t h, bfdev_uw_t l, bfdev_uw_t d);
extern void c_umul(bfdev_uw_t *h, bfdev_uw_t *l, bfdev_uw_t a, bfdev_uw_t b);
#define bfdev_udiv_qrnnd(q, r, h, l, d) do { bfdev_uw_t q_, r_; c_qrnnd(&q_, &r_, h, l, d); (q) = q_; (r) = r_; } while (0)
#define bfdev_umul_ppmm(h, l, a, b) do { bfdev_uw_t h_, l_; c_umul(&h_, &l_, a, b); (h) = h_; (l) = l_; } while (0)
#include "src/dword.c"
