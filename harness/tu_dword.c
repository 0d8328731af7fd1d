/* the generic double-word macros as functions */
#include <bfdev/config.h>
#include <bfdev/types.h>
#include <bfdev/stddef.h>
#include <bfdev/bits.h>
#include <bfdev/asm-generic/dword.h>
typedef bfdev_uw_t uw;
void v_addd(uw *s, uw ah, uw al, uw bh, uw bl) { uw h, l; bfdev_dword_addd(h, l, ah, al, bh, bl); s[0] = l; s[1] = h; }
void v_subd(uw *s, uw ah, uw al, uw bh, uw bl) { uw h, l; bfdev_sub_ddmmss(h, l, ah, al, bh, bl); s[0] = l; s[1] = h; }
void v_addd_alias(uw *s, uw ah, uw al, uw bh, uw bl) { bfdev_dword_addd(ah, al, ah, al, bh, bl); s[0] = al; s[1] = ah; }
void v_subd_alias(uw *s, uw ah, uw al, uw bh, uw bl) { bfdev_sub_ddmmss(ah, al, ah, al, bh, bl); s[0] = al; s[1] = ah; }
void v_mul(uw *s, uw a, uw b) { uw h, l; bfdev_umul_ppmm(h, l, a, b); s[0] = l; s[1] = h; }
void v_mul_alias(uw *s, uw a, uw b) { bfdev_umul_ppmm(a, b, a, b); s[0] = b; s[1] = a; }
void v_div(uw *s, uw h, uw l, uw d) { uw q, r; bfdev_udiv_qrnnd(q, r, h, l, d); s[0] = q; s[1] = r; }
void v_div_alias(uw *s, uw h, uw l, uw d) { uw q; bfdev_udiv_qrnnd(q, l, h, l, d); s[0] = q; s[1] = l; }
