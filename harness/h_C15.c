/* C15: double-word arithmetic against the compiler's 128-bit integers */
#include "h.h"
#include "tu_dword.c"
#include <bfdev/dword.h>
typedef unsigned __int128 u128;
#define MK(h, l) (((u128)(h) << 64) | (l))
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long k = 0; k < 400000 * h_n; ++k) {
        uw a = rnd_edge(), b = rnd_edge(), c = rnd_edge(), d = rnd_edge(), s[2], q[2], r[2];
        if (rnd(8) == 0) c = a + rnd(3) - 1;
        if (rnd(8) == 0) d = b + rnd(3) - 1;
        CASE();
        LOG("operands %lx:%lx and %lx:%lx\n", a, b, c, d);
        u128 x = MK(a, b), y = MK(c, d);
        v_addd(s, a, b, c, d); CHECK(MK(s[1], s[0]) == x + y, "addition"); v_addd_alias(s, a, b, c, d); CHECK(MK(s[1], s[0]) == x + y, "addition in place");
        v_subd(s, a, b, c, d); CHECK(MK(s[1], s[0]) == x - y, "subtraction"); v_subd_alias(s, a, b, c, d); CHECK(MK(s[1], s[0]) == x - y, "subtraction in place");
        v_mul(s, a, c); CHECK(MK(s[1], s[0]) == (u128)a * c, "multiplication"); v_mul_alias(s, a, c); CHECK(MK(s[1], s[0]) == (u128)a * c, "multiplication in place");
        uw dn = c | 1ul << 63; uw h = dn ? a % dn : 0;
        if (rnd(4) == 0) h = dn - 1 - rnd(3);
        v_div(s, h, b, dn); CHECK(s[0] == (uw)(MK(h, b) / dn) && s[1] == (uw)(MK(h, b) % dn), "normalised division %lx:%lx / %lx", h, b, dn);
        v_div_alias(s, h, b, dn); CHECK(s[0] == (uw)(MK(h, b) / dn) && s[1] == (uw)(MK(h, b) % dn), "normalised division in place");
        uw src[2] = {b, a}, dv[2] = {d, c};
        if (d) {
            u128 Q = x / d; int f = rnd(3);
            q[0] = q[1] = r[0] = 0x5555; 
            bfdev_dword_generic_udiv(f == 1 ? NULL : q, f == 2 ? NULL : r, src, d);
            if (f != 1) CHECK(MK(q[1], q[0]) == Q, "udiv quotient");
            if (f != 2) CHECK(r[0] == (uw)(x % d), "udiv remainder");
            if (rnd(4) == 0) { uw t[2] = {b, a}; bfdev_dword_generic_udiv(t, r, t, d); CHECK(MK(t[1], t[0]) == Q && r[0] == (uw)(x % d), "udiv in place"); }
        }
        if (y) {
            int f = rnd(3);
            q[0] = q[1] = r[0] = r[1] = 0x5555;
            bfdev_dword_generic_udivd(f == 1 ? NULL : q, f == 2 ? NULL : r, src, dv);
            if (f != 1) CHECK(MK(q[1], q[0]) == x / y, "udivd quotient");
            if (f != 2) CHECK(MK(r[1], r[0]) == x % y, "udivd remainder");
        }
        CHECK(src[0] == b && src[1] == a && dv[0] == d && dv[1] == c, "operands were modified");
    }
    return h_done();
}
