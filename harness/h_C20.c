/* C20: ARC4 against a textbook implementation, any key length, split calls, in place */
#include "h.h"
#include <bfdev/arc4.h>
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 20000 * h_n; ++c) {
        CASE();
        unsigned kl = 1 + (rnd(4) ? rnd(32) : rnd(600)), n = rnd(4) ? rnd(40) : rnd(1200);
        uint8_t *key = malloc(kl), *d = malloc(n + !n), *o = malloc(n + !n), *w = malloc(n + !n), S[256], i = 0, j = 0;
        for (unsigned k = 0; k < kl; ++k) key[k] = rnd64();
        for (unsigned k = 0; k < n; ++k) d[k] = rnd64();
        LOG("key length %u data length %u splits", kl, n);
        for (int k = 0; k < 256; ++k) S[k] = k;
        for (int k = 0; k < 256; ++k) { j += S[k] + key[k % kl]; uint8_t t = S[k]; S[k] = S[j]; S[j] = t; }
        j = 0;
        for (unsigned k = 0; k < n; ++k) { ++i; j += S[i]; uint8_t t = S[i]; S[i] = S[j]; S[j] = t; w[k] = d[k] ^ S[(uint8_t)(S[i] + S[j])]; }
        bfdev_arc4_ctx_t x;
        memset(&x, rnd(256), sizeof x);
        bfdev_arc4_setkey(&x, key, kl);
        for (unsigned at = 0; at < n || !rnd(3); ) { unsigned m = rnd(3) ? rnd(n - at + 1) : n - at; LOG(" %u", m); bfdev_arc4_trans(&x, o + at, d + at, m); at += m; }
        CHECK(!memcmp(o, w, n), "wrong output");
        bfdev_arc4_setkey(&x, key, kl);
        bfdev_arc4_trans(&x, o, o, n);
        CHECK(!memcmp(o, d, n), "applying it twice does not restore the data");
        free(key); free(d); free(o); free(w);
    }
    return h_done();
}
