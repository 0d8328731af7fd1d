/* C24: edit distance against the definition, computed over the whole table */
#include "h.h"
#include <limits.h>
#include <bfdev/levenshtein.h>
static unsigned char fill;
static void *al(size_t n, void *p) { void *b = h_al(n, p); if (b) memset(b, fill, n); return b; }
int main(int argc, char **argv)
{
    h_init(argc, argv);
    bfdev_alloc_ops_t ops = *h_alloc.ops;
    ops.alloc = al;
    bfdev_alloc_t A = h_alloc;
    A.ops = &ops;
    for (unsigned long c = 0; c < 30000 * h_n; ++c) {
        CASE();
        unsigned n = rnd(9), m = rnd(9), alpha = 1 + rnd(3), t[10][10];
        char *s1 = malloc(n + 1), *s2 = malloc(m + 1);
        for (unsigned i = 0; i < n; ++i) s1[i] = 'a' + rnd(alpha);
        for (unsigned i = 0; i < m; ++i) s2[i] = 'a' + rnd(alpha);
        if (m && n && rnd(2)) { memcpy(s2, s1, n < m ? n : m); if (m > 1) { char x = s2[m / 2]; s2[m / 2] = s2[m / 2 - 1]; s2[m / 2 - 1] = x; } }
        s1[n] = s2[m] = 0;
        unsigned s = rnd(5), w = rnd(5), a = rnd(5), d = rnd(5);
        fill = rnd(3) ? rnd(256) : 0;
        int big = !rnd(6);
        if (big) s *= 1000000, w *= 999983, a *= 1000003, d *= 999979;
        LOG("\"%s\" -> \"%s\" substitution %u swap %u addition %u deletion %u\n", s1, s2, s, w, a, d);
        for (unsigned j = 0; j <= m; ++j) for (unsigned i = 0; i <= n; ++i) {
            unsigned b = ~0u, x;
            if (!i && !j) { t[0][0] = 0; continue; }
            if (i && j && (x = t[j - 1][i - 1] + (s1[i - 1] == s2[j - 1] ? 0 : s)) < b) b = x;
            if (i > 1 && j > 1 && s1[i - 1] == s2[j - 2] && s1[i - 2] == s2[j - 1] && (x = t[j - 2][i - 2] + w) < b) b = x;
            if (j && (x = t[j - 1][i] + a) < b) b = x;
            if (i && (x = t[j][i - 1] + d) < b) b = x;
            t[j][i] = b;
        }
        int fail = !rnd(8);
        h_alloc_reset(fail ? 0 : -1);
        unsigned r = rnd(2) ? bfdev_levenshtein(&A, s1, s2, s, w, a, d) : bfdev_levenshtein_len(&A, s1, s2, n, m, s, w, a, d);
        if (fail && n && m) CHECK(r == UINT_MAX, "failed allocation reported as %u", r);
        else CHECK(r == t[m][n], "distance %u, by definition %u", r, t[m][n]);
        CHECK(h_live == 0, "allocations left");
        free(s1); free(s2);
    }
    return h_done();
}
