/* C17: base64, base32 and ascii85 against naive encoders, exact-size buffers, arbitrary and mutilated texts */
#include "h.h"
#include <bfdev/base64.h>
#include <bfdev/base32.h>
#include <bfdev/ascii85.h>
static const char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static const char A32[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
static size_t enc(char *o, const uint8_t *d, size_t n, int c, int G, const char *A)
{
    size_t k = 0, bits = n * 8;
    for (size_t b = 0; b < bits; b += c) {
        int v = 0;
        for (int i = 0; i < c; ++i) v = v * 2 + (b + i < bits ? d[(b + i) / 8] >> (7 - (b + i) % 8) & 1 : 0);
        o[k++] = A[v];
    }
    while (k % G) o[k++] = '=';
    return k;
}
/* -1: invalid; else bytes produced */
static long dec(uint8_t *o, const char *t, size_t n, int c, const char *A)
{
    size_t m = 0;
    while (m < n && t[m] && strchr(A, t[m])) ++m;
    for (size_t i = 0; i < m * c / 8; ++i) {
        int v = 0;
        for (size_t b = i * 8; b < i * 8 + 8; ++b) v = v * 2 + ((strchr(A, t[b / c]) - A) >> (c - 1 - b % c) & 1);
        o[i] = v;
    }
    return m < n && t[m] != '=' ? -1 : (long)(m * c / 8);
}
static void *exact(const void *p, size_t n) { void *q = malloc(n ? n : 1); if (n && p) memcpy(q, p, n); if (!n) { free(q); q = malloc(1); } return q; }
static void base(int b64)
{
    int n = rnd(4) ? rnd(20) : rnd(200), c = b64 ? 6 : 5, G = b64 ? 4 : 8;
    const char *A = b64 ? A64 : A32;
    uint8_t *d = malloc(n + !n);
    char want[600];
    for (int i = 0; i < n; ++i) d[i] = rnd(4) ? rnd64() : 0;
    LOG("base%d length %d:", b64 ? 64 : 32, n);
    for (int i = 0; i < n && i < 40; ++i) LOG(" %02x", d[i]);
    size_t len = b64 ? bfdev_base64_encode_length(n) : bfdev_base32_encode_length(n), w = enc(want, d, n, c, G, A);
    CHECK(len == w, "announced length %zu, standard text has %zu", len, w);
    char *t = malloc(len + !len);
    memset(t, '~', len);
    (b64 ? bfdev_base64_encode : bfdev_base32_encode)(t, d, n);
    CHECK(!memcmp(t, want, len), "encoded as %.*s, should be %.*s", (int)len, t, (int)len, want);
    size_t dl = b64 ? bfdev_base64_decode_length(len) : bfdev_base32_decode_length(len);
    uint8_t *o = malloc(dl + !dl);
    int r = (b64 ? bfdev_base64_decode : bfdev_base32_decode)(o, t, len);
    CHECK(r == 0, "decoding an encoded text returned %d", r);
    CHECK(dl >= (size_t)n && !memcmp(o, d, n), "round trip lost data");
    free(o); free(t); free(d);
    /* any text */
    len = rnd(30);
    t = malloc(len + !len);
    for (size_t i = 0; i < len; ++i) t[i] = rnd(12) ? A[rnd(b64 ? 64 : 32)] : rnd(3) ? '=' : (char)rnd(256);
    LOG(" text:");
    for (size_t i = 0; i < len; ++i) LOG(" %02x", (uint8_t)t[i]);
    dl = b64 ? bfdev_base64_decode_length(len) : bfdev_base32_decode_length(len);
    o = malloc(dl + !dl);
    uint8_t wo[64];
    long wl = dec(wo, t, len, c, A);
    r = (b64 ? bfdev_base64_decode : bfdev_base32_decode)(o, t, len);
    CHECK((r == 0) == (wl >= 0), "decode returned %d", r);
    if (wl > 0) CHECK(!memcmp(o, wo, wl), "decoded to other bytes");
    free(o); free(t);
}
static void a85(void)
{
    int n = rnd(4) ? rnd(20) : rnd(200);
    uint8_t *d = malloc(n + !n), pad[256] = {0};
    char want[400];
    size_t w = 0, len, dl;
    for (int i = 0; i < n; ++i) d[i] = rnd(2) ? rnd64() : 0;
    memcpy(pad, d, n);
    LOG("ascii85 length %d:", n);
    for (int i = 0; i < n && i < 40; ++i) LOG(" %02x", d[i]);
    for (int i = 0; i < n; i += 4) {
        uint32_t v = (uint32_t)pad[i] << 24 | pad[i + 1] << 16 | pad[i + 2] << 8 | pad[i + 3], p = 52200625;
        if (!v) want[w++] = 'z';
        else for (int j = 0; j < 5; ++j, p /= 85) want[w++] = '!' + v / p % 85;
    }
    size_t el = bfdev_ascii85_encode_length(n);
    CHECK(el >= w, "announced length %zu below %zu", el, w);
    char *t = malloc(el + !el);
    bfdev_ascii85_encode(t, d, &len, n);
    CHECK(len == w && !memcmp(t, want, w), "encoded as %.*s, should be %.*s", (int)len, t, (int)w, want);
    char *t2 = exact(t, len);
    size_t full = (n + 3) / 4 * 4;
    uint8_t *o = malloc(full + !full);
    int r = bfdev_ascii85_decode(o, t2, &dl, len);
    CHECK(r == 0, "decoding an encoded text returned %d", r);
    CHECK(dl == full && !memcmp(o, pad, full), "round trip lost data (%zu bytes)", dl);
    free(o); free(t2); free(t); free(d);
    /* any text: room for four bytes per group */
    len = rnd(24);
    t = malloc(len + !len);
    size_t groups = 0;
    for (size_t i = 0; i < len; ++i) t[i] = rnd(30) ? '!' + rnd(85) : rnd(3) ? 'z' : (char)rnd(256);
    LOG(" text:");
    for (size_t i = 0; i < len; ++i) LOG(" %02x", (uint8_t)t[i]);
    int bad = 0;
    for (size_t i = 0; i < len && !bad; ) {
        if (t[i] == 'z') { ++groups; ++i; continue; }
        if (len - i < 5) { bad = 1; break; }
        for (int j = 0; j < 5; ++j) if ((uint8_t)t[i + j] < '!' || (uint8_t)t[i + j] > 'u') bad = 1;
        if (!bad) { ++groups; i += 5; }
    }
    o = malloc(groups * 4 + !groups);
    r = bfdev_ascii85_decode(o, t, &dl, len);
    CHECK((r == 0) == !bad, "decode returned %d", r);
    if (!bad) {
        CHECK(dl == groups * 4, "decoded length %zu", dl);
        for (size_t i = 0, g = 0; i < len; ++g) {
            uint32_t v = 0;
            if (t[i] == 'z') ++i;
            else for (int j = 0; j < 5; ++j) v = v * 85 + (t[i++] - '!');
            uint8_t e[4] = {v >> 24, v >> 16, v >> 8, v};
            CHECK(!memcmp(o + g * 4, e, 4), "group %zu decoded wrongly", g);
        }
    }
    free(o); free(t);
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 60000 * h_n; ++c) {
        CASE();
        switch (c % 3) { case 0: base(1); break; case 1: base(0); break; default: a85(); }
    }
    return h_done();
}
