/* C30: bounded formatting against snprintf, argument strings against a word list */
#include "h.h"
#include <limits.h>
#include <wchar.h>
#include <bfdev/scnprintf.h>
#include <bfdev/argv.h>
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 20000 * h_n; ++c) {
        CASE();
        if (c % 2) {
            size_t size = rnd(40), len = rnd(3) ? rnd(60) : size + rnd(3) - 1;
            if ((long)len < 0) len = 0;
            char s[64], want[64], *b = malloc(size + 1);
            for (size_t i = 0; i < len; ++i) s[i] = 'a' + rnd(26);
            s[len] = 0;
            memset(b, 0x55, size + 1);
            int kind = rnd(4), r, n;
            LOG("size %zu length %zu kind %d\n", size, len, kind);
            if (kind == 0) {
                /* a conversion the C library refuses */
                wchar_t w[] = {'x', (wchar_t)0xdeadbeef, 0};
                if (size < 4) { free(b); continue; }
                r = bfdev_scnprintf(b, size, "%ls", w);
                CHECK(memchr(b, 0, size) != NULL, "failed conversion leaves the buffer unterminated");
                CHECK(r == (int)strlen(b), "failed conversion reported %d characters, %zu are stored", r, strlen(b));
                free(b);
                continue;
            }
            r = kind == 1 ? bfdev_scnprintf(b, size, "%s", s) : kind == 2 ? bfdev_scnprintf(b, size, "%.*s%d", (int)len, s, 7) : bfdev_scnprintf(b, size, "%c%s", 'q', s);
            n = kind == 1 ? snprintf(want, 64, "%s", s) : kind == 2 ? snprintf(want, 64, "%.*s%d", (int)len, s, 7) : snprintf(want, 64, "%c%s", 'q', s);
            int st = size == 0 ? 0 : n < (int)size ? n : (int)size - 1;
            CHECK(r == st, "returned %d, %d characters fit", r, st);
            if (size) CHECK(!memcmp(b, want, st) && b[st] == 0, "contents or terminator");
            for (size_t i = size ? st + 1 : 0; i <= size; ++i) CHECK(b[i] == 0x55, "byte %zu written beyond the terminator", i);
            free(b);
        } else {
            unsigned n = rnd(40), words = 0, cnt = ~0u, st[64], en[64];
            char *s = malloc(n + 1);
            for (unsigned i = 0; i < n; ++i) s[i] = rnd(3) == 0 ? " \t\r\n"[rnd(4)] : rnd(8) ? 'a' + rnd(26) : 1 + rnd(255);
            s[n] = 0;
            for (unsigned i = 0; i < n; ++i) if (!strchr(" \t\r\n", s[i])) {
                if (!i || strchr(" \t\r\n", s[i - 1])) st[words++] = i;
                en[words - 1] = i + 1;
            }
            LOG("string of %u bytes, %u words\n", n, words);
            char *copy = strdup(s);
            CHECK(bfdev_argv_count(s) == words, "counted %u, there are %u", bfdev_argv_count(s), words);
            int fail = !rnd(5); h_alloc_reset(fail ? 0 : -1);
            char **v = bfdev_argv_split(&h_alloc, s, rnd(4) ? &cnt : NULL);
            CHECK(!strcmp(s, copy), "source changed");
            CHECK(!v == fail, "result %p", (void *)v);
            if (v) {
                CHECK(cnt == ~0u || cnt == words, "reported %u words", cnt);
                for (unsigned i = 0; i < words; ++i)
                    CHECK(strlen(v[i]) == en[i] - st[i] && !memcmp(v[i], s + st[i], en[i] - st[i]), "word %u is \"%s\"", i, v[i]);
                CHECK(v[words] == NULL, "list not terminated");
                bfdev_argv_destroy(&h_alloc, v);
            }
            CHECK(h_live == 0, "%ld allocations left", (long)h_live);
            free(copy); free(s);
        }
    }
    return h_done();
}
