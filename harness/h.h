/* common support for the native harnesses: seeded PRNG, failure reports, failing allocator */
#ifndef H_H
#define H_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <bfdev/config.h>
#include <bfdev/types.h>
#include <bfdev/stddef.h>
#include <bfdev/allocator.h>
#include <bfdev/errno.h>

static uint64_t h_s[2];
static unsigned long h_cases;
static int h_job, h_jobs = 1;
static unsigned long h_n = 1;

static inline uint64_t rnd64(void)
{
    uint64_t a = h_s[0], b = h_s[1];
    h_s[0] = b;
    a ^= a << 23;
    h_s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
    return h_s[1] + b;
}
static inline unsigned rnd(unsigned n) { return n ? (unsigned)((rnd64() >> 11) % n) : 0; }
static inline void reseed(uint64_t seed)
{
    h_s[0] = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    h_s[1] = (seed ^ 0xdeadbeefcafef00dull) * 0xBF58476D1CE4E5B9ull + 77;
    for (int i = 0; i < 8; ++i) rnd64();
}
/* values that like boundaries */
static inline uint64_t rnd_edge(void)
{
    static const uint64_t e[] = {0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000,
        0x7fffffff, 0x80000000, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 1};
    switch (rnd(6)) {
    case 0: return e[rnd(sizeof e / sizeof *e)];
    case 1: return 1ull << rnd(64);
    case 2: return (1ull << rnd(64)) - 1;
    case 3: return rnd64() >> rnd(64);
    case 4: return ~(rnd64() >> rnd(64));
    default: return rnd64();
    }
}

static char h_log[1 << 16];
static unsigned h_loglen;
static inline void LOGCLR(void) { h_loglen = 0; h_log[0] = 0; }
static inline void LOG(const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    if (h_loglen < sizeof h_log - 512)
        h_loglen += vsnprintf(h_log + h_loglen, 400, f, ap);
    va_end(ap);
}
static inline void h_dump(void)
{
    unsigned from = h_loglen > 2500 ? h_loglen - 2500 : 0;
    printf("INPUT/HISTORY: %s%s\n", from ? "..." : "", h_log + from);
    fflush(stdout);
}
#define FAIL(...) do { printf("FAILED %s:%d: ", __FILE__, __LINE__); printf(__VA_ARGS__); printf("\n"); h_dump(); _exit(3); } while (0)
#define CHECK(c, ...) do { if (!(c)) FAIL(__VA_ARGS__); } while (0)

static inline void h_alarm(int s)
{
    static const char m[] = "FAILED: the library call did not return (endless loop)\n";
    (void)s;
    ssize_t r = write(1, m, sizeof m - 1);
    (void)r;
    unsigned from = h_loglen > 2500 ? h_loglen - 2500 : 0;
    r = write(1, h_log + from, h_loglen - from);
    (void)r;
    _exit(4);
}
static inline void h_crash(int s)
{
    static const char m[] = "FAILED: crashed by signal\n";
    (void)s;
    ssize_t r = write(1, m, sizeof m - 1);
    unsigned from = h_loglen > 2500 ? h_loglen - 2500 : 0;
    r = write(1, h_log + from, h_loglen - from);
    (void)r;
    _exit(5);
}
#ifndef __SANITIZE_ADDRESS__
#define __SANITIZE_ADDRESS__ 0
#endif
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static inline void h_death(void) { printf("FAILED: sanitizer report above\n"); h_dump(); }
static inline void h_init(int argc, char **argv)
{
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 0) : 1;
    if (argc > 2) h_n = strtoul(argv[2], 0, 0);
    if (argc > 3) h_job = atoi(argv[3]);
    if (argc > 4) h_jobs = atoi(argv[4]);
    reseed(seed);
    setvbuf(stdout, 0, _IOLBF, 1 << 16);
    signal(SIGALRM, h_alarm);
    signal(SIGABRT, h_crash);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(h_death);
}
/* call at the start of each case */
static inline void CASE(void) { ++h_cases; LOGCLR(); alarm(20); }
static inline int h_done(void) { alarm(0); printf("CASES %lu\n", h_cases); return 0; }
#define MINE(i) ((int)((i) % h_jobs) == h_job)

/* allocator that can fail and counts live blocks */
static long h_fail_at = -1, h_allocs, h_live;
static inline int h_oom(void) { long k = h_allocs++; return h_fail_at >= 0 && k == h_fail_at; }
static void *h_al(size_t n, void *p) { (void)p; if (h_oom()) return NULL; void *b = malloc(n ? n : 1); if (b) { memset(b, 0xA5, n); ++h_live; } return b; }
static void *h_zal(size_t n, void *p) { (void)p; if (h_oom()) return NULL; void *b = calloc(1, n ? n : 1); if (b) ++h_live; return b; }
static void *h_real(void *o, size_t n, void *p) { (void)p; if (h_oom()) return NULL; if (o && !n) { free(o); --h_live; return NULL; } void *b = realloc(o, n); if (b && !o) ++h_live; return b; }
static void h_fr(void *o, void *p) { (void)p; if (o) --h_live; free(o); }
static bfdev_alloc_ops_t h_ops = { h_al, h_zal, h_real, h_fr };
static bfdev_alloc_t h_alloc = { &h_ops, NULL };
static inline void h_alloc_reset(long fail) { h_fail_at = fail; h_allocs = 0; h_live = 0; }
#endif
