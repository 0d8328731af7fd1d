/* C27: rate limiter and token bucket under arbitrary (huge, tiny, zero, backward) time steps against 128-bit models */
#include "h.h"
#include <bfdev/ratelimit.h>
#include <bfdev/tokenbucket.h>
typedef __int128 big;
static int64_t step(int64_t unit)
{
    switch (rnd(7)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return unit;
    case 3: return unit > 1 && unit < INT64_MAX - 3 ? unit - 1 + rnd(3) : rnd(3);
    case 4: return rnd(1000);
    case 5: return rnd64() >> (1 + rnd(62));
    default: { int k = 1 + rnd(9); return (big)unit * k > INT64_MAX / 4 ? unit : unit * k; }
    }
}
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long c = 0; c < 60000 * h_n; ++c) {
        CASE();
        int64_t interval = rnd(5) ? 1 + rnd(50) : rnd(3) ? (int64_t)(rnd64() >> (1 + rnd(62))) : INT64_MAX - rnd(3);
        unsigned burst = rnd(4) ? rnd(6) : rnd(3) ? rnd(1000) : (unsigned)rnd_edge();
        int64_t now = 1 + (rnd(3) ? rnd(100) : (int64_t)(rnd64() >> (2 + rnd(60))));
        bfdev_ratelimit_t rl; bfdev_tokenbucket_t tb;
        bfdev_ratelimit_init(&rl, interval, burst);
        bfdev_tokenbucket_init(&tb, interval, burst);
        LOG("interval %ld burst %u calls at:", (long)interval, burst);
        big begin = 0, last = 0, tokens = 0, t0 = now, granted = 0, passed = 0;
        unsigned miss = 0, tmiss = 0, tpass = 0;
        int back = !rnd(5), fresh = 1;
        for (int k = 0; k < 40; ++k) {
            if (k) {
                int64_t d = step(interval);
                if (back && rnd(2)) { if (now > 1) now -= rnd64() % (now < 100 ? now : 100); }
                else if ((big)now + d <= INT64_MAX) now += d;
            }
            LOG(" %ld", (long)now);
            /* window limiter */
            if (fresh) begin = now;
            bool got = bfdev_ratelimit(&rl, now);
            if (interval) {
                if ((big)now > begin + interval) { begin = now; passed = 0; }
                bool want = passed < burst;
                CHECK(got == want, "rate limiter %s although %ld of %u were granted in this window", got ? "granted" : "refused", (long)passed, burst);
                if (want) ++passed; else ++miss;
                CHECK(rl.missed == miss, "missed count");
            } else CHECK(got, "a zero interval limits nothing");
            /* token bucket */
            got = bfdev_tokenbucket(&tb, now);
            if (interval) {
                if (fresh) { last = t0 = now; tokens = burst; }
                if (now > last) { big g = (now - last) / interval; last += g * interval; tokens = tokens + g < burst ? tokens + g : burst; }
                bool want = tokens > 0;
                CHECK(got == want, "token bucket %s with %ld tokens", got ? "granted" : "refused", (long)tokens);
                if (want) { --tokens; ++tpass; ++granted; } else ++tmiss;
                CHECK(tb.missed == tmiss && tb.passed == tpass && tb.current == (unsigned)tokens, "token bucket counters");
                if (!back) CHECK(granted <= burst + (now - t0) / interval, "granted more than capacity plus refill");
            } else CHECK(got, "a zero interval limits nothing");
            fresh = 0;
            if (!rnd(60)) {
                bfdev_ratelimit_reset(&rl); bfdev_tokenbucket_reset(&tb);
                LOG(" reset");
                fresh = 1; passed = 0; miss = 0; tmiss = tpass = 0; granted = 0;
            }
        }
    }
    return h_done();
}
