/* shared by C02 (fifo) and C03 (ringbuf): Q = fifo/ringbuf */
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define QF(n) CAT(CAT(CAT(bfdev_, Q), _), n)
#define QT CAT(CAT(bfdev_, Q), _t)

/* model of element values: esize bytes each */
#define MAXSZ 64
static uint8_t model[MAXSZ * 4][16];
static unsigned mlen;

static void mdrop(unsigned n) { memmove(model, model + n, (mlen - n) * 16); mlen -= n; }

static void flat_case(void)
{
    static const unsigned es[] = {1, 1, 2, 3, 4, 5, 8, 12, 16};
    unsigned esize = es[rnd(9)], want = 2 + rnd(MAXSZ - 2);
    QT q = {0};
    CASE();
    LOG("esize=%u size=%u ", esize, want);
    h_alloc_reset(-1);
    CHECK(QF(dynamic_alloc)(&q, &h_alloc, esize, want) == 0, "dynamic_alloc failed");
    unsigned cap = q.mask + 1;
    CHECK(cap >= want && !(cap & (cap - 1)) && q.esize == esize && q.in == 0 && q.out == 0, "geometry after alloc");
    if (rnd(3) == 0) { unsigned long s = rnd(2) ? -(unsigned long)rnd(2 * cap) : rnd64(); q.in = q.out = s; LOG("pos=%#lx ", s); }
    mlen = 0;
    unsigned ops = 4 + rnd(40);
    for (unsigned t = 0; t < ops; ++t) {
        unsigned n = rnd(4) == 0 ? rnd(3) : rnd(cap + cap / 2 + 2);
        uint8_t *b = malloc(n * esize + 1);
        for (unsigned i = 0; i < n * esize; ++i) b[i] = rnd64();
        if (rnd(2)) {
            LOG("in(%u) ", n);
            unsigned long r = QF(in_flat)(&q, b, n);
            unsigned take = n;
            if (RING) { if (take > cap) take = cap; }
            else if (take > cap - mlen) take = cap - mlen;
            CHECK(r == take, "in_flat returned %lu, expected %u", r, take);
            for (unsigned i = 0; i < take; ++i) memcpy(model[mlen++], b + i * esize, esize);
            if (mlen > cap) mdrop(mlen - cap);
        } else {
            int peek = rnd(3) == 0;
            uint8_t *c = malloc(n * esize + 1);
            memset(c, 0x5c, n * esize + 1);
            LOG("%s(%u) ", peek ? "peek" : "out", n);
            unsigned long r = peek ? QF(peek_flat)(&q, c, n) : QF(out_flat)(&q, c, n);
            unsigned take = n < mlen ? n : mlen;
            CHECK(r == take, "out returned %lu, expected %u", r, take);
            for (unsigned i = 0; i < take; ++i)
                CHECK(!memcmp(c + i * esize, model[i], esize), "element %u out of order or corrupted", i);
            for (unsigned i = take * esize; i <= n * esize; ++i) CHECK(c[i] == 0x5c, "wrote past the delivered elements");
            if (!peek) mdrop(take);
            free(c);
        }
        free(b);
        CHECK(q.in - q.out == mlen && q.mask == cap - 1 && q.esize == esize, "length %lu, expected %u", q.in - q.out, mlen);
    }
    QF(dynamic_free)(&q);
    CHECK(h_live == 0, "leak");
    h_alloc_reset(0);
    CHECK(QF(dynamic_alloc)(&q, &h_alloc, esize, want) == -BFDEV_ENOMEM, "oom not reported");
}

static struct { unsigned len; uint8_t d[1200 * 4]; } recs[700];
static unsigned nrec;

static void record_case(void)
{
    unsigned record = 1 + rnd(2), esize = rnd(3) ? 1 : 1 + rnd(4);
    unsigned cap = record == 2 && rnd(2) ? 512 : 4u << rnd(6);
    unsigned lim = record == 1 ? 255 : 65535;
    QT q = {0};
    CASE();
    LOG("record=%u esize=%u cap=%u ", record, esize, cap);
    h_alloc_reset(-1);
    CHECK(QF(dynamic_alloc)(&q, &h_alloc, esize, cap) == 0, "dynamic_alloc");
    if (rnd(3) == 0) { unsigned long s = rnd(2) ? -(unsigned long)rnd(2 * cap) : rnd64(); q.in = q.out = s; LOG("pos=%#lx ", s); }
    unsigned used = 0;
    nrec = 0;
    for (unsigned t = 0, ops = 4 + rnd(40); t < ops; ++t) {
        if (rnd(5) < 3) {
            unsigned n = rnd(3) ? rnd(cap / 3 + 1) : rnd(cap + 4);
            if (rnd(6) == 0 && cap > 300) n = 250 + rnd(60);
            if (n > lim) n = lim;
            uint8_t *b = malloc(n * esize + 1);
            for (unsigned i = 0; i < n * esize; ++i) b[i] = rnd64();
            LOG("in(%u) ", n);
            unsigned long r = QF(in_record)(&q, b, n, record);
            unsigned acc = n;
            int ok = 1;
            if (RING) {
                if (acc > cap - record) acc = cap - record;
                while (cap - used < acc + record) { used -= recs[0].len + record; memmove(recs, recs + 1, --nrec * sizeof *recs); }
            } else if (n + record > cap - used) ok = 0;
            CHECK(r == (ok ? acc : 0), "in_record returned %lu, expected %u", r, ok ? acc : 0);
            if (ok) {
                recs[nrec].len = acc;
                memcpy(recs[nrec++].d, b, acc * esize);
                used += acc + record;
            }
            free(b);
        } else {
            unsigned n = rnd(cap + 2);
            if (rnd(2)) n = cap;
            int peek = rnd(3) == 0;
            uint8_t *c = malloc(n * esize + 1);
            memset(c, 0x5c, n * esize + 1);
            LOG("%s(%u) ", peek ? "peek" : "out", n);
            unsigned long r = peek ? QF(peek_record)(&q, c, n, record) : QF(out_record)(&q, c, n, record);
            unsigned take = nrec ? (n < recs[0].len ? n : recs[0].len) : 0;
            CHECK(r == take, "record out returned %lu, expected %u", r, take);
            CHECK(!memcmp(c, recs[0].d, take * esize), "record content differs");
            for (unsigned i = take * esize; i <= n * esize; ++i) CHECK(c[i] == 0x5c, "wrote past the delivered record");
            if (!peek && nrec) { used -= recs[0].len + record; memmove(recs, recs + 1, --nrec * sizeof *recs); }
            free(c);
        }
        CHECK(q.in - q.out == used, "queued %lu, expected %u", q.in - q.out, used);
    }
    QF(dynamic_free)(&q);
    CHECK(h_live == 0, "leak");
}

#define MACROS(TYPE, NAME) \
static void macro_##NAME(void) \
{ \
    CASE(); \
    CAT(BFDEV_DEFINE_, QU)(f, TYPE, 8); \
    CAT(CAT(BFDEV_DEFINE_, QU), _DYNAMIC)(d, TYPE); \
    TYPE m[64]; unsigned ml = 0; \
    int dyn = rnd(2); \
    h_alloc_reset(-1); \
    CHECK(CAT(QF(alloc),)(&f, &h_alloc, 8) == -BFDEV_EINVAL, "static queue accepted alloc"); \
    CHECK(CAT(QF(alloc),)(&d, &h_alloc, 8) == 0, "alloc"); \
    LOG("macros " #TYPE " dyn=%d ", dyn); \
    for (int t = 0; t < 60; ++t) { \
        TYPE v = (TYPE)rnd64(), o = 0; unsigned long r; \
        unsigned k = rnd(5); \
        if (k < 2) { \
            LOG("put "); \
            r = dyn ? QF(put)(&d, v) : QF(put)(&f, v); \
            if (RING) { if (ml == 8) { memmove(m, m + 1, 7 * sizeof *m); --ml; } m[ml++] = v; } \
            else { CHECK(!!r == (ml < 8), "put"); if (r) m[ml++] = v; } \
        } else if (k == 2) { \
            LOG("get "); \
            r = dyn ? QF(get)(&d, &o) : QF(get)(&f, &o); \
            CHECK(!!r == (ml > 0), "get result %lu len %u", r, ml); \
            if (r) { CHECK(o == m[0], "get value"); memmove(m, m + 1, --ml * sizeof *m); } \
        } else if (k == 3) { \
            r = dyn ? QF(peek)(&d, &o) : QF(peek)(&f, &o); \
            CHECK(!!r == (ml > 0), "peek"); \
            if (r) CHECK(o == m[0], "peek value"); \
        } else if (rnd(2)) { \
            TYPE b[12]; unsigned n = rnd(9), i; \
            for (i = 0; i < n; ++i) b[i] = (TYPE)rnd64(); \
            LOG("in%u ", n); \
            r = dyn ? QF(in)(&d, b, n) : QF(in)(&f, b, n); \
            unsigned take = RING ? n : n < 8 - ml ? n : 8 - ml; \
            CHECK(r == take, "in count"); \
            for (i = 0; i < take; ++i) m[ml++] = b[i]; \
            if (ml > 8) { memmove(m, m + ml - 8, 8 * sizeof *m); ml = 8; } \
        } else { \
            TYPE b[12]; unsigned n = rnd(9), i; \
            LOG("out%u ", n); \
            int pk = rnd(2); \
            r = pk ? (dyn ? QF(out_peek)(&d, b, n) : QF(out_peek)(&f, b, n)) : (dyn ? QF(out)(&d, b, n) : QF(out)(&f, b, n)); \
            unsigned take = n < ml ? n : ml; \
            CHECK(r == take, "out count"); \
            for (i = 0; i < take; ++i) CHECK(b[i] == m[i], "out value"); \
            if (!pk) { memmove(m, m + take, (ml - take) * sizeof *m); ml -= take; } \
        } \
        if (rnd(30) == 0) { LOG("reset "); if (rnd(2)) { QF(reset)(&d); QF(reset)(&f); } else { QF(homing)(&d); QF(homing)(&f); } ml = 0; } \
        unsigned long len = dyn ? QF(len)(&d) : QF(len)(&f); \
        CHECK(len == ml, "len %lu expected %u", len, ml); \
        int e = dyn ? QF(check_empty)(&d) : QF(check_empty)(&f), fu = dyn ? QF(check_full)(&d) : QF(check_full)(&f); \
        CHECK(e == (ml == 0) && fu == (ml == 8), "empty/full"); \
    } \
    QF(free)(&d); \
    CHECK(h_live == 0, "leak"); \
}
