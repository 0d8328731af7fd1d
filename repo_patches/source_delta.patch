From 37e6ca721fadd056ea28c63ae9ee83c095e23092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 01/24] fix: fifo: store the record length at the record being
 written and read it back in the same byte order

---
 src/fifo.c | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/src/fifo.c b/src/fifo.c
index ec1adc4..007238a 100644
--- a/src/fifo.c
+++ b/src/fifo.c
@@ -50,25 +50,18 @@ fifo_in_copy(bfdev_fifo_t *fifo, const void *buff, unsigned long len,
 static __bfdev_always_inline unsigned long
 fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
 {
-    unsigned long mask, offset, length;
+    unsigned long mask, esize, offset, length;
+    unsigned int shift;
     uint8_t *data;
 
     mask = fifo->mask;
+    esize = fifo->esize;
     offset = fifo->out;
     data = fifo->data;
     length = 0;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
-    while (recsize--) {
-        length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += fifo->esize;
-    }
+    for (shift = 0; recsize--; shift += BFDEV_BITS_PER_U8)
+        length |= (unsigned long)data[(offset++ & mask) * esize] << shift;
 
     return length;
 }
@@ -76,22 +69,16 @@ fifo_record_peek(bfdev_fifo_t *fifo, unsigned long recsize)
 static __bfdev_always_inline void
 fifo_record_poke(bfdev_fifo_t *fifo, unsigned long len, unsigned long recsize)
 {
-    unsigned long mask, offset;
+    unsigned long mask, esize, offset;
     uint8_t *data;
 
     mask = fifo->mask;
-    offset = fifo->out;
+    esize = fifo->esize;
+    offset = fifo->in;
     data = fifo->data;
 
-    if (fifo->esize != 1) {
-        offset *= fifo->esize;
-        mask *= fifo->esize;
-        mask += fifo->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += fifo->esize;
+        data[(offset++ & mask) * esize] = (uint8_t)len;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
-- 
2.43.0


From 8bae95ce1d5a9a86ab227b91318da5b3f9421098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 02/24] fix: ringbuf: write records where they are read and
 evict whole oldest records on overflow

---
 src/ringbuf.c | 52 +++++++++++++++++----------------------------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index b78a6fe..f6893fb 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -50,25 +50,18 @@ ringbuf_in_copy(bfdev_ringbuf_t *ringbuf, const void *buff,
 static __bfdev_always_inline unsigned long
 ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
 {
-    unsigned long mask, offset, length;
+    unsigned long mask, esize, offset, length;
+    unsigned int shift;
     uint8_t *data;
 
     mask = ringbuf->mask;
+    esize = ringbuf->esize;
     offset = ringbuf->out;
     data = ringbuf->data;
     length = 0;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
-    while (recsize--) {
-        length <<= BFDEV_BITS_PER_U8;
-        length |= data[offset & mask];
-        offset += ringbuf->esize;
-    }
+    for (shift = 0; recsize--; shift += BFDEV_BITS_PER_U8)
+        length |= (unsigned long)data[(offset++ & mask) * esize] << shift;
 
     return length;
 }
@@ -76,22 +69,16 @@ ringbuf_record_peek(bfdev_ringbuf_t *ringbuf, unsigned long recsize)
 static __bfdev_always_inline void
 ringbuf_record_poke(bfdev_ringbuf_t *ringbuf, unsigned long len, unsigned long recsize)
 {
-    unsigned long mask, offset;
+    unsigned long mask, esize, offset;
     uint8_t *data;
 
     mask = ringbuf->mask;
-    offset = ringbuf->out;
+    esize = ringbuf->esize;
+    offset = ringbuf->in;
     data = ringbuf->data;
 
-    if (ringbuf->esize != 1) {
-        offset *= ringbuf->esize;
-        mask *= ringbuf->esize;
-        mask += ringbuf->esize - 1;
-    }
-
     while (recsize--) {
-        data[offset & mask] = (uint8_t)len;
-        offset += ringbuf->esize;
+        data[(offset++ & mask) * esize] = (uint8_t)len;
         len >>= BFDEV_BITS_PER_U8;
     }
 }
@@ -200,24 +187,19 @@ export unsigned long
 bfdev_ringbuf_in_record(bfdev_ringbuf_t *ringbuf, const void *buff, unsigned long len,
                         unsigned long record)
 {
-    unsigned long size, offset;
-    unsigned long overflow, datalen;
+    unsigned long size, request;
 
     size = ringbuf->mask + 1;
-    bfdev_min_adj(len, size);
-
-    offset = ringbuf->in + record;
-    ringbuf->in = offset + len;
+    bfdev_min_adj(len, size - record);
+    request = len + record;
 
-    overflow = ringbuf_overflow(ringbuf);
-    while (overflow) {
-        datalen = record + ringbuf_record_peek(ringbuf, record);
-        ringbuf->out += datalen;
-        overflow -= bfdev_min(datalen, overflow);
-    }
+    /* drop the oldest records until the new one fits */
+    while (size - ringbuf_valid(ringbuf) < request)
+        ringbuf->out += record + ringbuf_record_peek(ringbuf, record);
 
     ringbuf_record_poke(ringbuf, len, record);
-    ringbuf_in_copy(ringbuf, buff, len, offset);
+    ringbuf_in_copy(ringbuf, buff, len, ringbuf->in + record);
+    ringbuf->in += request;
 
     return len;
 }
-- 
2.43.0


From 74a246de7641f726d05dff0d72d684a5eb287662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 03/24] fix: array: refuse requests whose byte size does not
 fit instead of shrinking the block

---
 src/array.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/array.c b/src/array.c
index 2088850..c1e1d74 100644
--- a/src/array.c
+++ b/src/array.c
@@ -9,16 +9,21 @@
 #include <bfdev/overflow.h>
 #include <export.h>
 
-static inline size_t
-array_reqsize(bfdev_array_t *array, unsigned long count)
+static inline int
+array_reqsize(bfdev_array_t *array, unsigned long count, size_t *sizep)
 {
     unsigned long request;
+    bool overflow;
     size_t size;
 
-    request = bfdev_max(BFDEV_ARRAY_MSIZE, count);
-    size = bfdev_pow2_roundup(request * array->cells);
+    request = bfdev_max(count, BFDEV_ARRAY_MSIZE);
+    overflow = bfdev_overflow_check_mul(request, array->cells, &size);
+    if (bfdev_unlikely(overflow || size > SIZE_MAX / 2 + 1))
+        return -BFDEV_EOVERFLOW;
 
-    return size;
+    *sizep = bfdev_pow2_roundup(size);
+
+    return -BFDEV_ENOERR;
 }
 
 static inline int
@@ -42,11 +47,15 @@ static inline int
 array_apply(bfdev_array_t *array, unsigned long count)
 {
     size_t reqsize;
+    int retval;
 
     if (count <= array->capacity)
         return -BFDEV_ENOERR;
 
-    reqsize = array_reqsize(array, count);
+    retval = array_reqsize(array, count, &reqsize);
+    if (bfdev_unlikely(retval))
+        return retval;
+
     BFDEV_BUG_ON(count * array->cells > reqsize);
 
     return array_resize(array, reqsize);
-- 
2.43.0


From 684cb9c39f11c7bafecb2c62bac1e63164c89f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 04/24] fix: hlist: next_add and prev_add set the back pointers
 of the right node

---
 include/bfdev/hlist.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/hlist.h b/include/bfdev/hlist.h
index fe93023..6541171 100644
--- a/include/bfdev/hlist.h
+++ b/include/bfdev/hlist.h
@@ -109,7 +109,7 @@ bfdev_hlist_next_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
     newn->next = node->next;
 
     if (newn->next)
-        newn->next->pprev = &node->next;
+        newn->next->pprev = &newn->next;
     node->next = newn;
 }
 
@@ -128,8 +128,8 @@ bfdev_hlist_prev_add(bfdev_hlist_node_t *node, bfdev_hlist_node_t *newn)
 
     newn->pprev = node->pprev;
     newn->next = node;
-    node->pprev = &node->next;
-    *node->pprev = newn;
+    node->pprev = &newn->next;
+    *newn->pprev = newn;
 }
 
 /**
-- 
2.43.0


From 3a2cfcf5bb04cc852889b98122b20c7b0f467214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 05/24] fix: bitrev: constant 32 and 64 bit reversal exchanged
 two bit positions

---
 include/bfdev/bitrev.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/bitrev.h b/include/bfdev/bitrev.h
index f278b72..6806f40 100644
--- a/include/bfdev/bitrev.h
+++ b/include/bfdev/bitrev.h
@@ -71,8 +71,8 @@ BFDEV_BEGIN_DECLS
     (((uint32_t)(value) & (uint32_t)0x01000000UL) >> 17) |  \
     (((uint32_t)(value) & (uint32_t)0x02000000UL) >> 19) |  \
     (((uint32_t)(value) & (uint32_t)0x04000000UL) >> 21) |  \
-    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 25) |  \
-    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x08000000UL) >> 23) |  \
+    (((uint32_t)(value) & (uint32_t)0x10000000UL) >> 25) |  \
     (((uint32_t)(value) & (uint32_t)0x20000000UL) >> 27) |  \
     (((uint32_t)(value) & (uint32_t)0x40000000UL) >> 29) |  \
     (((uint32_t)(value) & (uint32_t)0x80000000UL) >> 31))
@@ -121,8 +121,8 @@ BFDEV_BEGIN_DECLS
     (((uint64_t)(value) & (uint64_t)0x0000010000000000ULL) >> 17) | \
     (((uint64_t)(value) & (uint64_t)0x0000020000000000ULL) >> 19) | \
     (((uint64_t)(value) & (uint64_t)0x0000040000000000ULL) >> 21) | \
-    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 25) | \
-    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000080000000000ULL) >> 23) | \
+    (((uint64_t)(value) & (uint64_t)0x0000100000000000ULL) >> 25) | \
     (((uint64_t)(value) & (uint64_t)0x0000200000000000ULL) >> 27) | \
     (((uint64_t)(value) & (uint64_t)0x0000400000000000ULL) >> 29) | \
     (((uint64_t)(value) & (uint64_t)0x0000800000000000ULL) >> 31) | \
-- 
2.43.0


From f612126c249bbd6f9a8840ffd7c3481bced1ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 06/24] fix: bitops: n-th set bit search in an all-ones word

---
 include/bfdev/asm-generic/bitops.h | 6 +++---
 include/bfdev/bitops.h             | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bfdev/asm-generic/bitops.h b/include/bfdev/asm-generic/bitops.h
index f477e7c..4d6ce62 100644
--- a/include/bfdev/asm-generic/bitops.h
+++ b/include/bfdev/asm-generic/bitops.h
@@ -564,7 +564,7 @@ bfdev_arch_ffnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
+    if (word == ULONG_MAX && *nr < BFDEV_BITS_PER_LONG)
         return *nr;
 
     while (word) {
@@ -585,8 +585,8 @@ bfdev_arch_flnsp(unsigned long word, unsigned int *nr)
 {
     unsigned int bit;
 
-    if (word == ULONG_MAX)
-        return *nr;
+    if (word == ULONG_MAX && *nr < BFDEV_BITS_PER_LONG)
+        return BFDEV_BITS_PER_LONG - 1 - *nr;
 
     while (word) {
         bit = bfdev_arch_flsuf(word);
diff --git a/include/bfdev/bitops.h b/include/bfdev/bitops.h
index d1fa1e7..77d71db 100644
--- a/include/bfdev/bitops.h
+++ b/include/bfdev/bitops.h
@@ -578,7 +578,7 @@ bfdev_flnsp64(uint64_t word, unsigned int *nr)
     return bfdev_flnsp((uint32_t)word, nr);
 }
 #else
-# define bfdev_flnsp64 bfdev_flns
+# define bfdev_flnsp64 bfdev_flnsp
 #endif
 
 #if BFDEV_BITS_PER_LONG == 32
-- 
2.43.0


From fd21336ad47d332e84d20aa1316526a68333b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:24 +0000
Subject: [PATCH 07/24] fix: bitops: define ctz and clz of zero as documented
 by the generic version

---
 include/bfdev/asm-generic/builtin-clz.h | 2 +-
 include/bfdev/asm-generic/builtin-ctz.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/asm-generic/builtin-clz.h b/include/bfdev/asm-generic/builtin-clz.h
index c782624..a1f6224 100644
--- a/include/bfdev/asm-generic/builtin-clz.h
+++ b/include/bfdev/asm-generic/builtin-clz.h
@@ -15,7 +15,7 @@ BFDEV_BEGIN_DECLS
 static __bfdev_always_inline unsigned int
 bfdev_arch_clz(unsigned long value)
 {
-    return __builtin_clzl(value);
+    return value ? __builtin_clzl(value) : BFDEV_BITS_PER_LONG;
 }
 
 BFDEV_END_DECLS
diff --git a/include/bfdev/asm-generic/builtin-ctz.h b/include/bfdev/asm-generic/builtin-ctz.h
index e03f89a..958057d 100644
--- a/include/bfdev/asm-generic/builtin-ctz.h
+++ b/include/bfdev/asm-generic/builtin-ctz.h
@@ -15,7 +15,7 @@ BFDEV_BEGIN_DECLS
 static __bfdev_always_inline unsigned int
 bfdev_arch_ctz(unsigned long value)
 {
-    return __builtin_ctzl(value);
+    return value ? __builtin_ctzl(value) : BFDEV_BITS_PER_LONG;
 }
 
 BFDEV_END_DECLS
-- 
2.43.0


From 48186e598dcc4d7600d3e9ddbbce2b937bff94dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 08/24] fix: dword: compare both divisor words before
 subtracting, and write the whole remainder

---
 src/dword.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dword.c b/src/dword.c
index dad9024..c5f0afb 100644
--- a/src/dword.c
+++ b/src/dword.c
@@ -80,12 +80,16 @@ bfdev_dword_generic_udivd(bfdev_uw_t *quot, bfdev_uw_t *rem,
     d1 = div[1];
 
     /* degrade to udiv */
-    if (!d1)
-        return bfdev_dword_udiv(quot, rem, src, d0);
+    if (!d1) {
+        bfdev_dword_udiv(quot, rem, src, d0);
+        if (rem)
+            rem[1] = 0;
+        return;
+    }
 
     bm = bfdev_clz(d1);
     if (bm == 0) {
-        if (n1 <= d1 && n0 < d0)
+        if (n1 < d1 || (n1 == d1 && n0 < d0))
             q0 = 0;
         else {
             q0 = 1;
-- 
2.43.0


From abcb8710d9b5348c39361fd661872b07cc8bafe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 09/24] fix: bitwalk: whole-word zero searches used an all-ones
 mask

---
 include/bfdev/bitwalk.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitwalk.h b/include/bfdev/bitwalk.h
index 496a220..e499ba0 100644
--- a/include/bfdev/bitwalk.h
+++ b/include/bfdev/bitwalk.h
@@ -73,7 +73,7 @@ bfdev_find_first_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_first_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -90,7 +90,7 @@ bfdev_find_last_zero(const unsigned long *addr, unsigned int bits)
     if (!bfdev_const_small_nbits(bits))
         return bfdev_comp_find_last_bit(addr, bits, ~0UL, false);
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(bits);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(bits);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
@@ -192,7 +192,7 @@ bfdev_find_prev_zero(const unsigned long *addr,
     if (bfdev_unlikely(offset >= bits))
         return bits;
 
-    value = *addr | BFDEV_BIT_HIGH_MASK(offset + 1);
+    value = *addr | ~BFDEV_BIT_LOW_MASK(offset + 1);
     if (value == BFDEV_ULONG_MAX)
         return bits;
 
-- 
2.43.0


From c1411f382dc1b21065ef67e07b9a4f1ae7bd42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 10/24] fix: bitmap: equal and or_equal returned the opposite
 on their constant-size paths

---
 include/bfdev/bitmap.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/bitmap.h b/include/bfdev/bitmap.h
index 70235e4..d398b3d 100644
--- a/include/bfdev/bitmap.h
+++ b/include/bfdev/bitmap.h
@@ -65,12 +65,12 @@ bfdev_bitmap_equal(const unsigned long *src1, const unsigned long *src2,
                    unsigned int bits)
 {
     if (bfdev_const_small_nbits(bits))
-        return !!((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
+        return !((*src1 ^ *src2) & BFDEV_BIT_LOW_MASK(bits));
 
     if (!bfdev_bitmap_const_aligned(bits))
         return bfdev_bitmap_comp_equal(src1, src2, bits);
 
-    return bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
+    return !bfport_memcmp(src1, src2, bits / BFDEV_BITS_PER_BYTE);
 }
 
 static __bfdev_always_inline bool
@@ -83,7 +83,7 @@ bfdev_bitmap_or_equal(const unsigned long *src1, const unsigned long *src2,
         return bfdev_bitmap_comp_or_equal(src1, src2, src3, bits);
 
     value = (*src1 | *src2) ^ *src3;
-    return !!(value & BFDEV_BIT_LOW_MASK(bits));
+    return !(value & BFDEV_BIT_LOW_MASK(bits));
 }
 
 static __bfdev_always_inline bool
-- 
2.43.0


From b6ddc70b9e106a2bdcb25f35e50996c3d116f774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:33 +0000
Subject: [PATCH 11/24] fix: bitmap: shift right and ranges inside one word

---
 src/bitmap.c | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/bitmap.c b/src/bitmap.c
index a631220..90f40b2 100644
--- a/src/bitmap.c
+++ b/src/bitmap.c
@@ -223,30 +223,24 @@ bfdev_bitmap_comp_shr(unsigned long *dest, const unsigned long *src,
     rem = BFDEV_BITS_MOD_LONG(shift);
     index = 0;
 
-    while (index < BFDEV_BITS_DIV_LONG(bits) - offset) {
-        vlow = src[index + offset] >> rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
+    while (index < length - offset) {
+        vlow = src[index + offset];
+        if (index + offset + 1 == length)
+            vlow &= BFDEV_BIT_LOW_MASK(bits);
+        vlow >>= rem;
+
+        if (rem && index + offset + 1 < length) {
+            vhigh = src[index + offset + 1];
+            if (index + offset + 2 == length)
+                vhigh &= BFDEV_BIT_LOW_MASK(bits);
+            vhigh <<= BFDEV_BITS_PER_LONG - rem;
+        } else
             vhigh = 0;
 
         value = vhigh | vlow;
         dest[index++] = value;
     }
 
-    if (BFDEV_BITS_MOD_LONG(bits)) {
-        vlow = src[index] << rem;
-
-        if (rem && index + offset + 1 < length)
-            vhigh = src[index + offset + 1] << (BFDEV_BITS_PER_LONG - rem);
-        else
-            vhigh = 0;
-
-        value = vhigh | vlow;
-        dest[index + offset] = value & BFDEV_BIT_LOW_MASK(bits);
-    }
-
     if (offset)
         bfport_memset(dest + length - offset, 0, offset * sizeof(*dest));
 }
@@ -302,7 +296,7 @@ bfdev_bitmap_comp_set(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_set) {
+    while (bits >= bits_to_set) {
         *curr++ |= mask_to_set;
         bits -= bits_to_set;
         mask_to_set = ULONG_MAX;
@@ -327,7 +321,7 @@ bfdev_bitmap_comp_clr(unsigned long *bitmap, unsigned int start,
     curr = bitmap + BFDEV_BITS_DIV_LONG(start);
     size = start + bits;
 
-    while (bits - bits_to_clr) {
+    while (bits >= bits_to_clr) {
         *curr++ &= ~mask_to_clr;
         bits -= bits_to_clr;
         mask_to_clr = ULONG_MAX;
-- 
2.43.0


From 76e3508c9245cc1b895d24e01358adea3482ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 12/24] fix: ratelimit: the window end overflowed for long
 intervals

---
 src/ratelimit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ratelimit.c b/src/ratelimit.c
index 6908623..6812fd7 100644
--- a/src/ratelimit.c
+++ b/src/ratelimit.c
@@ -19,7 +19,8 @@ bfdev_ratelimit(bfdev_ratelimit_t *limit, bfdev_time_t current)
     if (bfdev_unlikely(!limit->begin))
         limit->begin = current;
 
-    if (bfdev_time_after(current, bfdev_time_add(limit->begin, limit->interval))) {
+    if (bfdev_time_after(current, limit->begin) &&
+        bfdev_time_after(bfdev_time_sub(current, limit->begin), limit->interval)) {
         limit->begin = current;
         limit->passed = 0;
     }
-- 
2.43.0


From 0c9506ccdd2ec98fe240f9696f70e30391f25222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 13/24] fix: tokenbucket: refill truncated to 32 bits and
 wrapped the token count

---
 src/tokenbucket.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/tokenbucket.c b/src/tokenbucket.c
index 0ee5544..33d2f0e 100644
--- a/src/tokenbucket.c
+++ b/src/tokenbucket.c
@@ -11,7 +11,7 @@
 export bool
 bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
 {
-    unsigned int generate;
+    bfdev_time_t generate, tokens;
 
     if (!limit->interval)
         return true;
@@ -22,9 +22,15 @@ bfdev_tokenbucket(bfdev_tokenbucket_t *limit, bfdev_time_t current)
     }
 
     /* generate token */
-    generate = bfdev_time_sub(current, limit->last) / limit->interval;
+    generate = 0;
+    if (bfdev_time_after(current, limit->last))
+        generate = bfdev_time_sub(current, limit->last) / limit->interval;
+
     limit->last = bfdev_time_add(generate * limit->interval, limit->last);
-    limit->current = bfdev_min(limit->current + generate, limit->capacity);
+
+    tokens = limit->current;
+    tokens += bfdev_min(generate, (bfdev_time_t)limit->capacity);
+    limit->current = bfdev_min(tokens, (bfdev_time_t)limit->capacity);
 
     if (bfdev_unlikely(!limit->current)) {
         limit->missed++;
-- 
2.43.0


From 2b5016b2716580aa065ced9f0eaa76a6d06f6914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 14/24] fix: refcount: conditional add retried on success and
 gave up on contention

---
 include/bfdev/refcount.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bfdev/refcount.h b/include/bfdev/refcount.h
index ad9dd2c..c6683f6 100644
--- a/include/bfdev/refcount.h
+++ b/include/bfdev/refcount.h
@@ -113,7 +113,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
     do {
         if (!prev)
             break;
-    } while (bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
+    } while (!bfdev_try_cmpxchg(&ref->count, &prev, prev + nr));
 
     if (oldp)
         *oldp = prev;
@@ -121,7 +121,7 @@ bfdev_refcnt_fetch_addnz_test(bfdev_refcnt_t *ref, bfdev_atomic_t nr,
 #ifdef BFDEV_DEBUG_REFCNT
     if (bfdev_unlikely(prev < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_LEAK);
-    else if (bfdev_unlikely(prev - nr < 0))
+    else if (bfdev_unlikely(prev + nr < 0))
         bfdev_refcnt_report(ref, BFDEV_REFCNT_ADDNZ_OVF);
 #endif
 
-- 
2.43.0


From 6825c85a87696f9930f772ecd1e81616f03d4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 15/24] fix: crc: the unrolled loop dropped the upper half of
 64-bit registers

---
 include/bfdev/crypto/crc-inline.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bfdev/crypto/crc-inline.h b/include/bfdev/crypto/crc-inline.h
index 1e670e2..5a9b3d8 100644
--- a/include/bfdev/crypto/crc-inline.h
+++ b/include/bfdev/crypto/crc-inline.h
@@ -53,7 +53,8 @@ name##_inline(const uint8_t *src, size_t len, type crc)             \
         value[0] = (__bfdev_force uint32_t)                         \
             bfdev_cpu_to_le32p(combine++) ^ crc;                    \
         value[1] = (__bfdev_force uint32_t)                         \
-            bfdev_cpu_to_le32p(combine++);                          \
+            bfdev_cpu_to_le32p(combine++) ^                         \
+            (uint32_t)((uint64_t)crc >> 32);                        \
                                                                     \
         crc = (                                                     \
             table[7][(value[0] >>  0) & 0xff] ^                     \
-- 
2.43.0


From 70ced11cce770301c7c01050d73c93b6d389d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 16/24] fix: ascii85: read past the source on a partial group;
 a 'z' group was overwritten or refused

---
 src/crypto/ascii85.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ascii85.c b/src/crypto/ascii85.c
index 965e4a1..897a9ae 100644
--- a/src/crypto/ascii85.c
+++ b/src/crypto/ascii85.c
@@ -13,6 +13,7 @@
 static __bfdev_always_inline void
 ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
 {
+    unsigned int count;
     uint32_t value;
     size_t index;
 
@@ -35,8 +36,12 @@ ascii85_encode(uint8_t *buff, const void *data, size_t *plen, size_t size)
     }
 
     if (size) {
-        value = bfdev_unaligned_get_be32(data);
-        value &= BFDEV_BIT_HIGH_MASK((BFDEV_BYTES_PER_U32 - size) * BFDEV_BITS_PER_BYTE);
+        value = 0;
+        for (count = 0; count < BFDEV_BYTES_PER_U32; ++count) {
+            value <<= BFDEV_BITS_PER_BYTE;
+            if (count < size)
+                value |= ((const uint8_t *)data)[count];
+        }
 
         if (!value)
             buff[index] = 'z';
@@ -67,6 +72,7 @@ ascii85_decode(void *buff, const uint8_t *data, size_t *plen, size_t size)
             bfport_memset(buff + index, 0, 4);
             data++;
             size--;
+            continue;
         }
 
         if (size >= 5) {
-- 
2.43.0


From d32801a85a49a844d810b68709296290d3005513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:36 +0000
Subject: [PATCH 17/24] fix: heap: find walked by the depth of the last node
 for every index

---
 src/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/heap.c b/src/heap.c
index 4470b9c..f06667c 100644
--- a/src/heap.c
+++ b/src/heap.c
@@ -202,7 +202,7 @@ bfdev_heap_find(bfdev_heap_root_t *root, unsigned long index)
     bfdev_heap_node_t *node;
     unsigned int depth;
 
-    depth = bfdev_flsuf(root->count);
+    depth = bfdev_flsuf(index);
     node = root->node;
 
     while (node && depth--) {
-- 
2.43.0


From 32482ace3363ec3a78e6298b1fc16bda9e26b218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:42 +0000
Subject: [PATCH 18/24] fix: allocator: refuse array allocations whose size
 overflows

---
 include/bfdev/allocator.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/bfdev/allocator.h b/include/bfdev/allocator.h
index 9121aba..893ce2f 100644
--- a/include/bfdev/allocator.h
+++ b/include/bfdev/allocator.h
@@ -10,6 +10,7 @@
 #include <bfdev/config.h>
 #include <bfdev/types.h>
 #include <bfdev/stddef.h>
+#include <bfdev/overflow.h>
 
 BFDEV_BEGIN_DECLS
 
@@ -96,7 +97,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_malloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_malloc(alloc, size * nr);
+    size_t total;
+
+    if (bfdev_overflow_check_mul(nr, size, &total))
+        return NULL;
+
+    return bfdev_malloc(alloc, total);
 }
 
 /**
@@ -108,7 +114,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_zalloc_array(const bfdev_alloc_t *alloc,
                    size_t nr, size_t size)
 {
-    return bfdev_zalloc(alloc, size * nr);
+    size_t total;
+
+    if (bfdev_overflow_check_mul(nr, size, &total))
+        return NULL;
+
+    return bfdev_zalloc(alloc, total);
 }
 
 /**
@@ -121,7 +132,12 @@ static __bfdev_always_inline __bfdev_malloc void *
 bfdev_realloc_array(const bfdev_alloc_t *alloc,
                     void *block, size_t nr, size_t size)
 {
-    return bfdev_realloc(alloc, block, size * nr);
+    size_t total;
+
+    if (bfdev_overflow_check_mul(nr, size, &total))
+        return NULL;
+
+    return bfdev_realloc(alloc, block, total);
 }
 
 BFDEV_END_DECLS
-- 
2.43.0


From 80b4de8a5937ca332b517eebeec5b2933e4f307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:53 +0000
Subject: [PATCH 19/24] fix: allocpool: refuse sizes that wrap past the end of
 the pool

---
 src/allocpool.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/allocpool.c b/src/allocpool.c
index b5f63dc..e1dda13 100644
--- a/src/allocpool.c
+++ b/src/allocpool.c
@@ -18,12 +18,12 @@ bfdev_allocpool_alloc(bfdev_allocpool_t *pool, size_t size, size_t align)
 
     align = bfdev_align_high(align ?: 1, sizeof(retval));
     retval = bfdev_align_ptr_high(pool->block + pool->last, align);
-    offset = (retval - pool->block) + size;
+    offset = retval - pool->block;
 
-    if (bfdev_unlikely(offset > pool->size))
+    if (bfdev_unlikely(offset > pool->size || size > pool->size - offset))
         return NULL;
 
-    pool->last = offset;
+    pool->last = offset + size;
     pool->count++;
 
     return retval;
-- 
2.43.0


From 82a43ba6dfed70104795556136673bc36699f157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:23 +0000
Subject: [PATCH 20/24] fix: scnprintf: a refused conversion stored nothing but
 reported size - 1 characters

---
 src/scnprintf.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/scnprintf.c b/src/scnprintf.c
index 13d0802..04ce090 100644
--- a/src/scnprintf.c
+++ b/src/scnprintf.c
@@ -16,7 +16,12 @@ bfdev_vscnprintf(char *buf, size_t size, const char *fmt, va_list args)
         return 0;
 
     len = bfport_vsnprintf(buf, size, fmt, args);
-    if (bfdev_likely(len < size))
+    if (bfdev_unlikely(len < 0)) {
+        buf[0] = '\0';
+        return 0;
+    }
+
+    if (bfdev_likely((size_t)len < size))
         return len;
 
     return size - 1;
-- 
2.43.0


From df3f400c6ae1a93d0b8584e544049a41138344e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:24 +0000
Subject: [PATCH 21/24] fix: levenshtein: the last column of the first row was
 never initialised

---
 src/levenshtein.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/levenshtein.c b/src/levenshtein.c
index 6755f82..6f4b57b 100644
--- a/src/levenshtein.c
+++ b/src/levenshtein.c
@@ -32,7 +32,7 @@ bfdev_levenshtein_len(const bfdev_alloc_t *alloc,
     row2 = row1 + (len1 + 1);
     row3 = row2 + (len1 + 1);
 
-    for (index1 = 0; index1 < len1; ++index1)
+    for (index1 = 0; index1 <= len1; ++index1)
         row2[index1] = index1 * d;
 
     for (index2 = 0; index2 < len2; ++index2) {
-- 
2.43.0


From e08f84633236fd9c14f62e72c7879cec69ebfe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 22/24] fix: matrix: transpose wrote into the source instead of
 the destination

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 4db6490..8cf3d9e 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -136,8 +136,8 @@ bfdev_matrix_trans(bfdev_matrix_t *dest, const bfdev_matrix_t *src)
     const BFDEV_MATRIX_TYPE (*ads)[src->col];
     BFDEV_MATRIX_TYPE (*add)[dest->col];
 
-    ads = bfdev_array_data(&dest->value, 0);
-    add = bfdev_array_data(&src->value, 0);
+    ads = bfdev_array_data(&src->value, 0);
+    add = bfdev_array_data(&dest->value, 0);
 
     for (row = 0; row < dest->row; ++row) {
         for (col = 0; col < dest->col; ++col)
-- 
2.43.0


From c67b79c198f539094fbeb024cf4796a8963feb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 23/24] fix: matrix: data ignored the width of the matrix and
 the last row

---
 src/matrix.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.c b/src/matrix.c
index 8cf3d9e..98a00a3 100644
--- a/src/matrix.c
+++ b/src/matrix.c
@@ -202,10 +202,10 @@ bfdev_matrix_data(const bfdev_matrix_t *var,
     BFDEV_MATRIX_TYPE *data;
     unsigned int offset;
 
-    if (var->col < row || var->col < col)
+    if (row >= var->row || col >= var->col)
         return NULL;
 
-    offset = row * col;
+    offset = row * var->col + col;
     data = bfdev_array_data(&var->value, offset);
 
     return data;
-- 
2.43.0


From aa7a94a334b3fde24fff61b420d9aec02064fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:19 +0000
Subject: [PATCH 24/24] fix: ilist: deleting the first node of a run did not
 index the next one

---
 src/ilist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ilist.c b/src/ilist.c
index 815d096..6b6ef89 100644
--- a/src/ilist.c
+++ b/src/ilist.c
@@ -126,9 +126,9 @@ bfdev_ilist_del(bfdev_ilist_head_t *ihead, bfdev_ilist_node_t *inode)
     /* Check if index list is inserted */
     if (!bfdev_ilist_node_empty(inode)) {
         if (inode->node_list.next != &ihead->node_list) {
-            next = bfdev_list_next_entry(inode, index_list);
+            next = bfdev_list_next_entry(inode, node_list);
             if (bfdev_ilist_node_empty(next))
-                bfdev_list_add(&inode->index_list, &inode->index_list);
+                bfdev_list_add(&inode->index_list, &next->index_list);
         }
         bfdev_list_del_init(&inode->index_list);
     }
-- 
2.43.0

