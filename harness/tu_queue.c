/* instantiates the header macros of fifo.h / ringbuf.h so that they can be put under contract */
#include <bfdev/fifo.h>
#include <bfdev/ringbuf.h>
#include <stdint.h>

#define INST(q, Q, NAME, TYPE) \
struct q##_##NAME Q(TYPE); \
unsigned long v_##q##_put_##NAME(struct q##_##NAME *f, TYPE v) { return bfdev_##q##_put(f, v); } \
unsigned long v_##q##_get_##NAME(struct q##_##NAME *f, TYPE *v) { return bfdev_##q##_get(f, v); } \
unsigned long v_##q##_peek_##NAME(struct q##_##NAME *f, TYPE *v) { return bfdev_##q##_peek(f, v); } \
unsigned long v_##q##_len_##NAME(struct q##_##NAME *f) { return bfdev_##q##_len(f); } \
unsigned long v_##q##_full_##NAME(struct q##_##NAME *f) { return bfdev_##q##_check_full(f); } \
unsigned long v_##q##_empty_##NAME(struct q##_##NAME *f) { return bfdev_##q##_check_empty(f); } \
void v_##q##_reset_##NAME(struct q##_##NAME *f) { bfdev_##q##_reset(f); } \
void v_##q##_homing_##NAME(struct q##_##NAME *f) { bfdev_##q##_homing(f); } \
unsigned long v_##q##_in_##NAME(struct q##_##NAME *f, const TYPE *b, unsigned long n) { return bfdev_##q##_in(f, b, n); } \
unsigned long v_##q##_out_##NAME(struct q##_##NAME *f, TYPE *b, unsigned long n) { return bfdev_##q##_out(f, b, n); } \
unsigned long v_##q##_outpeek_##NAME(struct q##_##NAME *f, TYPE *b, unsigned long n) { return bfdev_##q##_out_peek(f, b, n); }

#define FB(T) BFDEV_BODY_FIFO_DYNAMIC(T, T, 0)
#define RB(T) BFDEV_BODY_RINGBUF_DYNAMIC(T, T, 0)
INST(fifo, FB, u8, uint8_t)
INST(fifo, FB, u64, uint64_t)
INST(ringbuf, RB, u8, uint8_t)
INST(ringbuf, RB, u64, uint64_t)
