#include "h.h"
#include <bfdev/ringbuf.h>
#define Q ringbuf
#define QU RINGBUF
#define RING 1
#include "h_queue.inc"
MACROS(uint8_t, u8)
MACROS(uint32_t, u32)
MACROS(uint64_t, u64)
int main(int argc, char **argv)
{
    h_init(argc, argv);
    for (unsigned long i = 0; i < h_n * 1500; ++i) {
        flat_case(); flat_case(); flat_case();
        record_case(); record_case();
        macro_u8(); macro_u32(); macro_u64();
    }
    return h_done();
}
