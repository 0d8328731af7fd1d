#include <bfdev/array.h>
void v_array_init(bfdev_array_t *a, const bfdev_alloc_t *al, size_t cells) { bfdev_array_init(a, al, cells); }
void v_array_reset(bfdev_array_t *a) { bfdev_array_reset(a); }
unsigned long v_array_index(bfdev_array_t *a) { return bfdev_array_index(a); }
size_t v_array_size(bfdev_array_t *a) { return bfdev_array_size(a); }
void *v_array_data(bfdev_array_t *a, unsigned long i) { return bfdev_array_data(a, i); }
