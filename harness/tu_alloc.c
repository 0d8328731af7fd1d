#include <bfdev/config.h>
#include <bfdev/allocator.h>
#include <bfdev/allocpool.h>
void *v_malloc_array(const bfdev_alloc_t *a, size_t n, size_t m) { return bfdev_malloc_array(a, n, m); }
void *v_zalloc_array(const bfdev_alloc_t *a, size_t n, size_t m) { return bfdev_zalloc_array(a, n, m); }
void *v_realloc_array(const bfdev_alloc_t *a, void *b, size_t n, size_t m) { return bfdev_realloc_array(a, b, n, m); }
void v_reset(bfdev_allocpool_t *p) { bfdev_allocpool_reset(p); }
