#include <bfdev/config.h>
#ifdef V_NODEBUG
# undef BFDEV_DEBUG_HEAP
#endif
#include <bfdev/heap.h>
void v_insert(bfdev_heap_root_t *r, bfdev_heap_node_t *n, bfdev_heap_cmp_t c, void *p) { bfdev_heap_insert(r, n, c, p); }
void v_delete(bfdev_heap_root_t *r, bfdev_heap_node_t *n, bfdev_heap_cmp_t c, void *p) { bfdev_heap_delete(r, n, c, p); }
void *v_poison1(void) { return BFDEV_POISON_HPNODE1; }
void *v_poison2(void) { return BFDEV_POISON_HPNODE2; }
void *v_poison3(void) { return BFDEV_POISON_HPNODE3; }
