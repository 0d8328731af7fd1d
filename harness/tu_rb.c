#include <bfdev/config.h>
#ifdef V_NODEBUG
# undef BFDEV_DEBUG_RBTREE
#endif
#include <bfdev/rbtree.h>
bool v_insert(bfdev_rb_root_t *r, bfdev_rb_node_t *n, bfdev_rb_cmp_t c, void *p) { return bfdev_rb_insert(r, n, c, p); }
void v_delete(bfdev_rb_root_t *r, bfdev_rb_node_t *n) { bfdev_rb_delete(r, n); }
bool v_insert_aug(bfdev_rb_root_t *r, bfdev_rb_node_t *n, bfdev_rb_cmp_t c, void *p, const bfdev_rb_callbacks_t *cb) { return bfdev_rb_insert_augmented(r, n, c, p, cb); }
void v_delete_aug(bfdev_rb_root_t *r, bfdev_rb_node_t *n, const bfdev_rb_callbacks_t *cb) { bfdev_rb_delete_augmented(r, n, cb); }
bool v_cached_insert(bfdev_rb_root_cached_t *r, bfdev_rb_node_t *n, bfdev_rb_cmp_t c, void *p) { return bfdev_rb_cached_insert(r, n, c, p); }
bfdev_rb_node_t *v_cached_delete(bfdev_rb_root_cached_t *r, bfdev_rb_node_t *n) { return bfdev_rb_cached_delete(r, n); }
void *v_poison1(void) { return BFDEV_POISON_RBNODE1; }
void *v_poison2(void) { return BFDEV_POISON_RBNODE2; }
void *v_poison3(void) { return BFDEV_POISON_RBNODE3; }
