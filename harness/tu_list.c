#include <bfdev/config.h>
#ifdef V_NODEBUG
# undef BFDEV_DEBUG_LIST
#endif
#include <bfdev/list.h>
typedef bfdev_list_head_t H;
void v_insert(H *p, H *n, H *x) { bfdev_list_insert(p, n, x); }
void v_head_init(H *h) { bfdev_list_head_init(h); }
void v_add(H *n, H *x) { bfdev_list_add(n, x); }
void v_add_prev(H *n, H *x) { bfdev_list_add_prev(n, x); }
void v_deluf(H *n) { bfdev_list_deluf(n); }
void v_del(H *n) { bfdev_list_del(n); }
void v_del_init(H *n) { bfdev_list_del_init(n); }
bool v_check_empty(H *h) { return bfdev_list_check_empty(h); }
bool v_check_head(H *h, H *n) { return bfdev_list_check_head(h, n); }
bool v_check_first(H *h, H *n) { return bfdev_list_check_first(h, n); }
bool v_check_end(H *h, H *n) { return bfdev_list_check_end(h, n); }
bool v_check_another(H *h, H *n) { return bfdev_list_check_another(h, n); }
void v_splice(H *h, H *l) { bfdev_list_splice(h, l); }
void v_splice_prev(H *h, H *l) { bfdev_list_splice_prev(h, l); }
void v_splice_init(H *h, H *l) { bfdev_list_splice_init(h, l); }
void v_splice_tail_init(H *h, H *l) { bfdev_list_splice_tail_init(h, l); }
void v_replace(H *o, H *n) { bfdev_list_replace(o, n); }
void v_replace_init(H *o, H *n) { bfdev_list_replace_init(o, n); }
void v_move(H *h, H *n) { bfdev_list_move(h, n); }
void v_move_prev(H *h, H *n) { bfdev_list_move_prev(h, n); }
void v_swap(H *a, H *b) { bfdev_list_swap(a, b); }
void *v_poison1(void) { return BFDEV_POISON_LIST1; }
void *v_poison2(void) { return BFDEV_POISON_LIST2; }
