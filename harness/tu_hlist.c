#include <bfdev/config.h>
#ifdef V_NODEBUG
# undef BFDEV_DEBUG_HLIST
# undef BFDEV_DEBUG_SLIST
#endif
#include <bfdev/hlist.h>
#include <bfdev/slist.h>
#include <bfdev/llist.h>
#include <bfdev/hashtbl.h>
typedef bfdev_hlist_head_t HH;
typedef bfdev_hlist_node_t HN;
typedef bfdev_slist_head_t S;
void v_head_init(HH *h) { bfdev_hlist_head_init(h); }
void v_node_init(HN *n) { bfdev_hlist_node_init(n); }
void v_head_add(HH *h, HN *n) { bfdev_hlist_head_add(h, n); }
void v_next_add(HN *a, HN *n) { bfdev_hlist_next_add(a, n); }
void v_prev_add(HN *a, HN *n) { bfdev_hlist_prev_add(a, n); }
void v_deluf(HN *n) { bfdev_hlist_deluf(n); }
void v_del(HN *n) { bfdev_hlist_del(n); }
void v_del_init(HN *n) { bfdev_hlist_del_init(n); }
void v_replace(HN *o, HN *n) { bfdev_hlist_replace(o, n); }
void v_head_replace(HH *o, HH *n) { bfdev_hlist_head_replace(o, n); }
bool v_check_empty(HH *h) { return bfdev_hlist_check_empty(h); }
bool v_check_first(HH *h, HN *n) { return bfdev_hlist_check_first(h, n); }
bool v_check_end(HN *n) { return bfdev_hlist_check_end(n); }
bool v_check_another(HH *h, HN *n) { return bfdev_hlist_check_another(h, n); }
bool v_check_unhashed(HN *n) { return bfdev_hlist_check_unhashed(n); }
void s_init(S *h) { bfdev_slist_head_init(h); }
void s_add(S *a, S *n) { bfdev_slist_add(a, n); }
void s_del(S *h, S *n) { bfdev_slist_del(h, n); }
void s_replace(S *h, S *o, S *n) { bfdev_slist_replace(h, o, n); }
bool s_check_empty(S *h) { return bfdev_slist_check_empty(h); }
bool s_check_first(S *h, S *n) { return bfdev_slist_check_first(h, n); }
bool s_check_end(S *n) { return bfdev_slist_check_end(n); }
bool s_check_another(S *h, S *n) { return bfdev_slist_check_another(h, n); }
bool l_add(S *h, S *n) { return bfdev_llist_add(h, n); }
S *l_destroy(S *h) { return bfdev_llist_destroy(h); }
unsigned long t_index(unsigned long size, unsigned long key) { return bfdev_hashtbl_index(size, key); }
void t_init(HH *h, unsigned long n) { bfdev_hashtbl_init(h, n); }
bool t_empty(HH *h, unsigned long n) { return bfdev_hashtbl_empty(h, n); }
void t_add(HH *h, unsigned long size, HN *n, unsigned long key) { bfdev_hashtbl_add(h, size, n, key); }
void t_del(HN *n) { bfdev_hashtbl_del(n); }
void *v_poison1(void) { return BFDEV_POISON_HLIST1; }
void *v_poison2(void) { return BFDEV_POISON_HLIST2; }
void *v_poison3(void) { return BFDEV_POISON_SLIST; }
