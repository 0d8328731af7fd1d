/* every reference count operation as an ordinary function */
#include <bfdev/config.h>
#include <bfdev/types.h>
#include <bfdev/stddef.h>
#ifdef V_NODEBUG
# undef BFDEV_DEBUG_REFCNT
#endif
#include <bfdev/refcount.h>
typedef bfdev_refcnt_t R; typedef bfdev_atomic_t A;
A v_get(R *r) { return bfdev_refcnt_get(r); }
void v_set(R *r, A n) { bfdev_refcnt_set(r, n); }
void v_add(R *r, A n) { bfdev_refcnt_add(r, n); }
void v_inc(R *r) { bfdev_refcnt_inc(r); }
void v_fetch_inc(R *r, A *o) { bfdev_refcnt_fetch_inc(r, o); }
void v_sub(R *r, A n) { bfdev_refcnt_sub(r, n); }
bool v_sub_test(R *r, A n) { return bfdev_refcnt_sub_test(r, n); }
void v_fetch_sub(R *r, A n, A *o) { bfdev_refcnt_fetch_sub(r, n, o); }
void v_dec(R *r) { bfdev_refcnt_dec(r); }
bool v_dec_test(R *r) { return bfdev_refcnt_dec_test(r); }
void v_fetch_dec(R *r, A *o) { bfdev_refcnt_fetch_dec(r, o); }
bool v_fetch_dec_test(R *r, A *o) { return bfdev_refcnt_fetch_dec_test(r, o); }
void v_addnz(R *r, A n) { bfdev_refcnt_addnz(r, n); }
bool v_addnz_test(R *r, A n) { return bfdev_refcnt_addnz_test(r, n); }
void v_fetch_addnz(R *r, A n, A *o) { bfdev_refcnt_fetch_addnz(r, n, o); }
void v_incnz(R *r) { bfdev_refcnt_incnz(r); }
bool v_incnz_test(R *r) { return bfdev_refcnt_incnz_test(r); }
void v_fetch_incnz(R *r, A *o) { bfdev_refcnt_fetch_incnz(r, o); }
bool v_fetch_incnz_test(R *r, A *o) { return bfdev_refcnt_fetch_incnz_test(r, o); }
