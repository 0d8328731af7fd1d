seed('array-capbytes', 'C01', [('src/array.c', "array->capacity = size / array->cells;", "array->capacity = (size + array->cells - 1) / array->cells;")],
     'an element size that does not divide the power-of-two block (not a power of two) and a length that reaches the rounded-up capacity',
     'the reserved capacity counts one element more than fits, so the append that reaches it writes past the block',
r'''#include <bfdev/array.h>
#include <stdio.h>
#include <string.h>
int main(void){ for (size_t c = 1; c < 200; ++c) { bfdev_array_t a = BFDEV_ARRAY_INIT(NULL, c); 
 for (int i = 0; i < 300; ++i) { char *p = bfdev_array_push(&a, 1); if (!p) return 1; memset(p, i, c); }
 for (int i = 0; i < 300; ++i) { char *p = (char*)a.data + i * c; for (size_t k = 0; k < c; ++k) if (p[k] != (char)i) return 2; }
 bfdev_array_release(&a);} return 0; }
''')
seed('fifo-record-wrap', 'C02', [('src/fifo.c', "    fifo_record_poke(fifo, len, record);\n    fifo_in_copy(fifo, buff, len, fifo->in + record);", "    fifo_record_poke(fifo, len, record);\n    fifo_in_copy(fifo, buff, len, (fifo->in & fifo->mask) < fifo->mask ? fifo->in + record : record);")],
     'a record whose two-byte length prefix starts at the very last byte of the storage',
     'the record body overwrites at the wrong place: a wrapped prefix of two bytes ends at 1, the body is written at 2',
r'''#include <bfdev/fifo.h>
#include <string.h>
int main(void){ for (int off = 0; off < 16; ++off) { unsigned char st[16]; bfdev_fifo_t f; memset(&f,0,sizeof f); f.data = st; f.mask = 15; f.esize = 1; f.in = f.out = off;
 unsigned char in[5] = {1,2,3,4,5}, out[8] = {0};
 if (bfdev_fifo_in_record(&f, in, 5, 2) != 5) return 1;
 if (bfdev_fifo_out_record(&f, out, 8, 2) != 5 || memcmp(in, out, 5)) return 2; } return 0; }
''')
seed('ringbuf-evict', 'C03', [('src/ringbuf.c', "        ringbuf->out += overflow;\n\n    return len;", "        ringbuf->out += overflow + (ringbuf->in <= ringbuf->mask ? 1 : 0);\n\n    return len;")],
     'an overflow whose insertion moves the free-running input index across the end of the machine word',
     'one element more than needed is dropped when the input index wraps around',
'''#include <bfdev/ringbuf.h>
#include <string.h>
int main(void){ for (unsigned long s = 0; s < 40; ++s) { unsigned char st[8], out[8]; bfdev_ringbuf_t f; memset(&f,0,sizeof f); f.data = st; f.mask = 7; f.esize = 1; f.in = f.out = 0ul - 20 + s;
 for (unsigned char i = 1; i <= 11; ++i) bfdev_ringbuf_in_flat(&f, &i, 1);
 if (bfdev_ringbuf_out_flat(&f, out, 8) != 8) return 1; for (int i = 0; i < 8; ++i) if (out[i] != i + 4) return 2; } return 0; }
''')
seed('list-swap-adjacent', 'C04', [('include/bfdev/list.h', "    if (prev == node1)\n        prev = node2;\n    bfdev_list_add(prev, node1);", "    if (prev == node1 && prev->next != prev->prev)\n        prev = node2;\n    bfdev_list_add(prev, node1);")],
     'swapping the two nodes of a list that has exactly two',
     'node1 is added behind itself instead of behind node2, which breaks the ring',
r'''#include <bfdev/list.h>
#include <stddef.h>
int main(void){ for (int n = 2; n < 6; ++n) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) {
 bfdev_list_head_t h, x[6]; bfdev_list_head_init(&h); for (int k = 0; k < n; ++k) bfdev_list_add_prev(&h, &x[k]);
 bfdev_list_swap(&x[i], &x[j]);
 bfdev_list_head_t *p = &h; int want[6]; for (int k = 0; k < n; ++k) want[k] = k; want[i] = j; want[j] = i;
 for (int k = 0; k < n; ++k) { if (p->next != &x[want[k]] || p->next->prev != p) return 1; p = p->next; } if (p->next != &h || h.prev != p) return 2; }
 return 0; }
''')
seed('hlist-replace-back', 'C05', [('include/bfdev/hlist.h', "    newn->next = oldn->next;\n    newn->pprev = oldn->pprev;\n    if (newn->next)\n        newn->next->pprev = &newn->next;\n    *newn->pprev = newn;", "    newn->next = oldn->next;\n    newn->pprev = oldn->pprev;\n    if (newn->next && newn->next->next)\n        newn->next->pprev = &newn->next;\n    *newn->pprev = newn;")],
     'replacing the last but one node of a chain and then deleting the last node',
     'the last node keeps a back pointer into the replaced node, so deleting it later edits a node that is no longer in the list',
r'''#include <bfdev/hlist.h>
#include <stddef.h>
int main(void){ bfdev_hlist_head_t h = {0}; bfdev_hlist_node_t a, b, c; bfdev_hlist_head_add(&h, &b); bfdev_hlist_head_add(&h, &a);
 bfdev_hlist_replace(&a, &c); bfdev_hlist_del(&b); return h.node != &c || c.next != NULL; }
''')
