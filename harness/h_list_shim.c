#include <stdint.h>
#ifndef OWN_OFFSETOF   // without stddef.h the module uses its own NULL and offsetof
#include <stddef.h>
#else
typedef __SIZE_TYPE__ size_t;
#endif
#include "collections/listx.h"
#include "h_list.h"
typedef struct list_head lh;
typedef struct { lh link; uint32_t id; uint32_t inv; } k0_t;
typedef struct { uint32_t id; uint32_t inv; lh link; } k1_t;
typedef struct { uint8_t pad[40]; uint32_t id; lh other; uint32_t inv; lh link; uint8_t tail; } k2_t;
typedef struct { uint32_t id; struct { uint16_t a[5]; lh link; } in; uint32_t inv; } k3_t;
typedef struct { uint32_t id; uint8_t pad[700]; lh link; uint32_t inv; } k4_t;
typedef struct { uint32_t id; uint8_t pad[70000]; uint32_t inv; lh link; } k5_t;
const size_t l_size[LIST_KINDS] = { sizeof(k0_t), sizeof(k1_t), sizeof(k2_t), sizeof(k3_t), sizeof(k4_t), sizeof(k5_t) }, l_headsize = sizeof(lh);
void l_head_init(void *h, int how) {
    lh *l = h;
    if (how == 0) INIT_LIST_HEAD(l);
    else if (how == 1) { lh x = LIST_HEAD_INIT(*l); *l = x; }
    else { LIST_HEAD(x); l->next = x.next == &x ? l : 0; l->prev = x.prev == &x ? l : 0; }
}
#define EACH(F) switch (kind) { case 0: F(k0_t, link); break; case 1: F(k1_t, link); break; case 2: F(k2_t, link); break; case 3: F(k3_t, in.link); break; case 4: F(k4_t, link); break; default: F(k5_t, link); }
void l_set(int kind, void *e, unsigned id) {
#define F(TY, M) ((TY *)e)->id = id; ((TY *)e)->inv = ~id
    EACH(F)
#undef F
}
int l_get(int kind, void *e, unsigned *id) {
#define F(TY, M) *id = ((TY *)e)->id; return ((TY *)e)->inv == (uint32_t)~*id
    EACH(F)
#undef F
    return 0;
}
void *l_link(int kind, void *e) {
#define F(TY, M) return &((TY *)e)->M
    EACH(F)
#undef F
    return 0;
}
void *l_owner(int kind, void *link) {
    lh *p = link;
#define F(TY, M) return container_of(p, TY, M)
    EACH(F)
#undef F
    return 0;
}
void  l_add(void *l, void *h) { list_add(l, h); }
void  l_add_tail(void *l, void *h) { list_add_tail(l, h); }
void  l_del(void *l) { list_del(l); }
int   l_empty(void *h) { return list_empty(h); }
int   l_last(void *l, void *h) { return list_is_last(l, h); }
void *l_next(void *l) { return list_next(l); }
void *l_prev(void *l) { return list_prev(l); }
unsigned l_walk(void *h, int backwards, void **out, unsigned max) {
    unsigned n = 0;
    lh      *pos;
    if (backwards) {
        list_for_each_prev(pos, (lh *)h) { if (n >= max) break; out[n++] = pos; }
    } else {
        list_for_each(pos, (lh *)h) { if (n >= max) break; out[n++] = pos; }
    }
    return n;
}
unsigned l_walk_entry(int kind, void *h, int backwards, void **out, unsigned max) {
    unsigned n = 0;
#define F(TY, M) { TY *pos; if (backwards) { list_for_each_entry_reverse(pos, (lh *)h, M) { if (n >= max) break; out[n++] = pos; } } else { list_for_each_entry(pos, (lh *)h, M) { if (n >= max) break; out[n++] = pos; } } }
    EACH(F)
#undef F
    return n;
}
