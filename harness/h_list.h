#pragma once
#ifndef OWN_OFFSETOF
#include <stddef.h>
#endif
#ifdef __cplusplus
extern "C" {
#endif
#define LIST_KINDS 6
extern const size_t l_size[LIST_KINDS], l_headsize;
void  l_head_init(void *h, int how);              // 0 INIT_LIST_HEAD, 1 LIST_HEAD_INIT, 2 LIST_HEAD
void  l_set(int kind, void *e, unsigned id);      // payload
int   l_get(int kind, void *e, unsigned *id);     // payload intact?
void *l_link(int kind, void *e);                  // the embedded link
void *l_owner(int kind, void *link);              // container_of
void  l_add(void *l, void *h);
void  l_add_tail(void *l, void *h);
void  l_del(void *l);
int   l_empty(void *h);
int   l_last(void *l, void *h);
void *l_next(void *l);
void *l_prev(void *l);
// walks: link addresses (raw) or element addresses (entry); at most max, returns how many were visited
unsigned l_walk(void *h, int backwards, void **out, unsigned max);
unsigned l_walk_entry(int kind, void *h, int backwards, void **out, unsigned max);
#ifdef __cplusplus
}
#endif
