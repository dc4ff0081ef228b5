#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
    const char *name;
    size_t      tsize, msize;
    void (*ret)(const void *v, void *m);
    void (*nothing)(void *m, int how);
    int (*is_just)(void *m);
    void (*with_default)(void *m, const void *d, void *out);
    void (*map)(const void *m, void *out);    // the mapped function is m_map_cb
    void (*bind)(const void *m, void *out);   // the bound function is m_bind_cb
    void (*bind_ret)(const void *m, void *out);
} maybe_ops_t;
extern const maybe_ops_t maybe_ops[];
extern const unsigned    maybe_num;
void m_map_cb(const void *in, void *out);     // value -> value
void m_bind_cb(const void *in, void *out);    // value -> maybe
#ifdef __cplusplus
}
#endif
