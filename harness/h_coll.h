#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
    const char *name;
    size_t      objsize, itemsize, cap;
    void (*init)(void *);
    size_t (*count)(void *);
    int (*put)(void *, void *);
    int (*get)(void *, void *);
    int (*drop)(void *);
    int (*peek)(void *, void *);
    void (*dequeue)(void *);
    int (*empty)(void *);
    int (*full)(void *);
} coll_ops_t;
extern const coll_ops_t coll_ops[];
extern const unsigned   coll_num;
#ifdef __cplusplus
}
#endif
