#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
    const char *name;
    unsigned    width;
    int         big;
    size_t (*ser)(uint8_t *, uint64_t);
    size_t (*de)(uint64_t *, uint8_t *);    // through a variable of exactly the width; what the function left in it
    size_t (*des)(int64_t *, uint8_t *);
    size_t (*deraw)(void *, uint8_t *);     // straight into the memory given
} ser_fn_t;
extern const ser_fn_t ser_fn[];
extern const unsigned ser_fns;
// the pack/unpack macros: which = 0 UINT8, 1 UINT16_BE, 2 UINT32_BE (unpack only); the arguments are expressions with a side effect counted in *evals
size_t ser_pack(unsigned which, uint8_t *buf, uint64_t val, int form, unsigned *evals);
size_t ser_unpack(unsigned which, uint64_t *val, uint8_t *buf, int form, unsigned *evals);
extern const unsigned ser_pack_forms, ser_unpack_forms;
#ifdef __cplusplus
}
#endif
