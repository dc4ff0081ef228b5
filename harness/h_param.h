#pragma once
#ifdef __cplusplus
extern "C" {
#endif
#include "parameter/parameter.h"
typedef void (*hp_hook_t)(parameter_handle_t *, void *);
enum { HP_PLAIN, HP_STEP, HP_DLIMITS, HP_FULL, HP_C99, HP_FORMS };   // declaration macro
enum { HP_WIDE = 1, HP_OFFSET = 2 };                                 // wide-typed expressions (a quotient where there is room); pointer written as base + 1
extern const int hp_types[], hp_ntypes;
// min, max, def, step point to values of the type (HP_WIDE: read through long long / unsigned long long / double)
void hp_make(parameter_handle_t *out, int type, int form, int flags, void *ptr, void *pmin, void *pmax, const void *min, const void *max, const void *def, const void *step, unsigned lvl, GEL_PARAMETER_USER_DATA udata, hp_hook_t hook, void *arg);
#ifdef __cplusplus
}
#endif
