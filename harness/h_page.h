#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define PM_CLASSES 6
enum { CB_CREATE, CB_DESTROY, CB_OPEN, CB_CLOSE, CB_UPDATE, CB_EVENT };
extern const size_t   pm_size;
extern const unsigned pm_depth;
extern const int      pm_has_update, pm_has_view, pm_null_data, pm_null_view;
typedef struct { int id, cls; unsigned mask; int junk; void *extra; int plain; } pm_page_t;
// every page callback ends up here; absent arguments are 0
intptr_t pm_cb(int kind, int cls, intptr_t model, intptr_t data, void *extra, intptr_t event);
void     pm_init(void *p);
intptr_t pm_change(void *p, int model, const pm_page_t *n);
intptr_t pm_swap(void *p, int model, const pm_page_t *n);
intptr_t pm_rebase(void *p, int model, const pm_page_t *n);
intptr_t pm_back(void *p, int model);
intptr_t pm_reset(void *p, int model, int id, uint8_t *found);
intptr_t pm_update(void *p, int model);
intptr_t pm_event(void *p, int model, int event);
#ifdef __cplusplus
}
#endif
