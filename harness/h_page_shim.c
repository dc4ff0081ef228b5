#include <string.h>
#include "pagemanager/page_manager.h"
#include "h_page.h"
const size_t   pm_size  = sizeof(page_manager_t);
const unsigned pm_depth = PMAN_NAVIGATION_DEPTH;
#ifdef GEL_PAGEMANAGER_UPDATE_CALLBACK
const int pm_has_update = 1;
#define UPDATE(...) __VA_ARGS__
#else
const int pm_has_update = 0;
#define UPDATE(...)
#endif
#ifdef CONF_VOID_VIEW
const int pm_has_view = 0, pm_null_view = 0, pm_null_data = 0;
#define VIEW(X) (X)
#define RET(X) do { X; return 0; } while (0)
#define D(X) ((intptr_t)(X))
#define P(X) ((void *)(intptr_t)(X))
#else
const int pm_has_view = 1, pm_null_view = PMAN_VIEW_NULL, pm_null_data = PMAN_DATA_NULL;
#define VIEW(X) return (X)
#define RET(X) return X
#define D(X) ((intptr_t)(X))
#define P(X) ((int)(X))
#endif
#define CLASS(K)                                                                                                       \
    static pman_page_data_t create##K(pman_model_t m, void *e) { return (pman_page_data_t)P(pm_cb(CB_CREATE, K, D(m), 0, e, 0)); } \
    static void destroy##K(pman_page_data_t d, void *e) { pm_cb(CB_DESTROY, K, 0, D(d), e, 0); }                       \
    static void open##K(pman_model_t m, pman_page_data_t d) { pm_cb(CB_OPEN, K, D(m), D(d), 0, 0); }                   \
    static void close##K(pman_page_data_t d) { pm_cb(CB_CLOSE, K, 0, D(d), 0, 0); }                                    \
    UPDATE(static pman_view_t update##K(pman_model_t m, pman_page_data_t d) { VIEW(pm_cb(CB_UPDATE, K, D(m), D(d), 0, 0)); }) \
    static pman_message_t event##K(pman_model_t m, pman_page_data_t d, pman_event_t e) { return (pman_message_t)P(pm_cb(CB_EVENT, K, D(m), D(d), 0, D(e))); }
CLASS(0) CLASS(1) CLASS(2) CLASS(3) CLASS(4) CLASS(5)
#define ROW(K) { .create = create##K, .destroy = destroy##K, .open = open##K, .close = close##K, UPDATE(.update = update##K,) .process_event = event##K },
static const pman_page_t classes[PM_CLASSES] = { ROW(0) ROW(1) ROW(2) ROW(3) ROW(4) ROW(5) };
static pman_page_t page(const pm_page_t *n) {
    pman_page_t p = classes[n->cls];
    p.id          = n->id;
    if (!(n->mask & 1u << CB_CREATE)) p.create = NULL;
    if (!(n->mask & 1u << CB_DESTROY)) p.destroy = NULL;
    if (!(n->mask & 1u << CB_OPEN)) p.open = NULL;
    if (!(n->mask & 1u << CB_CLOSE)) p.close = NULL;
    UPDATE(if (!(n->mask & 1u << CB_UPDATE)) p.update = NULL;)
    if (!(n->mask & 1u << CB_EVENT)) p.process_event = NULL;
    memset(&p.data, n->junk, sizeof p.data);
    memset(&p.extra, n->junk, sizeof p.extra);
    return p;
}
void     pm_init(void *p) { pman_init(p); }
#define M ((pman_model_t)P(model))
intptr_t pm_change(void *p, int model, const pm_page_t *n) { if (n->plain) RET(pman_change_page(p, M, page(n))); else RET(pman_change_page_extra(p, M, page(n), n->extra)); }
intptr_t pm_swap(void *p, int model, const pm_page_t *n) { if (n->plain) RET(pman_swap_page(p, M, page(n))); else RET(pman_swap_page_extra(p, M, page(n), n->extra)); }
intptr_t pm_rebase(void *p, int model, const pm_page_t *n) { if (n->plain) RET(pman_rebase_page(p, M, page(n))); else RET(pman_rebase_page_extra(p, M, page(n), n->extra)); }
intptr_t pm_back(void *p, int model) { RET(pman_back(p, M)); }
intptr_t pm_reset(void *p, int model, int id, uint8_t *found) { RET(pman_reset_to_page(p, M, id, found)); }
intptr_t pm_update(void *p, int model) { RET(pman_page_update(p, M)); }
intptr_t pm_event(void *p, int model, int event) { return D(pman_process_page_event(p, M, (pman_event_t)P(event))); }
