#include "data_structures/watcher.h"
#include "h_watch.h"
typedef struct { uint8_t b[13]; } odd_t;
const size_t w_recsize = sizeof(watcher_t), w_kindsize[W_KINDS] = { 1, 2, 4, 8, 13 };
#if !GEL_MALLOC_AVAILABLE
const size_t w_maxsize = GEL_STATIC_BLOCK_SIZE;
#elif defined(GEL_WATCHER_REDUCE_RAM_FOOTPRINT)
const size_t w_maxsize = 255;
#else
const size_t w_maxsize = 66000;
#endif
#ifdef GEL_WATCHER_REDUCE_RAM_FOOTPRINT
const unsigned long w_maxdelay = 65535;
#else
const unsigned long w_maxdelay = (unsigned long)-1;
#endif
static void cb0(void *m, void *d) { w_called(0, m, d); }
static void cb1(void *m, void *d) { w_called(1, m, d); }
static void cb2(void *m, void *d) { w_called(2, m, d); }
static watcher_cb_t const cbs[] = { cb0, cb1, cb2 };
void w_make(void *slot, int kind, void *mem, size_t num, int cbi, void *data, int delayed, unsigned long delay) {
    watcher_t   *w = slot;
    watcher_cb_t f = cbs[cbi];
#define K(TY) if (delayed) { if (num == 1) *w = WATCHER_DELAYED((TY *)mem, f, data, delay); else *w = WATCHER_DELAYED_ARRAY((TY *)mem, num, f, data, delay); } else { if (num == 1) *w = WATCHER((TY *)mem, f, data); else *w = WATCHER_ARRAY((TY *)mem, num, f, data); }
    switch (kind) {
        case 0: K(uint8_t) break;
        case 1: K(uint16_t) break;
        case 2: K(uint32_t) break;
        case 3: K(uint64_t) break;
        default: K(odd_t)
    }
}
void w_end(void *slot) { *(watcher_t *)slot = WATCHER_NULL; }
void w_init(void *l) { watcher_list_init(l); }
int  w_check(void *l) { return watcher_check_for_changes(l); }
int  w_process(void *l, unsigned long ts) { return watcher_process_changes(l, ts); }
void w_clear(void *l, unsigned long ts) { watcher_clear_changes(l, ts); }
void w_trigger(void *l, int i) { watcher_trigger_cb(l, i); }
void watcher_trigger_all_cb(watcher_t *) __attribute__((weak));   // defined, though not declared, under this name too
void w_trigger_all(void *l, int other) { (other && watcher_trigger_all_cb ? watcher_trigger_all_cb : watcher_trigger_all)(l); }
