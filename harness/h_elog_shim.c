#include <string.h>
#include "circular_event_log/circular_event_log.h"
const size_t el_size = sizeof(circular_event_log_t);
void el_make(void *slot, size_t next, size_t max, size_t esz, int full, int (*save)(uint8_t *, size_t), int (*load)(uint8_t *, size_t, size_t)) {
    circular_event_log_t l = { .next_position = next, .max_events = max, .event_size = esz, .full_circle = full, .save_new_event = save, .load_events = load };
    memcpy(slot, &l, sizeof l);
}
int    el_record(void *l, uint8_t *e) { return circular_event_log_new_event(l, e); }
size_t el_total(void *l) { return circular_event_log_total_events(*(circular_event_log_t *)l); }
int    el_load(void *l, uint8_t *e, size_t n, size_t j) { return circular_event_log_load_last_events(*(circular_event_log_t *)l, e, n, j); }
size_t el_max(void *l) { return ((circular_event_log_t *)l)->max_events; }
size_t el_esz(void *l) { return ((circular_event_log_t *)l)->event_size; }
