#include "h_timer.h"
void ht_timer_null(gel_timer_t *t) { *t = GEL_TIMER_NULL; }
