#include "h_timer.h"
void ht_stopwatch_null(stopwatch_t *s) { stopwatch_t x = STOPWATCH_NULL; *s = x; }
void ht_setngo(stopwatch_t *s, int go, unsigned long period, unsigned long ts) {
    if (go)
        stopwatch_setngo(s, period, ts);
}
