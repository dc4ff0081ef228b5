#pragma once
#ifdef __cplusplus
extern "C" {
#endif
#include "timer/stopwatch.h"
#include "timer/timer.h"
void          ht_stopwatch_null(stopwatch_t *s);
void          ht_timer_null(gel_timer_t *t);
void          ht_setngo(stopwatch_t *s, int go, unsigned long period, unsigned long ts);
#ifdef __cplusplus
}
#endif
