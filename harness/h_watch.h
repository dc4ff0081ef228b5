#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
extern const size_t w_recsize, w_maxsize;
extern const unsigned long w_maxdelay;
#define W_KINDS 5
extern const size_t w_kindsize[W_KINDS];
void w_make(void *slot, int kind, void *mem, size_t num, int cb, void *data, int delayed, unsigned long delay);
void w_end(void *slot);
void w_called(int cb, void *mem, void *data);
void w_init(void *l);
int  w_check(void *l);
int  w_process(void *l, unsigned long ts);
void w_clear(void *l, unsigned long ts);
void w_trigger(void *l, int i);
void w_trigger_all(void *l, int other);
#ifdef __cplusplus
}
#endif
