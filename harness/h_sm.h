#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
enum { SM_STATES = 12, SM_TABLE = 70016, SM_KINDS = 4 };
extern const char  *sm_kind[];
extern const size_t sm_size[], sm_modelsize[];
typedef struct { uint8_t a; uint32_t b; void *c; } sm_event_t;   // event passed by value
// called by every handler
int      smh_handler(unsigned kind, unsigned handler, void *model, uint64_t event);
void     sm_setup(unsigned kind, void *sm, unsigned state, unsigned first);   // handlers of states 0.. are numbers first.. of the table
int      sm_send(unsigned kind, void *sm, void *model, uint64_t event);
unsigned sm_handler_of(unsigned entry);   // which of the 16 handlers is at this place of the table
unsigned sm_state(unsigned kind, void *sm);
#ifdef __cplusplus
}
#endif
