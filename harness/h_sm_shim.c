#include "state_machine/state_machine.h"
#include "h_sm.h"
typedef struct { int x[5]; } model_a;
DEFINE_STATE_MACHINE(ka, int, model_a)
DEFINE_STATE_MACHINE(kb, uint8_t, uint64_t)
DEFINE_STATE_MACHINE(kc, sm_event_t, char)
DEFINE_STATE_MACHINE(kd, void *, void)
const char  *sm_kind[]      = { "int events", "uint8_t events", "struct events", "pointer events" };
const size_t sm_size[]      = { sizeof(ka_state_machine_t), sizeof(kb_state_machine_t), sizeof(kc_state_machine_t), sizeof(kd_state_machine_t) };
const size_t sm_modelsize[] = { sizeof(model_a), 8, 1, 16 };
static uint64_t unpack(sm_event_t e) { return (uint64_t)e.b << 8 | e.a | (uint64_t)(e.c == (void *)0x1234) << 63; }
static sm_event_t pack(uint64_t v) { sm_event_t e = { (uint8_t)v, (uint32_t)(v >> 8), v >> 63 ? (void *)0x1234 : (void *)0x55 }; return e; }
#define S(F) F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15)
#define HA(I) static int ha##I(model_a *m, int e) { return smh_handler(0, I, m, (uint64_t)(int64_t)e); }
#define HB(I) static int hb##I(uint64_t *m, uint8_t e) { return smh_handler(1, I, m, e); }
#define HC(I) static int hc##I(char *m, sm_event_t e) { return smh_handler(2, I, m, unpack(e)); }
#define HD(I) static int hd##I(void *m, void *e) { return smh_handler(3, I, m, (uint64_t)(uintptr_t)e); }
S(HA) S(HB) S(HC) S(HD)
#define NA(I) ha##I,
#define TABLE SM_TABLE
#define NB(I) hb##I,
#define NC(I) hc##I,
#define ND(I) hd##I,
static ka_event_manager_t fa[] = { S(NA) }, ta[TABLE];
static kb_event_manager_t fb[] = { S(NB) }, tb[TABLE];
static kc_event_manager_t fc[] = { S(NC) }, tc[TABLE];
static kd_event_manager_t fd[] = { S(ND) }, td[TABLE];
static unsigned fold(unsigned q) { return (q ^ q >> 4 ^ q >> 8 ^ q >> 12 ^ q >> 16) & 15; }
unsigned sm_handler_of(unsigned q) { return fold(q); }
__attribute__((constructor)) static void fill(void) {
    for (unsigned q = 0; q < TABLE; q++) ta[q] = fa[fold(q)], tb[q] = fb[fold(q)], tc[q] = fc[fold(q)], td[q] = fd[fold(q)];
}
void sm_setup(unsigned kind, void *sm, unsigned state, unsigned first) {
    switch (kind) {
        case 0: *(ka_state_machine_t *)sm = (ka_state_machine_t){ .managers = ta + first, .state = state }; break;
        case 1: *(kb_state_machine_t *)sm = (kb_state_machine_t){ .managers = tb + first, .state = state }; break;
        case 2: *(kc_state_machine_t *)sm = (kc_state_machine_t){ .managers = tc + first, .state = state }; break;
        default: *(kd_state_machine_t *)sm = (kd_state_machine_t){ .managers = td + first, .state = state }; break;
    }
}
int sm_send(unsigned kind, void *sm, void *model, uint64_t event) {
    switch (kind) {
        case 0: return ka_sm_send_event(sm, model, (int)event);
        case 1: return kb_sm_send_event(sm, model, (uint8_t)event);
        case 2: return kc_sm_send_event(sm, model, pack(event));
        default: return kd_sm_send_event(sm, model, (void *)(uintptr_t)event);
    }
}
unsigned sm_state(unsigned kind, void *sm) {
    switch (kind) {
        case 0: return ((ka_state_machine_t *)sm)->state;
        case 1: return ((kb_state_machine_t *)sm)->state;
        case 2: return ((kc_state_machine_t *)sm)->state;
        default: return ((kd_state_machine_t *)sm)->state;
    }
}
