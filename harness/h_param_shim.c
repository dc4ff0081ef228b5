#include "h_param.h"
#define T1(F) F(PARAMETER_TYPE_UINT8, uint8_t, long long, 4) F(PARAMETER_TYPE_INT8, int8_t, int, 4)
#if GEL_PARAMETER_MAX_SIZE >= 2
#define T2(F) F(PARAMETER_TYPE_UINT16, uint16_t, int, 4) F(PARAMETER_TYPE_INT16, int16_t, long long, 4)
#else
#define T2(F)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 4
#define T4(F) F(PARAMETER_TYPE_UINT32, uint32_t, long long, 4) F(PARAMETER_TYPE_INT32, int32_t, long long, 4) F(PARAMETER_TYPE_FLOAT, float, double, 4)
#else
#define T4(F)
#endif
#if GEL_PARAMETER_MAX_SIZE >= 8
#define T8(F) F(PARAMETER_TYPE_UINT64, uint64_t, unsigned long long, 1) F(PARAMETER_TYPE_INT64, int64_t, long long, 1) F(PARAMETER_TYPE_DOUBLE, double, double, 1)
#else
#define T8(F)
#endif
#define ALL(F) T1(F) T2(F) T4(F) T8(F)
#define ID(E, C, W, K) E,
const int hp_types[] = { ALL(ID) };
const int hp_ntypes  = sizeof(hp_types) / sizeof(hp_types[0]);

#define FORMS(P, E, a, b, c, s)                                                                                        \
    switch (form) {                                                                                                    \
        case HP_PLAIN: *out = PARAMETER(P, a, b, c, udata, lvl); break;                                                \
        case HP_STEP: *out = PARAMETER_STEP(P, a, b, c, s, udata, lvl); break;                                         \
        case HP_DLIMITS: *out = PARAMETER_DLIMITS(P, pmin, pmax, a, b, c, udata, lvl); break;                          \
        case HP_FULL: *out = PARAMETER_FULL(P, pmin, pmax, a, b, c, s, lvl, udata, hook, arg); break;                  \
        case HP_C99: *out = PARAMETER_C99(E, P, pmin, pmax, a, b, c, s, lvl, udata, hook, arg); break;                 \
    }
#define MK(E, C, W, K)                                                                                                 \
    case E: {                                                                                                          \
        C *p = ptr, *base = p - 1;                                                                                     \
        C  a = *(const C *)min, b = *(const C *)max, c = *(const C *)def, s = *(const C *)step;                        \
        W  wa = (W)a * K, wb = (W)b * K, wc = (W)c * K, ws = (W)s * K;                                                 \
        switch (flags) {                                                                                               \
            case 0: FORMS(p, E, a, b, c, s) break;                                                                     \
            case HP_WIDE: FORMS(p, E, wa / K, wb / K, wc / K, ws / K) break;                                           \
            case HP_OFFSET: FORMS(base + 1, E, a, b, c, s) break;                                                      \
            case HP_WIDE | HP_OFFSET: FORMS(base + 1, E, wa / K, wb / K, wc / K, ws / K) break;                        \
        }                                                                                                              \
        break;                                                                                                         \
    }
void hp_make(parameter_handle_t *out, int type, int form, int flags, void *ptr, void *pmin, void *pmax, const void *min, const void *max, const void *def, const void *step, unsigned lvl, GEL_PARAMETER_USER_DATA udata, hp_hook_t hook, void *arg) {
    switch (type) { ALL(MK) }
}
