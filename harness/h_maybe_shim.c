#include <string.h>
#include "h_maybe.h"
#include "data_structures/maybe.h"
typedef struct { uint32_t a; uint16_t b[2]; } pair_t;
typedef struct { uint64_t a; uint8_t b[32]; } large_t;
typedef void *pointer;
#define INST(TY)                                                                                                       \
    MAYBE_DECLARATION(TY)                                                                                              \
    MAYBE_DEFINITION(TY)                                                                                               \
    static TY TY##_fmap(TY v) { TY r; m_map_cb(&v, &r); return r; }                                                    \
    static MAYBE(TY) TY##_fbind(TY v) { MAYBE(TY) r; m_bind_cb(&v, &r); return r; }                                    \
    static void TY##_ret(const void *v, void *m) { *(MAYBE(TY) *)m = maybe_##TY##_return(*(const TY *)v); }            \
    static void TY##_nothing(void *m, int how) { if (how) { MAYBE(TY) x = MAYBE_NOTHING; *(MAYBE(TY) *)m = x; } else *(MAYBE(TY) *)m = maybe_##TY##_nothing(); } \
    static int  TY##_isj(void *m) { return maybe_##TY##_is_just(m); }                                                  \
    static void TY##_wd(void *m, const void *d, void *out) { *(TY *)out = maybe_##TY##_with_default(m, *(const TY *)d); } \
    static void TY##_mp(const void *m, void *out) { *(MAYBE(TY) *)out = maybe_##TY##_map(*(const MAYBE(TY) *)m, TY##_fmap); } \
    static void TY##_bd(const void *m, void *out) { *(MAYBE(TY) *)out = maybe_##TY##_bind(*(const MAYBE(TY) *)m, TY##_fbind); } \
    static void TY##_br(const void *m, void *out) { *(MAYBE(TY) *)out = maybe_##TY##_bind(*(const MAYBE(TY) *)m, maybe_##TY##_return); }
#define ROW(TY) { #TY, sizeof(TY), sizeof(MAYBE(TY)), TY##_ret, TY##_nothing, TY##_isj, TY##_wd, TY##_mp, TY##_bd, TY##_br },
#define ALL(F) F(int) F(int8_t) F(uint16_t) F(uint64_t) F(double) F(pair_t) F(large_t) F(pointer)
ALL(INST)
const maybe_ops_t maybe_ops[] = { ALL(ROW) };
const unsigned    maybe_num   = sizeof(maybe_ops) / sizeof(maybe_ops[0]);
