#include "collections/stack.h"
#include "h_coll.h"
typedef struct { uint8_t a; uint32_t b; uint8_t c[7]; } item_s;
typedef struct { uint8_t c[27]; } big_s;
typedef struct { uint8_t c[72]; } wide_s;
typedef struct { uint32_t w[75]; } huge_s;
typedef void *ptr_t;
#define INST(NAME, TY, N)                                                                                              \
    STACK_DECLARATION(NAME, TY, N)                                                                                     \
    STACK_DEFINITION(NAME, TY)                                                                                         \
    static void NAME##_o_init(void *q) { NAME##_init(q); }                                                             \
    static int  NAME##_o_put(void *q, void *i) { push_result_t r = NAME##_push(q, i); return r == PUSH_RESULT_SUCCESS ? 1 : r == PUSH_RESULT_FULL ? 0 : -1; } \
    static int  NAME##_o_get(void *q, void *i) { pop_result_t r = NAME##_pop(q, i); return r == POP_RESULT_SUCCESS ? 1 : r == POP_RESULT_EMPTY ? 0 : -1; } \
    static int  NAME##_o_peek(void *q, void *i) { pop_result_t r = NAME##_peek(q, i); return r == POP_RESULT_SUCCESS ? 1 : r == POP_RESULT_EMPTY ? 0 : -1; } \
    static void NAME##_o_deq(void *q) { NAME##_dequeue(q); }                                                           \
    static int  NAME##_o_empty(void *q) { return NAME##_is_empty(q); }                                                 \
    static int  NAME##_o_full(void *q) { return NAME##_is_full(q); }
#define ROW(NAME, TY, N) { #NAME, sizeof(struct NAME), sizeof(TY), N, NAME##_o_init, 0, NAME##_o_put, NAME##_o_get, 0, NAME##_o_peek, NAME##_o_deq, NAME##_o_empty, NAME##_o_full },
#define ALL(F) F(s_u8_1, uint8_t, 1) F(s_u8_2, uint8_t, 2) F(s_u16_3, uint16_t, 3) F(s_d_4, double, 4) F(s_u32_5, uint32_t, 5) F(s_i8_6, int8_t, 6) F(s_st_3, item_s, 3) F(s_big_7, big_s, 7) F(s_p_8, ptr_t, 8) F(s_u32_9, uint32_t, 9) F(s_u16_15, uint16_t, 15) F(s_u8_16, uint8_t, 16) F(s_st_17, item_s, 17) F(s_u64_40, uint64_t, 40) F(s_u8_64, uint8_t, 64) F(s_u16_65, uint16_t, 65) F(s_wide_4, wide_s, 4) F(s_huge_6, huge_s, 6) F(s_p_127, ptr_t, 127) F(s_u8_128, uint8_t, 128) F(s_i8_129, int8_t, 129) F(s_u8_255, uint8_t, 255) F(s_u32_256, uint32_t, 256) F(s_u16_257, uint16_t, 257) F(s_u32_300, uint32_t, 300) F(s_d_512, double, 512) F(s_big_1000, big_s, 1000) F(s_u8_32767, uint8_t, 32767) F(s_u8_32768, uint8_t, 32768) F(s_u16_40000, uint16_t, 40000) F(s_u8_65535, uint8_t, 65535)
ALL(INST)
const coll_ops_t coll_ops[] = { ALL(ROW) };
const unsigned   coll_num   = sizeof(coll_ops) / sizeof(coll_ops[0]);
