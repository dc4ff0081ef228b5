#include "collections/queue.h"
#include "h_coll.h"
typedef struct { uint8_t a; uint32_t b; uint8_t c[7]; } item_s;
typedef struct { uint8_t c[27]; } big_s;
typedef struct { uint8_t c[72]; } wide_s;
typedef struct { uint32_t w[75]; } huge_s;
typedef void *ptr_t;
#define INST(NAME, TY, N)                                                                                              \
    QUEUE_DECLARATION(NAME, TY, N)                                                                                     \
    QUEUE_DEFINITION(NAME, TY)                                                                                         \
    static void   NAME##_o_init(void *q) { NAME##_init(q); }                                                           \
    static size_t NAME##_o_count(void *q) { return NAME##_count(q); }                                                  \
    static int    NAME##_o_put(void *q, void *i) { enqueue_result_t r = NAME##_enqueue(q, i); return r == ENQUEUE_RESULT_SUCCESS ? 1 : r == ENQUEUE_RESULT_FULL ? 0 : -1; } \
    static int    NAME##_o_get(void *q, void *i) { dequeue_result_t r = NAME##_dequeue(q, i); return r == DEQUEUE_RESULT_SUCCESS ? 1 : r == DEQUEUE_RESULT_EMPTY ? 0 : -1; } \
    static int    NAME##_o_drop(void *q) { dequeue_result_t r = NAME##_drop(q); return r == DEQUEUE_RESULT_SUCCESS ? 1 : r == DEQUEUE_RESULT_EMPTY ? 0 : -1; } \
    static int    NAME##_o_empty(void *q) { return NAME##_is_empty(q); }                                               \
    static int    NAME##_o_full(void *q) { return NAME##_is_full(q); }
#define ROW(NAME, TY, N) { #NAME, sizeof(struct NAME), sizeof(TY), N, NAME##_o_init, NAME##_o_count, NAME##_o_put, NAME##_o_get, NAME##_o_drop, 0, 0, NAME##_o_empty, NAME##_o_full },
#define ALL(F) F(q_u8_1, uint8_t, 1) F(q_i8_1, int8_t, 1) F(q_u8_2, uint8_t, 2) F(q_st_2, item_s, 2) F(q_u16_4, uint16_t, 4) F(q_p_4, ptr_t, 4) F(q_u32_8, uint32_t, 8) F(q_big_8, big_s, 8) F(q_st_16, item_s, 16) F(q_d_16, double, 16) F(q_u64_32, uint64_t, 32) F(q_u64_64, uint64_t, 64) F(q_wide_4, wide_s, 4) F(q_huge_8, huge_s, 8) F(q_u8_128, uint8_t, 128) F(q_u32_256, uint32_t, 256) F(q_i8_256, int8_t, 256) F(q_u16_512, uint16_t, 512) F(q_p_1024, ptr_t, 1024) F(q_u8_2048, uint8_t, 2048) F(q_st_4096, item_s, 4096) F(q_u8_8192, uint8_t, 8192) F(q_u32_16384, uint32_t, 16384) F(q_u8_32768, uint8_t, 32768) F(q_u16_32768, uint16_t, 32768)
ALL(INST)
const coll_ops_t coll_ops[] = { ALL(ROW) };
const unsigned   coll_num   = sizeof(coll_ops) / sizeof(coll_ops[0]);
