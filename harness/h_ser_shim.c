#include "serializer/serializer.h"
#include "h_ser.h"
#define F(N, W, S, B)                                                                                                  \
    static size_t s##N##B(uint8_t *b, uint64_t v) { return serialize_uint##N##S(b, (uint##N##_t)v); }                   \
    static size_t d##N##B(uint64_t *v, uint8_t *b) { uint##N##_t x = (uint##N##_t)0xA5A5A5A5A5A5A5A5ull; size_t r = deserialize_uint##N##S(&x, b); *v = x; return r; } \
    static size_t g##N##B(int64_t *v, uint8_t *b) { int##N##_t x = (int##N##_t)0xA5A5A5A5A5A5A5A5ull; size_t r = deserialize_int##N##S(&x, b); *v = x; return r; } \
    static size_t r##N##B(void *v, uint8_t *b) { return deserialize_uint##N##S((uint##N##_t *)v, b); }
F(8, 1, , 0) F(16, 2, _le, 0) F(16, 2, _be, 1) F(32, 4, _le, 0) F(32, 4, _be, 1) F(64, 8, _le, 0) F(64, 8, _be, 1)
#define R(N, W, S, B) { "uint" #N #S, W, B, s##N##B, d##N##B, g##N##B, r##N##B },
const ser_fn_t ser_fn[] = { R(8, 1, , 0) R(16, 2, _le, 0) R(16, 2, _be, 1) R(32, 4, _le, 0) R(32, 4, _be, 1) R(64, 8, _le, 0) R(64, 8, _be, 1) };
const unsigned ser_fns = sizeof(ser_fn) / sizeof(ser_fn[0]);
const unsigned ser_pack_forms = 8, ser_unpack_forms = 8;
size_t ser_pack(unsigned which, uint8_t *buf, uint64_t val, int form, unsigned *evals) {
    uint64_t hi = val & 0xF0F0F0F0F0F0F0F0ull, lo = val & 0x0F0F0F0F0F0F0F0Full;
    int64_t  sv = (int64_t)val;
    uint8_t *base = buf - 1;
    unsigned __int128 wide = (unsigned __int128)val << 24 | 0x5AA55A;
    uint64_t big = 1ull << 40;
    switch (form * 2 + (int)which) {
        case 0: return PACK_UINT8(buf, val);
        case 1: return PACK_UINT16_BE(buf, val);
        case 2: return PACK_UINT8(base + 1, hi | lo);
        case 3: return PACK_UINT16_BE(base + 1, hi | lo);
        case 4: return PACK_UINT8(((*evals)++, buf), ((*evals)++, val));
        case 5: return PACK_UINT16_BE(((*evals)++, buf), ((*evals)++, val));
        case 6: return PACK_UINT8(&buf[0], sv);
        case 7: return PACK_UINT16_BE(&buf[0], sv);
        case 8: return PACK_UINT8(buf, wide >> 24);
        case 9: return PACK_UINT16_BE(buf, wide >> 24);
        case 10: return PACK_UINT8(wide ? buf : 0, big ? val : 0);
        case 11: return PACK_UINT16_BE(wide ? buf : 0, big ? val : 0);
        // arguments that are called like something inside the macros
        case 12: { uint16_t tmp = (uint16_t)val; return PACK_UINT8(buf, tmp); }
        case 13: { uint16_t tmp = (uint16_t)val; return PACK_UINT16_BE(buf, tmp); }
        case 14: { size_t size = 1; return PACK_UINT8(base + size, val); }
        default: { size_t size = 1; return PACK_UINT16_BE(base + size, val); }
    }
}
size_t ser_unpack(unsigned which, uint64_t *val, uint8_t *buf, int form, unsigned *evals) {
    uint8_t *base = buf - 1;
    struct { uint8_t a; uint64_t wide; uint8_t n8; uint16_t n16; uint32_t n32; } o = { 1, 2, 3, 4, 5 };
    size_t r = 0;
    switch (form * 3 + (int)which) {
        case 0: return UNPACK_UINT8(*val, buf);
        case 1: return UNPACK_UINT16_BE(*val, buf);
        case 2: return UNPACK_UINT32_BE(*val, buf);
        case 3: r = UNPACK_UINT8(o.n8, base + 1); *val = o.n8; return r;
        case 4: r = UNPACK_UINT16_BE(o.n16, base + 1); *val = o.n16; return r;
        case 5: r = UNPACK_UINT32_BE(o.n32, base + 1); *val = o.n32; return r;
        case 6: return UNPACK_UINT8(val[(*evals)++], ((*evals)++, buf));
        case 7: return UNPACK_UINT16_BE(val[(*evals)++], ((*evals)++, buf));
        case 8: return UNPACK_UINT32_BE(val[(*evals)++], ((*evals)++, buf));
        case 9: r = UNPACK_UINT8(o.wide, &buf[0]); break;
        case 10: r = UNPACK_UINT16_BE(o.wide, &buf[0]); break;
        case 11: r = UNPACK_UINT32_BE(o.wide, &buf[0]); break;
        case 12: return UNPACK_UINT8(*(r ? 0 : val), r ? 0 : buf);
        case 13: return UNPACK_UINT16_BE(*(r ? 0 : val), r ? 0 : buf);
        case 14: return UNPACK_UINT32_BE(*(r ? 0 : val), r ? 0 : buf);
        // arguments that are called like something inside the macros
        case 15: { uint8_t tmp = 7; r = UNPACK_UINT8(tmp, buf); *val = tmp; return r; }
        case 16: { uint16_t tmp = 7; r = UNPACK_UINT16_BE(tmp, buf); *val = tmp; return r; }
        case 17: { uint32_t tmp = 7; r = UNPACK_UINT32_BE(tmp, buf); *val = tmp; return r; }
        case 18: { size_t size = 7; r = UNPACK_UINT8(size, buf); *val = size; return r; }
        case 19: { size_t size = 7; r = UNPACK_UINT16_BE(size, buf); *val = size; return r; }
        case 20: { size_t size = 7; r = UNPACK_UINT32_BE(size, buf); *val = size; return r; }
        case 21: { size_t size = 1; return UNPACK_UINT8(*val, base + size); }
        case 22: { size_t size = 1; return UNPACK_UINT16_BE(*val, base + size); }
        default: { size_t size = 1; return UNPACK_UINT32_BE(*val, base + size); }
    }
    *val = o.wide;
    return r;
}
