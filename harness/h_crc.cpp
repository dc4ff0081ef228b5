// C08 / C09: table driven CRC against a bit-by-bit division, in one call and in pieces.
#include "pbt.hpp"
#include <cstring>
extern "C" {
#ifdef IS16
#include "crc/crc16-ccitt.h"
#else
#include "crc/crc32.h"
#endif
}
#ifdef IS16
typedef uint16_t crc_t;
enum { BITS = 16 };
static const crc_t POLY = 0x1021;
static crc_t real_crc(const uint8_t *p, size_t n, crc_t c) { return crc16_ccitt(p, (unsigned)n, c); }
#else
typedef uint32_t crc_t;
enum { BITS = 32 };
static const crc_t POLY = 0x04c11db7;
static crc_t real_crc(const uint8_t *p, size_t n, crc_t c) { return crc32(p, n, c); }
#endif
const char *pbt_rule = "byte strings (random, constant, sparse or counting; 0..80 bytes, sometimes around 256, 4096, 65536 or 131072) with any initial value, computed at once and in 2..6 pieces at any alignment; "
                       "non-trivial: at least two non-empty pieces and at least two different byte values";
static crc_t division(uint8_t b, crc_t c) {   // one byte through the polynomial division, bit by bit
    c ^= (crc_t)((crc_t)b << (BITS - 8));
    for (int k = 0; k < 8; k++) c = (crc_t)((c << 1) ^ ((c >> (BITS - 1)) & 1 ? POLY : 0));
    return c;
}
static crc_t ref(const uint8_t *p, size_t n, crc_t c) {
    static crc_t top[256];   // the division of each leading byte, for the long blocks
    if (n > 300 && !top[1])
        for (int q = 0; q < 256; q++) top[q] = division((uint8_t)q, 0);
    for (size_t q = 0; q < n; q++) c = n > 300 ? (crc_t)((c << 8) ^ top[p[q] ^ c >> (BITS - 8)]) : division(p[q], c);
    return c;
}
void property(T &t) {
    size_t n;
    switch (t.pick({400, 60, 6, 2, 1})) {
        case 0: n = t.u(0, 80); break;
        case 1: n = t.u(240, 270); break;
        case 2: n = t.u(4080, 4110); break;
        case 3: n = t.u(65520, 65560); break;
        default: n = t.u(131060, 131100);
    }
    crc_t    init = (crc_t)t.u(0, (crc_t)~(crc_t)0);
    unsigned off = (unsigned)t.u(0, 7);
    Buf      b(n + off);
    uint8_t *p    = b.p + off;
    int      kind = t.pick({5, 1, 2, 1});
    uint64_t fill = 0;
    switch (kind) {
        case 0:
            if (n <= 32) for (size_t q = 0; q < n; q++) p[q] = (uint8_t)t.u(0, 255);
            else {
                fill = t.uni(1, UINT32_MAX);
                uint64_t k = fill * 0x9e3779b97f4a7c15ull | 1;
                for (size_t q = 0; q < n; q++) { k ^= k << 13; k ^= k >> 7; k ^= k << 17; p[q] = (uint8_t)(k >> 33); }
            }
            break;
        case 1: fill = t.u(0, 255); memset(p, (int)fill, n); break;
        case 2:
            memset(p, 0, n);
            for (int k = (int)t.u(0, 4); k > 0 && n; k--) p[t.u(0, n - 1)] = (uint8_t)t.u(0, 255);
            break;
        default: fill = t.u(0, 255); for (size_t q = 0; q < n; q++) p[q] = (uint8_t)(fill + q);
    }
    std::vector<uint8_t> copy(p, p + n);
    t.note("%zu bytes%s%s, initial value 0x%x", n, n <= 80 ? ": " : "", n <= 80 ? hex(p, n).c_str() : "", (unsigned)init);
    crc_t want = ref(copy.data(), n, init), one = real_crc(p, n, init);
    CHECK(t, one == want, "the checksum is 0x%x instead of 0x%x", (unsigned)one, (unsigned)want);
    CHECK(t, !memcmp(p, copy.data(), n), "the input is modified");
    // in pieces, each piece a separately bounded block
    int    pieces = (int)t.u(1, 6), nonempty = 0;
    size_t at = 0;
    crc_t  c  = init;
    for (int k = 0; k < pieces; k++) {
        size_t len = k == pieces - 1 ? n - at : (size_t)t.u(0, n - at);
        {
            Buf piece(len);
            memcpy(piece.p, copy.data() + at, len);
            c = real_crc(piece.p, len, c);
            crc_t w = ref(copy.data(), at + len, init);
            t.note("  piece of %zu -> 0x%x", len, (unsigned)c);
            CHECK(t, c == w, "after %zu bytes in %d pieces the checksum is 0x%x instead of 0x%x", at + len, k + 1, (unsigned)c, (unsigned)w);
        }
        at += len;
        if (len) nonempty++;
    }
    bool differ = false;
    for (size_t q = 1; q < n; q++) differ |= copy[q] != copy[0];
    if (n > 65535) t.label("longer than 65535 bytes");
    if (n == 0) t.label("empty");
    if (nonempty >= 2 && differ) t.nontrivial();
}
