// C29: the serializer against explicit byte arithmetic.
#include "h_ser.h"
#include "pbt.hpp"
#include <cstring>
const char *pbt_rule = "messages of 1-12 integers of any width and byte order, written one after the other into a buffer of exactly their total size by the functions or the pack macros and read back (unsigned, signed, unpack macros); "
                       "non-trivial: at least three fields of different kinds, one of 4 or more bytes with its top bit set";
static uint64_t value(T &t, unsigned w) {
    uint64_t m = w == 8 ? ~0ull : (1ull << 8 * w) - 1;
    switch (t.pick({2, 2, 1, 1})) {
        case 0: return t.u(0, m);
        case 1: return (t.u(0, ~0ull) * 0x9E3779B97F4A7C15ull + t.u(0, 255)) & m;                       // all bytes different
        case 2: { uint64_t v = 0; for (unsigned k = 0; k < w; k++) v = v << 8 | (t.b() ? 0x80 : t.b() ? 0xFF : 0x7F); return v; }
        default: return m ^ t.u(0, 3);
    }
}
void property(T &t) {
    struct F { unsigned k; uint64_t v; int how; };
    std::vector<F> fs;
    size_t total = 0;
    while (fs.size() < 12 && (fs.empty() || t.more(4))) {
        Span s(t);
        F f;
        f.k   = (unsigned)t.u(0, ser_fns - 1);
        f.v   = value(t, ser_fn[f.k].width);
        f.how = (int)t.u(0, 3);
        total += ser_fn[f.k].width;
        fs.push_back(f);
    }
    Buf b(total);
    poison(t, b.p, total);
    std::vector<uint8_t> m(b.p, b.p + total);
    auto which = [&](unsigned k) { return ser_fn[k].width == 1 ? 0 : !ser_fn[k].big ? -1 : ser_fn[k].width == 2 ? 1 : ser_fn[k].width == 4 ? 2 : -1; };
    size_t   off   = 0;
    unsigned kinds = 0;
    bool     top   = false;
    for (auto &f : fs) {
        const ser_fn_t &fn = ser_fn[f.k];
        int      w = which(f.k);
        size_t   r;
        unsigned ev = 0;
        int      form = t.b() && (w == 0 || w == 1) ? (int)t.u(0, ser_pack_forms - 1) : -1;
        t.note("%s %s 0x%llx at %zu", form >= 0 ? "pack" : "serialize", fn.name, (unsigned long long)f.v, off);
        uint64_t junk = form >= 0 && form != 1 && t.b() ? t.u(0, ~0ull) << (8 * fn.width) : 0;   // pack macros take the low bits of wider values
        r = form >= 0 ? ser_pack((unsigned)w, b.p + off, f.v | junk, form, &ev) : fn.ser(b.p + off, f.v);
        CHECK(t, form != 2 || ev == 2, "a pack macro evaluated its two arguments %u times", ev);
        CHECK(t, r == fn.width, "%s reports %zu bytes", fn.name, r);
        for (unsigned k = 0; k < fn.width; k++) m[off + k] = (uint8_t)(f.v >> 8 * (fn.big ? fn.width - 1 - k : k));
        CHECK(t, !memcmp(b.p, m.data(), total), "after %s of 0x%llx at %zu the buffer is %s, expected %s", fn.name, (unsigned long long)f.v, off, hex(b.p, total).c_str(), hex(m.data(), total).c_str());
        off += fn.width;
        kinds |= 1u << f.k;
        if (fn.width >= 4 && f.v >> (8 * fn.width - 1)) top = true;
    }
    off = 0;
    for (auto &f : fs) {
        const ser_fn_t &fn = ser_fn[f.k];
        int w = which(f.k);
        // reading with any kind that fits sees the same bytes
        t.note("read %s at %zu as %s", fn.name, off, f.how == 1 ? "signed" : f.how == 2 && w >= 0 ? "unpack" : "unsigned");
        if (f.how == 1) {
            int64_t v = 0, want = (int64_t)(f.v << (64 - 8 * fn.width)) >> (64 - 8 * fn.width);
            size_t  r = fn.des(&v, b.p + off);
            CHECK(t, r == fn.width && v == want, "signed %s of %s is %lld (%zu bytes), expected %lld", fn.name, hex(b.p + off, fn.width).c_str(), (long long)v, r, (long long)want);
        } else if (f.how == 2 && w >= 0) {
            uint64_t v[2] = { 0x1234567890ABCDEFull, 7 };
            unsigned ev = 0;
            int      form = (int)t.u(0, ser_unpack_forms - 1);
            size_t   r = ser_unpack((unsigned)w, v, b.p + off, form, &ev);
            CHECK(t, form != 2 || ev == 2, "an unpack macro evaluated its two arguments %u times", ev);
            if (form == 2 && v[0] == 0x1234567890ABCDEFull) v[0] = v[1];
            CHECK(t, r == fn.width && v[0] == f.v, "unpack %s of %s is 0x%llx (%zu bytes), expected 0x%llx", fn.name, hex(b.p + off, fn.width).c_str(), (unsigned long long)v[0], r, (unsigned long long)f.v);
        } else if (f.how == 3) {
            Buf    v(fn.width);
            size_t r = fn.deraw(v.p, b.p + off);
            CHECK(t, r == fn.width && !memcmp(v.p, &f.v, fn.width), "%s of %s into memory gives %s", fn.name, hex(b.p + off, fn.width).c_str(), hex(v.p, fn.width).c_str());
        } else {
            uint64_t v = 0;
            size_t   r = fn.de(&v, b.p + off);
            CHECK(t, r == fn.width && v == f.v, "%s of %s is 0x%llx (%zu bytes), expected 0x%llx", fn.name, hex(b.p + off, fn.width).c_str(), (unsigned long long)v, r, (unsigned long long)f.v);
        }
        CHECK(t, !memcmp(b.p, m.data(), total), "reading changed the buffer");
        off += fn.width;
    }
    if (__builtin_popcount(kinds) >= 3 && top) t.nontrivial();
}
