// C01: the circular buffer is a bounded FIFO, against a std::deque model.
#include "pbt.hpp"
#include <cstring>
#include <deque>
#ifndef GEL_CBUF_TYPE
#define GEL_CBUF_TYPE uint8_t
#endif
typedef GEL_CBUF_TYPE E;
extern "C" {
size_t sh_sizeof(void);
int    sh_init(void *, E *, size_t);
void   sh_reset(void *);
int    sh_puts(void *, E *, size_t);
int    sh_putc(void *, E);
int    sh_gets(void *, E *, int);
int    sh_getc(void *, E *);
int    sh_peek(void *, E *, int);
int    sh_drop(void *, int);
int    sh_empty(void *);
int    sh_full(void *);
size_t sh_size(void *);
size_t sh_capacity(void *);
}
const char *pbt_rule = "operation sequences (putc/puts/getc/gets/peek/drop/reset/queries) on a generated buffer size, compared with a deque after every operation; "
                       "non-trivial: the buffer was full at least once, more elements than the buffer size passed through, and some transfer was cut short";

static E val(uint64_t k) { k = k * 0x9E3779B97F4A7C15ull; return (E)(k >> 23) ^ (E)(k >> 51); }

static bool same(const E *a, const std::deque<E> &m, size_t n) {
    for (size_t k = 0; k < n; k++)
        if (a[k] != m[k]) return false;
    return true;
}

PBT_PAIR()
void property(T &t) {
    size_t size;
    switch (t.pick({40, 40, 12, 1})) {
        case 0: size = t.uni(1, 9); break;
        case 1: size = t.u(1, 40); break;
        case 2: size = t.u(1, 600); break;
        default: size = t.u(1, 200000); t.label("buffer longer than 600"); break;
    }
    size_t cap = size - 1;
    Buf    cb(sh_sizeof()), mem(size * sizeof(E));
    poison(t, cb.p, cb.n);
    CHECK(t, sh_init(cb.p, nullptr, size) != 0, "init accepts a NULL buffer");
    CHECK(t, sh_init(cb.p, (E *)mem.p, 0) != 0, "init accepts size 0");
    CHECK(t, sh_init(cb.p, (E *)mem.p, size) == 0, "init of size %zu fails", size);
    t.note("init size=%zu", size);
    std::deque<E> m;
    uint64_t      seq = 0, through = 0;
    bool          wasfull = false, cut = false;
    auto          len = [&](const char *) -> size_t {
        size_t free = cap - m.size();
        switch (t.pick({5, 2, 2, 2, 2, 1})) {
            case 0: return t.u(0, size + 3);
            case 1: return m.size() + t.uni(0, 1);
            case 2: return free + t.uni(0, 1);
            case 3: return size + t.uni(0, 2);
            case 4: return t.u(0, 3);
            default: return t.u(0, 2 * size + 2);
        }
    };
    unsigned avg = size > 600 ? 8 : 25;
    while (t.more(avg)) {
        Span s(t);
        switch (t.pick({20, 30, 12, 24, 10, 10, 1, 1})) {
            case 0: {
                E   v = val(seq++);
                int r = sh_putc(cb.p, v);
                t.note("putc -> %d", r);
                CHECK(t, (r == 0) == (m.size() < cap), "putc returns %d with %zu of %zu stored", r, m.size(), cap);
                if (r == 0) m.push_back(v), through++;
                else cut = true;
                break;
            }
            case 1: {
                size_t n = len("puts");
                Buf    d(n * sizeof(E));
                for (size_t k = 0; k < n; k++) ((E *)d.p)[k] = val(seq + k);
                Buf copy(n * sizeof(E));
                memcpy(copy.p, d.p, n * sizeof(E));
                int    r = sh_puts(cb.p, (E *)d.p, n);
                size_t e = std::min(n, cap - m.size());
                t.note("puts %zu -> %d (free %zu)", n, r, cap - m.size());
                CHECK(t, r >= 0 && (size_t)r == e, "puts(%zu) returns %d, expected %zu (%zu of %zu stored)", n, r, e, m.size(), cap);
                CHECK(t, memcmp(copy.p, d.p, n * sizeof(E)) == 0, "puts modifies its input");
                for (size_t k = 0; k < e; k++) m.push_back(val(seq + k));
                if (e < n) cut = true;
                seq += n;
                through += e;
                break;
            }
            case 2: {
                bool null = t.b(1, 4);
                E    out[1];
                memset(out, 0xA5, sizeof out);
                int r = sh_getc(cb.p, null ? nullptr : out);
                t.note("getc%s -> %d", null ? "(NULL)" : "", r);
                CHECK(t, (r == 0) == !m.empty(), "getc returns %d with %zu stored", r, m.size());
                if (r == 0) {
                    CHECK(t, null || out[0] == m.front(), "getc returns the wrong element");
                    m.pop_front();
                }
                break;
            }
            case 3:
            case 4: {
                bool   peek = t.b(1, 3), null = t.b(1, 6);
                size_t n = len("gets");
                Buf    d((n + 0) * sizeof(E));
                int    r = peek ? sh_peek(cb.p, null ? nullptr : (E *)d.p, (int)n) : sh_gets(cb.p, null ? nullptr : (E *)d.p, (int)n);
                size_t e = std::min(n, m.size());
                t.note("%s%s %zu -> %d (stored %zu)", peek ? "peek" : "gets", null ? "(NULL)" : "", n, r, m.size());
                CHECK(t, r >= 0 && (size_t)r == e, "%s(%zu) returns %d, expected %zu", peek ? "peek" : "gets", n, r, e);
                if (!null) {
                    CHECK(t, same((E *)d.p, m, e), "%s(%zu) returns wrong elements", peek ? "peek" : "gets", n);
                    for (size_t k = e * sizeof(E); k < n * sizeof(E); k++) CHECK(t, d.p[k] == 0xA5, "%s writes past what it returned", peek ? "peek" : "gets");
                }
                if (e < n) cut = true;
                if (!peek) m.erase(m.begin(), m.begin() + e);
                break;
            }
            case 5: {
                size_t n = len("drop");
                int    r = sh_drop(cb.p, (int)n);
                size_t e = std::min(n, m.size());
                t.note("drop %zu -> %d", n, r);
                CHECK(t, r >= 0 && (size_t)r == e, "drop(%zu) returns %d, expected %zu", n, r, e);
                m.erase(m.begin(), m.begin() + e);
                break;
            }
            case 7: {
                E   d[2] = {}, *p = t.b(1, 3) ? nullptr : d;
                int n = (int)t.u(0, 2);
                t.note("calls without a buffer");
                t.label("calls without a buffer");
                CHECK(t, sh_putc(nullptr, d[0]) != 0 && sh_getc(nullptr, p) != 0, "an element is transferred without a buffer");
                CHECK(t, sh_puts(nullptr, d, n) < 0 && sh_gets(nullptr, p, n) < 0 && sh_peek(nullptr, p, n) < 0 && sh_drop(nullptr, n) < 0, "a transfer without a buffer reports no error");
                CHECK(t, sh_empty(nullptr) && !sh_full(nullptr) && !sh_size(nullptr) && !sh_capacity(nullptr), "a missing buffer holds something");
                Buf none(sh_sizeof());   // a structure that was given no storage
                memset(none.p, 0, none.n);
                CHECK(t, sh_putc(none.p, d[0]) != 0 && sh_getc(none.p, p) != 0, "an element is transferred without storage");
                CHECK(t, sh_puts(none.p, d, n) < 0 && sh_gets(none.p, p, n) < 0 && sh_peek(none.p, p, n) < 0 && sh_drop(none.p, n) < 0, "a transfer without storage reports no error");
                sh_reset(nullptr);
                break;
            }
            default:
                sh_reset(cb.p);
                t.note("reset");
                t.label("reset");
                m.clear();
        }
        CHECK(t, sh_size(cb.p) == m.size(), "size is %zu, %zu elements stored", sh_size(cb.p), m.size());
        CHECK(t, !sh_empty(cb.p) == !m.empty(), "empty is %d with %zu elements stored", sh_empty(cb.p), m.size());
        CHECK(t, !sh_full(cb.p) == !(m.size() == cap), "full is %d with %zu of %zu elements stored", sh_full(cb.p), m.size(), cap);
        CHECK(t, sh_capacity(cb.p) == cap, "capacity is %zu, expected %zu", sh_capacity(cb.p), cap);
        if (cap > 0 && m.size() == cap) wasfull = true;
        if (m.size() < 64 || t.draws() < 50) {
            Buf d(m.size() * sizeof(E));
            int r = sh_peek(cb.p, (E *)d.p, (int)m.size());
            CHECK(t, r == (int)m.size() && same((E *)d.p, m, m.size()), "the stored elements are wrong after the operation");
        }
        t.feature(1000 + (m.empty() ? 0 : m.size() == cap ? 1 : 2) * 16 + cut * 4 + wasfull);
    }
    Buf d(m.size() * sizeof(E));
    int r = sh_gets(cb.p, (E *)d.p, (int)m.size());
    CHECK(t, r == (int)m.size() && same((E *)d.p, m, m.size()), "draining does not return the stored elements in order");
    CHECK(t, sh_empty(cb.p) && sh_size(cb.p) == 0, "not empty after draining");
    if (wasfull) t.label("was full");
    if (through > size) t.label("wrapped");
    if (cut) t.label("transfer cut short");
    if (wasfull && cut && through > size) t.nontrivial();
}
