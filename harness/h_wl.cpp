// C34 / C35 / C36 (-DPART): wear leveled memory over a simulated block device.
extern "C" {
#include "wearleveling/wearleveling.h"
}
#include "pbt.hpp"
#include <cstring>
#include <memory>
#if PART == 34
const char *pbt_rule = "1-2 devices of 1-255 blocks, erased to any marker, under writes (changed, unchanged, any length), bursts of writes and reads; non-trivial: at least one whole rotation, an unchanged write and writes of two lengths";
#elif PART == 35
const char *pbt_rule = "1-2 devices of 1-255 blocks, erased to any marker, under writes, bursts of writes and restarts from the storage alone; non-trivial: a restart with every block written and one after the markers wrapped around";
#else
const char *pbt_rule = "1-2 devices under writes, reads and restarts with faults injected into block reads, block writes (nothing or part of the data written, marker never) and marker reads; non-trivial: a failed write followed by a read, a restart and a successful write";
#endif
struct Dev {
    size_t                            n = 0, bs = 0;
    uint8_t                           erased = 0;
    std::vector<std::vector<uint8_t>> blk;
    std::vector<uint8_t>              mark;
    std::vector<unsigned>             count;
    std::unique_ptr<Buf>              w;
    wear_leveled_memory_t            *wl = nullptr;
    size_t                            cur = 0, known = 0;    // model: current block, bytes of it that belong to the last write
    bool                              blind = false;         // started with a failed marker read: only bounds are judged
    unsigned long                     written = 0;
    // faults: countdown to the failing call of each kind (-1: none)
    int  f_read = -1, f_write = -1, f_mark = -1, code = 1, torn = 0;
    bool hit = false;
    long writes = 0;
    size_t last = 0;
};
static T  *cur;
static Dev dev[2];
static bool faulty(Dev &d, int &c) { if (c < 0) return false; if (c-- > 0) return false; d.hit = true; return true; }
template <int K> static int rd(size_t b, uint8_t *buf, size_t len) {
    Dev &d = dev[K];
    CHECK(*cur, b < d.n, "block %zu of a page of %zu blocks is read", b, d.n);
    CHECK(*cur, len <= d.bs, "%zu bytes read from blocks of %zu", len, d.bs);
    if (faulty(d, d.f_read)) { memset(buf, 0xEE, len / 2); return d.code; }
    memcpy(buf, d.blk[b].data(), len);
    pbt_inside();
    return 0;
}
template <int K> static int wr(size_t b, uint8_t marker, uint8_t *buf, size_t len) {
    Dev &d = dev[K];
    CHECK(*cur, b < d.n, "block %zu of a page of %zu blocks is written", b, d.n);
    CHECK(*cur, len <= d.bs, "%zu bytes written to blocks of %zu", len, d.bs);
    d.last = b;
    if (faulty(d, d.f_write)) {
        if (d.n > 1 && d.torn) memcpy(d.blk[b].data(), buf, len < (size_t)d.torn ? len : (size_t)d.torn);
        return d.code;
    }
    memcpy(d.blk[b].data(), buf, len);
    d.mark[b] = marker;
    d.writes++;
    d.count[b]++;
    pbt_inside();
    return 0;
}
template <int K> static int mk(size_t b, uint8_t *marker) {
    Dev &d = dev[K];
    CHECK(*cur, b < d.n, "the marker of block %zu of a page of %zu blocks is read", b, d.n);
    if (faulty(d, d.f_mark)) return d.code;
    *marker = d.mark[b];
    pbt_inside();
    return 0;
}
static void start(T &t, int k) {
    Dev &d = dev[k];
    d.w.reset(new Buf(sizeof(wear_leveled_memory_t)));
    d.wl = (wear_leveled_memory_t *)d.w->p;
    poison(t, d.wl, sizeof *d.wl);
    d.hit = false;
    long before = d.writes;
    if (k) wearleveling_init(d.wl, rd<1>, wr<1>, mk<1>, d.n);
    else wearleveling_init(d.wl, rd<0>, wr<0>, mk<0>, d.n);
    CHECK(t, d.writes == before, "initialisation wrote a block");
    d.blind = d.hit;
    d.f_mark = -1;
}
static void verify(T &t, int k, size_t len, const char *when) {
    Dev &d = dev[k];
    if (d.known < len) len = d.known;
    if (!len || d.blind) return;
    Buf b(len);
    poison(t, b.p, len);
    int r = wearleveling_read(d.wl, b.p, len);
    CHECK(t, r == 0, "%s: reading returned %d", when, r);
    CHECK(t, !memcmp(b.p, d.blk[d.cur].data(), len), "%s: %zu bytes read are %s, last written %s (block %zu of %zu)", when, len, hex(b.p, len < 16 ? len : 16).c_str(), hex(d.blk[d.cur].data(), len < 16 ? len : 16).c_str(), d.cur, d.n);
}
static void write(T &t, int k, const uint8_t *data, size_t len) {
    Dev &d = dev[k];
    Buf  b(len);
    memcpy(b.p, data, len);
    bool changed = memcmp(data, d.blk[d.cur].data(), len) != 0;
    long before  = d.writes;
    bool fr = d.f_read == 0, fw = d.f_write == 0;
    d.hit = false;
    int r = wearleveling_write(d.wl, b.p, len);
    CHECK(t, !memcmp(b.p, data, len), "the caller's data was modified");
    if (d.hit) {
        CHECK(t, r != 0, "a write whose block %s failed returned 0", fr ? "read" : "write");
        (void)fw;
        return;
    }
    CHECK(t, r == 0, "writing returned %d", r);
    if (!changed) {
        CHECK(t, d.writes == before, "unchanged data was written to a block");
        if (len > d.known) d.known = len;
        return;
    }
    size_t next = (d.cur + 1) % d.n;
    CHECK(t, d.writes == before + 1, "changed data made %ld block writes", d.writes - before);
    CHECK(t, d.last == next, "changed data was written to block %zu, the one after block %zu of %zu is %zu", d.last, d.cur, d.n, next);
    d.cur = next, d.known = len, d.written++;
}
PBT_PAIR(dev)
void property(T &t) {
    cur = &t;
    int  n = t.b(1, 4) ? 2 : 1;
    bool rotation = false, same = false, lens = false, full = false, wrap = false, failed = false, after = false, restarted = false, again = false;
    bool   large = false;
    size_t len0 = 0;
    for (int k = 0; k < n; k++) {
        dev[k]   = Dev();
        Dev &d   = dev[k];
        d.n      = (size_t)(t.b(3, 4) ? t.u(1, 9) : t.u(1, 255));
        d.bs     = (size_t)(t.b(7, 8) ? t.u(1, 8) : t.u(1, 300));
        if (t.b(1, 500)) d.n = 1 + d.n % 4, d.bs += 65300, large = true;
        d.erased = (uint8_t)(t.b() ? t.u(0, 255) : t.b() ? 255 : 256 - (uint8_t)t.u(0, 20));
        d.blk.assign(d.n, std::vector<uint8_t>(d.bs, d.erased));
        d.mark.assign(d.n, d.erased);
        d.count.assign(d.n, 0);
        t.note("[%d] %zu blocks of %zu bytes, erased to 0x%02x", k, d.n, d.bs, d.erased);
        start(t, k);
    }
    t.fuel(20000000);
    unsigned bursts = 0;
    std::vector<uint8_t> data;
    while (t.more(14)) {
        Span s(t);
        int  k = (int)t.u(0, n - 1);
        Dev &d = dev[k];
        switch (t.pick({6, 2, 2, PART == 34 ? 0u : 3u, PART == 36 ? 5u : 0u})) {
            case 0: {
                size_t len = (size_t)(t.b() ? d.bs : t.u(1, d.bs));
                data.assign(d.blk[d.cur].begin(), d.blk[d.cur].begin() + len);
                if (t.b(1, 6)) same = true;                                                  // unchanged
                else if (t.b(1, 3)) data[t.u(0, len - 1)] ^= (uint8_t)(1 << t.u(0, 7));      // one bit
                else { uint8_t v = (uint8_t)t.u(0, 255); for (auto &x : data) x = v++; }
                if (d.blind) break;
                t.note("[%d] write %s", k, hex(data.data(), len < 16 ? len : 16).c_str());
                unsigned long w = d.written;
                write(t, k, data.data(), len);
                if (d.written != w) { if (len0 && len != len0) lens = true; len0 = len; if (failed) again = true; }
                break;
            }
            case 1: {
                if (d.blind || large || bursts++ > 2) break;
                unsigned c = (unsigned)(t.b() ? t.u(1, 2 * d.n) : t.u(1, 520));
                t.note("[%d] %u writes", k, c);
                data.assign(d.bs, 0);
                uint8_t v = (uint8_t)t.u(0, 255);
                for (unsigned q = 0; q < c; q++) { data[q % d.bs] ^= (uint8_t)(v + q) | 1; write(t, k, data.data(), d.bs); }
                break;
            }
            case 2: {
                size_t len = (size_t)t.u(1, d.bs);
                t.note("[%d] read %zu", k, len);
                if (d.blind) { Buf b(len); wearleveling_read(d.wl, b.p, len); }
                else verify(t, k, len, "a read");
                break;
            }
            case 3: {
                t.note("[%d] restart", k);
                if (d.written >= d.n - 1 + (d.n == 1) && d.count[0] == d.count[d.n - 1] - (d.count[0] < d.count[d.n - 1])) full = true;
                if (d.written > 256) wrap = true;
                start(t, k);
                if (failed) restarted = true;
                break;
            }
            default: {   // arm a fault for the next operation of its kind
                d.code = t.b() ? (int)t.u(1, 300) : -(int)t.u(1, INT32_MAX);
                Buf one(d.bs);
                switch (t.pick(4)) {
                    case 0: {
                        t.note("[%d] read with a failing block read (%d)", k, d.code);
                        d.f_read = 0, d.hit = false;
                        int r = wearleveling_read(d.wl, one.p, d.bs);
                        CHECK(t, !d.hit || r != 0, "a read whose block read failed returned 0");
                        break;
                    }
                    case 1:
                        if (d.blind) break;
                        t.note("[%d] write with a failing block read (%d)", k, d.code);
                        d.f_read = 0;
                        memset(one.p, (int)t.u(0, 255), d.bs);
                        write(t, k, one.p, d.bs);
                        break;
                    case 2: {
                        if (d.blind) break;
                        d.torn = t.b() ? 0 : (int)t.u(1, d.bs);
                        t.note("[%d] write with a failing block write (%d, %d bytes stored)", k, d.code, d.n > 1 ? d.torn : 0);
                        d.f_write = 0;
                        data.assign(d.blk[d.cur].begin(), d.blk[d.cur].end());
                        data[t.u(0, d.bs - 1)] ^= (uint8_t)t.u(1, 255);
                        write(t, k, data.data(), d.bs);
                        failed = true;
                        break;
                    }
                    default:
                        d.f_mark = t.b() ? 0 : (int)t.u(0, d.n - 1);
                        t.note("[%d] restart with a failing read of marker %d (%d)", k, d.f_mark, d.code);
                        start(t, k);
                        break;
                }
                d.f_read = d.f_write = -1;
            }
        }
        for (int q = 0; q < n; q++) {
            Dev &x = dev[q];
            verify(t, q, x.known, "afterwards");
            if (failed && !x.blind) after = true;
            unsigned lo = ~0u, hi = 0;
            for (unsigned c : x.count) { lo = c < lo ? c : lo; hi = c > hi ? c : hi; }
            CHECK(t, hi - lo <= 1, "block write counts of device %d differ by %u", q, hi - lo);
            if (lo > 0) rotation = true;
        }
    }
#if PART == 34
    if (rotation && same && lens) t.nontrivial();
#elif PART == 35
    if (full) t.label("restart with every block written");
    if (full && wrap) t.nontrivial();
#else
    if (failed && after && restarted && again) t.nontrivial();
#endif
    for (auto &d : dev) d = Dev();
}
