// C12 / C13: watcher lists against a shadow-copy model. C12 judges change reports and the callbacks of elements
// without delay, C13 the callbacks of delayed elements.
#include "h_watch.h"
#include "clock.h"
#include "pbt.hpp"
#include <cstring>
#include <memory>
#ifdef C13
const char *pbt_rule = "lists of 1..6 watched blocks, most of them delayed, with sequences of writes, processing at chosen times (around the delays, around clock wrap-around), checks, clears and triggers; "
                       "non-trivial: a change was seen again before its delay ended and the callback fired later";
#else
const char *pbt_rule = "lists of 1..6 watched blocks (1..700 bytes, possibly overlapping, some delayed) with sequences of writes, checks, processing, clears and triggers; non-trivial: two elements changed at one processing, and a change was cleared or written back before it was processed";
#endif
struct Call { int cb; void *mem, *data; };
static std::vector<Call>   calls;
static std::vector<void *> blocks;
// one callback may be armed to write to a block watched by another element
struct Arm { Call when; uint8_t *at, v; bool armed = false; size_t wrote = SIZE_MAX; };
static Arm arm;
void w_called(int cb, void *mem, void *data) {
    calls.push_back({cb, mem, data});
    if (arm.armed && arm.when.cb == cb && arm.when.mem == mem && arm.when.data == data) {
        arm.armed = false;
        *arm.at   = arm.v;
        arm.wrote = calls.size();
    }
    pbt_inside();
}
extern "C" void *w_malloc(size_t n) { void *p = malloc(n ? n : 1); blocks.push_back(p); return p; }
PBT_PAIR(calls, blocks, arm)
void property(T &t) {
    calls.clear();
    arm = Arm();
    for (auto p : blocks) free(p);
    blocks.clear();
    size_t n = t.b(1, 40) ? t.u(250, 400) : t.u(1, 6), arena = n > 6 ? 8000 : t.b(1, 6) ? (t.b(1, 100) ? 66000 : 1500) : t.u(16, 120);
    Buf    mem(arena + 16);
    poison(t, mem.p, mem.n);
    struct E { size_t off, size; int cb; void *data; bool delayed; unsigned long delay; std::vector<uint8_t> old; bool pending = false; unsigned long ts = 0; };
    std::vector<E> m;
    Buf            list(w_recsize * (n + 1));
    poison(t, list.p, list.n);
    static char tags[16];
    for (size_t q = 0; q < n; q++) {
        E      e;
        int    kind = t.pick(W_KINDS);
        size_t ks = w_kindsize[kind], mx = std::min(w_maxsize, arena) / ks, num;
        num    = t.b(1, 3) || (n > 6 && t.b(9, 10)) ? 1 : t.b(1, 8) || (arena > 60000 && !q) ? mx : t.u(1, mx);
        e.size = ks * num;
        e.off  = n > 6 ? t.uni(0, arena - e.size) : t.u(0, arena - e.size);
        if (kind != 4 && kind != 0) e.off &= ~(ks - 1);
        e.cb   = t.pick(3);
        e.data = t.b(1, 5) ? nullptr : &tags[t.u(0, 15)];
#ifdef C13
        e.delayed = t.b(9, 10);
#else
        e.delayed = t.b(1, 5);
#endif
        e.delay = 0;
        if (e.delayed) e.delay = t.b(1, 12) ? t.u(0, std::min(w_maxdelay, QUARTER)) : t.u(1, 40);
        w_make(list.p + q * w_recsize, kind, mem.p + e.off, num, e.cb, e.data, e.delayed, e.delay);
        t.note("element %zu: bytes %zu..+%zu, callback %d, delay %lu%s", q, e.off, e.size, e.cb, e.delay, e.delayed ? "" : " (none)");
        e.delayed = e.delay > 0;
        m.push_back(e);
    }
    w_end(list.p + n * w_recsize);
    auto sync = [&](E &e) { e.old.assign(mem.p + e.off, mem.p + e.off + e.size); };
    auto changed = [&](E &e) { return memcmp(e.old.data(), mem.p + e.off, e.size) != 0; };
    w_init(list.p);
    for (auto &e : m) sync(e);
    unsigned long now = t.b() ? t.u(0, 1000) : TMAX - t.u(0, 200);
    unsigned long spent = 0;
    bool          multi = false, undone = false, wrote = false, restarted = false, fired_after = false;
    auto          same = [](const Call &a, const Call &b) { return a.cb == b.cb && a.mem == b.mem && a.data == b.data; };
    auto expect = [&](std::vector<Call> want, const char *what, bool ordered) {
        if (ordered) {
            CHECK(t, calls.size() == want.size(), "%s makes %zu callbacks instead of %zu", what, calls.size(), want.size());
            for (size_t q = 0; q < want.size(); q++) CHECK(t, same(calls[q], want[q]), "%s: callback %zu is wrong (function, memory or data)", what, q);
            return;
        }
        auto left = calls;
        for (auto &w : want) {
            size_t q = 0;
            while (q < left.size() && !same(left[q], w)) q++;
            CHECK(t, q < left.size(), "%s: the callback of the element at byte %zu does not fire", what, (size_t)((uint8_t *)w.mem - mem.p));
            left.erase(left.begin() + q);
        }
        CHECK(t, left.empty(), "%s: a callback fires that is not due (element at byte %zu)", what, left.empty() ? 0 : (size_t)((uint8_t *)left[0].mem - mem.p));
    };
    // the calls that this property judges: those that can only come from the elements it is about
    auto restrict = [&](bool delayed) {
        std::vector<Call> keep;
        for (auto &c : calls) {
            bool mine = false, other = false;
            for (auto &e : m) if (same(c, {e.cb, mem.p + e.off, e.data})) (e.delayed == delayed ? mine : other) = true;
            if (mine || !other) keep.push_back(c);
        }
        calls = keep;
    };
    // two elements that cannot be told apart by their callbacks must be of the same kind
    for (auto &a : m)
        for (auto &b : m)
            if (a.delayed != b.delayed && a.off == b.off && a.cb == b.cb && a.data == b.data) t.discard();
    auto advance = [&]() {   // the clock steps, preferably to about the end of a delay
        unsigned long step;
        E            &e = m[t.u(0, n - 1)];
        switch (t.pick({3, 4, 3, 1})) {
            case 0: step = t.u(0, 3); break;
            case 1: step = e.pending ? e.ts + e.delay - now : e.delay; step &= TMAX; if (step > QUARTER) step = 0; step += t.u(0, 2); if (step) step--; break;
            case 2: step = t.u(0, 45); break;
            default: step = t.u(0, QUARTER / 2);
        }
        if (spent + step > QUARTER + QUARTER / 2) step = t.u(0, 3);
        spent += step;
        now = (now + step) & TMAX;
        return step;
    };
    while (t.more(24)) {
        Span s(t);
        calls.clear();
#ifdef C13
        switch (t.pick({9, 1, 12, 2, 1})) {
#else
        switch (t.pick({12, 5, 6, 2, 2})) {
#endif
            case 0: {
                E     &e   = m[t.u(0, n - 1)];
                size_t off = e.off + t.u(0, e.size - 1), len = t.b(3, 4) ? 1 : t.u(1, e.off + e.size - off);
                if (t.b(1, 10)) { off = e.off + e.size - 1; len = 1; }
                if (t.b(1, 10)) { off = t.u(0, arena + 15); len = 1; }   // possibly outside every block
                bool back = t.b(1, 6);
                if (back) {
                    if (changed(e)) undone = true;
                    memcpy(mem.p + e.off, e.old.data(), e.size);
                    t.note("write the old contents back to %zu..+%zu", e.off, e.size);
                } else {
                    uint8_t d = (uint8_t)t.u(0, 255);
                    for (size_t q = 0; q < len; q++) mem.p[off + q] = (uint8_t)(t.b(1, 4) ? mem.p[off + q] ^ 0x80 : d + q);
                    t.note("write bytes %zu..+%zu", off, len);
                }
                break;
            }
            case 1: {
                bool any = false;
                for (auto &e : m) any |= changed(e);
                int r = w_check(list.p);
                t.note("check -> %d", r);
#ifndef C13
                CHECK(t, !r == !any, "check answers %d when %s changed", r, any ? "something" : "nothing");
                expect({}, "a check", true);
#else
                restrict(true);
                expect({}, "a check", true);
#endif
                break;
            }
            case 2: {
                unsigned long step = advance();
                E                *e    = nullptr;   // the element whose block is written by a callback
                size_t            woff = 0;
                uint8_t           wold = 0;
                if (t.b(1, 5)) {
                    e    = &m[t.u(0, n - 1)];
                    wold = e->old[woff = t.u(0, e->size - 1)];
                    woff += e->off;
                }
                bool              any = false;
                int               nch = 0;
                std::vector<Call> imm, del;
                for (auto &x : m) {
                    Call c{x.cb, mem.p + x.off, x.data};
                    if (changed(x)) {
                        any = true;
                        nch++;
                        if (!x.delayed) imm.push_back(c);
                        else { if (x.pending) restarted = true; x.pending = true; x.ts = now; }
                        sync(x);
                    } else if (x.pending && ((now - x.ts) & TMAX) >= x.delay) {
                        x.pending = false;
                        del.push_back(c);
                        if (restarted) fired_after = true;
                    }
                }
                if (nch > 1) multi = true;
                t.note("process at %lu (+%lu)", now, step);
                arm = Arm();
                if (e && imm.size() + del.size()) {
                    size_t q = t.u(0, imm.size() + del.size() - 1);
                    int    v = (int)t.u(0, 255), in = 0, twins = 0;
                    while (v == mem.p[woff] || v == wold) v = (v + 1) & 255;
                    Call me{e->cb, mem.p + e->off, e->data};
                    for (auto &y : m) {
                        in += woff >= y.off && woff < y.off + y.size;
                        twins += same({y.cb, mem.p + y.off, y.data}, me);
                    }
                    arm.when = q < imm.size() ? imm[q] : del[q - imm.size()];
                    if (in == 1 && twins == 1 && !same(arm.when, me)) {
                        arm.at    = mem.p + woff;
                        arm.v     = (uint8_t)v;
                        arm.armed = true;
                        t.note("  the callback of bytes %zu.. writes byte %zu", (size_t)((uint8_t *)arm.when.mem - mem.p), woff);
                    }
                }
                std::vector<uint8_t> before(mem.p, mem.p + mem.n);
                int r = w_process(list.p, now);
                t.note("  -> %d, %zu callbacks", r, calls.size());
                arm.armed = false;
                if (arm.wrote != SIZE_MAX) {
                    // noticed by this processing or left for the next one, but never lost
                    before[arm.at - mem.p] = arm.v;
                    wrote                  = true;
                    Call   me{e->cb, mem.p + e->off, e->data};
                    size_t early = 0, lately = 0, had = 0;
                    for (size_t q = 0; q < calls.size(); q++)
                        if (same(calls[q], me)) ++(q < arm.wrote ? early : lately);
                    bool  left = w_check(list.p);
                    auto &due  = e->delayed ? del : imm;
                    for (auto &c : due) had += same(c, me);
                    if (!left) {
                        if (e->delayed) { e->pending = true; e->ts = now; }
                        sync(*e);
                        any = true;
                    }
#ifdef C13
                    if (e->delayed) {
                        CHECK(t, !lately, "the delayed callback fires in the processing that sees the change made by another callback");
                        CHECK(t, left ? early == had : early <= had, "the delayed callback of a block written by another callback fires %zu times instead of %zu", early, had);
                    }
#else
                    if (!e->delayed)
                        CHECK(t, left ? early + lately == had && !lately : lately == 1 && early <= had, "a change made by a callback is %s; the element's callback fires %zu times before it and %zu times after it",
                              left ? "left to the next processing" : "consumed by this processing", early, lately);
#endif
                    for (auto v : {&calls, &due}) {
                        std::vector<Call> keep;
                        for (auto &c : *v) if (!same(c, me)) keep.push_back(c);
                        *v = keep;
                    }
                }
                CHECK(t, !memcmp(before.data(), mem.p, mem.n), "processing modifies the watched memory");
#ifdef C13
                restrict(true);
                expect(del, "processing", false);
#else
                CHECK(t, !r == !any, "processing answers %d when %s changed", r, any ? "something" : "nothing");
                restrict(false);
                expect(imm, "processing", true);
#endif
                break;
            }
            case 3: {
                advance();
                t.note("clear at %lu", now);
                w_clear(list.p, now);
#ifdef C13
                restrict(true);
#endif
                expect({}, "clearing", true);
                for (auto &e : m) { if (changed(e)) undone = true; sync(e); e.pending = false; }
                break;
            }
            default: {
                std::vector<Call> want;
                if (t.b(1, 3)) {
                    t.note("trigger all");
                    w_trigger_all(list.p, t.pick(2));
                    for (auto &e : m) want.push_back({e.cb, mem.p + e.off, e.data});
                } else {
                    size_t q = t.u(0, n - 1);
                    t.note("trigger %zu", q);
                    w_trigger(list.p, (int)q);
                    want.push_back({m[q].cb, mem.p + m[q].off, m[q].data});
                }
#ifndef C13
                expect(want, "triggering", false);
#endif
            }
        }
    }
    if (n > 255) t.label("more than 255 elements");
#ifdef C13
    if (wrote) t.label("change made by a callback");
    if (restarted) t.label("delay restarted");
    if (fired_after) t.nontrivial();
#else
    // whatever is left must be reported and consumed
    bool any = false;
    for (auto &e : m) any |= changed(e);
    CHECK(t, !w_check(list.p) == !any, "the final check is wrong");
    CHECK(t, !w_process(list.p, now) == !any, "the final processing answers wrongly");
    CHECK(t, !w_check(list.p), "a change is still reported after it was processed");
    if (wrote) t.label("change made by a callback");
    if (multi) t.label("several changes at once");
    if (undone) t.label("change cleared or undone");
    if (multi && undone) t.nontrivial();
#endif
}
