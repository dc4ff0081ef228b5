// C14 / C15 (PULSE): per-line debounce against a run-length model.
#include "pbt.hpp"
#include <cstring>
extern "C" {
#ifdef PULSE
#include "debounce/pulsecounter.h"
#else
#include "debounce/debounce.h"
#endif
}
#ifdef PULSE
const char *pbt_rule = "reading sequences on all 32 lines (held, toggled, bouncing, random) with any debounce length, counter clears and re-initialisations over arbitrary previous memory; "
                       "non-trivial: a glitch shorter than the debounce was seen, at least two lines counted and one counter was cleared with a run in progress or above zero";
enum { N = 32 };
typedef pulse_filter_t filter_t;
#else
const char *pbt_rule = "reading sequences (all lines or one line at a time; held, toggled, bouncing, random) with any debounce length, presets and re-initialisations over arbitrary previous memory; "
                       "non-trivial: a glitch shorter than the debounce was seen, at least two lines changed, and a preset or initialisation happened with a run in progress";
enum { N = 32 };
typedef debounce_filter_t filter_t;
#endif
PBT_PAIR()
void property(T &t) {
    Buf       fb(sizeof(filter_t));
    filter_t *f = (filter_t *)fb.p;
    poison(t, f, sizeof *f);
    unsigned level = 0;
    uint64_t run[N] = {};
    unsigned count[N] = {};
    int      type = 0;
    int      d;
    bool     glitch = false, cut = false;
    unsigned moved = 0;
    auto length = [&]() { return t.b(1, 4000) ? (int)t.u(250, 70000) : t.b(1, 10) ? (int)t.u(0, 300) : (int)t.u(0, 6); };
    int  budget = 300000;   // readings, so that a case stays short
    d = length();
    auto pending = [&]() { for (auto r : run) if (r) return true; return false; };
    auto init = [&]() {
        if (t.b(1, 3)) poison(t, f, sizeof *f);
        if (pending()) cut = true;
#ifdef PULSE
        type  = t.pick(2);
        level = (unsigned)t.u(0, UINT32_MAX);
        pulse_filter_init(f, type ? COUNT_LOW_PULSE : COUNT_HIGH_PULSE, level);
        memset(count, 0, sizeof count);
        t.note("init counting %s pulses, level %08x", type ? "low" : "high", level);
#else
        debounce_filter_init(f);
        level = 0;
        t.note("init");
#endif
        memset(run, 0, sizeof run);
    };
    auto step = [&](unsigned line, unsigned bit) {   // returns 1 if the level changed
        if (bit == ((level >> line) & 1)) {
            if (run[line]) glitch = true;
            run[line] = 0;
            return 0;
        }
        if (++run[line] < (uint64_t)d + 1) return 0;
        run[line] = 0;
        level ^= 1u << line;
        return 1;
    };
    unsigned in = 0;
    auto     look = [&]() {
#ifdef PULSE
        for (int q = 0; q < N; q++) {
            CHECK(t, pulse_count(f, q) == (int)count[q], "line %d counts %d instead of %u", q, pulse_count(f, q), count[q]);
            CHECK(t, pulse_level(f, q) == (int)((level >> q) & 1), "line %d has level %d instead of %u", q, pulse_level(f, q), (level >> q) & 1);
        }
#else
        CHECK(t, debounce_value(f) == level, "the filtered value is %08x instead of %08x", debounce_value(f), level);
        for (int q = 0; q < N; q++) CHECK(t, debounce_read(f, q) == (int)((level >> q) & 1), "line %d reads %d instead of %u", q, debounce_read(f, q), (level >> q) & 1);
        if (t.b(1, 20)) {
            size_t q = N + (size_t)t.u(0, t.b() ? 40 : SIZE_MAX - N);
            CHECK(t, debounce_read(f, q) == -1, "line %zu, which does not exist, reads %d", q, debounce_read(f, q));
        }
#endif
    };
    auto read_all = [&](bool quiet, bool looking = true) {
        t.fuel(200000);
        unsigned was = level;
#ifdef PULSE
        int want = 0;
        for (unsigned q = 0; q < N; q++)
            if (step(q, (in >> q) & 1) && ((level >> q) & 1) == (unsigned)type) { count[q]++; want = 1; moved |= 1u << q; }
        int r = pulse_filter(f, in, d);
        if (!quiet) t.note("read %08x (debounce %d) -> %d, level %08x", in, d, r, level);
        CHECK(t, !r == !want, "reading %08x: reports %d when %s counter moves", in, r, want ? "a" : "no");
        if (!looking) return;
#else
        for (unsigned q = 0; q < N; q++) step(q, (in >> q) & 1);
        moved |= was ^ level;
        unsigned r = debounce_filter(f, in, d);
        if (!quiet) t.note("read %08x (debounce %d) -> %08x, level %08x", in, d, r, level);
        CHECK(t, r == (was ^ level), "reading %08x: reports changes %08x instead of %08x", in, r, was ^ level);
        if (!looking) return;
#endif
        look();
    };
    init();
    in = level;
    unsigned focus = (unsigned)t.u(0, N - 1);
    while (t.more(20)) {
        Span s(t);
        switch (t.pick({8, 8, 3, 2, 2, 3, 1})) {
            case 0: {   // toggle one line or a few
                unsigned q = t.b() ? focus : (unsigned)t.u(0, N - 1);
                in ^= 1u << q;
                if (t.b(1, 4)) in ^= 1u << t.u(0, N - 1);
                read_all(false);
                break;
            }
            case 1: {   // hold
                unsigned k = t.b(2, 3) ? (unsigned)t.u(d > 2 ? d - 2 : 0, d + 2) : (unsigned)t.u(0, 4);
                t.note("hold %08x for %u readings", in, k);
                if ((budget -= (int)k) < 0) break;
                while (k--) read_all(true, k < 5 || k % 1024 == 0);
                break;
            }
            case 2:
                in = (unsigned)t.u(0, UINT32_MAX);
                read_all(false);
                break;
            case 3:
                if (t.b(1, 2)) init();
                else {
#ifdef PULSE
                    int q = t.b(1, 6) ? (int)t.i(-3, 40) : (int)focus;
                    t.note("clear counter %d", q);
                    if (q >= 0 && q < N) {
                        if (run[q] || count[q]) cut = true;
                        count[q] = 0;
                    }
                    pulse_clear(f, q);
#else
                    if (pending()) cut = true;
                    level = t.b() ? in : (unsigned)t.u(0, UINT32_MAX);
                    memset(run, 0, sizeof run);
                    t.note("preset %08x", level);
                    debounce_filter_set(f, level);
#endif
                }
                look();
                break;
            case 4:
                if (!pending()) { d = length(); t.note("debounce %d", d); }
                else focus = (unsigned)t.u(0, N - 1);
                break;
            case 6: {   // many edges
                unsigned k = t.b(1, 30) ? (unsigned)t.u(0, 1500) : t.b(1, 500) ? (unsigned)t.u(0, 70000) : (unsigned)t.u(0, 40);
                if ((budget -= (int)k) < 0) break;
                t.note("toggle %08x %u times", 1u << focus, k);
                for (unsigned q = 0; q < k; q++) in ^= 1u << focus, read_all(true, k - q < 3);
                break;
            }
            default: {
#ifdef PULSE
                int q = t.b() ? -1 - (int)t.u(0, 5) : N + (int)t.u(0, 5);
                CHECK(t, pulse_count(f, q) == -1 && pulse_level(f, q) == -1, "line %d outside the range is not refused", q);
#else
                unsigned q = t.b() ? focus : (unsigned)t.u(0, N - 1), v = t.b() ? (unsigned)t.pick(2) : (unsigned)t.u(0, UINT32_MAX), k = t.b() ? 1 : (unsigned)t.u(d > 300 ? d - 5 : 1, d + 2);
                if ((budget -= (int)k) < 0) break;
                t.note("line %u reads %u, %u times", q, v, k);
                while (k--) {
                    t.fuel(200000);
                    unsigned want = step(q, v != 0) ? 1u << q : 0, r = debounce_filter_single(f, v, q, d);
                    moved |= want;
                    CHECK(t, r == want, "line %u reading %u: reports %08x instead of %08x", q, v, r, want);
                    if (k < 300) look();
                }
                if (v) in |= 1u << q; else in &= ~(1u << q);
#endif
            }
        }
    }
    bool two = moved & (moved - 1);
    if (glitch) t.label("glitch");
    if (two) t.label("two lines moved");
    if (moved >> 31) t.label("highest line moved");
    if (cut) t.label("cleared or preset in the middle");
    if (glitch && two && cut) t.nontrivial();
}
