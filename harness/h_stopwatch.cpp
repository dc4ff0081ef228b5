// C32: stopwatches against an unbounded clock.
#include "h_timer.h"
#include "clock.h"
#include "pbt.hpp"
const char *pbt_rule = "1-2 stopwatches under any sequence of operations while the clock steps (from nothing to almost half its range, started anywhere, also just before the wrap-around) and is queried; "
                       "non-trivial: a stopwatch was paused and resumed, an operation was refused, and one was seen both not reached and reached";
typedef unsigned __int128 u128;
static const u128 HALF = (u128)1 << (CONF_TSBITS - 1);
static const unsigned long MAX = ~0ul;
struct M { int st = 0; u128 start = 0, el = 0; unsigned long total = 0; u128 elapsed(u128 now) const { return st == 1 ? el + (now - start) : el; } };
PBT_PAIR()
void property(T &t) {
    int   n = t.b(1, 4) ? 2 : 1;
    Buf   b(n * sizeof(stopwatch_t));
    auto *s = (stopwatch_t *)b.p;
    poison(t, b.p, b.n);
    M    m[2];
    u128 now = t.b() ? t.u(0, TMAX) : TMAX - t.u(0, 2000);
    bool resumed = false, refused = false, before = false, reached = false, paused[2] = {};
    for (int q = 0; q < n; q++) t.b(1, 4) ? ht_stopwatch_null(s + q) : stopwatch_init(s + q);
    auto period = [&](int q) -> unsigned long {
        switch (t.pick({5, 2, 2, 1})) {
            case 0: return t.u(0, 100);
            case 1: return t.u(0, MAX);
            case 2: { u128 e = m[q].elapsed(now) + t.u(0, 4); return e > MAX ? MAX : (unsigned long)e; }
            default: return t.b() ? MAX - t.u(0, 2) : (unsigned long)HALF + (unsigned long)t.i(-2, 2);
        }
    };
    while (t.more(20)) {
        Span s_(t);
        int  q = (int)t.u(0, n - 1);
        M   &x = m[q];
        stopwatch_t *p = s + q;
        unsigned long ts = (unsigned long)now & TMAX;
        switch (t.pick({8, 4, 3, 3, 2, 2, 2, 2, 1, 1})) {
            case 0: {
                u128 d = t.b(3, 4) ? t.u(0, 60) : t.u(0, (uint64_t)HALF - 1);
                if (x.st == 1 && x.total > x.elapsed(now) && t.b(1, 3)) { d = x.total - x.elapsed(now); d = d + (u128)t.u(0, 2); d = d ? d - 1 : 0; }   // around the expiry
                // within the domain: every running stretch below half the clock range, elapsed time representable
                for (int k = 0; k < n; k++) if (m[k].st == 1 && (now + d - m[k].start >= HALF || m[k].elapsed(now + d) > MAX)) d = 0;
                now += d;
                t.note("clock +%llu", (unsigned long long)d);
                break;
            }
            case 1: {
                t.note("[%d] start", q);
                int r = stopwatch_start(p, ts), w = x.st == 1 ? -1 : 0;
                CHECK(t, r == w, "start returned %d, expected %d", r, w);
                if (w) refused = true;
                else { if (x.st == 2) resumed = true; x.st = 1, x.start = now; }
                break;
            }
            case 2: {
                t.note("[%d] stop", q);
                int r = stopwatch_stop(p), w = x.st == 0 ? -1 : 0;
                CHECK(t, r == w, "stop returned %d, expected %d", r, w);
                if (w) refused = true;
                x.st = 0, x.el = 0;
                break;
            }
            case 3: {
                t.note("[%d] pause", q);
                int r = stopwatch_pause(p, ts), w = x.st == 1 ? 0 : -1;
                CHECK(t, r == w, "pause returned %d, expected %d", r, w);
                if (w) refused = true; else x.el = x.elapsed(now), x.st = 2;
                break;
            }
            case 4: {
                t.note("[%d] restart", q);
                int r = stopwatch_restart(p, ts);
                CHECK(t, r == 0, "restart returned %d", r);
                x.el = 0, x.st = 1, x.start = now;
                break;
            }
            case 5: {
                unsigned long v = period(q);
                t.note("[%d] set %lu", q, v);
                int r = stopwatch_set(p, v), w = x.st == 0 ? 0 : -1;
                CHECK(t, r == w, "set returned %d, expected %d", r, w);
                if (w) refused = true; else x.total = v;
                break;
            }
            case 6: {
                unsigned long v = period(q);
                t.note("[%d] change %lu", q, v);
                stopwatch_change(p, v, ts);
                x.total = v, x.el = 0, x.st = 1, x.start = now;
                break;
            }
            case 7: {
                unsigned long v = t.b(3, 4) ? t.u(0, 100) : t.u(0, (uint64_t)HALF);
                t.note("[%d] set elapsed %lu", q, v);
                int r = stopwatch_set_elapsed(p, v), w = x.st == 0 ? 0 : -1;
                CHECK(t, r == w, "set elapsed returned %d, expected %d", r, w);
                if (w) refused = true; else x.el = v;
                break;
            }
            case 8: {
                unsigned long v = period(q);
                // the call is the body of an if, without braces
                int go = t.b(4, 5);
                t.note("[%d] %ssetngo %lu", q, go ? "" : "if (0) ", v);
                ht_setngo(p, go, v, ts);
                if (!go) break;
                if (x.st == 0) x.total = v;
                if (x.st != 1) x.st = 1, x.start = now;
                break;
            }
            default:
                t.note("[%d] init", q);
                stopwatch_init(p);
                x = M();
        }
        ts = (unsigned long)now & TMAX;
        for (int k = 0; k < n; k++) {
            M            &y = m[k];
            unsigned long e = (unsigned long)y.elapsed(now), g = stopwatch_get_elapsed(s + k, ts);
            CHECK(t, g == e, "[%d] elapsed is %lu, expected %lu", k, g, e);
            unsigned long r = e < y.total ? y.total - e : 0;
            g = stopwatch_get_remaining(s + k, ts);
            CHECK(t, g == r, "[%d] remaining is %lu, expected %lu (elapsed %lu of %lu)", k, g, r, e, y.total);
            int w = y.st != 0 && e >= y.total, f = stopwatch_is_timer_reached(s + k, ts);
            CHECK(t, (f != 0) == (w != 0), "[%d] %s is %sreached with %lu elapsed of %lu", k, y.st == 0 ? "stopped" : y.st == 1 ? "running" : "paused", f ? "" : "not ", e, y.total);
            CHECK(t, (int)stopwatch_get_state(s + k) == (y.st == 0 ? (int)TIMER_STOPPED : y.st == 1 ? (int)TIMER_COUNTING : (int)TIMER_PAUSED), "[%d] state is %d", k, (int)stopwatch_get_state(s + k));
            CHECK(t, stopwatch_get_total_time(s + k) == y.total, "[%d] period is %lu, expected %lu", k, stopwatch_get_total_time(s + k), y.total);
            if (y.st) (w ? reached : before) = true;
        }
    }
    if (resumed && refused && before && reached) t.nontrivial();
}
