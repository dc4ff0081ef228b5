// C33: callback timers against an unbounded clock.
#include "h_timer.h"
extern "C" __attribute__((weak)) unsigned long gel_timer_get_remaining(gel_timer_t *, unsigned long);
#include "clock.h"
#include "pbt.hpp"
#include <memory>
const char *pbt_rule = "1-3 timers under init, poll, pause, resume, reset, period change, auto-reload and stop while the clock steps (started anywhere, also just before the wrap-around); non-trivial: a one-shot and an auto-reload firing, a poll that did not fire, and a firing after a pause";
typedef unsigned __int128 u128;
static const u128 HALF = (u128)1 << (CONF_TSBITS - 1);
static const unsigned long MAX = ~0ul;
struct M {
    std::unique_ptr<Buf> b;
    gel_timer_t *p = nullptr;
    bool alive = false, waited = false;
    int  st = 0, cb = 0;
    u128 start = 0, el = 0;
    unsigned long total = 0;
    unsigned autor = 0;
    void *arg = nullptr;
    u128 elapsed(u128 now) const { return st == 1 ? el + (now - start) : el; }
};
static T *cur;
static struct { int n, cb; gel_timer_t *timer; void *user, *arg; int setauto, own; unsigned long period, ts; } log_;   // own: what the callback does to its timer
enum { NONE, STOP, RESET, CHANGE, REINIT };
static void fired(int cb, gel_timer_t *tm, void *user, void *arg) {
    log_.n++, log_.cb = cb, log_.timer = tm, log_.user = user, log_.arg = arg;
    if (log_.setauto >= 0) gel_timer_set_autoreload(tm, (uint8_t)log_.setauto);
    switch (log_.own) {
        case STOP: gel_timer_stop(tm); break;
        case RESET: gel_timer_reset(tm, log_.ts); break;
        case CHANGE: gel_timer_change_period(tm, log_.period, log_.ts); break;
        case REINIT: gel_timer_init(tm, log_.period, log_.ts, tm->callback, tm->arg); break;
    }
    pbt_inside();
}
static void cb0(gel_timer_t *tm, void *u, void *a) { fired(0, tm, u, a); }
static void cb1(gel_timer_t *tm, void *u, void *a) { fired(1, tm, u, a); }
static const gel_timer_callback_t CB[2] = { cb0, cb1 };

PBT_PAIR(log_)
void property(T &t) {
    cur = &t;
    int  n = (int)t.u(1, 3);
    std::vector<M> m(n);
    u128 now = t.b() ? t.u(0, TMAX) : TMAX - t.u(0, 2000);
    for (auto &x : m) {
        x.b.reset(new Buf(sizeof(gel_timer_t)));
        x.p = (gel_timer_t *)x.b->p;
        poison(t, x.p, sizeof(gel_timer_t));
    }
    bool one = false, many = false, quiet = false, after = false;
    auto period = [&]() -> unsigned long { return t.b(7, 8) ? t.u(0, 60) : t.b() ? t.u(0, MAX) : MAX - t.u(0, 2); };
    while (t.more(24)) {
        Span s(t);
        int  q = (int)t.u(0, n - 1);
        M   &x = m[q];
        unsigned long ts = (unsigned long)now & TMAX;
        unsigned op = x.alive ? t.pick({7, 9, 2, 2, 2, 2, 2, 2, 1}) : t.b(1, 8) ? 9 : 8;
        switch (op) {
            case 0: {
                u128 d = t.b(7, 8) ? t.u(0, 30) : t.u(0, (uint64_t)HALF - 1);
                if (x.st == 1 && x.total > x.elapsed(now) && t.b(1, 3)) { d = x.total - x.elapsed(now) + (u128)t.u(0, 2); d = d ? d - 1 : 0; }
                for (auto &y : m) if (y.st == 1 && (now + d - y.start >= HALF || y.elapsed(now + d) > MAX)) d = 0;
                now += d;
                t.note("clock +%llu", (unsigned long long)d);
                break;
            }
            case 1: {
                void *user = (void *)(uintptr_t)t.u(0, 9);
                log_ = { 0, -1, nullptr, nullptr, nullptr, t.b(1, 10) ? (int)t.b() : -1, 0, 0, ts };
                t.note("[%d] poll%s", q, log_.setauto >= 0 ? " (callback sets auto-reload)" : "");
                if (x.total && x.st == 1 && t.b(1, 8)) {   // with a period of 0 it would be due again at once
                    static const char *OWN[] = { "", "stops", "resets", "changes the period of", "initialises" };
                    log_.own    = (int)t.u(STOP, REINIT);
                    log_.period = t.b(7, 8) ? t.u(1, 60) : MAX - t.u(0, 2);
                    t.note("  the callback %s its timer (%lu)", OWN[log_.own], log_.period);
                }
                bool due = x.st != 0 && x.elapsed(now) >= x.total, may = x.st == 2 && due;   // an expired timer that is paused may fire or wait
                uint8_t r = gel_timer_manage_callback(x.p, ts, user);
                if (may && !log_.n) due = false;
                CHECK(t, log_.n == (due ? 1 : 0), "[%d] %s timer with %llu elapsed of %lu called back %d times", q, x.st == 0 ? "stopped" : x.st == 1 ? "running" : "paused", (unsigned long long)x.elapsed(now), x.total, log_.n);
                CHECK(t, (r != 0) == due, "[%d] the poll returned %d", q, r);
                if (due) {
                    CHECK(t, log_.cb == x.cb && log_.timer == x.p && log_.user == user && log_.arg == x.arg, "[%d] wrong callback, timer, user pointer or argument", q);
                    if (log_.setauto >= 0) x.autor = (unsigned)log_.setauto;
                    (x.autor ? many : one) = true;
                    after |= x.waited;
                    x.el = 0, x.waited = false;
                    if (log_.own == CHANGE || log_.own == REINIT) x.total = log_.period;
                    if (log_.own == REINIT) x.autor = 0;
                    if (log_.own ? log_.own != STOP : x.autor) x.st = 1, x.start = now; else x.st = 0;
                } else if (x.st == 1) quiet = true;
                break;
            }
            case 2:
                t.note("[%d] pause", q);
                gel_timer_pause(x.p, ts);
                if (x.st == 1) x.el = x.elapsed(now), x.st = 2;
                break;
            case 3:
                t.note("[%d] resume", q);
                gel_timer_resume(x.p, ts);
                if (x.st != 1) { x.waited = x.st == 2; x.st = 1, x.start = now; }
                break;
            case 4:
                t.note("[%d] reset", q);
                gel_timer_reset(x.p, ts);
                if (x.st) x.el = 0, x.start = now;
                break;
            case 5: {
                unsigned long v = period();
                t.note("[%d] change period %lu", q, v);
                gel_timer_change_period(x.p, v, ts);
                if (x.st) x.total = v, x.el = 0, x.start = now;
                break;
            }
            case 6: {
                unsigned a = t.b(1, 8) ? (unsigned)t.u(0, 255) : (unsigned)t.b();
                t.note("[%d] auto-reload %u", q, a);
                gel_timer_set_autoreload(x.p, (uint8_t)a);
                x.autor = a;
                break;
            }
            case 7:
                t.note("[%d] stop", q);
                gel_timer_stop(x.p);
                x.st = 0, x.el = 0;
                break;
            case 8: {
                unsigned long v = period();
                int  c = (int)t.u(0, 1);
                void *a = (void *)(uintptr_t)t.u(0, 9);
                t.note("[%d] init period %lu callback %d arg %p", q, v, c, a);
                gel_timer_t *r = gel_timer_init(x.p, v, ts, CB[c], a);
                CHECK(t, r == x.p, "init returned another pointer");
                x.alive = true, x.waited = false, x.st = 1, x.cb = c, x.start = now, x.el = 0, x.total = v, x.autor = 0, x.arg = a;
                break;
            }
            default: {
                t.note("[%d] null timer polled", q);
                ht_timer_null(x.p);
                log_ = { 0, -1, nullptr, nullptr, nullptr, -1, 0, 0, 0 };
                CHECK(t, gel_timer_manage_callback(x.p, ts, nullptr) == 0, "a null timer fired");
            }
        }
        ts = (unsigned long)now & TMAX;
        if (gel_timer_get_remaining) for (auto &y : m) {
            if (!y.alive) continue;
            u128 e = y.elapsed(now);
            unsigned long w = e < y.total ? y.total - (unsigned long)e : 0, g = gel_timer_get_remaining(y.p, ts);
            CHECK(t, g == w, "[%d] remaining time is %lu, expected %lu", (int)(&y - &m[0]), g, w);
        }
    }
    if (one && many && quiet && after) t.nontrivial();
}
