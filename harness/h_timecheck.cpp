// C31: time comparisons against arithmetic on an unbounded clock.
#include "h_timecheck.h"
#include "pbt.hpp"
const char *pbt_rule = "points of an unbounded clock and distances below half the range of the timestamp type (edges favoured), reduced to the type; non-trivial: a comparison and an expiry whose points lie on different sides of the wrap-around (signed types: of zero)";
typedef unsigned __int128 u128;
void property(T &t) {
    unsigned w    = 8 * tc_width;
    u128     R    = (u128)1 << w;
    uint64_t half = (uint64_t)(R / 2), mask = (uint64_t)(R - 1);
    bool     cmp = false, exp = false;
    while (t.more(6)) {
        Span s(t);
        uint64_t a, d, e;
        // signed types cannot wrap: both points around zero
        if (tc_signed) a = half / 4 * 3 + t.u(0, half / 2);
        else a = t.b() ? t.u(0, mask) : mask - t.u(0, mask);
        uint64_t top = tc_signed ? half / 4 : half - 1;
        auto     fix = [&](u128 x) { return (uint64_t)(tc_signed ? x - half : x) & mask; };
        auto     len = [&](uint64_t m) { return t.b(1, 4) ? m - t.u(0, m) : t.u(0, m); };
        if (t.b()) {
            d          = len(top);
            uint64_t x = fix(a), y = fix((u128)a + d);
            t.note("0x%llx and %llu later", (unsigned long long)x, (unsigned long long)d);
            CHECK(t, tc_after(y, x) == (d > 0), "time_after(0x%llx, 0x%llx) is wrong: the first is %llu later", (unsigned long long)y, (unsigned long long)x, (unsigned long long)d);
            CHECK(t, !tc_after(x, y), "time_after(0x%llx, 0x%llx) is wrong: the first is %llu earlier", (unsigned long long)x, (unsigned long long)y, (unsigned long long)d);
            CHECK(t, tc_after_eq(y, x) == 1, "time_after_or_equal(0x%llx, 0x%llx) is wrong: the first is %llu later", (unsigned long long)y, (unsigned long long)x, (unsigned long long)d);
            CHECK(t, tc_after_eq(x, y) == (d == 0), "time_after_or_equal(0x%llx, 0x%llx) is wrong: the first is %llu earlier", (unsigned long long)x, (unsigned long long)y, (unsigned long long)d);
            CHECK(t, tc_before(x, y) == (d > 0) && !tc_before(y, x), "time_before of 0x%llx and 0x%llx is wrong", (unsigned long long)x, (unsigned long long)y);
            uint64_t i = tc_interval(x, y), j = tc_interval(y, x);
            CHECK(t, i == d && j == d, "the interval between 0x%llx and 0x%llx is %llu / %llu, expected %llu", (unsigned long long)x, (unsigned long long)y, (unsigned long long)i, (unsigned long long)j, (unsigned long long)d);
            if (y < x) cmp = true;
        } else {
            d          = len(top);                                             // delay
            uint64_t m = tc_signed ? half / 4 : (uint64_t)((u128)d + half - 1 < R - 1 ? (u128)d + half - 1 : R - 1);
            e          = t.b() ? len(m) : d + t.u(0, 4) > 2 ? d + t.u(0, 4) - 2 : 0;   // time passed
            if (e > m) e = m;
            uint64_t x = fix(a), y = fix((u128)a + e);
            t.note("started 0x%llx, delay %llu, %llu passed", (unsigned long long)x, (unsigned long long)d, (unsigned long long)e);
            CHECK(t, (tc_loose(x, y, d) != 0) == (e >= d), "loosely expired is wrong: start 0x%llx, now 0x%llx, delay %llu, %llu passed", (unsigned long long)x, (unsigned long long)y, (unsigned long long)d, (unsigned long long)e);
            CHECK(t, (tc_expired(x, y, d) != 0) == (e >= d), "expired is wrong: start 0x%llx, now 0x%llx, delay %llu, %llu passed", (unsigned long long)x, (unsigned long long)y, (unsigned long long)d, (unsigned long long)e);
            CHECK(t, (tc_strict(x, y, d) != 0) == (e > d), "strictly expired is wrong: start 0x%llx, now 0x%llx, delay %llu, %llu passed", (unsigned long long)x, (unsigned long long)y, (unsigned long long)d, (unsigned long long)e);
            if (y < x) exp = true;
        }
    }
    if (cmp && exp) t.nontrivial();
}
