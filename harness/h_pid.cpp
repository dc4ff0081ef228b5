// C23 / C24 (-DC24): PID terms against the list of inputs.  Gains and values are dyadic so every sum is exact.
extern "C" {
#include "pid/pid.h"
}
#include "pbt.hpp"
#include <cmath>
#include <deque>
#include <type_traits>
#ifdef C24
const char *pbt_rule = "controllers driven by inputs and set points (small, large, zero and sign-changing errors), thresholds, clears and automatic clearing, histories far longer than the window; "
                       "non-trivial: an input aged out or was cleared, one was rejected by a threshold, and the integral was non-zero";
#else
const char *pbt_rule = "controllers driven by inputs, set points, gains and the derivative threshold; non-trivial: the derivative used the full window and was non-zero, and both sides of the threshold were seen or the set point moved between inputs";
#endif
typedef pid_control_type_t C;
typedef pid_output_type_t  O;
static const int  H = GEL_PID_INTEGRAL_HISTORY_SIZE, D = GEL_PID_DERIVATIVE_DELTA;
static const bool integer = std::is_integral<C>::value, integer_out = std::is_integral<O>::value;
static double out(double x) { return integer_out ? std::trunc(x) : x; }   // conversion to the output type

PBT_PAIR()
void property(T &t) {
    Buf         b(sizeof(pid_ctrl_t));
    pid_ctrl_t *p = (pid_ctrl_t *)b.p;
    poison(t, p, sizeof *p);
    bool   wide = H <= 8 && sizeof(C) >= 4 && t.b(1, 3);
    bool   fine = H <= 8 && std::is_same<C, double>::value && std::is_same<O, double>::value && t.b(1, 3);   // more digits than a float has
    bool   huge = fine && t.b(1, 3);             // beyond any int
    if (fine) wide = true;
    bool   zlow = t.b(1, 3);                     // many zero errors
    double in, sp, kp, ki, kd, dth, lth, hth;
    bool   first, autoc, den, len, hen;
    int    sign;
    std::deque<double> der, con;                 // derivative window, contributions
    auto init = [&] {
        pid_init(p);
        in = sp = kp = ki = kd = dth = lth = hth = 0;
        first = true, autoc = den = len = hen = false, sign = 0;
        der.clear(), con.clear();
    };
    auto gain = [&]() -> double {
        if (wide) { static const double g[] = { 1, 0, 0.5, 2, 4, -1, 0.25 }; return g[t.pick(7)]; }
        return (double)t.i(-40, 40) / 8;
    };
    auto value = [&](double lo, double hi) -> double {
        double s = integer || huge ? 1 : fine && t.b(3, 4) ? 1ull << 34 : 4;
        return (double)t.i((int64_t)(lo * s), (int64_t)(hi * s)) / s;
    };
    double M = huge ? 0x1p40 : fine ? 1000 : wide ? (sizeof(O) == 4 && !integer_out ? 8000 : 200000) : H > 16 ? 100 : 250;
    init();
    bool aged = false, rejected = false, nonzero = false, full = false, below = false, above = false, moved = false, spmoved = false, zero_in = false;
    auto add = [&](double v) {
        double old = sp - in;
        in         = v;
        double e   = sp - in;
        int    s   = e > 0 ? 1 : e < 0 ? -1 : sign;
        if (s != sign && autoc) { if (!con.empty()) aged = true; con.clear(); }
        sign     = s;
        double c = e;
        if (e > 0 && len && !(e < lth)) c = 0, rejected = true;
        if (e < 0 && hen && !(-e < hth)) c = 0, rejected = true;
        con.push_back(c);
        if ((int)con.size() > H) con.pop_front(), aged = true;
        if (!first) {
            der.push_back(old);
            if ((int)der.size() > D) der.pop_front();
            if (spmoved) moved = true;
        }
        first = false, spmoved = false;
        pid_add_input(p, (C)v);
    };
    int steps = 0;
    while (t.more(H > 16 ? 25 : 20) && steps++ < 400) {
        Span s(t);
        switch (t.pick({12, 2, 3, 2, 1, 2, 1, 1, 1})) {
            case 0: {
                double v = t.b(zlow ? 1 : 0, 3) ? sp : t.b(1, 4) && lth > 0 ? sp - (t.b() ? lth : -hth) + value(-1, 1) : value(-M, M);
                t.note("input %g (error %g)", v, sp - v);
                add(v);
                break;
            }
            case 1: {   // a run of inputs
                int n = H > 16 && t.b(1, 10) ? H + (int)t.u(0, H / 2) : (int)t.u(1, (uint64_t)H + H / 2 + 3);
                double v = value(-M, M), d = t.b() ? 0 : value(-4, 4);
                t.note("%d inputs from %g in steps of %g", n, v, d);
                for (int k = 0; k < n; k++) { add(v); v += d; if (std::fabs(v) > M) v = 0; }
                break;
            }
            case 2:
                kp = gain(), ki = gain(), kd = gain();
                t.note("tune %g %g %g", kp, ki, kd);
                pid_ctrl_tune(p, (float)kp, (float)ki, (float)kd);
                break;
            case 3:
                sp = value(-M, M), spmoved = true;
                t.note("set point %g", sp);
                pid_set_sp(p, (C)sp);
                break;
            case 4:
                t.note("clear integral history");
                pid_clear_integral_history(p);
                if (!con.empty()) aged = true;
                con.clear();
                break;
            case 5: {
                int which = (int)t.pick(3), on = t.b(2, 3) ? (int)t.u(1, 3) : 0;
                t.note("%s threshold %s", which == 0 ? "integral low" : which == 1 ? "integral high" : "derivative", on ? "on" : "off");
                if (which == 0) len = on, pid_enable_integral_low_threshold(p, on);
                if (which == 1) hen = on, pid_enable_integral_high_threshold(p, on);
                if (which == 2) den = on, pid_enable_derivative_threshold(p, on);
                break;
            }
            case 6: {
                double a = (double)t.u(0, (uint64_t)M), c = (double)t.u(0, (uint64_t)M), d = value(0, M), e = value(0, M);
                t.note("thresholds: integral low %g high %g, derivative %g (%g)", a, c, d, e);
                lth = a, hth = c, dth = d;
                pid_set_integral_low_threshold(p, (size_t)a), pid_set_integral_high_threshold(p, (size_t)c);
                pid_set_derivative_threshold(p, (C)d, (C)e);
                break;
            }
            case 7: {
                int on = t.b(2, 3) ? (int)t.u(1, 3) : 0;
                t.note("automatic clearing %d", on);
                autoc = on;
                pid_set_auto_integral_clear(p, on);
                break;
            }
            default:
                if (!t.b(1, 3)) break;
                t.note("init");
                init();
        }
        double e = sp - in;
#ifdef C24
        double sum = 0;
        for (double c : con) sum += c;
        double i = (double)pid_compute_i(p), wi = out(sum * ki);
        CHECK(t, i == wi, "integral term is %.10g, expected %.10g (gain %g, sum of the last %zu admitted errors %.10g)", i, wi, ki, con.size(), sum);
        if (wi != 0) nonzero = true;
        if (e == 0 && !con.empty()) zero_in = true;
#else
        double ce = (double)pid_current_error(p), pt = (double)pid_compute_p(p), dt = (double)pid_compute_d(p), it = (double)pid_compute_i(p), tot = (double)pid_compute(p);
        double wp = out(kp * e), wd = der.empty() || (den && std::fabs(e) > dth) ? 0 : out(kd * (e - der.front()));
        CHECK(t, ce == e, "current error is %g, set point %g minus input %g is %g", ce, sp, in, e);
        CHECK(t, pt == wp, "proportional term is %g, expected %g (gain %g, error %g)", pt, wp, kp, e);
        CHECK(t, dt == wd, "derivative term is %g, expected %g (gain %g, error %g, oldest error in the window %g, %zu recorded, threshold %s %g)", dt, wd, kd, e, der.empty() ? 0. : der.front(), der.size(), den ? "on" : "off", dth);
        CHECK(t, tot == (double)(O)(wp + it + wd), "output is %g, the terms are %g, %g and %g", tot, wp, it, wd);
        if ((int)der.size() == D && wd != 0) full = true;
        if (den && !der.empty()) (std::fabs(e) > dth ? above : below) = true;
#endif
    }
#ifdef C24
    if (zero_in) t.label("zero error");
    if (aged) t.label("aged or cleared");
    if (aged && rejected && nonzero) t.nontrivial();
#else
    if (full && ((above && below) || moved)) t.nontrivial();
#endif
}
