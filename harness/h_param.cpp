// C19-C22: parameters against exact arithmetic on raw values.  -DPART=19..22 selects the property judged.
#include "h_param.h"
#include "pbt.hpp"
#include <cfloat>
#include <cmath>
#include <cstring>
#include <memory>
PBT_PAIR()

#if PART == 19
const char *pbt_rule = "a parameter of any available type (any declaration macro, fixed and pointer limits, any step) and up to 20 steps of any signed size from an in-range value; limits and value may be re-drawn in between; "
                       "non-trivial: one step stayed in range and changed the value, and one left the range";
#elif PART == 20
const char *pbt_rule = "arrays of 0-12, rarely 250-400, parameters of mixed types with values inside, at and outside their limits, not-a-number and infinite values, fixed, pointer and hook-set limits, any access level; checks and resets; "
                       "non-trivial: one check restored some parameters and left others";
#elif PART == 21
const char *pbt_rule = "arrays of 0-12, rarely 250-400, parameters whose access levels (zero, single bits, several bits) are fixed or set by refresh hooks that change between calls; counts and look-ups under any mask; "
                       "non-trivial: a mask saw a proper non-empty subset, and one look-up found a parameter and one found nothing";
#else
const char *pbt_rule = "single parameters of every type and macro (constants of the exact or a wider type, pointer as an expression) and pairs for copies and clones; "
                       "non-trivial: a value was converted and a copy or clone was made";
#endif

static const struct { const char *name; unsigned size; bool sign, fl; int64_t lo; uint64_t hi; } TI[10] = {
    { "u8", 1, false, false, 0, UINT8_MAX },   { "i8", 1, true, false, INT8_MIN, INT8_MAX },   { "u16", 2, false, false, 0, UINT16_MAX }, { "i16", 2, true, false, INT16_MIN, INT16_MAX },
    { "u32", 4, false, false, 0, UINT32_MAX }, { "i32", 4, true, false, INT32_MIN, INT32_MAX }, { "u64", 8, false, false, 0, UINT64_MAX }, { "i64", 8, true, false, INT64_MIN, INT64_MAX },
    { "float", 4, true, true, 0, 0 },          { "double", 8, true, true, 0, 0 } };
typedef __int128 i128;
static std::string s128(i128 v) {
    if (v < 0) return "-" + s128(-v);
    std::string r;
    do r.insert(r.begin(), char('0' + (int)(v % 10))); while (v /= 10);
    return r;
}
struct V {   // raw value of a type
    int     ty = 0;
    uint8_t b[8] = {};
    i128    i() const {
        switch (ty) {
            case 0: return b[0];
            case 1: return (int8_t)b[0];
            case 2: { uint16_t x; memcpy(&x, b, 2); return x; }
            case 3: { int16_t x; memcpy(&x, b, 2); return x; }
            case 4: { uint32_t x; memcpy(&x, b, 4); return x; }
            case 5: { int32_t x; memcpy(&x, b, 4); return x; }
            case 6: { uint64_t x; memcpy(&x, b, 8); return x; }
            default: { int64_t x; memcpy(&x, b, 8); return x; }
        }
    }
    double d() const {
        if (ty == 8) { float f; memcpy(&f, b, 4); return f; }
        double x; memcpy(&x, b, 8); return x;
    }
    static V of(int ty, i128 x) { V v; v.ty = ty; memcpy(v.b, &x, TI[ty].size); return v; }
    static V ofd(int ty, double x) { V v; v.ty = ty; if (ty == 8) { float f = (float)x; memcpy(v.b, &f, 4); } else memcpy(v.b, &x, 8); return v; }
    static V load(int ty, const void *p) { V v; v.ty = ty; memcpy(v.b, p, TI[ty].size); return v; }
    bool operator==(const V &o) const { return ty == o.ty && !memcmp(b, o.b, TI[ty].size); }
    std::string str() const {
        if (!TI[ty].fl) return s128(i());
        char s[48]; snprintf(s, 48, "%.17g", d()); return s;
    }
};
static bool le(const V &a, const V &b) { return TI[a.ty].fl ? a.d() <= b.d() : a.i() <= b.i(); }
static bool inside(const V &x, const V &lo, const V &hi) { return le(lo, x) && le(x, hi); }

static i128 geni(T &t, int ty, i128 lo, i128 hi) {   // integer in [lo,hi] with weight on both ends and zero
    if (lo <= 0 && hi >= 0 && t.b(1, 6)) return 0;
    return t.b(1, 2) ? hi - (i128)t.u(0, (uint64_t)(hi - lo)) : lo + (i128)t.u(0, (uint64_t)(hi - lo));
}
static V any(T &t, int ty) {
    if (!TI[ty].fl) return V::of(ty, geni(t, ty, TI[ty].lo, TI[ty].hi));
    switch (t.pick({10, 1, 1, 1, 1, 1})) {
        case 1: return V::ofd(ty, NAN);
        case 2: return V::ofd(ty, t.b() ? INFINITY : -INFINITY);
        case 3: return V::ofd(ty, -0.0);
        case 4: return V::ofd(ty, (t.b() ? 1 : -1) * (ty == 8 ? FLT_MAX : DBL_MAX));
        case 5: return V::ofd(ty, std::ldexp((double)t.i(-1000, 1000), (int)t.i(-60, 60)));
        default: return V::ofd(ty, (double)t.i(-4096, 4096) / 4);
    }
}
static V number(T &t, int ty) { for (;;) { V v = any(t, ty); if (!TI[ty].fl || !std::isnan(v.d())) return v; } }
static void limits(T &t, int ty, V &lo, V &hi) {
    if (!TI[ty].fl && t.b(1, 5)) { lo = V::of(ty, TI[ty].lo); hi = V::of(ty, TI[ty].hi); return; }
    lo = number(t, ty), hi = t.b(1, 8) ? lo : number(t, ty);
    if (!le(lo, hi)) std::swap(lo, hi);
}
static V within(T &t, const V &lo, const V &hi) {
    int ty = lo.ty;
    if (!TI[ty].fl) return V::of(ty, geni(t, ty, lo.i(), hi.i()));
    double a = lo.d(), b = hi.d();
    switch (t.pick(3)) {
        case 0: return lo;
        case 1: return hi;
        default: {
            double w = b - a;
            if (!std::isfinite(w) || w > 1e6) { V z = V::ofd(ty, 0.0); return inside(z, lo, hi) ? z : lo; }
            V v = V::ofd(ty, std::floor(a * 4 + (double)t.uni(0, 64) / 64 * w * 4) / 4);
            return inside(v, lo, hi) ? v : lo;
        }
    }
}

struct Par;
struct Hook {                       // what the refresh hook does (idempotent)
    Par     *owner;
    bool     set_lvl, set_min, set_max, set_pmin, set_pmax;
    unsigned lvl;
    V        min, max, pmin, pmax;  // targets
    unsigned calls;
};
struct Par {
    int                  ty, form, flags;
    std::unique_ptr<Buf> h, val, bmin, bmax;
    Buf                 *hb = nullptr;
    parameter_handle_t  *hp = nullptr;
    V                    v, min, max, def, step, pmin, pmax;
    unsigned             lvl = 0;
    uintptr_t            data = 0;
    bool                 hooked = false;
    Hook                 hk{};
    V  lo() const { return bmin ? pmin : min; }
    V  hi() const { return bmax ? pmax : max; }
    bool in() const { return inside(v, lo(), hi()); }
    void store() { memcpy(val->p, v.b, TI[ty].size); if (bmin) memcpy(bmin->p, pmin.b, TI[ty].size); if (bmax) memcpy(bmax->p, pmax.b, TI[ty].size); }
};
static T *cur;
extern "C" void refresh(parameter_handle_t *h, void *arg) {
    Hook *k = (Hook *)arg;
    Par  *p = k->owner;
    CHECK(*cur, h == p->hp, "a refresh hook was called with another parameter's handle");
    k->calls++;
    unsigned n = TI[p->ty].size;
    if (k->set_lvl) h->access_level = k->lvl;
    if (k->set_min) memcpy(&h->min, k->min.b, n);
    if (k->set_max) memcpy(&h->max, k->max.b, n);
    if (k->set_pmin && h->pmin) memcpy(h->pmin, k->pmin.b, n);
    if (k->set_pmax && h->pmax) memcpy(h->pmax, k->pmax.b, n);
    pbt_inside();
}
static unsigned genlvl(T &t) {
    switch (t.pick({3, 4, 3, 1})) {
        case 0: return 0;
        case 1: return 1u << t.u(0, 3);
        case 2: return (unsigned)t.u(1, 15);
        default: return t.b() ? 0x80000000u : 0xFFFFFFFFu;
    }
}
static bool fldy(T &t) { return t.b(1, 2); }
// draws a parameter with coherent limits and an in-range value
static void draw(T &t, Par &p, parameter_handle_t *where) {
    p.hp   = where;
    p.ty   = hp_types[t.u(0, hp_ntypes - 1)];
    p.form = (int)t.pick(HP_FORMS);
    p.flags = (int)t.pick({5, 2, 1, 1});
    unsigned n = TI[p.ty].size;
    p.val.reset(new Buf(n));
    bool ptrs = p.form >= HP_DLIMITS;
    if (ptrs && t.b()) p.bmin.reset(new Buf(n));
    if (ptrs && t.b()) p.bmax.reset(new Buf(n));
    limits(t, p.ty, p.min, p.max);
    p.pmin = p.min, p.pmax = p.max;
    if (p.bmin || p.bmax) {   // limits in force from pointers: a fresh coherent pair, the fixed ones are decoys
        V lo, hi;
        limits(t, p.ty, lo, hi);
        if (p.bmin) p.pmin = lo; else p.min = lo;
        if (p.bmax) p.pmax = hi; else p.max = hi;
    }
    if (p.form == HP_PLAIN || p.form == HP_DLIMITS) p.step = TI[p.ty].fl ? V::ofd(p.ty, 1) : V::of(p.ty, 1);
    else if (TI[p.ty].fl) p.step = t.b(1, 8) ? number(t, p.ty) : V::ofd(p.ty, (double)t.u(0, 64) / 4);
    else switch (t.pick({4, 2, 1})) {
        case 0: p.step = V::of(p.ty, (i128)t.u(1, TI[p.ty].hi < 20 ? TI[p.ty].hi : 20)); break;
        case 1: p.step = V::of(p.ty, geni(t, p.ty, 0, TI[p.ty].hi)); break;
        default: p.step = V::of(p.ty, geni(t, p.ty, TI[p.ty].lo, TI[p.ty].hi)); break;
    }
    p.def  = t.b(1, 6) ? any(t, p.ty) : within(t, p.lo(), p.hi());
    p.v    = within(t, p.lo(), p.hi());
    p.lvl  = genlvl(t);
    p.data = (uintptr_t)t.u(0, 1000);
    p.hooked = p.form >= HP_FULL && t.b();
    p.hk = Hook{};
    p.hk.owner = &p;
    p.store();
}
static void declare(Par &p) {
    hp_make(p.hp, p.ty, p.form, p.flags, p.val->p, p.bmin ? p.bmin->p : nullptr, p.bmax ? p.bmax->p : nullptr, p.min.b, p.max.b, p.def.b, p.step.b, p.lvl, (GEL_PARAMETER_USER_DATA)p.data, p.hooked ? refresh : nullptr, &p.hk);
#if PART != 22   // the declaration macros are C22's subject: the others fix every field
    parameter_handle_t &h = *p.hp;
    h.type = (parameter_type_t)p.ty, h.pointer = p.val->p, h.pmin = p.bmin ? p.bmin->p : nullptr, h.pmax = p.bmax ? p.bmax->p : nullptr;
    unsigned n = TI[p.ty].size;
    memcpy(&h.min, p.min.b, n), memcpy(&h.max, p.max.b, n), memcpy(&h.defaultv, p.def.b, n), memcpy(&h.step, p.step.b, n);
    h.access_level = p.lvl, h.data = (GEL_PARAMETER_USER_DATA)p.data, h.runtime = p.hooked ? refresh : nullptr, h.arg = &p.hk;
#endif
}
static std::string show(const Par &p) {
    static const char *F[] = { "PARAMETER", "PARAMETER_STEP", "PARAMETER_DLIMITS", "PARAMETER_FULL", "PARAMETER_C99" };
    std::string s = std::string(TI[p.ty].name) + " " + F[p.form] + " value " + p.v.str() + " fixed [" + p.min.str() + "," + p.max.str() + "]";
    if (p.bmin) s += " *pmin=" + p.pmin.str();
    if (p.bmax) s += " *pmax=" + p.pmax.str();
    s += " default " + p.def.str() + " step " + p.step.str() + " level " + std::to_string(p.lvl);
    if (p.hooked) s += " hook";
    return s;
}
// every field of the handle but those a hook may set is as declared; the value is `v`
static void intact(T &t, Par &p, const char *after) {
    unsigned n = TI[p.ty].size;
    V got = V::load(p.ty, p.val->p);
    CHECK(t, got == p.v, "after %s: value %s, expected %s (%s)", after, got.str().c_str(), p.v.str().c_str(), show(p).c_str());
    CHECK(t, !p.bmin || !memcmp(p.bmin->p, p.pmin.b, n), "after %s: the memory of the minimum changed", after);
    CHECK(t, !p.bmax || !memcmp(p.bmax->p, p.pmax.b, n), "after %s: the memory of the maximum changed", after);
    parameter_handle_t &h = *p.hp;
    CHECK(t, h.type == (parameter_type_t)p.ty, "after %s: type %d, declared %d (%s)", after, (int)h.type, p.ty, show(p).c_str());
    CHECK(t, h.pointer == p.val->p, "after %s: value pointer differs", after);
    CHECK(t, h.pmin == (p.bmin ? p.bmin->p : nullptr) && h.pmax == (p.bmax ? p.bmax->p : nullptr), "after %s: limit pointers differ", after);
    CHECK(t, V::load(p.ty, &h.min) == p.min, "after %s: fixed minimum %s, expected %s (%s)", after, V::load(p.ty, &h.min).str().c_str(), p.min.str().c_str(), show(p).c_str());
    CHECK(t, V::load(p.ty, &h.max) == p.max, "after %s: fixed maximum %s, expected %s (%s)", after, V::load(p.ty, &h.max).str().c_str(), p.max.str().c_str(), show(p).c_str());
    CHECK(t, V::load(p.ty, &h.defaultv) == p.def, "after %s: default %s, expected %s (%s)", after, V::load(p.ty, &h.defaultv).str().c_str(), p.def.str().c_str(), show(p).c_str());
    CHECK(t, V::load(p.ty, &h.step) == p.step, "after %s: step %s, expected %s (%s)", after, V::load(p.ty, &h.step).str().c_str(), p.step.str().c_str(), show(p).c_str());
    CHECK(t, h.access_level == p.lvl, "after %s: access level %u, expected %u", after, h.access_level, p.lvl);
    CHECK(t, h.data == (GEL_PARAMETER_USER_DATA)p.data, "after %s: user data differs", after);
    CHECK(t, h.runtime == (p.hooked ? refresh : nullptr) && (p.form < HP_FULL || h.arg == &p.hk), "after %s: hook or its argument differs", after);
}
// model of the refresh hook
static void refreshed(Par &p) {
    if (!p.hooked) return;
    Hook &k = p.hk;
    if (k.set_lvl) p.lvl = k.lvl;
    if (k.set_min) p.min = k.min;
    if (k.set_max) p.max = k.max;
    if (k.set_pmin && p.bmin) p.pmin = k.pmin;
    if (k.set_pmax && p.bmax) p.pmax = k.pmax;
}

#if PART == 19
static bool dyadic(const V &v) { double x = v.d() * 4; return std::fabs(x) <= 1024 && x == std::floor(x); }
void property(T &t) {
    cur = &t;
    Buf hb(sizeof(parameter_handle_t));
    Par p;
    draw(t, p, (parameter_handle_t *)hb.p);
    bool fl = TI[p.ty].fl, big = false;
    auto redraw = [&] {   // floats: values whose sums are exact, or the whole range with steps that leave it
        if (!fl) return;
        big = t.b(1, 6);
        auto q = [&](int64_t a, int64_t b) { return V::ofd(p.ty, (double)t.i(a, b) / 4); };
        double top = p.ty == 8 ? FLT_MAX : DBL_MAX, half = std::ldexp(1.0, p.ty == 8 ? 127 : 1023);
        if (big) {
            p.min = V::ofd(p.ty, -top), p.max = V::ofd(p.ty, top);
            if (p.bmin) p.pmin = p.min, p.min = q(-100, 100);
            if (p.bmax) p.pmax = p.max, p.max = q(-100, 100);
            V a[] = { V::ofd(p.ty, half), V::ofd(p.ty, -half), V::ofd(p.ty, 0.0) };
            p.v = a[t.pick(3)];
            if (p.form != HP_PLAIN && p.form != HP_DLIMITS) p.step = V::ofd(p.ty, half);
        } else {
            V a = q(-1024, 1024), b = q(-1024, 1024);
            if (!le(a, b)) std::swap(a, b);
            p.min = a, p.max = b;
            if (p.bmin || p.bmax) { V c = q(-1024, 1024), d = q(-1024, 1024); if (p.bmin) p.pmin = a, p.min = c; if (p.bmax) p.pmax = b, p.max = d; }
            p.v = within(t, a, b);
            if (!dyadic(p.v)) p.v = a;
            if (p.form != HP_PLAIN && p.form != HP_DLIMITS) p.step = q(t.b(1, 5) ? -256 : 0, 256);
        }
        p.store();
    };
    redraw();
    declare(p);
    t.note("%s", show(p).c_str());
    t.label(TI[p.ty].name);
    intact(t, p, "declaration");
    bool stayed = false, left = false;
    if (t.b(1, 30)) CHECK(t, parameter_operator(NULL, 1) == -1, "stepping no parameter did not return -1");
    for (int k = 0; k < 20 && t.more(6); k++) {
        Span s(t);
        if (t.b(1, 6)) {   // the owner moves the value or the pointer limits
            if (!fl) {
                if (p.bmin && p.bmax) { V lo, hi; limits(t, p.ty, lo, hi); p.pmin = lo, p.pmax = hi; }
                p.v = within(t, p.lo(), p.hi());
                p.store();
                t.note("owner: value %s limits [%s,%s]", p.v.str().c_str(), p.lo().str().c_str(), p.hi().str().c_str());
            }
            continue;
        }
        int mod = (int)(t.b(1, 2) ? t.i(-3, 3) : t.b(1, 4) ? t.i(INT32_MIN, INT32_MAX) : t.i(-5000, 5000));
        if (fl && big && mod != 0) { double e = p.step.d() == 1 ? 0 : 1; if (!e) mod = 0; else mod = mod < 0 ? -1 : 1; }
        if (fl && !big && std::abs((double)mod) > 4096) { if (p.step.d() == 0) mod = 1; }
        t.note("step %d", mod);
        int  r = parameter_operator(p.hp, mod);
        CHECK(t, r == 0, "stepping returned %d", r);
        V    lo = p.lo(), hi = p.hi(), got = V::load(p.ty, p.val->p);
        bool ok, out;
        V    sum = p.v;
        std::string exact;
        if (fl) {
            __float128 x = (__float128)p.v.d() + (__float128)p.step.d() * mod;
            out = !(x >= (__float128)lo.d() && x <= (__float128)hi.d());
            if (!out) sum = V::ofd(p.ty, (double)x);
            ok = out ? true : got.d() == sum.d();
            char b[40]; snprintf(b, 40, "%.17g", (double)x); exact = b;
        } else {
            i128 x = p.v.i() + p.step.i() * (i128)mod;
            out = x < lo.i() || x > hi.i();
            if (!out) sum = V::of(p.ty, x);
            ok = out ? true : got == sum;
            exact = s128(x);
        }
        CHECK(t, ok, "%s + %d steps of %s is %s, within [%s,%s], but the value became %s", p.v.str().c_str(), mod, p.step.str().c_str(), exact.c_str(), lo.str().c_str(), hi.str().c_str(), got.str().c_str());
        if (out) {
            bool neg = fl ? p.step.d() < 0 : p.step.i() < 0;
            auto eq = [&](const V &a) { return fl ? got.d() == a.d() : got == a; };
            bool w = neg ? eq(lo) || eq(hi) : mod > 0 ? eq(lo) : eq(hi);
            CHECK(t, w, "%s + %d steps of %s is %s, outside [%s,%s], but the value became %s", p.v.str().c_str(), mod, p.step.str().c_str(), exact.c_str(), lo.str().c_str(), hi.str().c_str(), got.str().c_str());
        }
        left |= out;
        stayed |= !out && !(got == p.v);
        p.v = got;
        intact(t, p, "a step");
    }
    if (stayed && left) t.nontrivial();
}
#elif PART == 20 || PART == 21
void property(T &t) {
    cur      = &t;
    size_t n = t.b(1, 20) ? 0 : t.b(1, 3000) ? (size_t)t.u(250, 400) : (size_t)t.u(1, 12);
    Buf    hb(n * sizeof(parameter_handle_t) + (n == 0));
    auto  *hs = (parameter_handle_t *)hb.p;
    std::vector<std::unique_ptr<Par>> ps;
    bool mixed = false, found = false, none = false, sub = false;
    bool alike = n > 255 && t.b();   // nearly all out of range, or visible to everyone
    auto targets = [&](Par &p) {
        Hook &k = p.hk;
#if PART == 21
        k.set_lvl = t.b(3, 4);
        k.lvl     = genlvl(t);
#else
        k.set_lvl = t.b(1, 4);
        k.lvl     = genlvl(t);
        k.set_min = t.b(), k.set_max = t.b(), k.set_pmin = t.b(), k.set_pmax = t.b();
        limits(t, p.ty, k.min, k.max);
        limits(t, p.ty, k.pmin, k.pmax);
#endif
    };
    for (size_t q = 0; q < n; q++) {
        ps.emplace_back(new Par);
        Span s(t);
        Par &p = *ps.back();
        draw(t, p, hs + q);
#if PART == 20
        if (t.b()) p.v = any(t, p.ty), p.store();
        else if (t.b(1, 3) && !TI[p.ty].fl) {   // one beyond a limit
            i128 x = t.b() ? p.lo().i() - 1 : p.hi().i() + 1;
            if (x >= TI[p.ty].lo && x <= (i128)TI[p.ty].hi) p.v = V::of(p.ty, x), p.store();
        } else if (t.b(1, 3) && TI[p.ty].fl) {
            double x = t.b() ? p.lo().d() - 0.25 : p.hi().d() + 0.25;
            p.v = V::ofd(p.ty, x), p.store();
        }
        if (alike && t.b(15, 16)) {
            if (TI[p.ty].fl) p.v = V::ofd(p.ty, p.hi().d() + 4096), p.store();
            else {
                i128 x = p.hi().i() < (i128)TI[p.ty].hi ? p.hi().i() + 1 : p.lo().i() - 1;
                if (x >= TI[p.ty].lo) p.v = V::of(p.ty, x), p.store();
            }
        }
#else
        if (alike && t.b(15, 16)) p.lvl = 0;
#endif
        if (p.hooked) targets(p);
        declare(p);
        intact(t, p, "declaration");
        t.note("[%zu] %s", q, show(p).c_str());
    }
    while (t.more(6)) {
        Span s(t);
        for (auto &p : ps) p->hk.calls = 0;
#if PART == 20
        switch (t.pick({6, 2, 3})) {
            case 0: {
                t.note("parameter_check_ranges");
                int r = parameter_check_ranges(hs, n), want = 0;
                bool defs = true, left = false;
                for (auto &q : ps) {
                    refreshed(*q);
                    if (!q->in()) want++, q->v = q->def; else left = true;
                    defs &= inside(q->def, q->lo(), q->hi());
                    CHECK(t, !q->hooked || q->hk.calls > 0, "a parameter's refresh hook was not called by the range check");
                }
                for (auto &q : ps) intact(t, *q, "a range check");
                CHECK(t, r == want, "the range check returned %d, %d parameters were out of range", r, want);
                if (want && left) mixed = true;
                if (defs && t.b()) {
                    r = parameter_check_ranges(hs, n);
                    CHECK(t, r == 0, "a second range check restored %d parameters although all defaults are in range", r);
                    for (auto &q : ps) intact(t, *q, "a second range check");
                }
                break;
            }
            case 1:
                t.note("parameter_reset_to_defaults");
                parameter_reset_to_defaults(hs, n);
                for (auto &q : ps) refreshed(*q), q->v = q->def;
                for (auto &q : ps) intact(t, *q, "a reset to defaults");
                break;
            default:
                if (n) {   // the owner changes a value, or what a hook will set
                    Par &p = *ps[t.u(0, n - 1)];
                    p.v = t.b() ? any(t, p.ty) : within(t, p.lo(), p.hi());
                    if (p.bmin && p.bmax && t.b(1, 3)) { V lo, hi; limits(t, p.ty, lo, hi); p.pmin = lo, p.pmax = hi; }
                    p.store();
                    if (p.hooked) targets(p);
                    t.note("owner: [%d] %s", (int)(p.hp - hs), show(p).c_str());
                }
        }
#else
        unsigned mask = t.b(1, 10) ? 0 : t.b(1, 10) ? 0xFFFFFFFFu : genlvl(t);
        auto     vis  = [&](Par &p) { return p.lvl == 0 || (p.lvl & mask) != 0; };
        switch (t.pick({3, 5, 2})) {
            case 0: {
                t.note("parameter_get_count mask 0x%x", mask);
                size_t r = parameter_get_count(hs, n, mask), want = 0;
                for (auto &q : ps) {
                    refreshed(*q);
                    want += vis(*q);
                    CHECK(t, !q->hooked || q->hk.calls > 0, "a parameter's refresh hook was not called by the count");
                }
                for (auto &q : ps) intact(t, *q, "a count");
                CHECK(t, r == want, "count under mask 0x%x is %zu, %zu parameters are visible (levels %s)", mask, r, want, [&] { std::string s; for (auto &q : ps) s += std::to_string(q->lvl) + " "; return s; }().c_str());
                if (want && want < n) sub = true;
                break;
            }
            case 1: {
                if (!n) break;
                size_t k = (size_t)t.u(0, n - 1);
                t.note("parameter_get_handle %zu mask 0x%x", k, mask);
                parameter_handle_t *r = parameter_get_handle(hs, n, k, mask);
                size_t left = k, q = 0;
                for (; q < n; q++) {   // hooks run at least up to the one found
                    CHECK(t, !ps[q]->hooked || ps[q]->hk.calls > 0, "the refresh hook of parameter %zu was not called before it was looked at", q);
                    refreshed(*ps[q]);
                    if (vis(*ps[q]) && left-- == 0) break;
                }
                for (size_t x = q < n ? q + 1 : n; x < n; x++) if (ps[x]->hk.calls) refreshed(*ps[x]);
                for (auto &x : ps) intact(t, *x, "a look-up");
                CHECK(t, r == (q < n ? hs + q : nullptr), "look-up %zu under mask 0x%x returned %s%d, expected %d (-1: nothing)", k, mask, r ? "parameter " : "nothing ", r ? (int)(r - hs) : -1, q < n ? (int)q : -1);
                (q < n ? found : none) = true;
                if (r) CHECK(t, parameter_get_user_data(r) == (GEL_PARAMETER_USER_DATA)ps[q]->data, "user data differs");
                break;
            }
            default:
                if (n) {
                    Par &p = *ps[t.u(0, n - 1)];
                    if (p.hooked) targets(p);
                    else { p.lvl = genlvl(t); p.hp->access_level = p.lvl; }
                    t.note("owner: [%d] level %u", (int)(p.hp - hs), p.hooked ? p.hk.lvl : p.lvl);
                }
        }
#endif
    }
#if PART == 20
    if (mixed) t.nontrivial();
#else
    if (sub && found && none) t.nontrivial();
#endif
}
#else
void property(T &t) {
    cur = &t;
    Buf  h1(sizeof(parameter_handle_t)), h2(sizeof(parameter_handle_t)), h3(sizeof(parameter_handle_t));
    Par  a, b;
    bool conv = false, copy = false;
    draw(t, a, (parameter_handle_t *)h1.p);
    draw(t, b, (parameter_handle_t *)h2.p);
    if (t.b()) a.v = any(t, a.ty), a.store();   // conversions do not depend on the limits
    declare(a), declare(b);
    t.note("a: %s", show(a).c_str());
    t.note("b: %s", show(b).c_str());
    t.label(TI[a.ty].name);
    intact(t, a, "declaration"), intact(t, b, "declaration");
    while (t.more(8)) {
        Span s(t);
        Par  &p = t.b(2, 3) ? a : b, &o = &p == &a ? b : a;
        const char *n = &p == &a ? "a" : "b";
        bool  fl = TI[p.ty].fl;
        switch (t.pick({2, 2, 2, 3, 3, 3, 3, 2, 2})) {
            case 0: {
                if (fl || p.v.i() > (i128)INT64_MAX) break;
                t.note("parameter_to_long(%s)", n);
                long r = parameter_to_long(p.hp);
                CHECK(t, (i128)r == p.v.i(), "to_long of %s %s is %ld", TI[p.ty].name, p.v.str().c_str(), r);
                conv = true;
                break;
            }
            case 1: {
                if (fl) break;
                t.note("parameter_to_bool(%s)", n);
                int r = parameter_to_bool(p.hp);
                CHECK(t, (r != 0) == (p.v.i() != 0), "to_bool of %s %s is %d", TI[p.ty].name, p.v.str().c_str(), r);
                break;
            }
            case 2: {
                if (fl || p.v.i() < 0) break;
                t.note("parameter_to_index(%s)", n);
                size_t r = parameter_to_index(p.hp);
                CHECK(t, (i128)r == p.v.i(), "to_index of %s %s is %zu", TI[p.ty].name, p.v.str().c_str(), r);
                break;
            }
            case 3: {
                static const char *W[] = { "", "5", "05", "-12", "+", "20", " " };
                static const char *C[] = { "u", "i", "u", "i", "u", "i", "lu", "li", "f", "g" };
                const char *f = W[t.pick(7)];
                char fmt[40], want[512];
                bool hx = !fl && !TI[p.ty].sign && t.b(1, 3);
                const char *conv = hx ? (p.ty == 6 ? "lx" : "X") : fl ? (t.b() ? "g" : ".3e") : C[p.ty];
                snprintf(fmt, sizeof fmt, "v%%%s%s;", conv[0] == '.' && f[0] && strchr("05-1220", f[0]) ? "" : f, conv);
                switch (p.ty) {
                    case 6: snprintf(want, sizeof want, fmt, (uint64_t)p.v.i()); break;
                    case 7: snprintf(want, sizeof want, fmt, (int64_t)p.v.i()); break;
                    case 4: snprintf(want, sizeof want, fmt, (uint32_t)p.v.i()); break;
                    case 8: case 9: snprintf(want, sizeof want, fmt, p.v.d()); break;
                    default: snprintf(want, sizeof want, fmt, (int)p.v.i());
                }
                Buf out(strlen(want) + 1);
                t.note("parameter_to_string_format(%s, \"%s\")", n, fmt);
                parameter_to_string_format(p.hp, (char *)out.p, fmt);
                CHECK(t, !strcmp((char *)out.p, want), "formatting %s %s with \"%s\" gives \"%s\", expected \"%s\"", TI[p.ty].name, p.v.str().c_str(), fmt, (char *)out.p, want);
                break;
            }
            case 4: {
                if (fl) break;
                i128 lo = p.lo().i(), hi = p.hi().i();
                if (hi - lo >= (i128)UINT64_MAX) break;
                t.note("parameter_get_total_values(%s)", n);
                size_t r = parameter_get_total_values(p.hp);
                CHECK(t, (i128)r == hi - lo + 1, "%s with limits [%s,%s] has %zu possible values, expected %s", TI[p.ty].name, s128(lo).c_str(), s128(hi).c_str(), r, s128(hi - lo + 1).c_str());
                break;
            }
            case 5: {
                t.note("parameter_copy_value(%s, %s)", &o == &a ? "a" : "b", n);
                int r = parameter_copy_value(o.hp, p.hp);
                CHECK(t, r == (o.ty == p.ty ? 0 : -1), "copying a %s to a %s returned %d", TI[p.ty].name, TI[o.ty].name, r);
                if (o.ty == p.ty) o.v = p.v, copy = true;
                break;
            }
            case 6: {
                Buf nb(TI[p.ty].size);
                t.note("parameter_clone(new, %s)", n);
                memset(h3.p, 0xA5, h3.n);
                parameter_clone((parameter_handle_t *)h3.p, p.hp, nb.p);
                parameter_handle_t want = *p.hp, &got = *(parameter_handle_t *)h3.p;
                CHECK(t, got.pointer == nb.p, "the clone does not point to the memory given");
                CHECK(t, V::load(p.ty, nb.p) == p.v, "the clone's value is %s, expected %s", V::load(p.ty, nb.p).str().c_str(), p.v.str().c_str());
                CHECK(t, got.type == want.type && got.pmin == want.pmin && got.pmax == want.pmax && !memcmp(&got.min, &want.min, TI[p.ty].size) && !memcmp(&got.max, &want.max, TI[p.ty].size) && !memcmp(&got.defaultv, &want.defaultv, TI[p.ty].size) &&
                             !memcmp(&got.step, &want.step, TI[p.ty].size) && got.access_level == want.access_level && got.data == want.data && got.runtime == want.runtime && got.arg == want.arg, "the clone differs from its source");
                copy = true;
                break;
            }
            case 7: {
                Buf nb(TI[p.ty].size);
                t.note("parameter_clone_with_buffer(%s)", n);
                parameter_handle_t got = parameter_clone_with_buffer(p.hp, nb.p), want = *p.hp;
                CHECK(t, got.pointer == nb.p, "the clone does not point to the buffer given");
                CHECK(t, V::load(p.ty, nb.p) == p.v, "the clone's value is %s, expected %s", V::load(p.ty, nb.p).str().c_str(), p.v.str().c_str());
                CHECK(t, got.type == want.type && got.pmin == want.pmin && got.pmax == want.pmax && !memcmp(&got.min, &want.min, TI[p.ty].size) && !memcmp(&got.max, &want.max, TI[p.ty].size) && !memcmp(&got.defaultv, &want.defaultv, TI[p.ty].size) &&
                             !memcmp(&got.step, &want.step, TI[p.ty].size) && got.access_level == want.access_level && got.data == want.data && got.runtime == want.runtime && got.arg == want.arg, "the clone differs from its source");
                copy = true;
                break;
            }
            default:
                t.note("nothing given");
                CHECK(t, parameter_to_long(NULL) == 0 && parameter_to_index(NULL) == 0 && parameter_to_bool(NULL) == 0 && parameter_get_total_values(NULL) == 0, "a conversion of no parameter is not 0");
                CHECK(t, parameter_copy_value(NULL, p.hp) == -1 && parameter_copy_value(p.hp, NULL) == -1, "copying with no parameter did not return -1");
                parameter_clone(NULL, p.hp, p.val->p), parameter_clone(p.hp, NULL, p.val->p), parameter_clone(o.hp, p.hp, NULL);
                parameter_to_string_format(NULL, NULL, NULL);
                break;
        }
        intact(t, a, "an operation"), intact(t, b, "an operation");
    }
    if (conv && copy) t.nontrivial();
}
#endif
