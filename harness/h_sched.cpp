// C25-C28: the scheduler against a table of windows.  -DPART=25..28
#include <stddef.h>
#include <stdlib.h>
extern "C" {
#include "scheduler/scheduler.h"
#define WEAK __attribute__((weak))   // defined by the module without a declaration in its header
WEAK int           scheduler_is_active(scheduler_t *, struct tm *);
WEAK int           scheduler_current_value(scheduler_t *, struct tm *, int *);
WEAK int           scheduler_get_next_enabled_entry(scheduler_t *, size_t);
WEAK int           scheduler_get_first_available_entry(scheduler_t *);
WEAK uint16_t      scheduler_get_active_entries_map(scheduler_t *, struct tm *);
WEAK unsigned long scheduler_get_schedule_remaining_duration(scheduler_t *, size_t, struct tm *);
WEAK unsigned long scheduler_get_current_remaining_duration(scheduler_t *, struct tm *);
WEAK size_t        scheduler_get_max_schedule_entries(scheduler_t *);
}
#include "pbt.hpp"
#include <cstring>
#if PART == 25
const char *pbt_rule = "tables of entries (normal, overnight and full-day windows, similar spans and values so that ties are frequent) queried at instants on and around window edges; non-trivial: at least two entries were active at a queried instant, and nothing at another";
#elif PART == 26
const char *pbt_rule = "tables of entries and candidate windows, edges often shared, touching or one second apart, overnight windows included; non-trivial: an overnight window was involved in a required collision and another entry on a common day did not collide";
#elif PART == 27
const char *pbt_rule = "entries with any flag, days, seconds and values 0-255 through serialize and deserialize at any buffer offset; non-trivial: an entry whose 32-bit fields use more than two bytes went through the round trip";
#else
const char *pbt_rule = "sequences of set, disable, direct edits and queries with valid and out-of-range indices; non-trivial: an overnight entry was open after midnight in a duration or map query, and an enabled and a disabled entry were both within their window";
#endif
static const uint32_t DAY = 86400;
struct E { unsigned enabled = 0, days = 0; uint32_t start = 0, end = 0; int value = 0; };
static bool holds(const E &e, uint32_t s) { return (s >= e.start && s < e.end) || (uint64_t)s + DAY < e.end; }
static bool active(const E &e, int wd, uint32_t s) { return e.enabled && (e.days >> wd & 1) && holds(e, s); }
static uint64_t span(const E &e) { uint64_t n = 0; for (int d = 0; d < 7; d++) n += e.days >> d & 1; return (uint64_t)(e.end > e.start ? e.end - e.start : e.start - e.end) * n; }
static std::string str(const E &e) { char b[120]; snprintf(b, 120, "{%s days 0x%02x %u-%u value %d}", e.enabled ? "on" : "off", e.days, e.start, e.end, e.value); return b; }
static scheduler_entry_t raw(const E &e) { scheduler_entry_t r; memset(&r, 0x5A, sizeof r); r.enabled = (uint8_t)e.enabled, r.days = (uint8_t)e.days, r.start_second = e.start, r.end_second = e.end, r.value = e.value; return r; }
static bool same(const scheduler_entry_t &r, const E &e) { return r.enabled == e.enabled && r.days == e.days && r.start_second == e.start && r.end_second == e.end && r.value == e.value; }

static std::vector<uint32_t> edges;   // second-of-day values used so far: reused so that windows meet
static uint32_t second(T &t) {
    if (!edges.empty() && t.b(2, 3)) return (uint32_t)((edges[t.u(0, edges.size() - 1)] + DAY + t.i(-1, 1)) % DAY);
    uint32_t s = (uint32_t)(t.b(1, 4) ? 0 : t.u(0, DAY - 1));
    edges.push_back(s);
    return s;
}
static E entry(T &t, bool busy = false) {
    E e;
    e.enabled = t.b(3, 4) ? 1 : t.b() ? 0 : (unsigned)t.u(1, 255);
    e.days    = t.b(1, 3) ? 0x7F : (unsigned)t.u(0, 127);
    e.start   = second(t);
    switch (t.pick({6, 2, 1, 1})) {
        case 0: { uint32_t x = second(t); e.end = x > e.start ? x : x + DAY; break; }   // ends at an edge, today or tomorrow
        case 1: e.end = e.start + (uint32_t)t.u(0, DAY); break;
        case 2: e.end = DAY; break;
        default: e.end = e.start + (t.b() ? DAY : 0); break;
    }
    if (e.end > e.start + DAY) e.end = e.start + DAY;
    edges.push_back(e.end % DAY);
    e.value = t.b() ? (int)t.i(-3, 3) : t.b() ? (int)t.u(250, 260) : (int)t.i(INT32_MIN, INT32_MAX);
    return e;
}
static void clock_at(T &t, struct tm &tm, int wd, uint32_t s) {
    memset(&tm, (int)t.u(0, 255), sizeof tm);
    tm.tm_wday = wd, tm.tm_hour = (int)(s / 3600), tm.tm_min = (int)(s / 60 % 60), tm.tm_sec = (int)(s % 60);
}
struct Table {
    T               &t;
    Buf              b;
    scheduler_t     *s;
    std::vector<E>   m;
    Table(T &t_) : t(t_), b(sizeof(scheduler_t)), s((scheduler_t *)b.p) {
        poison(t, s, sizeof *s);
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
        size_t n = t.b(1, 400) ? (size_t)t.u(250, 300) : (size_t)t.u(1, 40);
        scheduler_init(s, n);
#else
        size_t n = GEL_SCHEDULER_MAX_ENTRIES;
        scheduler_init(s);
#endif
        m.resize(n);
        edges.clear();
    }
    ~Table() {
#ifdef GEL_SCHEDULER_DYNAMIC_ENTRIES
        free(s->entries);
#endif
    }
    void set(size_t k, const E &e) {
        t.note("set %zu %s", k, str(e).c_str());
        int r = scheduler_set_entry(s, k, raw(e));
        if (k < m.size()) { CHECK(t, r == 0, "setting entry %zu returned %d", k, r); m[k] = e; }
        else CHECK(t, r != 0, "setting entry %zu of %zu was not rejected", k, m.size());
    }
    void fill(T &t) {   // a large table: one entry over and over, with a few others in between
        E    e = entry(t);
        size_t from = t.b() ? 0 : (size_t)t.u(0, m.size() - 1), to = t.b() ? m.size() : (size_t)t.u(from, m.size());
        if (t.b(3, 4)) e.enabled = 1;
        t.note("entries %zu to %zu are all %s", from, to, str(e).c_str());
        for (size_t k = from; k < to; k++) { scheduler_set_entry(s, k, raw(e)); m[k] = e; }
        for (unsigned q = (unsigned)t.u(0, 4); q--;) set((size_t)t.u(0, m.size() - 1), entry(t));
    }
    void all(const char *after) {
        for (size_t k = 0; k < m.size(); k++) CHECK(t, same(s->entries[k], m[k]), "after %s: entry %zu is not %s", after, k, str(m[k]).c_str());
    }
    int expected(int wd, uint32_t sec, unsigned *n = nullptr) {
        int best = -1;
        unsigned c = 0;
        for (size_t k = 0; k < m.size(); k++) {
            if (!active(m[k], wd, sec)) continue;
            c++;
            if (best < 0 || span(m[k]) < span(m[best]) || (span(m[k]) == span(m[best]) && m[k].value > m[best].value)) best = (int)k;
        }
        if (n) *n = c;
        return best;
    }
};

PBT_PAIR(edges)

#if PART == 25
void property(T &t) {
    Table s(t);
    bool  multi = false, none = false;
    size_t n = s.m.size();
    if (n > 100) s.fill(t);
    else for (size_t k = 0; k < n; k++) {
        if (!t.b(3, 4)) continue;
        Span sp(t);
        E e = entry(t);
        if (k && t.b(1, 3)) { E &o = s.m[t.u(0, k - 1)]; e.start = o.start, e.end = o.end; if (t.b()) e.days = o.days; if (t.b(1, 3)) e.value = o.value; }   // ties
        s.set(k, e);
    }
    while (t.more(8)) {
        Span sp(t);
        if (t.b(1, 6)) { s.set((size_t)t.u(0, n - 1), entry(t)); continue; }
        int       wd = (int)t.u(0, 6);
        uint32_t  sec = second(t);
        struct tm tm;
        clock_at(t, tm, wd, sec);
        unsigned c;
        int want = s.expected(wd, sec, &c);
        t.note("day %d second %u", wd, sec);
        int got = scheduler_get_active_entry_number(s.s, &tm);
        CHECK(t, (got < 0) == (want < 0) && (got < 0 || (got < (int)n && (got == want || (span(s.m[got]) == span(s.m[want]) && s.m[got].value == s.m[want].value && active(s.m[got], wd, sec))))),
              "day %d second %u: entry %d selected, expected %d%s", wd, sec, got, want, want >= 0 ? (" " + str(s.m[want])).c_str() : "");
        if (scheduler_is_active) CHECK(t, (scheduler_is_active(s.s, &tm) != 0) == (want >= 0), "is_active disagrees with the selection");
        if (scheduler_current_value) {
            int v = 0x5EED, r = scheduler_current_value(s.s, &tm, t.b(1, 8) ? NULL : &v);
            CHECK(t, (r != 0) == (want >= 0), "current value %sreported, entry %d is selected", r ? "" : "not ", want);
            CHECK(t, v == 0x5EED || (want >= 0 && v == s.m[want].value), "current value is %d, the selected entry is %d", v, want);
            if (want >= 0 && scheduler_current_value(s.s, &tm, &v)) CHECK(t, v == s.m[want].value, "current value is %d, expected %d", v, s.m[want].value);
        }
        s.all("a selection");
        if (c >= 2) multi = true;
        if (!c) none = true;
    }
    if (multi && none) t.nontrivial();
}
#elif PART == 26
// half-open windows on the 24 h circle
static bool collide(const E &a, const E &b) {
    if (a.start == a.end || b.start == b.end) return false;
    return holds(a, b.start % DAY) || holds(b, a.start % DAY);
}
static bool touch(const E &a, const E &b) {   // neither overlapping nor separated by a gap
    auto closed = [](const E &e, uint32_t x) { return (x >= e.start && x <= e.end) || x + DAY <= e.end || (e.start == 0 && x == DAY) || (e.end == DAY && x == 0) || (e.start % DAY == x % DAY) || (e.end % DAY == x % DAY); };
    return closed(a, b.start) || closed(a, b.end % DAY) || closed(b, a.start) || closed(b, a.end % DAY);
}
void property(T &t) {
    Table s(t);
    bool  over = false, miss = false;
    size_t n = s.m.size();
    if (n > 100) s.fill(t);
    else for (size_t k = 0; k < n; k++) if (t.b(3, 4)) { Span sp(t); s.set(k, entry(t)); }
    while (t.more(6)) {
        Span sp(t);
        if (t.b(1, 4)) { s.set((size_t)t.u(0, n - 1), entry(t)); continue; }
        E      c = t.b(1, 8) ? s.m[t.u(0, n - 1)] : entry(t);
        size_t must = 0, may = 0;
        for (auto &e : s.m) {
            if (!e.enabled || !(e.days & c.days)) continue;
            bool x = collide(e, c);
            if (x) { must++; if (e.end > DAY || c.end > DAY) over = true; }
            else if (touch(e, c)) may++;
            else miss = true;
        }
        Buf cb(sizeof(scheduler_entry_t));
        scheduler_entry_t r = raw(c);
        memcpy(cb.p, &r, sizeof r);
        t.note("overlaps of %s", str(c).c_str());
        size_t got = scheduler_are_there_overlapping_entries(s.s, (scheduler_entry_t *)cb.p);
        CHECK(t, got >= must && got <= must + may, "%zu overlaps reported for %s: %zu entries share an instant, %zu only touch", got, str(c).c_str(), must, may);
        CHECK(t, !memcmp(cb.p, &r, sizeof r), "the candidate was modified");
        s.all("an overlap query");
    }
    if (over && miss) t.nontrivial();
}
#elif PART == 27
void property(T &t) {
    bool wide = false;
    while (t.more(5)) {
        Span sp(t);
        E e;
        e.enabled = (unsigned)t.u(0, 255), e.days = (unsigned)t.u(0, 255), e.start = (uint32_t)t.u(0, UINT32_MAX), e.end = (uint32_t)t.u(0, UINT32_MAX), e.value = (int)t.u(0, 255);
        size_t off = (size_t)t.u(0, 3);
        Buf    in(sizeof(scheduler_entry_t)), wire(off + 11), out(sizeof(scheduler_entry_t));
        scheduler_entry_t r = raw(e);
        memcpy(in.p, &r, sizeof r);
        poison(t, out.p, out.n), poison(t, wire.p, wire.n);
        std::vector<uint8_t> lead(wire.p, wire.p + off);
        uint8_t want[11] = { (uint8_t)e.enabled, (uint8_t)e.days, (uint8_t)e.start, (uint8_t)(e.start >> 8), (uint8_t)(e.start >> 16), (uint8_t)(e.start >> 24), (uint8_t)e.end, (uint8_t)(e.end >> 8), (uint8_t)(e.end >> 16), (uint8_t)(e.end >> 24), (uint8_t)e.value };
        t.note("round trip of %s at offset %zu", str(e).c_str(), off);
        size_t n = scheduler_entry_serialize(wire.p + off, (scheduler_entry_t *)in.p);
        CHECK(t, n == 11, "serialized to %zu bytes", n);
        CHECK(t, !memcmp(wire.p + off, want, 11), "serialized as %s, expected %s", hex(wire.p + off, 11).c_str(), hex(want, 11).c_str());
        CHECK(t, !memcmp(in.p, &r, sizeof r), "the entry was modified by serialization");
        n = scheduler_entry_deserialize((scheduler_entry_t *)out.p, wire.p + off);
        CHECK(t, n == 11, "deserialization consumed %zu bytes", n);
        CHECK(t, same(*(scheduler_entry_t *)out.p, e), "deserialized entry differs from %s", str(e).c_str());
        CHECK(t, !memcmp(wire.p + off, want, 11) && std::equal(lead.begin(), lead.end(), wire.p), "the buffer was modified");
        if (e.start > 0xFFFF && e.end > 0xFFFF) wide = true;
    }
    if (wide) t.nontrivial();
}
#else
void property(T &t) {
    Table  s(t);
    size_t n = s.m.size();
    bool   night = false, both = false;
    s.all("initialisation");
    if (n > 100 && t.b(3, 4)) s.fill(t);
    auto index = [&]() -> size_t { return !t.b(1, 6) ? (size_t)t.u(0, n - 1) : !t.b() ? n + (size_t)t.u(0, 3) : SIZE_MAX - (size_t)t.u(0, 2); };
    while (t.more(16)) {
        Span sp(t);
        switch (t.pick({6, 2, 2, 4, 4, 4, 1})) {
            case 0: s.set(index(), entry(t)); break;
            case 1: {
                size_t k = index();
                t.note("disable %zu", k);
                int r = scheduler_disable_schedule_entry(s.s, k);
                CHECK(t, (r == 0) == (k < n), "disabling entry %zu of %zu returned %d", k, n, r);
                if (k < n) s.m[k].enabled = 0;
                break;
            }
            case 2: {   // edit in place
                size_t k = index();
                E      e = entry(t);
                t.note("edit %zu in place %s", k, str(e).c_str());
                scheduler_entry_t *p = scheduler_get_entry_mut(s.s, k);
                CHECK(t, (p == NULL) == (k >= n), "mutable entry %zu of %zu is %s", k, n, p ? "not NULL" : "NULL");
                if (p) { CHECK(t, same(*p, s.m[k]), "mutable entry %zu is not the stored one", k); *p = raw(e), s.m[k] = e; }
                break;
            }
            case 3: {
                size_t k = index(), from = t.b(1, 6) ? index() : (size_t)t.u(0, n);
                t.note("queries %zu, next enabled from %zu", k, from);
                const scheduler_entry_t *p = scheduler_get_entry(s.s, k);
                CHECK(t, (p == NULL) == (k >= n) && (!p || same(*p, s.m[k])), "entry %zu of %zu is wrong", k, n);
                uint8_t en = scheduler_is_schedule_entry_enabled(s.s, k);
                if (k < n) CHECK(t, (en != 0) == (s.m[k].enabled != 0), "entry %zu enabled: %d", k, en);
                int next = -1, avail = -1;
                for (size_t q = n; q-- > 0;) { if (s.m[q].enabled) { if (q >= from) next = (int)q; } else avail = (int)q; }
                if (scheduler_get_next_enabled_entry) { int r = scheduler_get_next_enabled_entry(s.s, from); CHECK(t, r == next, "next enabled entry from %zu is %d, expected %d", from, r, next); }
                if (scheduler_get_first_available_entry) { int r = scheduler_get_first_available_entry(s.s); CHECK(t, r == avail, "first available entry is %d, expected %d", r, avail); }
                if (scheduler_get_max_schedule_entries) CHECK(t, scheduler_get_max_schedule_entries(s.s) == n, "the number of entries is %zu, expected %zu", scheduler_get_max_schedule_entries(s.s), n);
                if (k < n) { unsigned long d = scheduler_get_entry_duration(p), w = s.m[k].end - s.m[k].start; CHECK(t, d == w, "duration of %s is %lu", str(s.m[k]).c_str(), d); }
                break;
            }
            case 4: case 5: {
                int       wd  = (int)t.u(0, 6);
                uint32_t  sec = second(t);
                size_t    k   = index();
                struct tm tm;
                clock_at(t, tm, wd, sec);
                t.note("durations (entry %zu) and map at day %d second %u", k, wd, sec);
                auto left = [&](const E &e) -> unsigned long { return !active(e, wd, sec) ? 0 : sec >= e.start ? e.end - sec : e.end - DAY - sec; };
                if (scheduler_get_schedule_remaining_duration) {
                    unsigned long r = scheduler_get_schedule_remaining_duration(s.s, k, &tm), w = k < n ? left(s.m[k]) : 0;
                    // in a window of a whole day both readings of "closes" agree; nothing else is ambiguous
                    CHECK(t, r == w, "day %d second %u: remaining duration of entry %zu %s is %lu, expected %lu", wd, sec, k, k < n ? str(s.m[k]).c_str() : "(none)", r, w);
                }
                if (scheduler_get_current_remaining_duration) {
                    int id = scheduler_get_active_entry_number(s.s, &tm);   // which one is C25's subject
                    unsigned long r = scheduler_get_current_remaining_duration(s.s, &tm), w = id >= 0 && id < (int)n ? left(s.m[id]) : 0;
                    CHECK(t, r == w, "day %d second %u: current remaining duration is %lu, expected %lu (entry %d)", wd, sec, r, w, id);
                }
                if (scheduler_get_active_entries_map) {   // the map has a bit for each of the first 16 entries
                    unsigned w = 0, r = scheduler_get_active_entries_map(s.s, &tm);
                    for (size_t q = 0; q < n && q < 16; q++) w |= (unsigned)active(s.m[q], wd, sec) << q;
                    CHECK(t, r == w, "day %d second %u: map of active entries is 0x%x, expected 0x%x", wd, sec, r, w);
                }
                bool on = false, off = false;
                for (auto &e : s.m) {
                    if ((e.days >> wd & 1) && holds(e, sec)) (e.enabled ? on : off) = true;
                    if (active(e, wd, sec) && sec < e.start) night = true;
                }
                both |= on && off;
                break;
            }
            default: CHECK(t, scheduler_get_entry_duration(NULL) == 0, "the duration of no entry is not 0");
        }
        s.all("an operation");
    }
    if (night && both) t.nontrivial();
}
#endif
