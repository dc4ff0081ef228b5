// C06 / C07: circular event log over a model storage, without / with injected storage errors.
#include "pbt.hpp"
#include <cstring>
#include <deque>
#include <unordered_map>
extern "C" {
extern const size_t el_size;
void   el_make(void *slot, size_t next, size_t max, size_t esz, int full, int (*save)(uint8_t *, size_t), int (*load)(uint8_t *, size_t, size_t));
int    el_record(void *l, uint8_t *e);
size_t el_total(void *l);
int    el_load(void *l, uint8_t *e, size_t n, size_t j);
size_t el_max(void *l);
size_t el_esz(void *l);
}
#ifdef FAULTS
const char *pbt_rule = "histories of recordings and window loads on a log of 1..20 events (rarely up to 1500) of 1..9 bytes (rarely up to 1500), new or continued from a stored position (then of up to 2^60 events), with storage errors injected into individual save and load callbacks; non-trivial: a save and a load failed and a later load returned events";
#else
const char *pbt_rule = "histories of recordings and window loads (counts up to SIZE_MAX) on a log of 1..20 events (rarely up to 70000) of 1..9 bytes (rarely up to 70000), new or continued from a stored position (then of up to 2^60 events); non-trivial: the log wrapped around and a non-empty window spanning the end of the storage was loaded";
#endif
static T *g;
static struct {
    size_t               max, esz;
    std::vector<uint8_t> mem;
    std::vector<int>     written;
    size_t               lastpos, saves, loads;
    int                  save_err, load_err, load_err_at, save_is_long;
    const uint8_t       *dst;
    size_t               dstlen;
} S;
static int save(uint8_t *e, size_t pos) {
    S.saves++;
    S.lastpos = pos;
    CHECK(*g, pos < S.max, "an event is saved at position %zu of %zu", pos, S.max);
    if (S.save_err) return S.save_err;
    memcpy(&S.mem[pos * S.esz], e, S.esz);
    S.written[pos] = 1;
    pbt_inside();
    return 0;
}
static int load(uint8_t *e, size_t n, size_t start) {
    S.loads++;
    CHECK(*g, start <= S.max && n <= S.max - start, "events %zu..+%zu are loaded from a storage of %zu", start, n, S.max);
    for (size_t q = 0; q < n; q++) CHECK(*g, S.written[start + q], "position %zu is loaded but was never saved", start + q);
    if (S.load_err && S.load_err_at == (int)S.loads) return S.load_err;
    if (n) {
        CHECK(*g, e >= S.dst && e + n * S.esz <= S.dst + S.dstlen, "events are loaded outside the requested part of the destination");
        memcpy(e, &S.mem[start * S.esz], n * S.esz);
    }
    pbt_inside();
    return (int)n;
}
// A log restored in the middle of its life: too long for its contents to be kept, so each event's bytes follow from its
// serial number and the storage is described by the position the log had reached.
static struct {
    size_t                               max, esz, start;
    bool                                 full;
    uint64_t                             next;
    std::unordered_map<size_t, uint64_t> saved;
    int                                  save_err, load_err, load_err_at;
    unsigned                             saves, loads;
    const uint8_t                       *dst;
    size_t                               dstlen;
} V;
static const uint64_t FIRST = 1ull << 63;   // serial number of the first event recorded here
PBT_PAIR(S, V)
static uint8_t byte(uint64_t id, size_t q) { return (uint8_t)((id * 0x9E3779B97F4A7C15ull) >> (q % 8 * 7)) + (uint8_t)q; }
static int vsave(uint8_t *e, size_t pos) {
    V.saves++;
    CHECK(*g, pos < V.max, "an event is saved at position %zu of %zu", pos, V.max);
    for (size_t q = 0; q < V.esz; q++) CHECK(*g, e[q] == byte(V.next, q), "the storage is asked to save something else than the event");
    if (V.save_err) return V.save_err;
    V.saved[pos] = V.next;
    return 0;
}
static int vload(uint8_t *e, size_t n, size_t start) {
    V.loads++;
    CHECK(*g, start <= V.max && n <= V.max - start, "events %zu..+%zu are loaded from a storage of %zu", start, n, V.max);
    if (n) CHECK(*g, e >= V.dst && n <= V.dstlen / V.esz && e + n * V.esz <= V.dst + V.dstlen, "events are loaded outside the requested part of the destination");
    if (V.load_err && V.load_err_at == (int)V.loads) return V.load_err;
    for (size_t k = 0; k < n; k++) {
        size_t pos = start + k;
        auto   it  = V.saved.find(pos);
        CHECK(*g, it != V.saved.end() || V.full || pos < V.start, "position %zu is loaded but was never saved", pos);
        uint64_t id = it != V.saved.end() ? it->second : pos < V.start ? FIRST - (V.start - pos) : FIRST - V.start - (V.max - pos);
        for (size_t q = 0; q < V.esz; q++) e[k * V.esz + q] = byte(id, q);
    }
    return (int)n;
}
static void restored(T &t) {
    V     = {};
    V.esz = t.u(1, 12);
    V.max = t.pick({1, 1}) ? t.u(1, 300) : t.u(1, SIZE_MAX / 16);
    V.full  = t.b(3, 4);
    V.start = t.pick({2, 1, 1}) == 0 ? t.u(0, V.max - 1) : t.draws() & 1 ? V.max - 1 - t.u(0, std::min<size_t>(V.max - 1, 20)) : t.u(0, std::min<size_t>(V.max - 1, 20));
    V.next  = FIRST;
    Buf log(el_size);
    el_make(log.p, V.start, V.max, V.esz, V.full, vsave, vload);
    t.note("log of %zu events of %zu bytes continued at position %zu%s", V.max, V.esz, V.start, V.full ? ", full" : "");
    t.label("continued log");
    size_t count   = V.full ? V.max : V.start;
    bool   spanned = false, wrapped = false, sfail = false, lfail = false, after = false;
    while (t.more(12)) {
        Span s(t);
        bool fault = false;
        if (t.pick({3, 2}) == 0) {
            unsigned k = t.b(1, 6) ? (unsigned)t.u(1, 60) : 1;
            while (k--) {
#ifdef FAULTS
                fault = t.b(1, 4);
#endif
                Buf e(V.esz);
                for (size_t q = 0; q < V.esz; q++) e.p[q] = byte(V.next, q);
                V.saves    = 0;
                V.save_err = fault ? (int)t.i(-200, 200) : 0;
                if (fault && !V.save_err) V.save_err = 1;
                int r = el_record(log.p, e.p);
                t.note("record -> %d", r);
                CHECK(t, V.saves == 1, "recording calls the storage %u times", V.saves);
                CHECK(t, r == V.save_err, "recording answers %d when the storage answers %d", r, V.save_err);
                if (fault) { sfail = true; continue; }
                V.next++;
                if (count < V.max) count++;
                else wrapped = true;
            }
        } else {
            size_t n = t.b(1, 12) ? SIZE_MAX - t.u(0, 9) : t.u(0, 70), j;
            switch (t.pick({3, 2, 2, 1})) {
                case 0: j = t.u(0, 200); break;
                case 1: j = t.u(0, count); break;
                case 2: j = count - std::min<size_t>(count, t.u(0, 80)); break;
                default: j = V.next - FIRST + V.start >= 35 ? V.next - FIRST + V.start - t.u(0, 35) : t.u(0, 10);   // around the end of the storage
            }
            size_t len = j >= count ? 0 : std::min(n, count - j);
            if (len > 300) n = t.u(0, 70), len = std::min(n, count - j);
            Buf dst(len * V.esz);
            V.dst    = dst.p;
            V.dstlen = dst.n;
            V.loads  = 0;
            V.load_err = 0;
#ifdef FAULTS
            V.load_err_at = t.pick({3, 2, 2});
            fault         = V.load_err_at > 0;
            if (fault) V.load_err = (int)t.i(-300, -1);
#endif
            int r = el_load(log.p, dst.p, n, j);
            t.note("load last %zu skipping %zu (%zu recorded)%s -> %d", n, j, count, fault ? V.load_err_at == 1 ? " first load fails" : " second load fails" : "", r);
            if (fault && (int)V.loads >= V.load_err_at) {
                CHECK(t, r == V.load_err, "load answers %d when the storage answers %d", r, V.load_err);
                lfail = true;
            } else {
                CHECK(t, r == (int)len, "load answers %d instead of %zu", r, len);
                for (size_t k = 0; k < len; k++)
                    for (size_t q = 0; q < V.esz; q++) CHECK(t, dst.p[k * V.esz + q] == byte(V.next - j - len + k, q), "event %zu of the window is wrong", k);
                if (V.loads > 1 && len) spanned = true;
                if (len && sfail && lfail) after = true;
            }
        }
        CHECK(t, el_total(log.p) == count, "total is %zu, %zu events are recorded", el_total(log.p), count);
    }
    if (spanned) t.label("window spans the end of the storage");
#ifdef FAULTS
    if (after) t.nontrivial();
#else
    (void)after;
    if (wrapped && spanned) t.nontrivial();
#endif
}
void property(T &t) {
    g     = &t;
    S     = {};
    if (t.b(1, 4)) return restored(t);
#ifdef FAULTS
    const size_t LIM = 1500;
#else
    const size_t LIM = 70000;
#endif
    bool huge = false;
    switch (t.pick({2000, 60, 3, 4})) {
        case 0: S.max = t.u(1, 20), S.esz = t.u(1, 9); break;
        case 1: S.max = t.u(21, 400), S.esz = t.u(1, 9); break;
        case 2: S.max = t.u(401, LIM), S.esz = 1 + (S.max < 20000) * t.u(0, 7), huge = true; t.label("log of more than 400 events"); break;
        default: S.max = t.u(1, 4), S.esz = t.u(10, LIM), huge = true; t.label("events of more than 9 bytes");
    }
    unsigned big = 0;
    S.mem.resize(S.max * S.esz);
    S.written.assign(S.max, 0);
    Buf log(el_size);
    el_make(log.p, 0, S.max, S.esz, 0, save, load);
    t.note("log of %zu events of %zu bytes", S.max, S.esz);
    std::deque<std::vector<uint8_t>> m;
    uint32_t                         seq = 0;
    bool                             wrapped = false, spanned = false, sfail = false, lfail = false, after = false;
    auto record = [&](bool fault, bool quiet) {
        Buf e(S.esz);
        seq++;
        for (size_t q = 0; q < S.esz; q++) e.p[q] = (uint8_t)((seq * 2654435761u) >> (q % 4 * 8)) + q;
        std::vector<uint8_t> v(e.p, e.p + S.esz);
        S.saves    = 0;
        S.save_err = fault ? (int)t.i(-200, 200) : 0;
        if (fault && !S.save_err) S.save_err = -1;
        int r = el_record(log.p, e.p);
        if (!quiet) t.note("record event %u -> %d%s", seq, r, fault ? " (save failed)" : "");
        CHECK(t, S.saves == 1, "recording calls the storage %zu times", S.saves);
        CHECK(t, r == S.save_err, "recording answers %d when the storage answers %d", r, S.save_err);
        CHECK(t, !memcmp(e.p, v.data(), S.esz), "recording modifies the event");
        if (!fault) {
            m.push_back(v);
            if (m.size() > S.max) m.pop_front(), wrapped = true;
        } else sfail = true;
    };
    auto window = [&](size_t n, size_t j, int fault) {
        size_t len = j >= m.size() ? 0 : std::min(n, m.size() - j);
        Buf    dst(len * S.esz);
        std::vector<uint8_t> before(dst.p, dst.p + dst.n);
        S.dst      = dst.p;
        S.dstlen   = dst.n;
        S.loads    = 0;
        S.load_err = fault ? (int)t.i(-300, -1) : 0;
        S.load_err_at = fault;
        t.note("load last %zu skipping %zu (%zu recorded)%s", n, j, m.size(), fault ? fault == 1 ? " first load fails" : " second load fails" : "");
        int r = el_load(log.p, dst.p, n, j);
        t.note("  -> %d", r);
        if (fault && (int)S.loads >= fault) {
            CHECK(t, r < 0, "load answers %d although the storage failed", r);
            CHECK(t, r == S.load_err, "load answers %d when the storage answers %d", r, S.load_err);
            lfail = true;
        } else {
            CHECK(t, r == (int)len, "load answers %d instead of %zu", r, len);
            for (size_t q = 0; q < len; q++)
                CHECK(t, !memcmp(dst.p + q * S.esz, m[m.size() - j - len + q].data(), S.esz), "event %zu of the window is wrong", q);
            if (S.loads > 1 && len) spanned = true;
            if (len && sfail && lfail) after = true;
        }
    };
    while (t.more(14)) {
        Span s(t);
        switch (t.pick({10, 3, 12, 1})) {
            case 0:
#ifdef FAULTS
                record(t.b(1, 4), false);
#else
                record(false, false);
#endif
                break;
            case 1: {
                if (huge && big++ > 3) break;
                size_t k = t.u(0, S.max + 2);
                t.note("record %zu events", k);
                while (k--) record(false, true);
                break;
            }
            case 2: {
                size_t n, j;
                switch (t.pick({6, 2, 2, 1})) {
                    case 0: n = t.u(0, S.max + 3); break;
                    case 1: n = m.size(); break;
                    case 2: n = m.size() + t.u(0, 2); break;
                    default: n = SIZE_MAX - t.u(0, 40);
                }
                switch (t.pick({6, 2, 2, 1})) {
                    case 0: j = t.u(0, S.max + 3); break;
                    case 1: j = 0; break;
                    case 2: j = m.size() > n ? m.size() - n : m.size(); break;
                    default: j = SIZE_MAX - t.u(0, 40);
                }
#ifdef FAULTS
                window(n, j, t.pick({3, 2, 2}));
#else
                window(n, j, 0);
#endif
                break;
            }
            default: window(S.max, 0, 0);
        }
        CHECK(t, el_total(log.p) == m.size(), "total is %zu, %zu events are recorded", el_total(log.p), m.size());
    }
    window(S.max, 0, 0);
    window(1, 0, 0);
    CHECK(t, el_max(log.p) == S.max && el_esz(log.p) == S.esz, "the configuration of the log changed");
    if (wrapped) t.label("wrapped");
    if (spanned) t.label("window spans the end of the storage");
#ifdef FAULTS
    if (sfail) t.label("save failed");
    if (lfail) t.label("load failed");
    if (after) t.nontrivial();
#else
    if (wrapped && spanned) t.nontrivial();
#endif
}
