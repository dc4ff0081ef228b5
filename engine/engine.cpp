#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#include <malloc.h>
#include <ucontext.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#endif

typedef uint64_t u64;
typedef std::vector<u64> Tape;

static const size_t MAXDRAWS = 1u << 17;
static const size_t MSGMAX   = 4096;
static const size_t TEXTMAX  = 1u << 18;

enum { ST_RUN = 0, ST_OK = 1, ST_FAIL = 2, ST_DISCARD = 3, ST_HANG = 4 };
enum { EX_FAIL = 71, EX_HANG = 72, EX_DISCARD = 73, EX_ASAN = 86 };

struct Shm {
    volatile int status;
    volatile u64 stop_case;        // workers stop when their case number exceeds this
    u64          case_no;
    u64          done;             // cases completed
    u64          ndraws;
    u64          tape[MAXDRAWS];
    char         msg[MSGMAX];
    char         text[TEXTMAX];
    size_t       textlen;
};
static Shm *shm;                   // of this process
// ring of the cases a worker completed last: count, then (length, values) records laid end to end
static const u64 HISTWORDS = 1u << 20;
struct Hist { u64 n, first, at[1u << 14], len[1u << 14], next, words[HISTWORDS]; };
static Hist *hist;
static volatile u64 *g_stop;       // shared by all workers

// ------------------------------------------------------------------ rng
struct Rng {
    u64 s[4];
    static u64 sm(u64 &x) { u64 z = (x += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    void seed(u64 a, u64 b, u64 c) { u64 x = a * 0x9E3779B97F4A7C15ull ^ b * 0xD1B54A32D192ED03ull ^ c * 0xABC98388FB8FAC03ull; for (auto &v : s) v = sm(x); }
    static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
    u64 next() { u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    u64 range(u64 n) { return n == 0 ? 0 : (u64)(((unsigned __int128)next() * n) >> 64); }   // [0,n)
    u64 upto(u64 n) { return n == ~0ull ? next() : range(n + 1); }                            // [0,n]
};

// ------------------------------------------------------------------ coverage
static const unsigned MAPSZ = 1u << 16;
static uint8_t        cov_map[MAPSZ];
static u64            cov_touched[1u << 14];
static unsigned       cov_ntouched;
static uintptr_t      cov_prev;
static bool           cov_on;
static u64            fuel_left = ~0ull;
static u64            cov_blocks;          // executed by this case
static uint8_t        cov_global[MAPSZ];   // bucket bits seen so far by this worker
static unsigned       cov_edges;
static const unsigned DICT = 512;
static u64            dict[DICT];
static unsigned       dict_n, dict_w;
static uint8_t        dict_seen[1u << 14];
extern char           __executable_start;

__attribute__((noinline)) static void out_of_fuel() {
    shm->status = ST_HANG;
    snprintf(shm->msg, MSGMAX, "the code under test does not terminate (basic-block budget exhausted)");
    _exit(EX_HANG);
}
static inline void cov_hit(unsigned idx) {
    if (cov_map[idx] == 0 && cov_ntouched < sizeof(cov_touched) / sizeof(*cov_touched)) cov_touched[cov_ntouched++] = idx;
    if (cov_map[idx] != 255) cov_map[idx]++;
}
static void dict_add(u64 v) {
    // keep out anything that looks like a pointer: address randomisation must not influence the search
    u64 a = (int64_t)v < 0 ? ~v : v;
    if (a >> 40) return;
    unsigned h = (unsigned)((v * 0x9E3779B97F4A7C15ull) >> 50);
    if (dict_seen[h]) return;
    dict_seen[h] = 1;
    dict[dict_w] = v;
    dict_w = (dict_w + 1) % DICT;
    if (dict_n < DICT) dict_n++;
    else dict_seen[(unsigned)((dict[dict_w] * 0x9E3779B97F4A7C15ull) >> 50)] = 0;
}
extern "C" {
void __sanitizer_cov_trace_pc(void) {
    if (!cov_on) return;
    if (fuel_left-- == 0) out_of_fuel();
    cov_blocks++;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0) - (uintptr_t)&__executable_start;
    pc = (pc >> 1) * 0x9E3779B1u;
    cov_hit((unsigned)((pc ^ cov_prev) >> 8) & (MAPSZ - 1));
    cov_prev = pc >> 3;
}
#define CMP(N, TY) void N(TY a, TY b) { if (cov_on && a != b) { dict_add((u64)(int64_t)a); dict_add((u64)(int64_t)b); } }
CMP(__sanitizer_cov_trace_cmp1, int8_t)
CMP(__sanitizer_cov_trace_cmp2, int16_t)
CMP(__sanitizer_cov_trace_cmp4, int32_t)
CMP(__sanitizer_cov_trace_cmp8, int64_t)
CMP(__sanitizer_cov_trace_const_cmp1, int8_t)
CMP(__sanitizer_cov_trace_const_cmp2, int16_t)
CMP(__sanitizer_cov_trace_const_cmp4, int32_t)
CMP(__sanitizer_cov_trace_const_cmp8, int64_t)
void __sanitizer_cov_trace_cmpf(float, float) {}
void __sanitizer_cov_trace_cmpd(double, double) {}
void __sanitizer_cov_trace_switch(u64 v, u64 *cases) { if (cov_on) { dict_add(v); for (u64 k = 0; k < cases[0] && k < 16; k++) dict_add(cases[2 + k]); } }
__attribute__((used, visibility("default"))) const char *__asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:exitcode=86:symbolize=0:quarantine_size_mb=8:malloc_context_size=4:detect_stack_use_after_return=0:handle_abort=0:max_allocation_size_mb=512";
}
__attribute__((used, visibility("default"))) const char *__ubsan_default_options() { return "exitcode=86:print_stacktrace=0:symbolize=0"; }
}

// ------------------------------------------------------------------ case state
struct SpanRec { u64 b, e; };
static T                     g_t;
static Rng                   g_rng;
static bool                  g_replay;        // draws come from g_src, zero afterwards
static bool                  g_mutate;        // draws come from g_src, but some are drawn afresh
static unsigned              g_mut_den;
static Tape                  g_src;
static u64                   g_pos;
static u64                   g_nd;
static unsigned              g_mode;
static bool                  g_render;
static bool                  g_nontrivial;
static std::vector<SpanRec>  g_spans;
static std::vector<u64>      g_open;
static std::set<std::string> g_labels;
static std::vector<u64>      g_recent;
static const u64             FUEL = 30000000ull;

static u64 gen(u64 lo, u64 n, bool mixed) {   // n = hi - lo ; returns offset in [0,n]
    if (!mixed || n == 0) return g_rng.upto(n);
    u64 k = g_rng.range(100);
    // profile of the case (swarm): shifts the mix
    unsigned small = 22, top = 12, lg = 18, dct = 14, rec = 6;
    switch (g_mode) {
        case 0: break;
        case 1: small = 60; top = 5; lg = 5; dct = 10; break;
        case 2: small = 5; top = 5; lg = 5; dct = 5; rec = 2; break;
        case 3: small = 25; top = 40; lg = 10; dct = 10; break;
        case 4: dct = 50; rec = 15; small = 15; lg = 5; top = 5; break;
        case 5: lg = 60; small = 10; top = 10; dct = 10; break;
    }
    if (k < small) return g_rng.upto(std::min<u64>(n, g_rng.range(4) ? 3 : 16));
    k -= small;
    if (k < top) return n - g_rng.upto(std::min<u64>(n, g_rng.range(3) ? 2 : 16));
    k -= top;
    if (k < lg) {
        unsigned bits = 64 - __builtin_clzll(n);
        unsigned b    = (unsigned)g_rng.range(bits + 1);
        u64      v    = b >= 64 ? g_rng.next() : (g_rng.next() & ((1ull << b) - 1));
        unsigned c    = (unsigned)g_rng.range(4);
        if (c == 0 && b < 64) v = (1ull << b);
        if (c == 1 && b < 64) v = (1ull << b) - 1;
        return v > n ? g_rng.upto(n) : v;
    }
    k -= lg;
    if (k < dct && dict_n) {
        u64 v = dict[g_rng.range(dict_n)] + g_rng.range(3) - 1;
        if (v - lo <= n) return v - lo;
        // as a narrower value
        v = (u64)(uint32_t)v;
        if (v - lo <= n) return v - lo;
        return g_rng.upto(n);
    }
    if (k >= dct) {
        k -= dct;
        if (k < rec && !g_recent.empty()) {
            u64 v = g_recent[g_rng.range(g_recent.size())] + (g_rng.range(2) ? 0 : g_rng.range(3) - 1);
            if (v <= n) return v;
        }
    }
    return g_rng.upto(n);
}

static u64 draw(u64 lo, u64 n, bool mixed) {
    u64 v;
    if (g_nd >= MAXDRAWS) g_t.discard();
    if (g_replay) {
        v = g_pos < g_src.size() ? g_src[g_pos] : 0;
        g_pos++;
        if (v > n) v = n == ~0ull ? v : v % (n + 1);
    } else if (g_mutate && g_pos < g_src.size()) {
        v = g_src[g_pos++];
        if (v > n) v = v % (n + 1);
        if (g_rng.range(g_mut_den) == 0) {
            switch (g_rng.range(4)) {
                case 0: v = v > 0 ? v - 1 : 0; break;
                case 1: v = v < n ? v + 1 : n; break;
                default: v = gen(lo, n, mixed);
            }
        }
    } else
        v = gen(lo, n, mixed);
    shm->tape[g_nd++] = v;
    shm->ndraws       = g_nd;
    if (mixed && !g_replay) {
        if (g_recent.size() < 16) g_recent.push_back(v);
        else g_recent[g_nd & 15] = v;
    }
    return v;
}

uint64_t T::u(uint64_t lo, uint64_t hi) { bool c = cov_on; cov_on = false; u64 r = lo + draw(lo, hi - lo, true); cov_on = c; return r; }
uint64_t T::uni(uint64_t lo, uint64_t hi) { return lo + draw(lo, hi - lo, false); }
int64_t  T::i(int64_t lo, int64_t hi) {
    // zigzag around the in-range value nearest to zero
    int64_t o  = lo > 0 ? lo : hi < 0 ? hi : 0;
    u64     up = (u64)hi - (u64)o, dn = (u64)o - (u64)lo, n = (u64)hi - (u64)lo, m = std::min(up, dn);
    u64     z;
    if (g_replay || (g_mutate && g_pos < g_src.size())) z = draw(0, n, true);
    else {
        // generate in value space, then encode
        u64 v;
        if (g_rng.range(3) == 0) v = (u64)lo + gen((u64)lo, n, true);
        else if (dn == 0 || (up != 0 && g_rng.range(2))) v = (u64)o + gen((u64)o, up, true);
        else v = (u64)o - gen(0, dn, true);
        if (dict_n && g_rng.range(8) == 0) {
            u64 d = dict[g_rng.range(dict_n)] + g_rng.range(3) - 1;
            if ((int64_t)d >= lo && (int64_t)d <= hi) v = d;
        }
        int64_t sv = (int64_t)v;
        u64     du = sv >= o ? (u64)sv - (u64)o : 0, dd = sv < o ? (u64)o - (u64)sv : 0;
        if (sv >= o) z = du <= m ? 2 * du : du + m;
        else z = dd <= m ? 2 * dd - 1 : dd + m;
        if (g_nd >= MAXDRAWS) discard();
        shm->tape[g_nd++] = z;
        shm->ndraws       = g_nd;
    }
    // decode
    if (z <= 2 * m) return (z & 1) ? (int64_t)((u64)o - (z + 1) / 2) : (int64_t)((u64)o + z / 2);
    return up > dn ? (int64_t)((u64)o + (z - m)) : (int64_t)((u64)o - (z - m));
}
static const u64 RARE = 0x52415245;   // an odd word that nothing else draws
bool T::b(unsigned num, unsigned den) {
    // value 0 = false
    if (num == 0) return false;
    if (num >= den) return true;
    bool rare = num == 1 && den >= 256;   // stays rare under mutation: such branches are costly
    if (g_replay || (g_mutate && g_pos < g_src.size() && !rare)) return draw(0, 1, false) != 0;
    u64 v = g_rng.range(den) < num;
    if (g_mutate && g_pos < g_src.size()) v |= g_src[g_pos++] == RARE;
    if (rare && v) v = RARE;
    if (g_nd >= MAXDRAWS) discard();
    shm->tape[g_nd++] = v;
    shm->ndraws       = g_nd;
    return v;
}
unsigned T::pick(std::initializer_list<unsigned> w) {
    if (g_replay || (g_mutate && g_pos < g_src.size())) {
        unsigned r = (unsigned)draw(0, w.size() - 1, false);
        unsigned k = r;
        while (w.begin()[k] == 0) k = (k + 1) % w.size();
        return k;
    }
    unsigned sum = 0, k = 0;
    for (unsigned x : w) sum += x;
    unsigned r = (unsigned)g_rng.range(sum);
    for (unsigned x : w) {
        if (r < x) break;
        r -= x;
        k++;
    }
    if (g_nd >= MAXDRAWS) discard();
    shm->tape[g_nd++] = k;
    shm->ndraws       = g_nd;
    return k;
}
bool T::more(unsigned avg) { return b(avg, avg + 1); }
struct DiscardEx {};
// ---- two instances at once: the property runs twice, as coroutines that take turns between operations
static struct {
    bool        on, b_turn, a_done, b_done, abandon, nested;
    size_t      base;   // open spans of the instance that waits inside a callback
    ucontext_t  a, b;
    const void *a_bottom;
    size_t      a_size;
} g_pair;
static const size_t PAIRSTACK = 4u << 20;
static char        *pair_stack;
static void pair_switch(bool last) {
    bool c = cov_on;
    cov_on = false;
    g_pair.b_turn = !g_pair.b_turn;
    pbt_swap_state();
    bool to_b = g_pair.b_turn;
#if defined(__SANITIZE_ADDRESS__)
    void *fake = nullptr;
    __sanitizer_start_switch_fiber(last ? nullptr : &fake, to_b ? pair_stack : g_pair.a_bottom, to_b ? PAIRSTACK : g_pair.a_size);
#else
    (void)last;
#endif
    swapcontext(to_b ? &g_pair.a : &g_pair.b, to_b ? &g_pair.b : &g_pair.a);
#if defined(__SANITIZE_ADDRESS__)
    const void *ob; size_t os;
    __sanitizer_finish_switch_fiber(fake, &ob, &os);
#endif
    cov_on = c;
}
static void pair_b() {
#if defined(__SANITIZE_ADDRESS__)
    __sanitizer_finish_switch_fiber(nullptr, &g_pair.a_bottom, &g_pair.a_size);
#endif
    cov_on = true;
    try {
        property(g_t);
    } catch (DiscardEx &) { g_pair.abandon = true; }
    cov_on        = false;
    g_pair.b_done = true;
    pair_switch(true);
}
static void run_pair() {
    g_t.label("two instances interleaved");
    if (!pair_stack) pair_stack = (char *)mmap(0, PAIRSTACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    g_pair.on = true;
    g_pair.b_turn = g_pair.a_done = g_pair.b_done = g_pair.abandon = g_pair.nested = false;
    g_pair.base = 0;
    getcontext(&g_pair.b);
    g_pair.b.uc_stack.ss_sp   = pair_stack;
    g_pair.b.uc_stack.ss_size = PAIRSTACK;
    g_pair.b.uc_link          = nullptr;
    makecontext(&g_pair.b, pair_b, 0);
    try {
        property(g_t);
    } catch (DiscardEx &) { g_pair.abandon = true; }
    g_pair.a_done = true;
    bool c = cov_on;
    // the second instance has to end too (it may not have started)
    if (g_pair.abandon && !g_open.empty()) g_open.clear();
    while (!g_pair.b_done) {
        pair_switch(false);
    }
    cov_on    = c;
    g_pair.on = false;
    if (g_pair.abandon) throw DiscardEx();
}
void T::begin() {
    if (g_pair.on && g_open.size() <= g_pair.base) {
        if (g_pair.b_turn ? !g_pair.a_done : !g_pair.b_done) {
            if (b(1, 3)) pair_switch(false);
        }
        if (g_pair.abandon) throw DiscardEx();
    }
    g_open.push_back(g_nd);
}
void pbt_inside() {
    if (!g_pair.on || g_pair.nested || g_pair.abandon || (g_pair.b_turn ? g_pair.a_done : g_pair.b_done)) return;
    bool c = cov_on;
    cov_on = false;
    if (g_t.b(1, 4)) {
        g_t.label("an instance used inside a callback of another");
        g_pair.nested = true;
        g_pair.base   = g_open.size();
        pair_switch(false);
        g_pair.base   = 0;
        g_pair.nested = false;
    }
    cov_on = c;
}
void T::end() {
    if (g_open.empty()) return;
    g_spans.push_back({g_open.back(), g_nd});
    g_open.pop_back();
}
bool   T::rendering() const { return g_render; }
size_t T::draws() const { return g_nd; }
void   T::note(const char *fmt, ...) {
    if (!g_render || shm->textlen + 600 > TEXTMAX) return;
    bool c = cov_on; cov_on = false;
    va_list ap;
    va_start(ap, fmt);
    if (g_pair.on) shm->text[shm->textlen++] = g_pair.b_turn ? 'B' : 'A', shm->text[shm->textlen++] = ':', shm->text[shm->textlen++] = ' ';
    int n = vsnprintf(shm->text + shm->textlen, 512, fmt, ap);
    va_end(ap);
    if (n > 511) n = 511;
    shm->textlen += n;
    shm->text[shm->textlen++] = '\n';
    shm->text[shm->textlen]   = 0;
    cov_on = c;
}
static std::map<const char *, std::string> g_lcache;
static std::set<const char *> g_lseen;
void T::label(const char *name) { if (g_lseen.insert(name).second) g_labels.insert(name); }
void T::nontrivial() { g_nontrivial = true; }
void T::feature(uint64_t f) {
    cov_hit((unsigned)((f * 0x9E3779B97F4A7C15ull) >> 48) & (MAPSZ - 1));
}
void T::fuel(uint64_t n) { fuel_left = n; }
void T::fail(const char *fmt, ...) {
    cov_on = false;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(shm->msg, MSGMAX, fmt, ap);
    va_end(ap);
    shm->status = ST_FAIL;
    _exit(EX_FAIL);
}
void T::discard() { throw DiscardEx(); }

std::string hex(const void *p, size_t n) {
    std::string s;
    char        b[4];
    for (size_t k = 0; k < n && k < 64; k++) {
        snprintf(b, sizeof b, "%02x", ((const uint8_t *)p)[k]);
        s += b;
    }
    if (n > 64) s += "...";
    return s;
}
Buf::Buf(size_t n_, int fill) : n(n_) { p = (uint8_t *)malloc(n ? n : 1); memset(p, fill, n); }
Buf::~Buf() { free(p); }
void poison(T &t, void *p, size_t n) {
    unsigned k = t.pick({4, 1, 1, 1, 1});
    static const uint8_t pat[] = {0xA5, 0xFF, 0x00, 0x01, 0x7F};
    memset(p, pat[k], n);
}

// returns false when discarded
static bool run_case() {
    g_nd = g_pos = 0;
    shm->ndraws  = 0;
    shm->status  = ST_RUN;
    shm->msg[0]  = 0;
    g_spans.clear();
    g_open.clear();
    g_labels.clear();
    g_lseen.clear();
    g_recent.clear();
    g_nontrivial = false;
    for (unsigned k = 0; k < cov_ntouched; k++) cov_map[cov_touched[k]] = 0;
    cov_ntouched = 0;
    cov_prev     = 0;
    fuel_left    = FUEL;
    bool ok      = true;
    cov_on       = true;
    try {
        if (pbt_swap_state && g_t.b(1, 8)) run_pair();
        else property(g_t);
    } catch (DiscardEx &) { ok = false; }
    g_pair.on   = false;
    cov_on      = false;
    shm->status = ok ? ST_OK : ST_DISCARD;
    return ok;
}

static u64 hash_tape() {
    u64 h = 0xcbf29ce484222325ull;
    for (u64 k = 0; k < g_nd; k++) { h ^= shm->tape[k]; h *= 0x100000001b3ull; h ^= h >> 29; }
    return h;
}
static unsigned bucket(uint8_t c) { return c == 1 ? 1 : c == 2 ? 2 : c == 3 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }

struct Entry { Tape tape; std::vector<SpanRec> spans; u64 cost; };

static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

struct Opts { u64 salt = 0, seed = 1, cases = 1000; unsigned workers = 8; double maxsec = 300; std::string out, fail, replay, corpusdir, tmp = "/tmp"; std::vector<std::string> replays; u64 maxshrink = 3000; bool render = false; };

static bool mutate(const std::vector<Entry> &corpus, u64 usual) {
    auto pick = [&]() { return g_rng.range(4) ? corpus.size() - 1 - g_rng.range(std::min<u64>(corpus.size(), 32)) : g_rng.range(corpus.size()); };
    u64  b    = pick();
    // cases many times longer than usual are followed up in proportion
    for (int k = 0; g_rng.range(corpus[b].cost + 1) > 8 * usual; k++) {
        if (k == 12) return false;
        b = pick();
    }
    const Entry &e = corpus[b];
    g_src          = e.tape;
    unsigned n     = (unsigned)g_rng.range(3);
    static const unsigned dens[] = {4, 10, 30, 100, 1000};
    g_mut_den = dens[g_rng.range(5)];
    if (n == 0 && g_mut_den == 1000) n = 1;
    for (unsigned k = 0; k < n && !e.spans.empty() && g_src.size() < 4000; k++) {
        const Entry   &f = g_rng.range(2) ? e : corpus[g_rng.range(corpus.size())];
        const SpanRec &s = e.spans[g_rng.range(e.spans.size())];
        u64            at = std::min<u64>(s.b, g_src.size());
        switch (g_rng.range(4)) {
            case 0: {   // delete span
                u64 to = std::min<u64>(s.e, g_src.size());
                if (to > at) g_src.erase(g_src.begin() + at, g_src.begin() + to);
                break;
            }
            case 3: {   // repeat a span several times
                if (s.e <= e.tape.size() && s.e > s.b && s.e - s.b < 200) {
                    std::vector<u64> c;
                    unsigned         r = 1 + (unsigned)g_rng.range(12);
                    for (unsigned q = 0; q < r; q++) c.insert(c.end(), e.tape.begin() + s.b, e.tape.begin() + s.e);
                    g_src.insert(g_src.begin() + at, c.begin(), c.end());
                }
                break;
            }
            default:
                if (!f.spans.empty()) {   // insert a span of the same or another tape
                    const SpanRec &q = f.spans[g_rng.range(f.spans.size())];
                    if (q.e <= f.tape.size() && q.e > q.b) {
                        std::vector<u64> c(f.tape.begin() + q.b, f.tape.begin() + q.e);
                        g_src.insert(g_src.begin() + at, c.begin(), c.end());
                    }
                }
        }
    }
    return true;
}

static void remember() {
    if (!hist || g_nd > HISTWORDS / 4) return;
    const u64 M = 1u << 14;
    if (hist->next + g_nd > HISTWORDS) hist->next = 0;
    u64 lo = hist->next, hi = lo + g_nd;
    // forget the records this one overwrites
    while (hist->n > hist->first) {
        u64 k = hist->first % M;
        bool clash = hist->at[k] < hi && hist->at[k] + hist->len[k] > lo;
        if (!clash && hist->n - hist->first < M) break;
        hist->first++;
    }
    std::copy(shm->tape, shm->tape + g_nd, hist->words + lo);
    hist->at[hist->n % M]  = lo;
    hist->len[hist->n % M] = g_nd;
    hist->n++;
    hist->next = hi;
}

static void worker(const Opts &o, unsigned w) {
    double                      t0 = now();
    std::vector<Entry>          corpus;
    std::vector<u64>            hashes;
    std::unordered_set<u64>     hs;
    std::map<std::string, u64>  labels;
    std::vector<std::pair<u64, Tape>> samples;
    u64                         total = 0, discards = 0, nontriv = 0, share = o.cases / o.workers + (w < o.cases % o.workers);
    bool                        timedout = false;
    u64                         draws    = 0, fresh_cases = 0, fresh_blocks = 0;
    for (u64 c = 0; c < share; c++) {
        shm->case_no = c;
        if (c > *g_stop) break;
        if ((c & 63) == 0 && now() - t0 > o.maxsec) { timedout = true; break; }
        g_rng.seed(o.seed, (w + 1) + (o.salt << 8), c);
        g_mode   = (unsigned)g_rng.range(8);
        g_replay = g_mutate = false;
        if (!corpus.empty() && c > 200 && g_rng.range(2)) {
            g_mutate = mutate(corpus, fresh_blocks / (fresh_cases + 1) + 50);
        }
        cov_blocks = 0;
        bool ok = run_case();
        if (!g_mutate) fresh_cases++, fresh_blocks += cov_blocks;
        remember();
        total++;
        shm->done = total;
        draws += g_nd;
        if (!ok) { discards++; continue; }
        for (auto &l : g_labels) labels[l]++;
        if (g_nontrivial) {
            nontriv++;
            u64 h = hash_tape();
            if (hs.size() < 4000000) hs.insert(h);
            if (w == 0 && samples.size() < 6 && (nontriv == 1 || nontriv == 5 || nontriv == 20 || nontriv == 100 || nontriv == 500 || nontriv == 2000)) samples.push_back({c, Tape(shm->tape, shm->tape + g_nd)});
        }
        bool fresh = false;
        for (unsigned k = 0; k < cov_ntouched; k++) {
            unsigned idx = cov_touched[k], bk = bucket(cov_map[idx]);
            if (!(cov_global[idx] & bk)) {
                if (!cov_global[idx]) cov_edges++;
                cov_global[idx] |= bk;
                fresh = true;
            }
        }
        if (fresh && g_nd < 6000) {
            corpus.push_back({Tape(shm->tape, shm->tape + g_nd), g_spans, cov_blocks});
            if (corpus.size() > 1500) corpus.erase(corpus.begin() + g_rng.range(corpus.size() / 2));
        }
    }
    if (o.out == "none") { fflush(0); _exit(0); }
    // report
    std::string p = o.tmp + "/w" + std::to_string(w);
    FILE       *f = fopen((p + ".hash").c_str(), "wb");
    for (u64 h : hs) fwrite(&h, 8, 1, f);
    fclose(f);
    f = fopen((p + ".txt").c_str(), "w");
    fprintf(f, "%lu %lu %lu %u %zu %d %lu\n", total, discards, nontriv, cov_edges, corpus.size(), (int)timedout, draws);
    for (auto &l : labels) fprintf(f, "L %lu %s\n", l.second, l.first.c_str());
    for (auto &s : samples) {
        fprintf(f, "S %lu %zu", s.first, s.second.size());
        for (u64 v : s.second) fprintf(f, " %lu", v);
        fprintf(f, "\n");
    }
    fclose(f);
    shm->status = ST_OK;
    fflush(0);
    _exit(0);
}

// Run one tape in a child. Returns status class: 0 ok, 1 fail, 2 discard
struct Res { int st; std::string msg, text; Tape tape; std::vector<SpanRec> spans; };
static Shm     *child_shm;
static SpanRec *span_shm;
static u64     *span_n;
static const u64 MAXSPANS = 1u << 16;

static Res run_tapes(const std::vector<Tape> &tps, bool render, bool quiet) {
    Res r;
    shm          = child_shm;
    shm->textlen = 0;
    shm->text[0] = 0;
    shm->ndraws  = 0;
    shm->status  = ST_RUN;
    shm->msg[0]  = 0;
    *span_n      = 0;
    int errfd    = -1;
    char tmpl[]  = "/tmp/pbterrXXXXXX";
    if (!quiet) { errfd = mkstemp(tmpl); unlink(tmpl); }
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = quiet ? open("/dev/null", O_WRONLY) : errfd;
        dup2(fd, 2);
        dup2(fd, 1);
        g_replay = true;
        g_mutate = false;
        g_render = render;
        bool ok  = true;
        for (size_t k = 0; k < tps.size(); k++) {
            if (tps.size() > 1) g_t.note("== case %zu of %zu in one process", k + 1, tps.size());
            g_src = tps[k];
            ok    = run_case();
        }
        if (g_spans.size() <= MAXSPANS) {
            std::copy(g_spans.begin(), g_spans.end(), span_shm);
            *span_n = g_spans.size();
        }
        _exit(ok ? 0 : EX_DISCARD);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    r.tape.assign(shm->tape, shm->tape + std::min<u64>(shm->ndraws, MAXDRAWS));
    r.text.assign(shm->text, shm->textlen);
    r.msg = shm->msg;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) r.st = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == EX_DISCARD) r.st = 2;
    else {
        r.st = 1;
        if (r.msg.empty()) {
            char b[128];
            if (WIFSIGNALED(st)) snprintf(b, sizeof b, "crash: killed by signal %d", WTERMSIG(st));
            else if (WEXITSTATUS(st) == EX_ASAN) snprintf(b, sizeof b, "memory error reported by the sanitizer");
            else snprintf(b, sizeof b, "abnormal exit %d", WEXITSTATUS(st));
            r.msg = b;
            if (errfd >= 0) {
                char buf[3000];
                lseek(errfd, 0, SEEK_SET);
                ssize_t n = read(errfd, buf, sizeof buf - 1);
                if (n > 0) { buf[n] = 0; r.msg += "\n"; r.msg += buf; }
            }
        }
    }
    if (errfd >= 0) close(errfd);
    return r;
}

static Res run_tape(const Tape &tp, bool render, bool quiet) { return run_tapes({tp}, render, quiet); }

// shortlex: fewer draws, then smaller
static bool simpler(const Tape &a, const Tape &b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}
static Tape trim(Tape t) { while (!t.empty() && t.back() == 0) t.pop_back(); return t; }

static Tape shrink(Tape best, u64 budget, double maxsec, std::vector<Tape> ctx = {}, size_t pos = 0) {
    if (getenv("PBT_NOSHRINK")) return best;
    bool alone = ctx.empty();
    if (alone) ctx.resize(1);
    double t0 = now();
    u64    n  = 0;
    auto   attempt = [&](const Tape &c) -> bool {
        if (n >= budget || now() - t0 > maxsec) return false;
        n++;
        ctx[pos] = c;
        Res r = run_tapes(ctx, false, true);
        if (r.st != 1) return false;
        Tape got = pos + 1 == ctx.size() ? trim(r.tape) : trim(c);
        if (simpler(got, best)) { best = got; return true; }
        return false;
    };
    best = trim(best);
    bool progress = true;
    while (progress && n < budget && now() - t0 < maxsec) {
        progress = false;
        // chunk deletion, large to small
        for (size_t len = std::max<size_t>(best.size() / 2, 1);;) {
            size_t step = len > 8 ? len / 2 : 1;
            for (size_t at = 0; at + len <= best.size();) {
                Tape c = best;
                c.erase(c.begin() + at, c.begin() + at + len);
                if (attempt(c)) progress = true;
                else at += step;
                if (n >= budget || now() - t0 > maxsec) break;
            }
            if (len == 1) break;
            len = len > 8 ? len / 2 : len - 1;
        }
        // deletion together with decrementing an earlier count
        for (size_t at = best.size(); at-- > 0;) {
            if (at >= best.size() || best[at] == 0 || best[at] > 64) continue;
            for (size_t len = 1; len <= 4 && at + 1 + len <= best.size(); len++) {
                Tape c = best;
                c[at]--;
                c.erase(c.begin() + at + 1, c.begin() + at + 1 + len);
                if (attempt(c)) { progress = true; break; }
            }
        }
        // value minimisation
        for (size_t at = 0; at < best.size(); at++) {
            if (best[at] == 0) continue;
            Tape c = best;
            c[at]  = 0;
            if (attempt(c)) { progress = true; continue; }
            u64 lo = 0, hi = best[at];
            while (lo + 1 < hi && at < best.size()) {
                u64 mid = lo + (hi - lo) / 2;
                c       = best;
                c[at]   = mid;
                if (attempt(c)) { progress = true; hi = at < best.size() ? std::min(best[at], mid) : 0; }
                else lo = mid;
                if (n >= budget) break;
            }
            if (at < best.size() && best[at] > 2) {   // keep parity (zigzag sign)
                c = best; c[at] -= 2;
                while (at < best.size() && attempt(c)) { progress = true; if (at >= best.size() || best[at] < 3) break; c = best; c[at] -= 2; if (n >= budget) break; }
            }
        }
    }
    return best;
}

// several cases run one after another in one process: fewer of them, then each as small as possible
static std::vector<Tape> shrink_seq(std::vector<Tape> s, double maxsec) {
    if (getenv("PBT_NOSHRINK")) return s;
    double t0 = now();
    for (size_t len = s.size() / 2; len >= 1; len /= 2)
        for (size_t at = 0; at + len < s.size() && now() - t0 < maxsec;) {
            std::vector<Tape> c = s;
            c.erase(c.begin() + at, c.begin() + at + len);
            if (run_tapes(c, false, true).st == 1) s = c;
            else at += len;
        }
    for (size_t k = s.size(); k-- > 0 && now() - t0 < maxsec;) s[k] = shrink(s[k], 1500, (maxsec - (now() - t0)) / 2, s, k);
    return s;
}

static int run_worker_again(const Opts &o, unsigned w, u64 cases, std::string &msg);

struct Saved { std::vector<Tape> tapes; Opts o; int worker = -1; u64 cases = 0; };
static Saved load_tape(const std::string &path, bool &ok) {
    Saved sv;
    Tape  t;
    FILE *f = fopen(path.c_str(), "r");
    ok      = f != nullptr;
    if (!f) return sv;
    char line[1 << 16];
    while (fgets(line, sizeof line, f)) {
        unsigned long a, b, c, nw, g; unsigned w;
        if (sscanf(line, "# worker-run seed=%lu salt=%lu cases=%lu workers=%lu worker=%u upto=%lu", &a, &b, &c, &nw, &w, &g) == 6) {
            sv.o.seed = a, sv.o.salt = b, sv.o.cases = c, sv.o.workers = (unsigned)nw, sv.worker = (int)w, sv.cases = g;
        }
        if (!strncmp(line, "---", 3)) { sv.tapes.push_back(t); t.clear(); continue; }
        if (line[0] == '#' || line[0] == '\n') continue;
        char *p = line, *e;
        for (;;) {
            u64 v = strtoull(p, &e, 10);
            if (e == p) break;
            t.push_back(v);
            p = e;
        }
    }
    fclose(f);
    sv.tapes.push_back(t);
    return sv;
}
static void save_tape(const std::string &path, const std::vector<Tape> &ts, const std::string &msg, const std::string &text, const std::string &extra = "") {
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return;
    auto comment = [&](const std::string &s) {
        size_t p = 0;
        while (p < s.size()) {
            size_t e = s.find('\n', p);
            if (e == std::string::npos) e = s.size();
            fprintf(f, "#   %s\n", s.substr(p, e - p).c_str());
            p = e + 1;
        }
    };
    fprintf(f, "# pbt tape v1\n%s# failure:\n", extra.c_str());
    comment(msg);
    fprintf(f, "# history:\n");
    comment(text);
    for (size_t q = 0; q < ts.size(); q++) {
        const Tape &t = ts[q];
        if (q) fprintf(f, "---\n");
        for (size_t k = 0; k < t.size(); k++) fprintf(f, "%lu%s", t[k], (k % 32 == 31 || k + 1 == t.size()) ? "\n" : " ");
    }
    fclose(f);
}
static void json_str(FILE *f, const std::string &s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c == '\n') fprintf(f, "\\n");
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

// The cases of a worker, again, up to and including case number `cases`: 1 if it fails
static int run_worker_again(const Opts &o, unsigned w, u64 cases, std::string &msg) {
    shm     = child_shm;
    *g_stop = cases;
    shm->msg[0] = 0;
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 2);
        dup2(fd, 1);
        Opts q   = o;
        q.maxsec = 1e9;
        q.out    = "none";
        worker(q, w);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) return 0;
    msg = shm->msg[0] ? shm->msg : "crash or memory error";
    msg += " (in case " + std::to_string(shm->case_no) + " of a run of cases in one process)";
    return 1;
}

int main(int argc, char **argv) {
    Opts o;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k];
        auto        v = [&]() -> std::string { return k + 1 < argc ? argv[++k] : ""; };
        if (a == "--seed") o.seed = strtoull(v().c_str(), 0, 10);
        else if (a == "--salt") o.salt = strtoull(v().c_str(), 0, 10);
        else if (a == "--cases") o.cases = strtoull(v().c_str(), 0, 10);
        else if (a == "--workers") o.workers = atoi(v().c_str());
        else if (a == "--max-seconds") o.maxsec = atof(v().c_str());
        else if (a == "--out") o.out = v();
        else if (a == "--fail") o.fail = v();
        else if (a == "--replay") o.replays.push_back(v());
        else if (a == "--tmp") o.tmp = v();
        else if (a == "--render") o.render = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    auto map = [](size_t n) { return mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); };
    child_shm = (Shm *)map(sizeof(Shm));
    span_shm  = (SpanRec *)map(sizeof(SpanRec) * MAXSPANS);
    span_n    = (u64 *)map(64);
    g_stop    = (volatile u64 *)map(64);
    *g_stop   = ~0ull;

    if (!o.replays.empty()) {
        int rc = 0;
        for (auto &p : o.replays) {
            bool ok;
            Saved sv = load_tape(p, ok);
            if (!ok) { fprintf(stderr, "cannot read %s\n", p.c_str()); return 2; }
            Res r;
            if (sv.worker >= 0) { sv.o.tmp = o.tmp; r.st = run_worker_again(sv.o, (unsigned)sv.worker, sv.cases, r.msg); }
            else r = run_tapes(sv.tapes, o.render, false);
            if (o.render) printf("%s", r.text.c_str());
            if (r.st == 1) {
                printf("REPLAY-FAIL %s\n%s\n", p.c_str(), r.msg.c_str());
                rc = 1;
            } else printf("REPLAY-OK %s\n", p.c_str());
        }
        return rc;
    }

    double            t0 = now();
    std::vector<Shm *> ws(o.workers);
    std::vector<pid_t> pids(o.workers);
    std::vector<int>   bad(o.workers, 0);
    fflush(0);
    std::vector<Hist *> hs(o.workers);
    for (unsigned w = 0; w < o.workers; w++) {
        ws[w] = (Shm *)map(sizeof(Shm));
        hs[w] = (Hist *)map(sizeof(Hist));
        pid_t p = fork();
        if (p == 0) {
            shm  = ws[w];
            hist = hs[w];
            // sanitizer reports of the search phase are reproduced later from the tape
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            dup2(fd, 1);
            worker(o, w);
        }
        pids[w] = p;
    }
    unsigned left = o.workers;
    while (left) {
        int   st;
        pid_t p = waitpid(-1, &st, 0);
        if (p < 0) { if (errno == EINTR) continue; break; }
        for (unsigned w = 0; w < o.workers; w++)
            if (pids[w] == p) {
                left--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    bad[w] = 1;
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) bad[w] = 2;   // out of memory or ended from outside
                    else if (ws[w]->case_no < *g_stop) *g_stop = ws[w]->case_no;
                }
            }
    }
    int      failed = -1;
    bool     infra  = false;
    for (unsigned w = 0; w < o.workers; w++) {
        if (bad[w] == 2) infra = true;
        if (bad[w] == 1 && (failed < 0 || ws[w]->case_no < ws[failed]->case_no)) failed = w;
    }
    u64                        total = 0, discards = 0, nontriv = 0, draws = 0;
    unsigned                   edges = 0;
    size_t                     corp  = 0;
    bool                       timedout = false;
    std::map<std::string, u64> labels;
    std::vector<u64>           hashes;
    std::vector<std::pair<u64, Tape>> samples;
    for (unsigned w = 0; w < o.workers; w++) {
        std::string p = o.tmp + "/w" + std::to_string(w);
        if (bad[w]) { total += ws[w]->done; continue; }
        FILE *f = fopen((p + ".txt").c_str(), "r");
        if (!f) { infra = true; continue; }
        u64 a, b, c, d7; unsigned e; size_t q; int to;
        if (fscanf(f, "%lu %lu %lu %u %zu %d %lu\n", &a, &b, &c, &e, &q, &to, &d7) == 7) { total += a; discards += b; nontriv += c; edges = std::max(edges, e); corp += q; timedout |= to; draws += d7; }
        char kind;
        while (fscanf(f, " %c", &kind) == 1) {
            if (kind == 'L') { u64 n; char nm[256]; if (fscanf(f, "%lu %255[^\n]", &n, nm) != 2) break; labels[nm] += n; }
            else if (kind == 'S') { u64 c0; size_t n; if (fscanf(f, "%lu %zu", &c0, &n) != 2) break; Tape t(n); for (auto &x : t) if (fscanf(f, "%lu", &x) != 1) break; samples.push_back({c0, t}); }
            else break;
        }
        fclose(f);
        unlink((p + ".txt").c_str());
        f = fopen((p + ".hash").c_str(), "rb");
        if (f) { u64 h[4096]; size_t n; while ((n = fread(h, 8, 4096, f)) > 0) hashes.insert(hashes.end(), h, h + n); fclose(f); unlink((p + ".hash").c_str()); }
    }
    std::sort(hashes.begin(), hashes.end());
    hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());

    std::string fmsg, ftext;
    int         confirmed = 0;
    if (failed >= 0) {
        const Tape orig(ws[failed]->tape, ws[failed]->tape + std::min<u64>(ws[failed]->ndraws, MAXDRAWS));
        auto confirm = [&](const std::vector<Tape> &s) {
            confirmed = 0;
            for (int k = 0; k < 3; k++) {
                Res r = run_tapes(s, k == 0, k != 0);
                if (r.st == 1) { confirmed++; if (fmsg.empty()) { fmsg = r.msg; ftext = r.text; } }
            }
            if (confirmed == 3 && !o.fail.empty()) save_tape(o.fail, s, fmsg, ftext);
            if (confirmed != 3) fmsg.clear(), ftext.clear();
            return confirmed == 3;
        };
        bool done = false;
        if (run_tape(orig, false, true).st == 1) done = confirm({shrink(orig, 4000, 40)}) || confirm({orig});
        if (!done) {   // state left behind by earlier cases: replay the last ones before it, in one process
            const u64 M = 1u << 14;
            Hist     *h = hs[failed];
            std::vector<Tape> all;
            for (u64 k = h->first; k < h->n; k++) all.push_back(Tape(h->words + h->at[k % M], h->words + h->at[k % M] + h->len[k % M]));
            for (size_t n = 1; !done; n = n * 4) {
                if (n > all.size()) n = all.size();
                std::vector<Tape> s(all.end() - n, all.end());
                s.push_back(orig);
                if (run_tapes(s, false, true).st == 1) done = confirm(shrink_seq(s, 40)) || confirm(s);
                if (n == all.size()) break;
            }
        }
        if (!done) {   // the worker's whole run
            u64 upto = ws[failed]->case_no;
            confirmed = 0;
            for (int k = 0; k < 3; k++) confirmed += run_worker_again(o, (unsigned)failed, upto, fmsg);
            char b[256];
            snprintf(b, sizeof b, "# worker-run seed=%lu salt=%lu cases=%lu workers=%u worker=%d upto=%lu\n", o.seed, o.salt, o.cases, o.workers, failed, upto);
            if (confirmed == 3 && !o.fail.empty()) save_tape(o.fail, {orig}, fmsg, "", b);
        }
        if (confirmed != 3) fmsg = std::string("not reproduced by replay: ") + ws[failed]->msg;
    }
    std::vector<std::string> stext;
    for (auto &s : samples) {
        Res r = run_tape(s.second, true, true);
        if (r.text.size() > 1500) r.text = r.text.substr(0, 1500) + "...";
        stext.push_back(r.text.empty() ? "(no notes)" : r.text);
    }
    FILE *f = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
    if (!f) return 2;
    fprintf(f, "{\"evaluations\":%lu,\"discarded\":%lu,\"nontrivial\":%lu,\"distinct_nontrivial\":%zu,\"edges\":%u,\"corpus\":%zu,\"draws\":%lu,\"timed_out\":%s,\"infra\":%s,\"wall\":%.3f,\n", total, discards, nontriv, hashes.size(), edges, corp, draws, timedout ? "true" : "false", infra ? "true" : "false", now() - t0);
    fprintf(f, "\"rule\":");
    json_str(f, pbt_rule);
    fprintf(f, ",\n\"labels\":{");
    bool first = true;
    for (auto &l : labels) { fprintf(f, "%s", first ? "" : ","); json_str(f, l.first); fprintf(f, ":%lu", l.second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    for (size_t k = 0; k < stext.size(); k++) { fprintf(f, "%s", k ? "," : ""); json_str(f, stext[k]); }
    fprintf(f, "],\n\"failed\":%s,\"confirmed\":%d,\"message\":", failed >= 0 ? "true" : "false", confirmed);
    json_str(f, fmsg);
    fprintf(f, ",\"history\":");
    json_str(f, ftext);
    fprintf(f, "}\n");
    if (f != stdout) fclose(f);
    return infra ? 2 : failed >= 0 ? 1 : 0;
}
