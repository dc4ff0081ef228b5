// C02: circular buffer with one producer and one consumer. circular_buffer.c is compiled with -fsanitize=thread,
// but the __tsan_* hooks are ours: every access to the shared memory is a scheduling point, and two coroutines are
// interleaved by generated choices (sequentially consistent memory).
#include "pbt.hpp"
#include <algorithm>
#include <cstring>
#include <ucontext.h>
#include <vector>
typedef GEL_CBUF_TYPE E;
extern "C" {
size_t sh_sizeof(void);
int    sh_init(void *, E *, size_t);
int    sh_puts(void *, E *, size_t);
int    sh_putc(void *, E);
int    sh_gets(void *, E *, int);
int    sh_getc(void *, E *);
int    sh_peek(void *, E *, int);
int    sh_drop(void *, int);
int    sh_empty(void *);
int    sh_full(void *);
size_t sh_size(void *);
size_t sh_capacity(void *);
extern char __executable_start;
}
const char *pbt_rule = "a producer script and a consumer script over one small buffer, interleaved at every shared memory access by generated run lengths; "
                       "non-trivial: at least one context switch happened inside a buffer operation, elements went through, and the buffer wrapped around";

static T        *g_tp;
static ucontext_t ctx_main, ctx[2];
static int       cur = -1;            // running coroutine
static bool      fin[2];
static uint64_t  budget;              // shared accesses until the next switch
static uint64_t  opsteps[2];
static uintptr_t at_pc[2];
static char     *sh_lo[2], *sh_hi[2];
static unsigned  maxrun;
static uint64_t  inner_switches;
static bool      in_op[2];

static void do_switch() {
    int me = cur;
    if (fin[1 - me]) return;
    if (in_op[me]) inner_switches++;
    cur = 1 - me;
    swapcontext(&ctx[me], &ctx[1 - me]);
}
static uint64_t next_run() {
    if (g_tp->draws() > 60000) return 7;
    return g_tp->u(0, maxrun);
}
static inline void yield_at(void *pc) {
    if (cur < 0) return;
    if (++opsteps[cur] > 20000) g_tp->fail("the %s's operation does not terminate while the other side is active", cur ? "consumer" : "producer");
    at_pc[cur] = (uintptr_t)pc - (uintptr_t)&__executable_start;
    if (budget-- == 0) {
        budget = next_run();
        g_tp->feature((at_pc[0] << 20) ^ at_pc[1]);
        do_switch();
    }
}
static inline bool shared(void *p) {
    for (int k = 0; k < 2; k++)
        if ((char *)p >= sh_lo[k] && (char *)p < sh_hi[k]) return true;
    return false;
}
static inline void acc(void *p, void *pc) {
    if (cur >= 0 && shared(p)) yield_at(pc);
}
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **, void *) {}
#define H(N) void __tsan_read##N(void *p) { acc(p, PC); } void __tsan_write##N(void *p) { acc(p, PC); } \
    void __tsan_unaligned_read##N(void *p) { acc(p, PC); } void __tsan_unaligned_write##N(void *p) { acc(p, PC); } \
    void __tsan_volatile_read##N(void *p) { acc(p, PC); } void __tsan_volatile_write##N(void *p) { acc(p, PC); } \
    void __tsan_unaligned_volatile_read##N(void *p) { acc(p, PC); } void __tsan_unaligned_volatile_write##N(void *p) { acc(p, PC); }
H(1) H(2) H(4) H(8) H(16)
void __tsan_read_range(void *p, size_t) { acc(p, PC); }
void __tsan_write_range(void *p, size_t) { acc(p, PC); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define AT(N, TY)                                                                                                      \
    TY   __tsan_atomic##N##_load(const volatile TY *p, int) { acc((void *)p, PC); return *p; }                         \
    void __tsan_atomic##N##_store(volatile TY *p, TY v, int) { acc((void *)p, PC); *p = v; }                           \
    TY   __tsan_atomic##N##_exchange(volatile TY *p, TY v, int) { acc((void *)p, PC); TY o = *p; *p = v; return o; }   \
    TY   __tsan_atomic##N##_fetch_add(volatile TY *p, TY v, int) { acc((void *)p, PC); TY o = *p; *p = o + v; return o; } \
    TY   __tsan_atomic##N##_fetch_sub(volatile TY *p, TY v, int) { acc((void *)p, PC); TY o = *p; *p = o - v; return o; } \
    TY   __tsan_atomic##N##_fetch_and(volatile TY *p, TY v, int) { acc((void *)p, PC); TY o = *p; *p = o & v; return o; } \
    TY   __tsan_atomic##N##_fetch_or(volatile TY *p, TY v, int) { acc((void *)p, PC); TY o = *p; *p = o | v; return o; }  \
    TY   __tsan_atomic##N##_fetch_xor(volatile TY *p, TY v, int) { acc((void *)p, PC); TY o = *p; *p = o ^ v; return o; } \
    int  __tsan_atomic##N##_compare_exchange_strong(volatile TY *p, TY *e, TY v, int, int) { acc((void *)p, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
    int  __tsan_atomic##N##_compare_exchange_weak(volatile TY *p, TY *e, TY v, int, int) { acc((void *)p, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// block copies are preempted between elements
void *sched_memcpy(void *d, const void *s, size_t n) {
    for (size_t k = 0; k < n; k += sizeof(E)) {
        if (shared((char *)d + k) || shared((char *)s + k)) yield_at(PC);
        size_t m = std::min(sizeof(E), n - k);
        for (size_t q = 0; q < m; q++) ((volatile char *)d)[k + q] = ((const volatile char *)s)[k + q];
    }
    return d;
}
void *sched_memmove(void *d, const void *s, size_t n) {
    if (d <= s) return sched_memcpy(d, s, n);
    for (size_t k = n; k-- > 0;) {
        if (shared((char *)d + k) || shared((char *)s + k)) yield_at(PC);
        ((volatile char *)d)[k] = ((const volatile char *)s)[k];
    }
    return d;
}
}

struct Op { int kind; size_t len; };
static std::vector<Op> script[2];
static void           *cb;
static size_t          cap;
static std::vector<E>  accepted;                 // in order, as reported by completed writes
static size_t          inflight_put, inflight_get, consumed;
struct Read { size_t off; std::vector<E> v; bool peek; };
static std::vector<Read> reads;
static uint64_t seq;
static std::string ev;

static E val(uint64_t k) { return (E)(k * 2654435761u + 12345); }

static void producer() {
    T &t = *g_tp;
    for (auto &o : script[0]) {
        opsteps[0] = 0;
        in_op[0]   = true;
        size_t c0 = consumed, a0 = accepted.size();   // consumed by completed reads when the call starts
        size_t freeb = cap - std::min(cap, a0 - c0);
        switch (o.kind) {
            case 0:
            case 1: {
                size_t n = o.kind == 0 ? 1 : o.len;
                std::vector<E> d(n + 1);
                for (size_t k = 0; k < n; k++) d[k] = val(seq + k);
                inflight_put = n;
                int r;
                if (o.kind == 0) r = sh_putc(cb, d[0]) == 0 ? 1 : 0;
                else r = sh_puts(cb, d.data(), n);
                inflight_put = 0;
                if (t.rendering()) t.note("P %s %zu -> %d", o.kind ? "puts" : "putc", n, r);
                if (r < 0 || (size_t)r > n) t.fail("write of %zu elements reports %d", n, r);
                if ((size_t)r < std::min(n, freeb)) t.fail("write of %zu elements stored %d although at least %zu places were free when it started", n, r, freeb);
                for (int k = 0; k < r; k++) accepted.push_back(d[k]);
                seq += n;
                size_t maxc = consumed + inflight_get;
                if (accepted.size() > maxc + cap) t.fail("more elements stored than the capacity %zu", cap);
                break;
            }
            case 2: {
                size_t r = sh_size(cb), c1 = consumed + inflight_get;
                size_t lo = a0 > c1 ? a0 - c1 : 0, hi = std::min(cap, a0 - c0);
                if (t.rendering()) t.note("P size -> %zu", r);
                if (r < lo || r > hi) t.fail("producer sees size %zu, but it was between %zu and %zu during the call", r, lo, hi);
                break;
            }
            case 3: {
                int    r  = sh_full(cb);
                size_t c1 = consumed + inflight_get, lo = a0 > c1 ? a0 - c1 : 0, hi = std::min(cap, a0 - c0);
                if (t.rendering()) t.note("P full -> %d", r);
                if (r ? hi < cap : lo >= cap) t.fail("producer sees full=%d with between %zu and %zu of %zu stored", r, lo, hi, cap);
                break;
            }
            default: {
                int    r  = sh_empty(cb);
                size_t c1 = consumed + inflight_get, lo = a0 > c1 ? a0 - c1 : 0, hi = std::min(cap, a0 - c0);
                if (t.rendering()) t.note("P empty -> %d", r);
                if (r ? lo > 0 : hi == 0) t.fail("producer sees empty=%d with between %zu and %zu stored", r, lo, hi);
            }
        }
        in_op[0] = false;
    }
    fin[0] = true;
    if (fin[1]) swapcontext(&ctx[0], &ctx_main);
    cur = 1;
    swapcontext(&ctx[0], &ctx[1]);
}
static void consumer() {
    T &t = *g_tp;
    for (auto &o : script[1]) {
        opsteps[1]  = 0;
        in_op[1]    = true;
        size_t a0   = accepted.size(), c0 = consumed;
        size_t have = a0 - std::min(a0, c0);   // stored for sure when the call starts
        switch (o.kind) {
            case 0:
            case 1:
            case 2: {
                bool   peek = o.kind == 2;
                size_t n    = o.kind == 0 ? 1 : o.len;
                Read   rd{c0, std::vector<E>(n + 1), peek};
                if (!peek) inflight_get = n;
                int r = o.kind == 0 ? (sh_getc(cb, rd.v.data()) == 0 ? 1 : 0) : peek ? sh_peek(cb, rd.v.data(), (int)n) : sh_gets(cb, rd.v.data(), (int)n);
                if (t.rendering()) t.note("C %s %zu -> %d", o.kind == 0 ? "getc" : peek ? "peek" : "gets", n, r);
                if (r < 0 || (size_t)r > n) t.fail("read of %zu elements reports %d", n, r);
                if ((size_t)r < std::min(n, have)) t.fail("read of %zu elements returned %d although at least %zu were stored when it started", n, r, have);
                if (!peek) { consumed += r; inflight_get = 0; }
                rd.v.resize(r);
                reads.push_back(rd);
                break;
            }
            case 3: {
                size_t n = o.len;
                inflight_get = n;
                int r = sh_drop(cb, (int)n);
                if (t.rendering()) t.note("C drop %zu -> %d", n, r);
                if (r < 0 || (size_t)r > n) t.fail("drop of %zu elements reports %d", n, r);
                if ((size_t)r < std::min(n, have)) t.fail("drop of %zu elements removed %d although at least %zu were stored when it started", n, r, have);
                consumed += r;
                inflight_get = 0;
                break;
            }
            case 4: {
                size_t r = sh_size(cb), a1 = accepted.size() + inflight_put;
                size_t lo = have, hi = std::min(cap, a1 - c0);
                if (t.rendering()) t.note("C size -> %zu", r);
                if (r < lo || r > hi) t.fail("consumer sees size %zu, but it was between %zu and %zu during the call", r, lo, hi);
                break;
            }
            case 5: {
                int    r  = sh_full(cb);
                size_t a1 = accepted.size() + inflight_put, lo = have, hi = std::min(cap, a1 - c0);
                if (t.rendering()) t.note("C full -> %d", r);
                if (r ? hi < cap : lo >= cap) t.fail("consumer sees full=%d with between %zu and %zu of %zu stored", r, lo, hi, cap);
                break;
            }
            default: {
                int    r  = sh_empty(cb);
                size_t a1 = accepted.size() + inflight_put, lo = have, hi = std::min(cap, a1 - c0);
                if (t.rendering()) t.note("C empty -> %d", r);
                if (r ? lo > 0 : hi == 0) t.fail("consumer sees empty=%d with between %zu and %zu stored", r, lo, hi);
            }
        }
        in_op[1] = false;
    }
    fin[1] = true;
    if (fin[0]) swapcontext(&ctx[1], &ctx_main);
    cur = 0;
    swapcontext(&ctx[1], &ctx[0]);
}

void property(T &t) {
    g_tp        = &t;
    size_t size = t.pick({8, 2}) == 0 ? t.uni(2, 6) : t.u(1, 24);
    cap         = size - 1;
    static char stacks[2][1 << 16];
    std::vector<char> cbm(sh_sizeof() + 16, (char)0xA5), mem((size + 4) * sizeof(E), (char)0xA5);
    cb          = cbm.data();
    E *buf      = (E *)mem.data() + 2;
    cur         = -1;
    if (sh_init(cb, buf, size) != 0) t.fail("init fails");
    for (int k = 0; k < 2; k++) { script[k].clear(); fin[k] = in_op[k] = false; opsteps[k] = 0; at_pc[k] = 0; }
    accepted.clear(); reads.clear(); inflight_put = inflight_get = consumed = 0; seq = 0; inner_switches = 0;
    sh_lo[0] = (char *)cb; sh_hi[0] = (char *)cb + sh_sizeof();
    sh_lo[1] = (char *)buf; sh_hi[1] = (char *)(buf + size);
    // optionally start from a rotated buffer
    size_t rot = t.u(0, size - 1);
    for (size_t k = 0; k < rot && cap > 0; k++) { E x; if (sh_putc(cb, val(1 << 20)) || sh_getc(cb, &x)) t.fail("single threaded put/get fails"); }
    maxrun = (unsigned)(1u << t.pick(7));
    budget = next_run();
    auto len = [&]() -> size_t { return t.pick({3, 1}) == 0 ? t.u(1, size + 1) : t.u(0, 3 * size + 2); };
    while (t.more(6)) { Span s(t); int k = (int)t.pick({4, 10, 1, 1, 1}); script[0].push_back({k, k == 1 ? len() : 1}); }
    while (t.more(6)) { Span s(t); int k = (int)t.pick({4, 9, 3, 3, 1, 1, 1}); script[1].push_back({k, (k == 1 || k == 2 || k == 3) ? len() : 1}); }
    t.note("buffer of %zu, rotated by %zu, producer %zu ops, consumer %zu ops, run length up to %u", size, rot, script[0].size(), script[1].size(), maxrun);
    for (int k = 0; k < 2; k++) {
        getcontext(&ctx[k]);
        ctx[k].uc_stack.ss_sp   = stacks[k];
        ctx[k].uc_stack.ss_size = sizeof stacks[k];
        ctx[k].uc_link          = nullptr;
        makecontext(&ctx[k], k ? consumer : producer, 0);
    }
    int first = t.b() ? 1 : 0;
    cur       = first;
    swapcontext(&ctx_main, &ctx[first]);
    cur = -1;
    // drain
    Read rd{consumed, std::vector<E>(size + 4), false};
    int  r = sh_gets(cb, rd.v.data(), (int)size + 2);
    if (r < 0 || (size_t)r > size + 2) t.fail("drain reports %d", r);
    if (consumed + r != accepted.size()) t.fail("%zu elements were accepted but %zu came out", accepted.size(), consumed + r);
    consumed += r;
    rd.v.resize(r);
    reads.push_back(rd);
    for (auto &q : reads) {
        if (q.off + q.v.size() > accepted.size()) t.fail("a read returned more elements than were ever written");
        for (size_t k = 0; k < q.v.size(); k++)
            if (q.v[k] != accepted[q.off + k]) t.fail("element %zu of the stream was read with the wrong value", q.off + k);
    }
    for (size_t k = 0; k < 2 * sizeof(E); k++)
        if ((unsigned char)mem[k] != 0xA5 || (unsigned char)mem[(size + 2) * sizeof(E) + k] != 0xA5) t.fail("memory outside the storage was overwritten");
    if (inner_switches) t.label("switch inside an operation");
    if (accepted.size() + rot >= size) t.label("wrapped");
    if (inner_switches && accepted.size() > 0 && accepted.size() + rot >= size) t.nontrivial();
}
