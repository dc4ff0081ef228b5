// Property-based testing engine: every random choice of a case goes through T and is recorded on a
// tape, so that a case can be replayed, mutated (coverage-guided) and shrunk as one value.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <string>
#include <utility>
#include <vector>

class T {
public:
    // mixed-strategy unsigned draw in [lo,hi] (uniform / small / near the top / log scale / dictionary)
    uint64_t u(uint64_t lo, uint64_t hi);
    // mixed-strategy signed draw; shrinks towards the value in range nearest to zero
    int64_t i(int64_t lo, int64_t hi);
    // strictly uniform draw in [lo,hi]
    uint64_t uni(uint64_t lo, uint64_t hi);
    // true with probability num/den; shrinks to false
    bool b(unsigned num = 1, unsigned den = 2);
    // weighted index; shrinks to 0
    unsigned pick(std::initializer_list<unsigned> weights);
    unsigned pick(unsigned n) { return (unsigned)uni(0, n - 1); }
    // loop continuation; expected number of "true" answers is avg; shrinks to stopping
    bool more(unsigned avg);
    // span: a sub-sequence of choices that the shrinker may delete and the mutator may copy
    void begin();
    void end();

    bool rendering() const;                                          // a note would be shown
    void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    void label(const char *name);                                    // distribution counter (once per case)
    void nontrivial();                                               // the case satisfies the stated rule
    void feature(uint64_t f);                                        // extra coverage feature for the search
    void fuel(uint64_t blocks);                                      // give the code under test more/less fuel
    [[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void discard();                                     // case outside the domain
    size_t draws() const;
};

struct Span {
    T &t;
    explicit Span(T &t_) : t(t_) { t.begin(); }
    ~Span() { t.end(); }
};

#define CHECK(t, cond, ...)                                                                                            \
    do {                                                                                                               \
        if (!(cond)) (t).fail(__VA_ARGS__);                                                                            \
    } while (0)

// The harness provides these two.
extern const char *pbt_rule;   // how cases are made and what makes one non-trivial
void               property(T &t);

// A harness that names its mutable globals with PBT_PAIR(...) is also run as two instances at once: the property runs
// twice, operation by operation in a generated interleaving, each run with globals of its own. State hidden in the code
// under test and shared between objects shows up as a failure of either run.
extern void pbt_swap_state() __attribute__((weak));
// Called at the end of a callback of the code under test: there the other instance may be used for some operations.
void pbt_inside();
template <int N, class X> void pbt_swap_nth(X &x) {   // N keeps globals of the same type apart
    static X other{};
    std::swap(x, other);
}
template <int N> void pbt_swap_all() {}
template <int N, class X, class... R> void pbt_swap_all(X &x, R &...r) { pbt_swap_nth<N>(x); pbt_swap_all<N + 1>(r...); }
#define PBT_PAIR(...) void pbt_swap_state() { pbt_swap_all<0>(__VA_ARGS__); }

// helpers
std::string hex(const void *p, size_t n);
template <class C> std::string join(const C &c) {
    std::string s;
    for (auto &x : c) {
        if (!s.empty()) s += ",";
        s += std::to_string(x);
    }
    return s;
}
// memory whose bounds are checked exactly by ASAN (malloc'd per object), poison filled, freed at end of scope
struct Buf {
    uint8_t *p;
    size_t   n;
    explicit Buf(size_t n_, int fill = 0xA5);
    ~Buf();
    Buf(const Buf &) = delete;
    Buf &operator=(const Buf &) = delete;
};
void poison(T &t, void *p, size_t n);   // fill with a generated garbage pattern
