// C10: maybe values against std::optional of byte strings.
#include "h_maybe.h"
#include "pbt.hpp"
#include <cstring>
#include <functional>
#include <optional>
const char *pbt_rule = "chains of return, nothing, map, bind, is-just and with-default over 8 held types, with pure functions that sometimes give nothing and sometimes use other maybes of the type themselves, plus the functor and monad laws on the result; "
                       "non-trivial: a function was applied to a value, a nothing went through a map and through a bind";
typedef std::vector<uint8_t>        V;
typedef std::optional<V>            M;
static const maybe_ops_t           *o;
static unsigned                     calls;
static std::function<V(const V &)>  mapf;
static std::function<V(const V &)>  bindf;   // gives the bytes of a maybe
static V last_in;
static unsigned                     nest;   // what the next function called does with other maybes of the type
static V                            nestv;
static const char                  *nest_bad;
static void inside();
void m_map_cb(const void *in, void *out) {
    calls++;
    last_in = V((const uint8_t *)in, (const uint8_t *)in + o->tsize);
    auto f = mapf;
    V    r = f(last_in);
    inside();
    memcpy(out, r.data(), r.size());
    pbt_inside();
}
void m_bind_cb(const void *in, void *out) {
    calls++;
    V i((const uint8_t *)in, (const uint8_t *)in + o->tsize);
    last_in = i;
    auto f = bindf;
    V    r = f(i);
    inside();
    memcpy(out, r.data(), r.size());
    pbt_inside();
}
static V F(uint64_t k, const V &v) {   // a pure function of the value
    V r(v.size());
    uint64_t h = k * 0x9e3779b97f4a7c15ull + 1;
    for (auto b : v) h = (h ^ b) * 0x100000001b3ull;
    for (auto &b : r) { h = h * 6364136223846793005ull + 1442695040888963407ull; b = (uint8_t)(h >> 56); }
    return r;
}
static M G(uint64_t k, const V &v) {   // a pure function to a maybe
    V r = F(k ^ 0x55, v);
    if (k % 3 == 0) return M();
    if (k % 3 == 1 && r[0] % 3 == 0) return M();
    return r;
}
struct RM {   // a real maybe
    V b;
    RM() : b(o->msize, 0xA5) {}
};
static RM mret(const V &v) { RM m; o->ret(v.data(), m.b.data()); return m; }
static RM mnothing(int how = 0) { RM m; o->nothing(m.b.data(), how); return m; }
static RM lift(const M &m) { return m ? mret(*m) : mnothing(); }
static RM mmap(const RM &m, std::function<V(const V &)> f) { mapf = f; calls = 0; RM r; o->map(m.b.data(), r.b.data()); return r; }
static RM mbind(const RM &m, std::function<V(const V &)> f) { bindf = f; calls = 0; RM r; o->bind(m.b.data(), r.b.data()); return r; }
static void inside() {
    if (!nest) return;
    unsigned how = nest, c = calls;
    nest         = 0;
    auto mf = mapf, bf = bindf;
    V    li = last_in, d(o->tsize, 0x3C), out(o->tsize, 0x5A);
    M    w;
    RM   m = how & 1 ? mret(nestv) : mnothing(how >> 3 & 1);
    if (how & 1) w = nestv;
    if (how & 2) m = mmap(m, [](const V &v) { return F(99, v); }), w = w ? M(F(99, *w)) : M();
    if (how & 4) m = mbind(m, [&](const V &v) { return lift(how & 8 ? M() : M(F(98, v))).b; }), w = w && !(how & 8) ? M(F(98, *w)) : M();
    if (!o->is_just(m.b.data()) != !w) nest_bad = "is-just";
    o->with_default(m.b.data(), d.data(), out.data());
    if (out != (w ? *w : d)) nest_bad = "with-default";
    mapf = mf, bindf = bf, calls = c, last_in = li;
}
PBT_PAIR(o, calls, last_in, mapf, bindf, nest, nestv, nest_bad)
void property(T &t) {
    o    = &maybe_ops[t.pick(maybe_num)];
    nest = 0, nest_bad = nullptr;
    t.note("maybe %s", o->name);
    auto value = [&]() { V v(o->tsize); uint64_t k = t.u(0, UINT32_MAX); bool raw = t.b(); for (size_t q = 0; q < v.size(); q++) v[q] = raw ? (q < 4 ? k >> (8 * q) : 0) : (uint8_t)((k * 0x9e3779b97f4a7c15ull) >> (q % 8 * 8)) + q; return v; };
    auto agree = [&](RM &m, const M &w, const char *what) {
        V before = m.b;
        int j = o->is_just(m.b.data());
        CHECK(t, !j == !w.has_value(), "%s: is-just says %d for %s", what, j, w ? "a value" : "nothing");
        V d = value(), d2 = d, out(o->tsize, 0x5A);
        o->with_default(m.b.data(), d.data(), out.data());
        CHECK(t, out == (w ? *w : d), "%s: with-default gives %s instead of %s", what, hex(out.data(), out.size()).c_str(), w ? "the held value" : "the default");
        CHECK(t, m.b == before && d == d2, "%s: a query modifies its arguments", what);
    };
    bool applied = false, nmap = false, nbind = false;
    M    w;
    RM   m = mnothing(t.pick(2));
    auto start = [&]() {
        if (t.b(1, 4)) { m = mnothing(t.pick(2)); w = M(); t.note("nothing"); }
        else { V v = value(); m = mret(v); w = v; t.note("return %s", hex(v.data(), v.size()).c_str()); }
        agree(m, w, "new maybe");
    };
    start();
    while (t.more(8)) {
        Span     s(t);
        uint64_t k = t.u(0, 50);
        nest = t.b(1, 3) ? 1 + t.pick(15) : 0;
        if (nest & 1) nestv = value();
        if (nest) t.note("(function using other maybes: %u)", nest), t.label("function uses other maybes");
        switch (t.pick({4, 4, 2, 3})) {
            case 0: {
                RM r = mmap(m, [&](const V &v) { return F(k, v); });
                t.note("map f%llu -> %u calls", (unsigned long long)k, calls);
                CHECK(t, calls == (w ? 1u : 0u), "mapping over %s calls the function %u times", w ? "a value" : "nothing", calls);
                if (w) { CHECK(t, last_in == *w, "map passes the wrong value"); w = F(k, *w); applied = true; }
                else nmap = true;
                m = r;
                break;
            }
            case 1: {
                RM r = mbind(m, [&](const V &v) { return lift(G(k, v)).b; });
                t.note("bind g%llu -> %u calls", (unsigned long long)k, calls);
                CHECK(t, calls == (w ? 1u : 0u), "binding %s calls the function %u times", w ? "a value" : "nothing", calls);
                if (w) { CHECK(t, last_in == *w, "bind passes the wrong value"); w = G(k, *w); applied = true; }
                else nbind = true;
                m = r;
                break;
            }
            case 2: start(); break;
            default: {   // the laws, on the current maybe
                uint64_t k2 = t.u(0, 50);
                auto f = [&](const V &v) { return F(k, v); };
                auto f2 = [&](const V &v) { return F(k2, v); };
                RM a = mmap(m, [](const V &v) { return v; });
                agree(a, w, "functor identity");
                a    = mmap(mmap(m, f), f2);
                RM b = mmap(m, [&](const V &v) { return F(k2, F(k, v)); });
                M  wc = w ? M(F(k2, F(k, *w))) : M();
                agree(a, wc, "functor composition, two maps");
                agree(b, wc, "functor composition, one map");
                RM c;
                o->bind_ret(m.b.data(), c.b.data());
                agree(c, w, "monad right unit");
                V  v = value();
                RM d = mbind(mret(v), [&](const V &x) { return lift(G(k, x)).b; });
                agree(d, G(k, v), "monad left unit");
                RM e = mbind(mbind(m, [&](const V &x) { return lift(G(k, x)).b; }), [&](const V &x) { return lift(G(k2, x)).b; });
                RM g = mbind(m, [&](const V &x) { RM y = lift(G(k, x)); return mbind(y, [&](const V &z) { return lift(G(k2, z)).b; }).b; });
                M  w1 = w ? G(k, *w) : M(), w2 = w1 ? G(k2, *w1) : M();
                agree(e, w2, "monad associativity, left");
                agree(g, w2, "monad associativity, right");
                t.note("laws");
            }
        }
        nest = 0;
        agree(m, w, "chain");
        CHECK(t, !nest_bad, "%s is wrong for a maybe used inside a mapped or bound function", nest_bad);
    }
    if (applied) t.label("applied to a value");
    if (nmap || nbind) t.label("nothing passed through");
    if (applied && nmap && nbind) t.nontrivial();
}
