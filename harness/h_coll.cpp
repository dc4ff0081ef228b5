// C03 (queue) and C04 (stack): macro generated containers against a deque model.
#include "h_coll.h"
#include "pbt.hpp"
#include <cstring>
#include <deque>
#ifdef IS_QUEUE
const char *pbt_rule = "operation sequences on a queue of one of 25 item type / power-of-two capacity pairs (capacity 1 to 32768), with fast-forwarded bursts that bring the number of transfers to the neighbourhood of multiples of 65536; "
                       "non-trivial: the queue was both full and refused an item, and was emptied again, or more than 65536 items went through";
#else
const char *pbt_rule = "operation sequences on a stack of one of 31 item type / capacity pairs (capacity 1 to 65535), with bursts that fill or empty it; non-trivial: the stack was full and refused an item, an item was removed from the bottom of at least two, and a peek was answered";
#endif
struct Item {   // item bytes followed by a guard pattern; the operations get the address of the bytes
    alignas(16) uint8_t v[320];
    explicit Item(size_t n = 0, int fill = 0) { memset(v, 0x5A, sizeof v); memset(v, fill, n); }
    uint8_t *data() { return v; }
    bool operator==(const Item &o) const { return !memcmp(v, o.v, sizeof v); }
};
static Item mk(uint64_t k, size_t n) {
    Item     it;
    uint64_t w[38];
    for (size_t q = 0; q * 8 < n; q++) { k = k * 6364136223846793005ull + 1442695040888963407ull; w[q] = k ^ k >> 29; }
    memcpy(it.v, w, n);
    return it;
}
PBT_PAIR()
void property(T &t) {
    unsigned small = 0, medium = 0;   // rows are ordered by size class
    while (small < coll_num && coll_ops[small].cap <= 65) small++;
    while (small + medium < coll_num && coll_ops[small + medium].cap <= 1100) medium++;
    unsigned large = coll_num - small - medium;
    unsigned w     = 0;
    switch (t.pick({300, 30, 1})) {
        case 0: w = t.pick(small); break;
        case 1: w = small + t.pick(medium); break;
        default: w = small + medium + t.pick(large);
    }
    const coll_ops_t &o = coll_ops[w];
    Buf      q(o.objsize);
    poison(t, q.p, q.n);
    o.init(q.p);
    t.note("%s", o.name);
    t.label(o.name);
    std::deque<uint64_t> m;   // item ids
    uint64_t             seq = 1, through = 0;
    bool                 ffmode = t.b(1, 400);
    bool                 refused = false, emptied = false, bottom = false, peeked = false, ff = false;
    auto                 put = [&](bool quiet) {
        Item it = mk(seq, o.itemsize), cp = it;
        int  r = o.put(q.p, it.data());
        if (!quiet) t.note("put -> %d (%zu stored)", r, m.size());
        CHECK(t, r == (m.size() < o.cap ? 1 : 0), "insertion answers %d with %zu of %zu stored", r, m.size(), o.cap);
        CHECK(t, it == cp, "insertion modifies the item");
        if (r) m.push_back(seq++), through++;
        else refused = true;
    };
    auto get = [&](bool null, bool quiet) {
        Item it(o.itemsize, 0xA5);
        int  r = o.get(q.p, null ? nullptr : it.data());
        if (!quiet) t.note("get%s -> %d (%zu stored)", null ? "(NULL)" : "", r, m.size());
        CHECK(t, r == (m.empty() ? 0 : 1), "removal answers %d with %zu stored", r, m.size());
        if (r) {
#ifdef IS_QUEUE
            uint64_t id = m.front();
            m.pop_front();
#else
            uint64_t id = m.back();
            m.pop_back();
#endif
            CHECK(t, null || it == mk(id, o.itemsize), "removal returns the wrong item");
            if (m.empty()) emptied = true;
        } else CHECK(t, it == Item(o.itemsize, 0xA5), "a refused removal writes to the destination");
    };
    while (t.more(30)) {
        Span     s(t);
        unsigned k = t.pick({30, 22, 8, 8, 8, 8, ffmode ? 12u : 1u, 1});
        switch (k) {
            case 0: put(false); break;
            case 1: get(t.b(1, 5), false); break;
            case 2: {
#ifdef IS_QUEUE
                int r = o.drop(q.p);
                t.note("drop -> %d", r);
                CHECK(t, r == (m.empty() ? 0 : 1), "drop answers %d with %zu stored", r, m.size());
                if (r) m.pop_front();
#else
                o.dequeue(q.p);
                t.note("remove from bottom (%zu stored)", m.size());
                if (m.size() >= 2) bottom = true;
                if (!m.empty()) m.pop_front();
#endif
                break;
            }
            case 3: {
#ifdef IS_QUEUE
                get(false, false);
#else
                bool null = t.b(1, 8);
                Item it(o.itemsize, 0xA5);
                int  r = o.peek(q.p, null ? nullptr : it.data());
                t.note("peek -> %d (%zu stored)", r, m.size());
                CHECK(t, r == (m.empty() ? 0 : 1), "peek answers %d with %zu stored", r, m.size());
                if (r && !null) { CHECK(t, it == mk(m.back(), o.itemsize), "peek returns the wrong item"); peeked = true; }
#endif
                break;
            }
            case 4: {   // fill (almost)
                size_t leave = t.b(3, 4) ? t.u(0, 2) : t.u(0, o.cap);
                t.note("fill leaving %zu", leave);
                while (m.size() + leave < o.cap) put(true);
                break;
            }
            case 5: {   // empty (almost)
                size_t leave = t.b(3, 4) ? t.u(0, 2) : t.u(0, o.cap);
                t.note("empty leaving %zu", leave);
                while (m.size() > leave) get(false, true);
                break;
            }
            case 6:
#ifdef IS_QUEUE
                if (!ff && ffmode) {   // bring the number of transfers close to a multiple of 65536
                    size_t d      = t.u(0, std::min<size_t>(o.cap + 2, 300));
                    size_t target = ((through + 300) / 65536 + 1) * 65536 - d;
                    t.note("transfer items one by one until %zu went through", target);
                    while (m.size() >= o.cap) get(false, true);
                    {
                        Item one = mk(7, o.itemsize), back(o.itemsize);
                        while (!m.empty()) get(false, true);
                        for (; through < target; through++) {
                            CHECK(t, o.put(q.p, one.data()) == 1, "insertion into an empty queue refused after %llu transfers", (unsigned long long)through);
                            back = Item(o.itemsize, 0);
                            CHECK(t, o.get(q.p, back.data()) == 1 && back == one, "an item came back wrong after %llu transfers", (unsigned long long)through);
                        }
                    }
                    ff = true;
                    t.label("more than 65000 transfers");
                }
#endif
                break;
            default:
                o.init(q.p);
                t.note("init");
                m.clear();
        }
        CHECK(t, !o.empty(q.p) == !m.empty(), "emptiness is %d with %zu stored", o.empty(q.p), m.size());
        CHECK(t, !o.full(q.p) == !(m.size() == o.cap), "fullness is %d with %zu of %zu stored", o.full(q.p), m.size(), o.cap);
#ifdef IS_QUEUE
        CHECK(t, o.count(q.p) == m.size(), "count is %zu with %zu stored", o.count(q.p), m.size());
#endif
    }
    while (!m.empty()) get(false, true);
    CHECK(t, o.empty(q.p), "not empty after everything was removed");
#ifdef IS_QUEUE
    if (refused) t.label("refused an item");
    if (through > 65536) t.label("counters wrapped");
    if ((refused && emptied) || through > 65536) t.nontrivial();
#else
    if (refused) t.label("refused an item");
    if (bottom) t.label("removed from the bottom");
    if (refused && bottom && peeked) t.nontrivial();
#endif
}
