// C05: intrusive lists against a vector model.
#include <cstddef>
#include "h_list.h"
#include "pbt.hpp"
#include <algorithm>
#include <memory>
const char *pbt_rule = "sequences of head/tail insertions, removals, re-insertions and moves between up to 4 lists of up to 24 elements of one of 6 layouts, every list walked both ways after every operation; "
                       "non-trivial: an element that was neither first nor last was removed from a list of at least three, and an element was inserted again after a removal";
PBT_PAIR()
void property(T &t) {
    int                               kind = t.pick({60, 60, 60, 60, 9, 1}), nl = (int)t.u(1, 4), ne = (int)t.u(1, kind == 5 ? 6 : 24);
    std::vector<std::unique_ptr<Buf>> heads, els;
    for (int q = 0; q < nl; q++) {
        heads.emplace_back(new Buf(l_headsize));
        poison(t, heads[q]->p, l_headsize);
        l_head_init(heads[q]->p, t.pick(3));
    }
    for (int q = 0; q < ne; q++) {
        els.emplace_back(new Buf(l_size[kind]));
        l_set(kind, els[q]->p, 1000 + q);
        CHECK(t, l_owner(kind, l_link(kind, els[q]->p)) == els[q]->p, "the enclosing element is not recovered from its link");
    }
    t.note("layout %d, %d lists, %d elements", kind, nl, ne);
    std::vector<std::vector<int>> m(nl);
    std::vector<int>              where(ne, -1);
    std::vector<bool>             was(ne, false);
    bool                          middle = false, again = false;
    auto link = [&](int e) { return l_link(kind, els[e]->p); };
    auto walk = [&]() {
        for (int l = 0; l < nl; l++) {
            void        *h = heads[l]->p;
            void        *out[32];
            unsigned     n = m[l].size();
            for (int back = 0; back < 2; back++) {
                unsigned k = l_walk(h, back, out, 32);
                CHECK(t, k == n, "walking list %d %s visits %u elements instead of %u", l, back ? "backwards" : "forwards", k, n);
                for (unsigned q = 0; q < n; q++) CHECK(t, out[q] == link(m[l][back ? n - 1 - q : q]), "element %u of list %d walked %s is wrong", q, l, back ? "backwards" : "forwards");
                k = l_walk_entry(kind, h, back, out, 32);
                CHECK(t, k == n, "element walk of list %d %s visits %u elements instead of %u", l, back ? "backwards" : "forwards", k, n);
                for (unsigned q = 0; q < n; q++) {
                    int      e = m[l][back ? n - 1 - q : q];
                    unsigned id;
                    CHECK(t, out[q] == els[e]->p && l_get(kind, out[q], &id) && id == 1000u + e, "element walk of list %d %s: element %u is wrong", l, back ? "backwards" : "forwards", q);
                }
            }
            CHECK(t, !l_empty(h) == (n > 0), "list %d with %u elements: empty says %d", l, n, l_empty(h));
            for (int q = -1; q < (int)n; q++) {   // -1: the head itself
                void *x = q < 0 ? h : link(m[l][q]), *nx = q + 1 < (int)n ? link(m[l][q + 1]) : h, *pv = q > 0 ? link(m[l][q - 1]) : q == 0 ? h : n ? link(m[l][n - 1]) : h;
                if (n == 0) nx = pv = nullptr;
                CHECK(t, l_next(x) == nx, "next of position %d in list %d of %u is wrong", q, l, n);
                CHECK(t, l_prev(x) == pv, "previous of position %d in list %d of %u is wrong", q, l, n);
                if (q >= 0) CHECK(t, !l_last(x, h) == !(q == (int)n - 1), "is-last of position %d in list %d of %u is wrong", q, l, n);
            }
        }
    };
    walk();
    while (t.more(16)) {
        Span s(t);
        int  e = (int)t.u(0, ne - 1);
        if (where[e] >= 0 && t.b(1, 3)) {   // prefer a member of a list
            auto &v = m[where[e]];
            e       = v[t.u(0, v.size() - 1)];
        }
        if (where[e] >= 0) {
            auto &v   = m[where[e]];
            auto  pos = std::find(v.begin(), v.end(), e);
            if (v.size() >= 3 && pos != v.begin() && pos + 1 != v.end()) middle = true;
            t.note("remove %d from list %d", e, where[e]);
            l_del(link(e));
            v.erase(pos);
            where[e] = -1;
            was[e]   = true;
            if (t.b(1, 3)) continue;   // moved: inserted elsewhere before the lists are walked
        } else {
            int l = (int)t.u(0, nl - 1);
            if (t.b(1, 6)) poison(t, link(e), l_headsize);
            if (t.b()) {
                t.note("insert %d at the head of list %d", e, l);
                l_add(link(e), heads[l]->p);
                m[l].insert(m[l].begin(), e);
            } else {
                t.note("insert %d at the tail of list %d", e, l);
                l_add_tail(link(e), heads[l]->p);
                m[l].push_back(e);
            }
            where[e] = l;
            if (was[e]) again = true;
        }
        walk();
    }
    walk();
    for (int q = 0; q < ne; q++) { unsigned id; CHECK(t, l_get(kind, els[q]->p, &id) && id == 1000u + q, "data of element %d changed", q); }
    if (middle) t.label("removed from the middle");
    if (again) t.label("inserted again");
    if (middle && again) t.nontrivial();
}
