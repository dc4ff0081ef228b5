// C17 / C18: page manager navigation against a stack model. C17 judges create/open/close/destroy, C18 the current
// page (events, updates, views, found flag).
#include "h_page.h"
#include "pbt.hpp"
#include <cstring>
#include <functional>
#ifdef C18
const char *pbt_rule = "navigation sequences (change, swap, rebase, back, reset-to-page, re-initialisation) over pages of 6 classes with any subset of callbacks, repeated ids and data, probed with events and updates (whose callbacks may navigate themselves) after every step; "
                       "non-trivial: back and a found reset-to-page restored a page, and a page id was on the stack twice";
#else
const char *pbt_rule = "navigation sequences (change, swap, rebase, back, reset-to-page, re-initialisation) over pages of 6 classes with any subset of callbacks, every callback logged; "
                       "non-trivial: back destroyed a page, and a rebase or reset-to-page destroyed at least two";
#endif
struct Call { int kind, cls; intptr_t model, data; void *extra; intptr_t event, ret; };
static std::vector<Call> log_;
static T                *g;
static std::function<void()> *inside;   // navigation that the next event or update callback makes
static int               token;
static const char       *KN[] = {"create", "destroy", "open", "close", "update", "event"};
struct Page { pm_page_t d; intptr_t data = 0; int serial = 0; };
intptr_t pm_cb(int kind, int cls, intptr_t model, intptr_t data, void *extra, intptr_t event) {
    CHECK(*g, log_.size() < 200, "callbacks without end");
    intptr_t ret = 0;
    if (kind == CB_CREATE) {
        ret = ++token % 7 == 0 ? 0 : token;   // a page may have null data
    } else if (kind == CB_UPDATE || kind == CB_EVENT) ret = 100000 + ++token;
    log_.push_back({kind, cls, model, data, extra, event, ret});
    if (inside && (kind == CB_UPDATE || kind == CB_EVENT)) {
        auto keep = log_;
        auto f    = inside;
        inside    = nullptr;
        (*f)();
        log_ = keep;
    }
    pbt_inside();
    return ret;
}
static std::string str(const Call &c) {
    char b[160];
    snprintf(b, sizeof b, "%s of class %d (model %ld, data %ld, extra %ld)", KN[c.kind], c.cls, (long)c.model, (long)c.data, (long)(intptr_t)c.extra);
    return b;
}
PBT_PAIR(log_, token, inside)
void property(T &t) {
    g     = &t;
    token  = 0;
    inside = nullptr;
    log_.clear();
    Buf pm(pm_size);
    poison(t, pm.p, pm.n);
    pm_init(pm.p);
    std::vector<Page> st;       // saved pages
    bool              have = false, backed = false, reset_found = false, twice = false, back_destroyed = false, many = false, navigated = false;
    Page              cur;
    int               serial = 0;
    t.note("navigation depth %u, update callback %s", pm_depth, pm_has_update ? "on" : "off");
    auto newpage = [&](const char *what) {
        Page p;
        memset(&p.d, 0, sizeof p.d);
        p.d.id   = t.b(1, 10) ? (int)t.i(-5, 1 << 20) : (int)t.u(0, 3);
        p.d.cls  = t.pick(PM_CLASSES);
        p.d.mask = t.b(2, 3) ? 0x3f : (unsigned)t.u(0, 0x3f);
        p.d.junk = t.b(1, 3) ? 0xEE : 0;
        p.d.plain = t.b(1, 3);
        p.serial = ++serial;
        p.d.extra = p.d.plain ? nullptr : t.b(1, 8) ? nullptr : (void *)(intptr_t)(7000 + p.serial);
        t.note("%s page id %d class %d callbacks %02x extra %ld", what, p.d.id, p.d.cls, p.d.mask, (long)(intptr_t)p.d.extra);
        return p;
    };
    auto has = [](const Page &p, int kind) { return (p.d.mask >> kind & 1) && (kind != CB_UPDATE || pm_has_update); };
    // what a navigation step must have done
    struct Exp { std::vector<Page> closed, destroyed, created, opened, updated; };
    auto judge = [&](const Exp &e0, int model, intptr_t ret, const char *what) {
        Exp e = e0;
#ifndef C18
        // exact calls
        std::vector<Call> want;
        for (auto &p : e.closed) if (has(p, CB_CLOSE)) want.push_back({CB_CLOSE, p.d.cls, 0, p.data, nullptr, 0, 0});
        for (auto &p : e.destroyed) if (has(p, CB_DESTROY)) want.push_back({CB_DESTROY, p.d.cls, 0, p.data, p.d.extra, 0, 0});
        for (auto &p : e.created) if (has(p, CB_CREATE)) want.push_back({CB_CREATE, p.d.cls, model, 0, p.d.extra, 0, 0});
        for (auto &p : e.opened) if (has(p, CB_OPEN)) want.push_back({CB_OPEN, p.d.cls, model, p.data, nullptr, 0, 0});
        auto eq = [](const Call &a, const Call &b) { return a.kind == b.kind && a.cls == b.cls && a.model == b.model && a.data == b.data && a.extra == b.extra; };
        std::vector<Call> got;
        for (auto &c : log_) if (c.kind != CB_UPDATE && c.kind != CB_EVENT) got.push_back(c);
        auto left = got;
        for (auto &w : want) {
            size_t q = 0;
            while (q < left.size() && !eq(left[q], w)) q++;
            if (q == left.size()) {
                std::string s;
                for (auto &c : got) s += "\n    " + str(c);
                t.fail("%s: missing call: %s; calls made:%s", what, str(w).c_str(), s.empty() ? " none" : s.c_str());
            }
            left.erase(left.begin() + q);
        }
        if (!left.empty()) t.fail("%s: unexpected call: %s", what, str(left[0]).c_str());
        // order: closed before destroyed, created before opened, the old page closed before the new one opens
        auto find = [&](int kind, const Page &p) -> int {
            for (size_t q = 0; q < got.size(); q++)
                if (got[q].kind == kind && got[q].cls == p.d.cls && (kind == CB_CREATE ? got[q].extra == p.d.extra : got[q].data == p.data) && (kind != CB_DESTROY || got[q].extra == p.d.extra)) return (int)q;
            return -1;
        };
        for (auto &c : e.closed) {
            int ci = find(CB_CLOSE, c);
            for (auto &o : e.opened) { int oi = find(CB_OPEN, o); CHECK(t, ci < 0 || oi < 0 || ci < oi, "%s: the new page opens before the old one is closed", what); }
            for (auto &d : e.destroyed)
                if (d.serial == c.serial) {
                    int  di = find(CB_DESTROY, d), same = 0;
                    for (auto &x : e.destroyed) same += x.d.cls == d.d.cls && x.data == d.data && x.d.extra == d.d.extra;
                    CHECK(t, same > 1 || ci < 0 || di < 0 || ci < di, "%s: a page is destroyed before it is closed", what);
                }
        }
        for (auto &c : e.created) { int ci = find(CB_CREATE, c), oi = find(CB_OPEN, c); CHECK(t, ci < 0 || oi < 0 || ci < oi, "%s: a page is opened before it is created", what); }
#else
        std::vector<Call> up;
        for (auto &c : log_) if (c.kind == CB_UPDATE || c.kind == CB_EVENT) up.push_back(c);
        bool want = !e.updated.empty() && has(e.updated[0], CB_UPDATE);
        CHECK(t, up.size() == (want ? 1u : 0u), "%s: %zu updates or events instead of %d", what, up.size(), want ? 1 : 0);
        if (want) CHECK(t, up[0].kind == CB_UPDATE && up[0].cls == e.updated[0].d.cls && up[0].data == e.updated[0].data && up[0].model == model, "%s: the update reaches the wrong page, data or model: %s", what, str(up[0]).c_str());
        if (pm_has_view) CHECK(t, ret == (want ? up[0].ret : pm_null_view), "%s: returns view %ld instead of %ld", what, (long)ret, want ? (long)up[0].ret : (long)pm_null_view);
#endif
    };
    auto created = [&](Page &p) {   // the data its create callback returned
        p.data = pm_null_data;
        for (auto &c : log_) if (c.kind == CB_CREATE) p.data = c.ret;
    };
    std::function<void(bool)> navigate;
    std::function<void()>     nested = [&] { t.note("  which navigates:"); navigate(true); };
    auto probe = [&]() {
        if (!have) return;
        int model = (int)t.u(1, 50);
        log_.clear();
        if (t.b() && has(cur, CB_EVENT)) {
            int  ev  = (int)t.u(0, 1000);
            Page was = cur;
            if (t.b(1, 6)) inside = &nested, t.note("event"), navigated = true;
            intptr_t r  = pm_event(pm.p, model, ev);
            CHECK(t, log_.size() == 1 && log_[0].kind == CB_EVENT, "an event makes %zu callbacks", log_.size());
            inside = nullptr;
#ifdef C18
            CHECK(t, log_[0].cls == was.d.cls && log_[0].data == was.data && log_[0].model == model && log_[0].event == ev, "the event reaches the wrong page, data, model or event: %s, current: class %d data %ld", str(log_[0]).c_str(), was.d.cls, (long)was.data);
            CHECK(t, r == log_[0].ret, "the event returns %ld instead of %ld", (long)r, (long)log_[0].ret);
#endif
            if (!have) return;
        }
        log_.clear();
        if (t.b()) {
            Exp e;
            e.updated = {cur};
            if (has(cur, CB_UPDATE) && t.b(1, 6)) inside = &nested, t.note("update"), navigated = true;
            intptr_t r = pm_update(pm.p, model);
            CHECK(t, log_.size() <= 1, "an update makes %zu callbacks", log_.size());
            inside = nullptr;
            judge(e, model, r, "update");
        }
    };
    navigate = [&](bool in) {
        log_.clear();
        Exp      e;
        int      model = (int)t.u(1, 50);
        intptr_t r;
        unsigned op = t.pick({8, 4, 3, 6, 5, in ? 0u : 1u});
        if (op == 0 && have && st.size() >= pm_depth) op = 3;
        if (op == 3 && !have) op = 0;
        switch (op) {
            case 0: {
                Page p = newpage("change to");
                r      = pm_change(pm.p, model, &p.d);
                if (have) { e.closed = {cur}; st.push_back(cur); }
                created(p);
                for (auto &x : st) if (x.d.id == p.d.id) twice = true;
                cur  = p;
                have = true;
                e.created = e.opened = e.updated = {cur};
                judge(e, model, r, "change");
                break;
            }
            case 1: case 2: {
                Page p = newpage(op == 1 ? "swap to" : "rebase to");
                r      = op == 1 ? pm_swap(pm.p, model, &p.d) : pm_rebase(pm.p, model, &p.d);
                if (have) e.closed = e.destroyed = {cur};
                if (op == 2) {
                    for (auto &x : st) e.destroyed.push_back(x);
                    if (e.destroyed.size() > 1) many = true;
                    st.clear();
                }
                created(p);
                cur  = p;
                have = true;
                e.created = e.opened = e.updated = {cur};
                judge(e, model, r, op == 1 ? "swap" : "rebase");
                break;
            }
            case 3: {
                t.note("back (%zu saved)", st.size());
                r = pm_back(pm.p, model);
                if (!st.empty()) {
                    e.closed = e.destroyed = {cur};
                    cur = st.back();
                    st.pop_back();
                    e.opened = e.updated = {cur};
                    backed = true;
                    if (has(e.destroyed[0], CB_DESTROY)) back_destroyed = true;
                }
                judge(e, model, r, "back");
                break;
            }
            case 4: {
                int id = !st.empty() && t.b(2, 3) ? st[t.u(0, st.size() - 1)].d.id : (int)t.u(0, 3);
                if (have && t.b(1, 8)) id = cur.d.id;
                t.note("reset to page id %d (%zu saved)", id, st.size());
                uint8_t found = 0x77;
                r             = pm_reset(pm.p, model, id, &found);
                if (have) e.closed = e.destroyed = {cur};
                have = false;
                while (!st.empty()) {
                    Page p = st.back();
                    st.pop_back();
                    if (p.d.id == id) { cur = p; have = true; break; }
                    e.destroyed.push_back(p);
                }
                if (e.destroyed.size() > 1) many = true;
                if (have) { e.opened = e.updated = {cur}; reset_found = true; }
                judge(e, model, r, "reset-to-page");
#ifdef C18
                CHECK(t, found == (have ? 1 : 0), "reset-to-page says found=%d, the page %s on the stack", found, have ? "was" : "was not");
#endif
                break;
            }
            default: {   // a new manager over old memory
                if (t.b()) poison(t, pm.p, pm.n);
                pm_init(pm.p);
                t.note("init");
                CHECK(t, log_.empty(), "initialisation makes callbacks");
                st.clear();
                have = false;
            }
        }
    };
    while (t.more(16)) {
        Span s(t);
        navigate(false);
        probe();
    }
    if (navigated) t.label("navigation from within a callback");
    if (backed) t.label("went back");
    if (reset_found) t.label("reset found");
    if (twice) t.label("same id twice");
    if (many) t.label("several pages destroyed at once");
#ifdef C18
    if (backed && reset_found && twice) t.nontrivial();
#else
    if (back_destroyed && many) t.nontrivial();
#endif
}
