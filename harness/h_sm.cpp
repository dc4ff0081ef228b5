// C30: state machines against a state variable.
#include "h_sm.h"
#include "pbt.hpp"
#include <cstring>
#include <memory>
const char *pbt_rule = "1-3 machines (4 event types, own or shared handler tables, mostly 1-12 and up to 70000 states) fed with events, also from within their handlers; each handler's verdict is drawn: any state, the same state, zero, or any negative number; "
                       "non-trivial: a machine moved, stayed put on a negative verdict, made a self-transition and returned to state zero";
struct M { unsigned kind, states, first, state; std::unique_ptr<Buf> sm, model; };
struct Frame { unsigned calls = 0, kind = 0, handler = 0; void *model = nullptr; uint64_t event = 0; int verdict = 0; bool nested = false; };
static T                              *cur;
static std::vector<std::unique_ptr<M>> ms;
static std::vector<Frame>              frames;
static bool moved, stayed, self, zero, inner;
static void send(T &t);
extern "C" int smh_handler(unsigned kind, unsigned handler, void *model, uint64_t event) {
    Frame &f = frames.back();
    f.calls++, f.kind = kind, f.handler = handler, f.model = model, f.event = event;
    if (f.nested && f.calls == 1) { inner = true; send(*cur); }
    pbt_inside();
    return frames.back().verdict;
}
static void send(T &t) {
    M    &m = *ms[t.u(0, ms.size() - 1)];
    int   verdict;
    switch (t.pick({6, 2, 2, 2})) {
        case 0: verdict = (int)t.u(0, m.states - 1); break;
        case 1: verdict = -(int)t.u(1, INT32_MAX); if (t.b(1, 6)) verdict = INT32_MIN; break;
        case 2: verdict = (int)m.state; break;
        default: verdict = 0;
    }
    uint64_t ev = m.kind == 0 ? (uint64_t)t.i(INT32_MIN, INT32_MAX) : m.kind == 1 ? t.u(0, 255) : m.kind == 2 ? t.u(0, (1ull << 40) - 1) | (uint64_t)t.b() << 63 : t.u(0, ~0ull);
    void    *model = t.b(1, 10) ? nullptr : m.model->p;
    unsigned was = m.state;
    frames.emplace_back();
    frames.back().verdict = verdict;
    frames.back().nested  = frames.size() < 4 && t.b(1, 8);
    t.note("%*sevent 0x%llx for machine of %u states in state %u, verdict %d%s", (int)frames.size() * 2 - 2, "", (unsigned long long)ev, m.states, m.state, verdict, frames.back().nested ? "; its handler sends:" : "");
    int r = sm_send(m.kind, m.sm->p, model, ev);
    Frame f = frames.back();
    frames.pop_back();
    CHECK(t, f.calls == 1, "the event was handled by %u handler calls", f.calls);
    CHECK(t, f.kind == m.kind && f.handler == sm_handler_of(m.first + was), "in state %u the handler of another state was called", was);
    CHECK(t, f.model == model, "the handler got another model");
    CHECK(t, f.event == ev, "the handler got event 0x%llx instead of 0x%llx", (unsigned long long)f.event, (unsigned long long)ev);
    CHECK(t, (r != 0) == (verdict >= 0), "verdict %d, but sending returned %d", verdict, r);
    if (verdict >= 0) {
        if ((unsigned)verdict != was) moved = true; else self = true;
        if (verdict == 0) zero = true;
        m.state = (unsigned)verdict;
    } else stayed = true;
    for (unsigned q = 0; q < ms.size(); q++) CHECK(t, sm_state(ms[q]->kind, ms[q]->sm->p) == ms[q]->state, "machine %u is in state %u, expected %u", q, sm_state(ms[q]->kind, ms[q]->sm->p), ms[q]->state);
}
PBT_PAIR(ms, frames, moved, stayed, self, zero, inner)
void property(T &t) {
    cur = &t;
    ms.clear();
    frames.clear();
    moved = stayed = self = zero = inner = false;
    unsigned nm = (unsigned)t.u(1, 3);
    for (unsigned q = 0; q < nm; q++) {
        auto m    = std::make_unique<M>();
        m->kind   = (unsigned)t.u(0, SM_KINDS - 1);
        m->states = t.b(7, 8) ? (unsigned)t.u(1, SM_STATES) : t.b() ? (unsigned)t.u(1, 600) : (unsigned)t.u(1, 70000);
        m->first  = (unsigned)t.u(0, 15);
        m->state  = (unsigned)t.u(0, m->states - 1);
        m->sm.reset(new Buf(sm_size[m->kind]));
        m->model.reset(new Buf(sm_modelsize[m->kind]));
        sm_setup(m->kind, m->sm->p, m->state, m->first);
        t.note("machine %u: %s, %u states, starts in %u", q, sm_kind[m->kind], m->states, m->state);
        ms.push_back(std::move(m));
    }
    while (t.more(12)) {
        Span s(t);
        send(t);
    }
    if (inner) t.label("event sent from a handler");
    if (moved && stayed && self && zero) t.nontrivial();
}
