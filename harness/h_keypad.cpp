// C16: keypad event automaton against a model.
#include "clock.h"
#include "pbt.hpp"
#include <cstring>
extern "C" {
#include "keypad/keypad.h"
}
const char *pbt_rule = "keypads of 1..5, rarely 250..300, keys with reading sequences (hold, release, bounce, direct change to another key, unknown values), time steps around the thresholds and around clock wrap-around, and resets; "
                       "non-trivial: a click, a long click or pressing, and a release were seen, and another key was read while a key was pending";
static const char *EV[] = {"nothing", "press", "pressing", "click", "longclick", "longpress", "release"};
// arbitrary previous contents of a key's state, if it is kept where it is now
template <class K> auto dirty(T &t, K *k, int) -> decltype((void)(k->_state.lastevent = (keypad_event_t)0)) {
    poison(t, &k->_state, sizeof k->_state);
    k->_state.lastevent = (keypad_event_t)t.u(0, 6);
}
template <class K> void dirty(T &, K *, long) {}
PBT_PAIR()
void property(T &t) {
    int n = t.b(1, 3000) ? (int)t.u(250, 300) : (int)t.u(1, 5);
    Buf kb(sizeof(keypad_key_t) * (n + 1));
    keypad_key_t *keys = (keypad_key_t *)kb.p;
    std::vector<unsigned long> bits;
    std::vector<int>           codes;
    for (int q = 0; q < n; q++) {
        unsigned long b;
        bool          dup;
        do {
            b   = n < 9 && t.b(2, 3) ? 1ul << t.u(0, 7) : t.u(1, n > 9 || t.b(1, 4) ? ~0ul : 15);
            dup = false;
            for (auto x : bits) dup |= x == b;
            if (dup && t.draws() > 400 + 20 * (size_t)n) t.discard();
        } while (dup);
        int code = t.b(1, 8) ? (int)t.i(-1000000, 1000000) : q + 1;
        bits.push_back(b);
        codes.push_back(code);
        keypad_key_t k = KEYPAD_KEY(b, code);
        keys[q]        = k;
    }
    keypad_key_t end = KEYPAD_NULL_KEY;
    keys[n]          = end;
    if (t.b(3, 4)) {
        if (t.b(1, 3)) {   // arbitrary previous state
            for (int q = 0; q < n; q++) dirty(t, &keys[q], 0);
        }
        keypad_reset_keys(keys);
    }
    unsigned long click = t.b(1, 12) ? t.u(0, QUARTER / 4) : t.u(0, 12), lclick = click + (t.b(1, 12) ? t.u(0, QUARTER / 4) : t.u(0, 15)), period = t.b(1, 12) ? t.u(0, QUARTER / 4) : t.u(0, 10);
    unsigned long now = t.b() ? t.u(0, 100) : TMAX - t.u(0, 100), spent = 0;
    t.note("%d keys, click %lu longclick %lu period %lu, time %lu", n, click, lclick, period, now);
    for (int q = 0; q < n; q++) t.note("  key %d: value %lx code %d", q, bits[q], codes[q]);
    enum { PRESSED, CLICKED, LONG };
    int           act = -1, phase = 0;
    bool          down = false;
    unsigned long te = 0, tp = 0, reading = 0;
    bool          sc = false, sl = false, sr = false, other = false, unknown = false;
    auto          exp = [&](unsigned long start, unsigned long d) { return ((now - start) & TMAX) > d; };
    while (t.more(40)) {
        Span s(t);
        if (t.b(1, 60)) {
            keypad_reset_keys(keys);
            act = -1;
            t.note("reset");
            for (int q = 0; q < n; q++) CHECK(t, !keypad_get_key_state(&keys[q]), "key %d is on after a reset", q);
            continue;
        }
        switch (t.pick({12, 4, 4, 1})) {
            case 0: break;   // unchanged
            case 1: reading = reading ? 0 : bits[t.u(0, n - 1)]; break;
            case 2: reading = bits[t.u(0, n - 1)]; break;
            default: reading = t.b() ? t.u(0, ~0ul) : (bits[t.u(0, n - 1)] | bits[t.u(0, n - 1)]);
        }
        unsigned long step;
        switch (t.pick({6, 6, 3, 1})) {
            case 0: step = t.u(0, 3); break;
            case 1: {
                unsigned long base = t.b(1, 3) ? tp : te, th = t.pick(3) == 0 ? click : t.pick(2) ? lclick : period;
                step = base + th - now;
                step &= TMAX;
                if (step > QUARTER / 2) step = 0;
                step += t.u(0, 2);
                if (step) step--;
                break;
            }
            case 2: step = t.u(0, 30); break;
            default: step = t.u(0, QUARTER / 4);
        }
        if (spent + step >= QUARTER) step = t.u(0, 3);
        spent += step;
        now = (now + step) & TMAX;
        int m = -1;
        for (int q = 0; q < n; q++) if (bits[q] == reading) m = q;
        int want = KEY_NOTHING, who = -1;
        if (m < 0 && reading) unknown = true;
        if (act < 0) {
            if (m >= 0) { act = m; phase = PRESSED; down = true; te = now; want = KEY_PRESS; who = m; }
        } else {
            bool match = m == act;
            who        = act;
            if (!match && m >= 0) other = true;
            if (down && !match) {
                down = false;
                te   = now;
                if (phase == PRESSED) { want = KEY_RELEASE; act = -1; }
            } else if (!down && match) { down = true; phase = PRESSED; te = now; want = KEY_PRESS; }
            else if (down) {
                if (phase == PRESSED) { if (exp(te, click)) { want = KEY_CLICK; phase = CLICKED; tp = now; } }
                else if (phase == CLICKED) {
                    if (exp(te, lclick)) { want = KEY_LONGCLICK; phase = LONG; tp = now; }
                    else if (exp(tp, period)) { want = KEY_PRESSING; tp = now; }
                } else if (exp(tp, period)) { want = KEY_LONGPRESS; tp = now; }
            } else if (exp(te, click)) { want = KEY_RELEASE; act = -1; }
        }
        sc |= want == KEY_CLICK;
        sl |= want == KEY_LONGCLICK || want == KEY_PRESSING;
        sr |= want == KEY_RELEASE;
        keypad_update_t u = keypad_routine(keys, click, lclick, period, now, reading);
        t.note("+%lu read %lx -> %s code %d", step, reading, (unsigned)u.event < 7 ? EV[u.event] : "?", u.code);
        CHECK(t, (int)u.event == want, "event %s instead of %s", (unsigned)u.event < 7 ? EV[u.event] : "?", EV[want]);
        if (want != KEY_NOTHING) CHECK(t, u.code == codes[who], "event %s carries code %d instead of %d", EV[want], u.code, codes[who]);
        for (int q = 0; q < n; q++) {
            if (q != act && bits[q] == reading) continue;   // physically read while another key is pending: either way
            int on = q == act && down;
            CHECK(t, !keypad_get_key_state(&keys[q]) == !on, "state of key %d is %d, it is %s", q, keypad_get_key_state(&keys[q]), on ? "held" : "not held");
        }
        for (int q = 0; q < n; q++) CHECK(t, keys[q].bitvalue == bits[q] && keys[q].code == codes[q], "the definition of key %d changes", q);
    }
    if (sc) t.label("click");
    if (sl) t.label("long click or pressing");
    if (sr) t.label("release");
    if (other) t.label("another key while pending");
    if (unknown) t.label("unknown value");
    if (sc && sl && sr && other) t.nontrivial();
}
