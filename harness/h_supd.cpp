// C11: struct updates against a byte model.
#include "h_supd.h"
#include "pbt.hpp"
#include <cstring>
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
static size_t heap_used() { return __sanitizer_get_current_allocated_bytes(); }
const char *pbt_rule = "sequences of captures (22 fields through both macros with 6 kinds of length expression, or any byte range directly), changes of the source and of the objects, applications to up to 3 objects and frees; "
                       "non-trivial: an update was applied after its source changed, another was applied to two objects, and an array update was applied";
PBT_PAIR()
void property(T &t) {
    int                               nobj = (int)t.u(1, 3);
    const size_t                      osz  = su_objsize + (t.b(1, 40) ? (size_t)t.u(0, 80000) : 0);
    std::vector<std::unique_ptr<Buf>> obj;
    std::vector<std::vector<uint8_t>> m;
    for (int q = 0; q < nobj; q++) {
        obj.emplace_back(new Buf(osz));
        poison(t, obj[q]->p, osz);
        m.emplace_back(obj[q]->p, obj[q]->p + osz);
    }
    struct U {
        std::unique_ptr<Buf> rec, src;
        size_t               off;
        std::vector<uint8_t> data;
        bool                 changed = false, array = false;
        unsigned             applied = 0;   // objects it was applied to
    };
    std::vector<U> us;
    bool           late = false, two = false, arr = false;
    ptrdiff_t      held = 0;   // heap bytes held by the library
    auto           heap = [&](auto f) { size_t h = heap_used(); f(); held += (ptrdiff_t)(heap_used() - h); };
    auto           bytes = [&](uint8_t *p, size_t n) { uint64_t k = t.u(0, UINT32_MAX) * 0x9e3779b97f4a7c15ull + 77; for (size_t q = 0; q < n; q++) { k = k * 6364136223846793005ull + 1442695040888963407ull; p[q] = (uint8_t)(k >> 56); } };
    while (t.more(14)) {
        Span s(t);
        switch (t.pick({6, 6, 2, 2, 1})) {
            case 0: {
                if (us.size() >= 6) break;
                U u;
                u.rec.reset(new Buf(su_updsize));
                int    o   = (int)t.u(0, nobj - 1);
                size_t len = 0;
                if (t.b(3, 4)) {
                    unsigned          f  = (unsigned)t.u(0, su_fields - 1);
                    const su_field_t &fd = su_field[f];
                    u.off                = fd.off;
                    if (fd.elems) {
                        unsigned form = (unsigned)t.pick(su_forms);
                        int      n = (int)t.u(0, fd.elems), a = 0, b = 0;
                        switch (form) {
                            case 0: a = n; break;
                            case 1: a = (int)t.u(0, n); b = n - a; break;
                            case 2: case 3: a = (int)t.u(0, 9); b = a + n; break;
                            case 4: a = n; b = n & (int)t.u(0, 15); break;
                            default: n = 2;
                        }
                        len = n * fd.size;
                        u.src.reset(new Buf(len));
                        bytes(u.src->p, len);
                        u.array  = true;
                        t.note("capture %s of object %d, length %s with a=%d b=%d", fd.name, o, su_form_name[form], a, b);
                        size_t k = 0;
                        heap([&] { k = su_make_array(f, obj[o]->p, u.src->p, form, a, b, u.rec->p); });
                        CHECK(t, k == (size_t)n, "internal");
                    } else {
                        len = fd.size;
                        u.src.reset(new Buf(len));
                        bytes(u.src->p, len);
                        int named = t.b(1, 4);
                        heap([&] { su_make(f, obj[o]->p, u.src->p, named, u.rec->p); });
                        t.note("capture %s of object %d", fd.name, o);
                    }
                } else {
                    u.off = t.u(0, osz);
                    len   = t.u(0, osz - u.off);
                    u.src.reset(new Buf(len));
                    bytes(u.src->p, len);
                    heap([&] { su_raw(u.off, u.src->p, len, u.rec->p); });
                    t.note("capture bytes %zu..+%zu", u.off, len);
                }
                u.data.assign(u.src->p, u.src->p + len);
                us.push_back(std::move(u));
                break;
            }
            case 1: {
                if (us.empty()) break;
                U  &u = us[t.u(0, us.size() - 1)];
                int o = (int)t.u(0, nobj - 1);
                t.note("apply bytes %zu..+%zu to object %d", u.off, u.data.size(), o);
                heap([&] { su_apply(obj[o]->p, u.rec->p); });
                std::copy(u.data.begin(), u.data.end(), m[o].begin() + u.off);
                if (!u.data.empty()) {
                    late |= u.changed;
                    arr |= u.array;
                    u.applied |= 1u << o;
                    two |= (u.applied & (u.applied - 1)) != 0;
                }
                break;
            }
            case 2: {
                if (us.empty()) break;
                U &u = us[t.u(0, us.size() - 1)];
                if (!u.src) break;
                if (t.b(1, 3)) { u.src.reset(); t.note("free the source of a capture"); }
                else { bytes(u.src->p, u.src->n); t.note("change the source of a capture"); }
                u.changed = true;
                break;
            }
            case 3: {
                int    o   = (int)t.u(0, nobj - 1);
                size_t off = t.u(0, osz - 1), n = t.u(1, osz - off);
                bytes(obj[o]->p + off, n);
                memcpy(m[o].data() + off, obj[o]->p + off, n);
                t.note("change object %d", o);
                break;
            }
            default: {
                if (us.empty()) break;
                size_t q = t.u(0, us.size() - 1);
                t.note("free bytes %zu..+%zu", us[q].off, us[q].data.size());
                heap([&] { su_free(us[q].rec->p); });
                us.erase(us.begin() + q);
            }
        }
        for (int o = 0; o < nobj; o++)
            for (size_t q = 0; q < osz; q++)
                CHECK(t, obj[o]->p[q] == m[o][q], "byte %zu of object %d is 0x%02x instead of 0x%02x", q, o, obj[o]->p[q], m[o][q]);
        for (auto &u : us)
            if (u.src && !u.changed) CHECK(t, !memcmp(u.src->p, u.data.data(), u.data.size()), "the source of a capture was modified");
    }
    for (auto &u : us) heap([&] { su_free(u.rec->p); });
    CHECK(t, held == 0, "%td bytes of heap are still in use after every update was freed", held);
    if (late) t.label("applied after the source changed");
    if (two) t.label("applied to two objects");
    if (arr) t.label("array update applied");
    if (late && two && arr) t.nontrivial();
}
