#include "data_structures/struct_update.h"
#include "h_supd.h"
typedef struct { uint16_t x; uint8_t y[3]; } in_t;
typedef struct {
    uint8_t  a;
    uint32_t b;
    uint16_t c;
    char     name[17];
    uint64_t d;
    double   e;
    uint32_t arr[9];
    in_t     in;
    in_t     ins[3];
    void    *p;
    uint16_t sh[5];
    int8_t   last;
    char     text[210];
    uint32_t far[45];
    uint16_t end;
} obj_t;
const size_t su_objsize = sizeof(obj_t), su_updsize = sizeof(struct_update_t);
#define SCALARS(F) F(0, a) F(1, b) F(2, c) F(3, d) F(4, e) F(5, in) F(6, in.x) F(7, in.y[1]) F(8, ins[2].x) F(9, ins[1]) F(10, arr[4]) F(11, p) F(12, last) F(18, far[44]) F(19, end)
#define ARRAYS(F) F(13, name) F(14, arr) F(15, ins) F(16, sh) F(17, in.y) F(20, text) F(21, far)
#define S(I, M) [I] = { #M, offsetof(obj_t, M), sizeof(((obj_t *)0)->M), 0 },
#define A(I, M) [I] = { #M, offsetof(obj_t, M), sizeof(((obj_t *)0)->M[0]), sizeof(((obj_t *)0)->M) / sizeof(((obj_t *)0)->M[0]) },
const su_field_t su_field[] = { SCALARS(S) ARRAYS(A) };
const unsigned   su_fields  = sizeof(su_field) / sizeof(su_field[0]);
#undef S
#undef A
void su_make(unsigned f, void *obj, void *val, int named, void *upd) {
    struct_update_t *u = upd;
    obj_t           *o = obj;
    switch (f) {
#define S(I, M)                                                                                                        \
    case I:                                                                                                            \
        if (named) {   /* a value called like something inside the macro */                                            \
            typeof(o->M) _value = *(typeof(o->M) *)val;                                                                \
            *u = STRUCT_UPDATE((*o), M, _value);                                                                       \
        } else *u = STRUCT_UPDATE((*o), M, *(typeof(o->M) *)val);                                                      \
        break;
        SCALARS(S)
    }
}
const char    *su_form_name[] = { "a", "a + b", "b - a", "b > a ? b - a : 0", "a | b", "2 literal" };
const unsigned su_forms       = 6;
size_t su_make_array(unsigned f, void *obj, void *val, unsigned form, int a, int b, void *upd) {
    struct_update_t *u = upd;
    obj_t            o = *(obj_t *)obj;
    switch (f) {
#define A(I, M)                                                                                                        \
    case I: {                                                                                                          \
        typeof(o.M[0]) *v = val;                                                                                       \
        switch (form) {                                                                                                \
            case 0: *u = STRUCT_UPDATE_ARRAY(o, M, v, a); return a;                                                     \
            case 1: *u = STRUCT_UPDATE_ARRAY(o, M, v, a + b); return a + b;                                             \
            case 2: *u = STRUCT_UPDATE_ARRAY(o, M, v, b - a); return b - a;                                             \
            case 3: *u = STRUCT_UPDATE_ARRAY(o, M, v, b > a ? b - a : 0); return b > a ? b - a : 0;                     \
            case 4: *u = STRUCT_UPDATE_ARRAY(o, M, v, a | b); return a | b;                                             \
            default: *u = STRUCT_UPDATE_ARRAY(o, M, v, 2); return 2;                                                    \
        }                                                                                                              \
    }
        ARRAYS(A)
    }
    return 0;
}
void su_raw(size_t off, void *data, size_t size, void *upd) { *(struct_update_t *)upd = struct_update_from_data(off, data, size); }
void su_apply(void *dest, void *upd) { struct_update_apply(dest, *(struct_update_t *)upd); }
void su_free(void *upd) { struct_update_free(*(struct_update_t *)upd); }
