#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
extern const size_t su_objsize, su_updsize;
typedef struct { const char *name; size_t off, size, elems; } su_field_t;   // elems > 0: array field
extern const su_field_t su_field[];
extern const unsigned   su_fields;
extern const unsigned   su_forms;
extern const char      *su_form_name[];
// scalar field: from the value at val; array field: len elements of val written with expression form `form` as a + b (or a alone ...)
void   su_make(unsigned f, void *obj, void *val, int named, void *upd);
size_t su_make_array(unsigned f, void *obj, void *val, unsigned form, int a, int b, void *upd);   // returns the number of elements asked for
void   su_raw(size_t off, void *data, size_t size, void *upd);
void   su_apply(void *dest, void *upd);
void   su_free(void *upd);
#ifdef __cplusplus
}
#endif
