#include "collections/circular_buffer.h"
typedef GEL_CBUF_TYPE E;
size_t sh_sizeof(void) { return sizeof(circular_buf_t); }
int    sh_init(void *c, E *b, size_t n) { return circular_buf_init(c, b, n); }
void   sh_reset(void *c) { circular_buf_reset(c); }
int    sh_puts(void *c, E *d, size_t n) { return circular_buf_puts(c, d, n); }
int    sh_putc(void *c, E d) { return circular_buf_putc(c, d); }
int    sh_gets(void *c, E *d, int n) { return circular_buf_gets(c, d, n); }
int    sh_getc(void *c, E *d) { return circular_buf_getc(c, d); }
int    sh_peek(void *c, E *d, int n) { return circular_buf_peek(c, d, n); }
int    sh_drop(void *c, int n) { return circular_buf_drop(c, n); }
int    sh_empty(void *c) { return is_circular_buf_empty(c); }
int    sh_full(void *c) { return is_circular_buf_full(c); }
size_t sh_size(void *c) { return circular_buf_size(c); }
size_t sh_capacity(void *c) { return circular_buf_capacity(c); }
