#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
extern const unsigned tc_width, tc_signed;
int      tc_after(uint64_t a, uint64_t b);
int      tc_after_eq(uint64_t a, uint64_t b);
int      tc_before(uint64_t a, uint64_t b);
uint64_t tc_interval(uint64_t a, uint64_t b);
int      tc_loose(uint64_t s, uint64_t c, uint64_t d);
int      tc_expired(uint64_t s, uint64_t c, uint64_t d);
int      tc_strict(uint64_t s, uint64_t c, uint64_t d);
#ifdef __cplusplus
}
#endif
