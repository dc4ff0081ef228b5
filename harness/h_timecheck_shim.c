#include "timer/timecheck.h"
#include "h_timecheck.h"
typedef timestamp_t ts;
const unsigned tc_width = sizeof(ts), tc_signed = (ts)-1 < (ts)1;
#define AB ts a = (ts)a_, b = (ts)b_
// the comparisons are macros: their arguments may be expressions
static volatile int z;
#define C(M) AB; int p = !!M(a, b), q = !!M(a ^ z, b | z), r = !!M(z ? b : a, z ? a : b), v = z ? 0 : M(a, b) ? 1 : 0; return p == q && q == r && r == v ? p : 2
int      tc_after(uint64_t a_, uint64_t b_) { C(time_after); }
int      tc_after_eq(uint64_t a_, uint64_t b_) { C(time_after_or_equal); }
int      tc_before(uint64_t a_, uint64_t b_) { C(time_before); }
uint64_t tc_interval(uint64_t a_, uint64_t b_) { AB; return time_interval(a, b); }
int      tc_loose(uint64_t s, uint64_t c, uint64_t d) { return is_loosely_expired((ts)s, (ts)c, (ts)d); }
int      tc_expired(uint64_t s, uint64_t c, uint64_t d) { return is_expired((ts)s, (ts)c, (ts)d); }
int      tc_strict(uint64_t s, uint64_t c, uint64_t d) { return is_strictly_expired((ts)s, (ts)c, (ts)d); }
