/* counts the NetCDF calls made by mpp_io.c and makes one of them fail */
long c09_count = 0, c09_fail = -1;
int c09_hit = 0, c09_inject = 1;
#define W(n) \
  extern int __real_##n(long, long, long, long, long, long); \
  int __wrap_##n(long a, long b, long c, long d, long e, long f) \
  { if (c09_inject && c09_count++ == c09_fail) { c09_hit = 1; return -36; } return __real_##n(a, b, c, d, e, f); }
#include "c09_names.h"
