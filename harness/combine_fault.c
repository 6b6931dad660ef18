/* stand-ins that let a chosen NetCDF call of mppnccombine fail; everything else goes to the library */
#include <stdlib.h>
#include <netcdf.h>
static int nput, nget;
static int in(const char *a, const char *b, int n)
{
  const char *x = getenv(a), *y = getenv(b);
  return x && n >= atoi(x) && (!y || n < atoi(y));
}
int h_ncvarput(int id, int v, const long *s, const long *c, const void *p)
{
  if (in("PUT_FROM", "PUT_TO", nput++)) return -1;
  return ncvarput(id, v, s, c, p);
}
int h_ncvarget(int id, int v, const long *s, const long *c, void *p)
{
  if (in("GET_FROM", "GET_TO", nget++)) return -1;
  return ncvarget(id, v, s, c, p);
}
int h_ncclose(int id)
{
  int r = ncclose(id);
  const char *x = getenv("CLOSE_FAIL");
  static int n;
  return x && n++ >= atoi(x) ? -1 : r;
}
