/* calls the real interpolation functions on heap copies (each ending at an inaccessible page) of the caller's arrays */
#include <stdio.h>
#include "globals.h"
#include "interp.h"
#include "fregrid_util.h"
int nearest_index(double value, const double *array, int ia);
static double *dup_(const double *p, int n) { double *q = (double *)malloc((n > 0 ? n : 1) * sizeof(double)); int i; if (n <= 0) return q; q = q; for (i = 0; i < n; i++) q[i] = p[i]; return q; }
static void out_(double *d, const double *s, int n) { int i; for (i = 0; i < n; i++) d[i] = s[i]; }

int h_nearest(double v, const double *a, int n) { double *x = dup_(a, n); int r = nearest_index(v, x, n); free(x); return r; }

void h_spline(int sp, int n1, int n2, const double *g1, const double *g2, const double *d1, double *d2, double s, double e)
{
  double *a = dup_(g1, n1), *b = dup_(g2, n2), *c = dup_(d1, n1), *r = (double *)malloc(n2 * sizeof(double));
  if (sp) cubic_spline_sp(n1, n2, a, b, c, r);
  else cubic_spline(n1, n2, a, b, c, r, s, e);
  out_(d2, r, n2);
  free(a); free(b); free(c); free(r);
}

void h_linear(int nx, int ny, int n1, int n2, const double *g1, const double *g2, const double *d1, double *d2)
{
  double *a = dup_(g1, n1), *b = dup_(g2, n2), *c = dup_(d1, n1*nx*ny), *r = (double *)malloc(n2*nx*ny * sizeof(double));
  linear_vertical_interp(nx, ny, n1, n2, a, b, c, r);
  out_(d2, r, n2*nx*ny);
  free(a); free(b); free(c); free(r);
}

/* setup_vertical_interp then do_vertical_interp, as fregrid does */
void h_vertical(int nx, int ny, int n1, int n2, const double *z1, const double *z2, const double *data, int zaxis, double *res, int *inf)
{
  VGrid_config vi, vo;
  Grid_config g;
  Field_config f;
  memset(&vi, 0, sizeof vi); memset(&vo, 0, sizeof vo); memset(&g, 0, sizeof g); memset(&f, 0, sizeof f);
  vi.nz = n1; vo.nz = n2;
  vi.z = dup_(z1, n1); vo.z = dup_(z2, n2);
  g.nx = nx; g.ny = ny;
  f.data = dup_(data, nx*ny*n1);
  f.var = (Var_config *)calloc(1, sizeof(Var_config));
  f.var[0].has_zaxis = zaxis;
  setup_vertical_interp(&vi, &vo);
  inf[0] = vo.kstart; inf[1] = vo.kend; inf[2] = vo.need_interp;
  do_vertical_interp(&vi, &vo, &g, &f, 0);
  out_(res, f.data, nx*ny*(vo.need_interp && zaxis ? n2 : n1));
  free(f.var); free(f.data); free(vi.z); free(vo.z);
}
