/* calls the real do_scalar_conserve_interp on heap copies (each ending at an inaccessible page) of the caller's arrays */
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include "globals.h"
#include "conserve_interp.h"
static double *D(const double *p, int n) { double *q = (double *)malloc((n > 0 ? n : 1)*sizeof(double)); if (n > 0) memcpy(q, p, n*sizeof(double)); return q; }
static int *I(const int *p, int n) { int *q = (int *)malloc((n > 0 ? n : 1)*sizeof(int)); if (n > 0) memcpy(q, p, n*sizeof(int)); return q; }

/* f: order, nz, has_missing, measures, methods, use_volume, weight_exist, opcode; d: missing, area_missing */
void h_conserve(const int *f, const double *d, int nin, const int *si, int nout, const int *so, const int *nxg,
                const int *rec, const double *rd, const double *data, const double *gx, const double *gy, const int *gm,
                const double *w, const double *ca, const double *fa, const double *co, double *out)
{
  int order = f[0], nz = f[1], n, m, tot = 0, o1 = 0, oh = 0, o2 = 0, h = order == CONSERVE_ORDER2;
  Interp_config *ip = (Interp_config *)calloc(nout, sizeof(Interp_config));
  Grid_config *gi = (Grid_config *)calloc(nin, sizeof(Grid_config)), *go = (Grid_config *)calloc(nout, sizeof(Grid_config));
  Field_config *fi = (Field_config *)calloc(nin, sizeof(Field_config)), *fo = (Field_config *)calloc(nout, sizeof(Field_config));
  Var_config v;
  memset(&v, 0, sizeof v);
  strcpy(v.name, "v");
  v.interp_method = order; v.has_missing = f[2]; v.cell_measures = f[3]; v.cell_methods = f[4]; v.use_volume = f[5];
  v.missing = d[0]; v.area_missing = d[1];
  for (n = 0; n < nout; n++) tot += nxg[n];
  for (n = 0; n < nin; n++) {
    int nx = si[2*n], ny = si[2*n+1], N = nx*ny, NH = h ? (nx+2)*(ny+2) : N;
    gi[n].nx = nx; gi[n].ny = ny; gi[n].weight_exist = f[6];
    gi[n].weight = D(w+o1, N); gi[n].cell_area = D(ca+o1, N);
    fi[n].area = D(fa+o1, N);
    fi[n].data = D(data+oh*nz, NH*nz);
    if (h) { fi[n].grad_x = D(gx+o1*nz, N*nz); fi[n].grad_y = D(gy+o1*nz, N*nz); fi[n].grad_mask = I(gm+o1*nz, N*nz); }
    fi[n].var = &v;
    o1 += N; oh += NH;
  }
  m = 0;
  for (n = 0; n < nout; n++) {
    int k = nxg[n], N = so[2*n]*so[2*n+1];
    go[n].nxc = so[2*n]; go[n].nyc = so[2*n+1]; go[n].cell_area = D(co+o2, N);
    fo[n].data = (double *)malloc(N*nz*sizeof(double));
    ip[n].nxgrid = k;
    ip[n].i_in = I(rec+m, k); ip[n].j_in = I(rec+tot+m, k); ip[n].i_out = I(rec+2*tot+m, k); ip[n].j_out = I(rec+3*tot+m, k); ip[n].t_in = I(rec+4*tot+m, k);
    ip[n].area = D(rd+m, k); ip[n].di_in = D(rd+tot+m, k); ip[n].dj_in = D(rd+2*tot+m, k);
    m += k; o2 += N;
  }
  do_scalar_conserve_interp(ip, 0, nin, gi, nout, go, fi, fo, f[7], nz);
  for (n = 0, o2 = 0; n < nout; n++) { int N = so[2*n]*so[2*n+1]*nz; memcpy(out+o2, fo[n].data, N*sizeof(double)); o2 += N; }
  for (n = 0; n < nin; n++) { free(gi[n].weight); free(gi[n].cell_area); free(fi[n].area); free(fi[n].data); if (h) { free(fi[n].grad_x); free(fi[n].grad_y); free(fi[n].grad_mask); } }
  for (n = 0; n < nout; n++) { free(go[n].cell_area); free(fo[n].data); free(ip[n].i_in); free(ip[n].j_in); free(ip[n].i_out); free(ip[n].j_out); free(ip[n].t_in); free(ip[n].area); free(ip[n].di_in); free(ip[n].dj_in); }
  free(ip); free(gi); free(go); free(fi); free(fo);
}
