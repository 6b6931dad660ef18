/* Harness around the real mpp_domain.c: a stand-in message layer (mpp_*) and flat entry points.
   One OS process per simulated processor; messages travel over pipes. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include "mpp.h"
#include "mpp_domain.h"

static int h_pe = 0, h_npes = 1, h_root = 0;
static int fds[64][64][2]; /* from,to */

int mpp_pe() { return h_pe; }
int mpp_npes() { return h_npes; }
int mpp_root_pe() { return h_root; }
void mpp_error(char *str) { fprintf(stderr, "mpp_error: %s\n", str ? str : ""); _exit(71); }
void mpp_sync_self() {}
void mpp_sync() {}
static void wr(int to, const void *d, size_t n)
{
  const char *p = d;
  int hdr = (int)n;
  if (to < 0 || to >= h_npes) _exit(72);
  if (write(fds[h_pe][to][1], &hdr, sizeof hdr) != sizeof hdr) _exit(73);
  while (n) { ssize_t k = write(fds[h_pe][to][1], p, n); if (k <= 0) _exit(73); p += k; n -= k; }
}
static void rd(int from, void *d, size_t n)
{
  char *p = d;
  int hdr;
  if (from < 0 || from >= h_npes) _exit(74);
  if (read(fds[from][h_pe][0], &hdr, sizeof hdr) != sizeof hdr) _exit(75);
  if ((size_t)hdr != n) _exit(76); /* message size mismatch */
  while (n) { ssize_t k = read(fds[from][h_pe][0], p, n); if (k <= 0) _exit(75); p += k; n -= k; }
}
void mpp_send_double(const double *d, int size, int to) { wr(to, d, size * sizeof(double)); }
void mpp_send_int(const int *d, int size, int to) { wr(to, d, size * sizeof(int)); }
void mpp_recv_double(double *d, int size, int from) { rd(from, d, size * sizeof(double)); }
void mpp_recv_int(int *d, int size, int from) { rd(from, d, size * sizeof(int)); }

/* out: isc iec jsc jec isd ied jsd jed nxc nyc nxd nyd nxg nyg, then 4 lists, for the given pe */
int h_domain2d(int ni, int nj, int lx, int ly, int xhalo, int yhalo, int pe, int *out, int *l1, int *l2, int *l3, int *l4)
{
  domain2D d;
  int layout[2] = {lx, ly}, n, a, b, c, e;
  h_pe = pe; h_npes = lx * ly;
  mpp_domain_init();
  memset(&d, 0, sizeof d);
  mpp_define_domain2d(ni, nj, layout, xhalo, yhalo, &d);
  out[0] = d.isc; out[1] = d.iec; out[2] = d.jsc; out[3] = d.jec;
  out[4] = d.isd; out[5] = d.ied; out[6] = d.jsd; out[7] = d.jed;
  out[8] = d.nxc; out[9] = d.nyc; out[10] = d.nxd; out[11] = d.nyd; out[12] = d.nxg; out[13] = d.nyg;
  for (n = 0; n < lx * ly; n++) { l1[n] = d.isclist[n]; l2[n] = d.ieclist[n]; l3[n] = d.jsclist[n]; l4[n] = d.jeclist[n]; }
  mpp_get_compute_domain2d(d, &a, &b, &c, &e);
  out[14] = a; out[15] = b; out[16] = c; out[17] = e;
  mpp_get_data_domain2d(d, &a, &b, &c, &e);
  out[18] = a; out[19] = b; out[20] = c; out[21] = e;
  mpp_get_global_domain2d(d, &a, &b);
  out[22] = a; out[23] = b;
  { int *q1 = malloc(4 * (lx * ly + 1) * sizeof(int)), *q2 = q1 + lx * ly + 1, *q3 = q2 + lx * ly + 1, *q4 = q3 + lx * ly + 1, bad = 0;
    q1[lx * ly] = q2[lx * ly] = q3[lx * ly] = q4[lx * ly] = -77;
    mpp_get_compute_domains2d(d, q1, q2, q3, q4);
    for (n = 0; n < lx * ly; n++) if (q1[n] != l1[n] || q2[n] != l2[n] || q3[n] != l3[n] || q4[n] != l4[n]) bad = 1;
    if (q1[lx * ly] != -77 || q2[lx * ly] != -77 || q3[lx * ly] != -77 || q4[lx * ly] != -77) bad = 1;
    out[24] = bad;
    free(q1); }
  mpp_delete_domain2d(&d);
  return 0;
}

/* mode: 0 global_field_all_double 1 global_field_double 2 global_field_int 3 global_field_double_3D
         4 gather_field_int 5 gather_field_double 6 gather_int_root 7 gather_double_root
   src(pe): callback-free deterministic data: value of global cell (k,j,i) = 1 + i + 1000*j + 1000000*k
   halo>0 -> data on the data domain, halo points hold -5.
   returns 0 if every cell that must be set is right, else a code; detail in det[] */
static double cell(int k, int j, int i) { return 1 + i + 1000. * j + 1000000. * k; }

int h_gather(int mode, int nx, int ny, int nz, int lx, int ly, int halo, int ishift, int jshift, int root, const int *sizes, int *det)
{
  int npes = lx * ly, p, q, status, bad = 0, code = 0;
  int *sh = mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pids[64];
  memset(sh, 0, 65536);
  for (p = 0; p < npes; p++) for (q = 0; q < npes; q++) {
    int sz = 1 << 20;
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, fds[p][q])) return -1;
    setsockopt(fds[p][q][1], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
    { int t = fds[p][q][0]; (void)t; }
  }
  for (p = 0; p < npes; p++) {
    if ((pids[p] = fork()) == 0) {
      int i, j, k, n, err = 0;
      alarm(20);
      h_pe = p; h_npes = npes; h_root = root;
      mpp_domain_init();
      if (mode <= 3) {
        domain2D d;
        int layout[2] = {lx, ly};
        int nxs, nys, nxg = nx + ishift, nyg = ny + jshift, zz = mode == 3 ? nz : 1;
        int isme = (mode == 0) || p == root, gsz = nxg * nyg * zz;
        memset(&d, 0, sizeof d);
        mpp_define_domain2d(nx, ny, layout, 0, 0, &d);
        if (halo) { /* data domain description as the callers set it up */
          d.isd = d.isc - halo; d.ied = d.iec + halo; d.jsd = d.jsc - halo; d.jed = d.jec + halo;
          d.nxd = d.nxc + 2 * halo; d.nyd = d.nyc + 2 * halo;
        }
        nxs = d.nxc + 2 * halo + ishift; nys = d.nyc + 2 * halo + jshift;
        if (mode == 2) {
          int *l = malloc(nxs * nys * sizeof(int)), *g = malloc((gsz + 2) * sizeof(int));
          for (n = 0; n < gsz + 2; n++) g[n] = -9;
          for (j = 0; j < nys; j++) for (i = 0; i < nxs; i++) {
            int gi = d.isc - halo + i, gj = d.jsc - halo + j;
            int in = i >= halo && i < nxs - halo && j >= halo && j < nys - halo;
            l[j * nxs + i] = in ? (int)cell(0, gj, gi) : -5;
          }
          mpp_global_field_int(d, nxs, nys, l, g + 1);
          if (isme) for (j = 0; j < nyg; j++) for (i = 0; i < nxg; i++) if (g[1 + j * nxg + i] != (int)cell(0, j, i) && !err) { err = 1; sh[1] = j; sh[2] = i; sh[3] = g[1 + j * nxg + i]; sh[4] = p; }
          if (g[0] != -9 || g[gsz + 1] != -9) err = 2;
          if (!isme) for (n = 0; n < gsz + 2; n++) if (g[n] != -9) err = 3;
        } else {
          double *l = malloc(nxs * nys * zz * sizeof(double)), *g = malloc((gsz + 2) * sizeof(double));
          for (n = 0; n < gsz + 2; n++) g[n] = -9;
          for (k = 0; k < zz; k++) for (j = 0; j < nys; j++) for (i = 0; i < nxs; i++) {
            int gi = d.isc - halo + i, gj = d.jsc - halo + j;
            int in = i >= halo && i < nxs - halo && j >= halo && j < nys - halo;
            l[(k * nys + j) * nxs + i] = in ? cell(k, gj, gi) : -5;
          }
          if (mode == 0) mpp_global_field_all_double(d, nxs, nys, l, g + 1);
          else if (mode == 1) mpp_global_field_double(d, nxs, nys, l, g + 1);
          else mpp_global_field_double_3D(d, nxs, nys, nz, l, g + 1);
          if (isme) for (k = 0; k < zz; k++) for (j = 0; j < nyg; j++) for (i = 0; i < nxg; i++)
            if (g[1 + (k * nyg + j) * nxg + i] != cell(k, j, i) && !err) { err = 1; sh[1] = j; sh[2] = i; sh[3] = (int)g[1 + (k * nyg + j) * nxg + i]; sh[4] = p; sh[5] = k; }
          if (g[0] != -9 || g[gsz + 1] != -9) err = 2;
          if (!isme) for (n = 0; n < gsz + 2; n++) if (g[n] != -9) err = 3;
        }
      } else {
        int tot = 0, off = 0, isme = mode <= 5 || p == root;
        for (q = 0; q < npes; q++) tot += sizes[q];
        if (mode == 4 || mode == 6) {
          int *l = malloc((sizes[p] + 1) * sizeof(int)), *g = malloc((tot + 1) * sizeof(int));
          for (n = 0; n < sizes[p]; n++) l[n] = 1000 * p + n;
          for (n = 0; n <= tot; n++) g[n] = -9;
          if (mode == 4) mpp_gather_field_int(sizes[p], l, g); else mpp_gather_field_int_root(sizes[p], l, g);
          if (isme) { for (q = 0; q < npes; q++) for (n = 0; n < sizes[q]; n++) if (g[off++] != 1000 * q + n) { err = 1; sh[1] = q; sh[2] = n; sh[3] = p; } }
          if (g[tot] != -9) err = 2;
        } else {
          double *l = malloc((sizes[p] + 1) * sizeof(double)), *g = malloc((tot + 1) * sizeof(double));
          for (n = 0; n < sizes[p]; n++) l[n] = 1000 * p + n;
          for (n = 0; n <= tot; n++) g[n] = -9;
          if (mode == 5) mpp_gather_field_double(sizes[p], l, g); else mpp_gather_field_double_root(sizes[p], l, g);
          if (isme) { for (q = 0; q < npes; q++) for (n = 0; n < sizes[q]; n++) if (g[off++] != 1000 * q + n) { err = 1; sh[1] = q; sh[2] = n; sh[3] = p; } }
          if (g[tot] != -9) err = 2;
        }
      }
      _exit(err);
    }
  }
  for (p = 0; p < npes; p++) {
    waitpid(pids[p], &status, 0);
    if (status && !code) code = WIFSIGNALED(status) ? 1000 + WTERMSIG(status) : WEXITSTATUS(status);
    (void)bad;
  }
  for (p = 0; p < npes; p++) for (q = 0; q < npes; q++) { close(fds[p][q][0]); close(fds[p][q][1]); }
  for (q = 0; q < 8; q++) det[q] = sh[q];
  munmap(sh, 65536);
  return code;
}
