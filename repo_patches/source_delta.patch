From b0ecfb0afd6c011779f37cb6039a48b6d71db096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:17 +0000
Subject: [PATCH 01/37] fix: mpp_global_field_double_3D computed the global y
 extent with the x shift

---
 lib/libfrencutils/mpp_domain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mpp_domain.c b/lib/libfrencutils/mpp_domain.c
index 16d7c49..11a26f3 100644
--- a/lib/libfrencutils/mpp_domain.c
+++ b/lib/libfrencutils/mpp_domain.c
@@ -619,7 +619,7 @@ void mpp_global_field_double_3D(domain2D domain, int sizex, int sizey, int sizez
   nxd = domain.nxd + ishift;
   nyd = domain.nyd + jshift;
   nxg = domain.nxg + ishift;
-  nyg = domain.nyg + ishift;
+  nyg = domain.nyg + jshift;
 
   /* all other pe except root pe will send data to root pe */
   send_size = nxc*nyc*sizez;
-- 
2.43.0


From d3294178b9c3291b0ff15e8e20af31deb1ecae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:33 +0000
Subject: [PATCH 02/37] fix: mppncscatter -p no longer overwrites the start
 index given with -s

case 'p' fell through into case 's', so the prefix was parsed as the start index.
---
 src/mpp-ncscatter/opt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-ncscatter/opt.c b/src/mpp-ncscatter/opt.c
index 8d165b2..42d14e1 100644
--- a/src/mpp-ncscatter/opt.c
+++ b/src/mpp-ncscatter/opt.c
@@ -126,6 +126,7 @@ int getmnsopts(int argc, char** argv, mnsopts* popts)
         len = strlen(optarg);
         popts->prefix = (char*)malloc(len+1);
         strcpy(popts->prefix, optarg);
+        break;
 
 			case 's':
 				popts->start = atoi(optarg);
-- 
2.43.0


From fa7c7761eb51f476db90a486055fa265a318b9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:33 +0000
Subject: [PATCH 03/37] fix: mppncscatter copies all of a static 4-D variable

hyperslabcopy ignored dimension 0 of 4-D variables without a record dimension:
only its first slab was copied and the rest of the piece was left uninitialised.
---
 src/mpp-ncscatter/mppncscatter.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 0ad2aa8..ece0031 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -83,7 +83,7 @@ int get_num_files(mnsopts* opts) {
 */
 void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, size_t *count, int ndim, char *ti, short *si, int *ii, float *fi, double *di, char *t, short *s, int *i, float *f, double *d)
 {
-  size_t k, j;
+  size_t m, k, j;
   size_t offset=0;
   size_t i0, stridek, stridej;
 
@@ -213,12 +213,15 @@ void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, siz
     }
     break;
   case 4:
-    i0 = start[1]*dimlen[dimids[2]]*dimlen[dimids[3]] +
-      start[2]*dimlen[dimids[3]] +
-      start[3];
     stridek = dimlen[dimids[2]]*dimlen[dimids[3]];
     stridej = dimlen[dimids[3]];
 
+    for(m=0; m < count[0]; ++m) {
+    i0 = (start[0]+m)*dimlen[dimids[1]]*stridek +
+      start[1]*stridek +
+      start[2]*stridej +
+      start[3];
+
     switch(type) {
     case NC_BYTE: case NC_CHAR:
       for(k=0; k < count[1]; ++k) {
@@ -261,6 +264,7 @@ void hyperslabcopy(nc_type type, size_t *dimlen, int *dimids, size_t *start, siz
       }
       break;
     }
+    }
     break;
   }
 }
-- 
2.43.0


From a50540cd44754e3ab7fab134c74cd1ebaebe3fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:33 +0000
Subject: [PATCH 04/37] fix: mppncscatter decides each dimension from its own
 attributes

foundunits and the unterminated attribute text of an earlier dimension leaked
into the test of later ones, so axes were missed or wrongly scattered.
---
 src/mpp-ncscatter/mppncscatter.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index ece0031..168beca 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -305,6 +305,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
     scatter_type = NOSCATTER;
     dimlen = 0;
     ndiv = 0;
+    foundunits = 0;
 
     status = nc_inq_dimname(nc, dimid, name);
     if (status != NC_NOERR) {
@@ -347,6 +348,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
 	fprintf(stderr, "Error. Coordinate variable units attribute isn't char type for variable %s.  Checking for \"cartesian_axis\" instead.\n", name);
 	goto ENDUNITS;
       }
+      memset(att, 0, sizeof(att)); /* Attribute text is not null terminated. */
       status = nc_get_att_text(nc, varid, "units", att);
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to load units attribute for variable %s. Checking for \"cartesian_axis\" instead.\n", name);
@@ -384,6 +386,7 @@ void get_scatter_dims(int nc, int ndims, int nvars, ScatterDim* scatterdims[], m
 	fprintf(stderr, "Error. Coordinate variable \"cartesian_axis\" attribute isn't char type for variable %s.\n", name);
 	exit(-1);
       }
+      memset(att, 0, sizeof(att));
       status = nc_get_att_text(nc, varid, "cartesian_axis", att);
       if (status != NC_NOERR) {
 	fprintf(stderr, "Error. Failed to load \"cartesian_axis\" attribute for variable %s.\n", name);
-- 
2.43.0


From 60f4bdac96bfffb6e3714a8d0bf4972c20f23bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:33 +0000
Subject: [PATCH 05/37] fix: mppncscatter does not treat scalars as record
 variables

For a scalar, dimids[0] still held the dimension of the previous variable; after
a record variable the scalar was overwritten with data of another variable.
---
 src/mpp-ncscatter/mppncscatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpp-ncscatter/mppncscatter.c b/src/mpp-ncscatter/mppncscatter.c
index 168beca..bc3d9da 100644
--- a/src/mpp-ncscatter/mppncscatter.c
+++ b/src/mpp-ncscatter/mppncscatter.c
@@ -1018,7 +1018,7 @@ void put_var(int nc, int *ncids, int ndims, int nvars, ScatterDim *scatterdims[]
       }
 
       /* Skip nonrecord var. */
-      if ( (dimids[0] != recid) )
+      if ( (ndimvar < 1) || (dimids[0] != recid) )
 	continue;
       ndimvar2 = ndimvar-1;
       if (ndimvar > 1) {
-- 
2.43.0


From a5ad519f42ca4827b8c99855371cec1f453e659c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:50 +0000
Subject: [PATCH 06/37] fix: mppnccombine divides by zero on files without
 records

A file whose record dimension has length zero set the blocking factor to zero;
the static variables can be combined all the same.
---
 src/mpp-nccombine/mppnccombine.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 240521a..1eb2fcd 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -1299,6 +1299,9 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
     recdimsize = 1;
   else
     recdimsize = ncinfile->dimsize[ncinfile->recdim];
+  /* Without any records the static variables still take one pass */
+  if (recdimsize < 1)
+    recdimsize = 1;
 
   /* Check the number of records */
   if (*nrecs == 1)
@@ -1424,6 +1427,10 @@ process_vars (struct fileinfo *ncinfile, struct fileinfo *ncoutfile,
                     instart[d], outstart[d], count[d]);
         }
 
+      /* There is nothing to read for a record variable without records */
+      if (varrecdim != (-1) && ncinfile->dimsize[ncinfile->recdim] < 1)
+        continue;
+
       /* Prevent unnecessary reads/writes */
       if (r > 0)
         {
@@ -1817,6 +1824,9 @@ flush_decomp (struct fileinfo *ncoutfile, int nfiles, int r, int bf,
         outstart[varrecdim] = r;
       if (varrecdim == (-1) && r > 0)
         continue;
+      /* Record variable without records */
+      if (varrecdim != (-1) && varbuf[(r % bf)][v] == NULL)
+        continue;
       if (verbose > 1)
         printf ("      writing to disk\n");
       if (ncvarput (ncoutfile->ncfid, v, outstart, count, varbuf[(r % bf)][v])
-- 
2.43.0


From 1f9efe70242a8d1c064afc0c879a9055022b15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:50 +0000
Subject: [PATCH 07/37] fix: mppnccombine no longer forgets write errors when
 their number wraps

outfileerrors is an unsigned char and was incremented once per failed record;
with 256 failures it was zero again and the inputs could be removed (-r).
---
 src/mpp-nccombine/mppnccombine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 1eb2fcd..bc07a20 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -546,7 +546,7 @@ main (int argc, char *argv[])
                     for (r = block * bf; r < min ((block + 1) * bf, nrecs);
                          r++)
                       outfileerrors
-                          += flush_decomp (ncoutfile, nfiles, r, bf, verbose);
+                          |= flush_decomp (ncoutfile, nfiles, r, bf, verbose);
                     num_infiles_used = f;
                     break;
                   }
@@ -644,7 +644,7 @@ main (int argc, char *argv[])
                                 f);
                       for (r = block * bf; r < min ((block + 1) * bf, nrecs);
                            r++)
-                        outfileerrors += flush_decomp (ncoutfile, nfiles, r,
+                        outfileerrors |= flush_decomp (ncoutfile, nfiles, r,
                                                        bf, verbose);
                       f = 0;
                       continue;
@@ -714,7 +714,7 @@ main (int argc, char *argv[])
                   printf ("  Write variables from previous %d files\n", f);
                 for (r = block * bf; r < min ((block + 1) * bf, nrecs); r++)
                   outfileerrors
-                      += flush_decomp (ncoutfile, nfiles, r, bf, verbose);
+                      |= flush_decomp (ncoutfile, nfiles, r, bf, verbose);
                 f = 0;
                 continue;
               }
-- 
2.43.0


From c7b27911b67dfa7b8a8bad56e62dec37274e4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:50 +0000
Subject: [PATCH 08/37] fix: mppnccombine -r removes only the files that were
 combined

Without -e, nend is one past the last input file, and the removal loop (a <= nend)
also deleted the file with the next number.
---
 src/mpp-nccombine/mppnccombine.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index bc07a20..b28f1ae 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -661,6 +661,7 @@ main (int argc, char *argv[])
                       varbuf[k][v] = NULL;
                     }
             }
+          nend--; /* Number of the last input file, as given by -e */
         }
     }
   /* Loop over all the specified input files */
-- 
2.43.0


From f6ce87440ebe37888f212d995a5ae152459bd4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:18 +0000
Subject: [PATCH 09/37] fix: mppnccombine never removes an output file it did
 not create

When an input was missing the output was unlinked even if it existed before and
was only to be appended to (-a) or not to be touched at all (-x).
---
 src/mpp-nccombine/mppnccombine.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index b28f1ae..436a4fb 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -254,6 +254,7 @@ main (int argc, char *argv[])
 {
   unsigned char verbose = 0;  /* Print some progress information? */
   unsigned char appendnc = 0; /* Append to an existing netCDF file? */
+  unsigned char created = 0;  /* Was the output file created by this run? */
   unsigned char removein = 0; /* Remove the ".####" decomposed input files? */
   int nstart = 0;             /* PE number of the first input netCDF file */
   int nend = (-1);            /* PE number of the last input netCDF file */
@@ -455,6 +456,7 @@ main (int argc, char *argv[])
               return (1);
             }
           ncsetfill (ncoutfile->ncfid, NC_NOFILL);
+          created = 1;
         }
       /* Open an existing netCDF file for appending */
       else
@@ -510,7 +512,8 @@ main (int argc, char *argv[])
                         printf ("ERROR: missing at least %s from the input "
                                 "file set.  Exiting.\n",
                                 infilename);
-                        unlink (outfilename);
+                        if (created)
+                          unlink (outfilename);
                         return 9;
                       }
                     else
@@ -554,7 +557,8 @@ main (int argc, char *argv[])
             if (num_infiles_used == 0)
               {
                 fprintf (stderr, "Warning: No input file found in range.\n");
-                unlink (outfilename);
+                if (created)
+                  unlink (outfilename);
                 exit (1);
               }
             /* free the memory before reading the next block */
@@ -606,7 +610,8 @@ main (int argc, char *argv[])
                           printf ("ERROR: missing at least %s from the input "
                                   "file set.  Exiting.\n",
                                   infilename);
-                          unlink (outfilename);
+                          if (created)
+                            unlink (outfilename);
                           return 9;
                         }
                       else
@@ -688,7 +693,8 @@ main (int argc, char *argv[])
                     printf ("ERROR: missing at least %s from the input file "
                             "set.  Exiting.\n",
                             argv[a]);
-                    unlink (outfilename);
+                    if (created)
+                      unlink (outfilename);
                     return 9;
                   }
                 else
-- 
2.43.0


From 14743181b2fe0ea39b3c494a62c9c0e861a20fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:18 +0000
Subject: [PATCH 10/37] fix: mppnccombine reports a missing first input file

Without -e and with no input file at all the run ended with status 0 and left an
empty output file.
---
 src/mpp-nccombine/mppnccombine.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index 436a4fb..dfe8b5d 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -598,7 +598,12 @@ main (int argc, char *argv[])
                             }
                           else
                             {
-                              continue;
+                              printf ("ERROR: missing at least %s.%04d from "
+                                      "the input file set.  Exiting.\n",
+                                      outfilename, a);
+                              if (created)
+                                unlink (outfilename);
+                              return 9;
                             }
                         }
                     }
-- 
2.43.0


From 8b9f4afc0a44cad30fb86205a5d28ba2f012e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 11/37] fix: cubic_spline_sp keeps a flat end interval flat

---
 lib/libfrencutils/interp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libfrencutils/interp.c b/lib/libfrencutils/interp.c
index 5447673..bd3fa79 100644
--- a/lib/libfrencutils/interp.c
+++ b/lib/libfrencutils/interp.c
@@ -93,7 +93,7 @@ End slopes
   kmax = size1-1;
   d[0] = ((2.0*dh[0] + dh[1])*delta[0] - dh[0]*delta[1])/(dh[0]+dh[1]);
 
-  if ( d[0]*delta[0] < 0.0 ) {
+  if ( d[0]*delta[0] <= 0.0 ) {
      d[0] = 0.0;
   }
   else {
@@ -103,7 +103,7 @@ End slopes
   }
 
   d[kmax] = ((2.0*dh[kmax-1] + dh[kmax-2])*delta[kmax-1] - dh[kmax-1]*delta[kmax-2])/(dh[kmax-1]+dh[kmax-2]);
-  if ( d[kmax]*delta[kmax-1] < 0.0 ) {
+  if ( d[kmax]*delta[kmax-1] <= 0.0 ) {
      d[kmax] = 0.0;
   }
   else {
-- 
2.43.0


From a2a2b3688d8dc1e9407be8d659fe10bc38752e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 12/37] fix: nearest_index handles a one-element array

---
 lib/libfrencutils/mosaic_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mosaic_util.c b/lib/libfrencutils/mosaic_util.c
index 6a4cd35..6bd4d6c 100644
--- a/lib/libfrencutils/mosaic_util.c
+++ b/lib/libfrencutils/mosaic_util.c
@@ -94,8 +94,9 @@ int nearest_index(double value, const double *array, int ia)
   else
     {
       i=0;
+      index = 0;
       keep_going = 1;
-      while (i < ia && keep_going) {
+      while (i < ia-1 && keep_going) {
    i = i+1;
    if (value <= array[i]) {
      index = i;
-- 
2.43.0


From 32f7f6c913c77711f3dbbb73cba1f16428519dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:47 +0000
Subject: [PATCH 13/37] fix: do_vertical_interp with all output levels outside
 the input levels

---
 src/fre-grid/fregrid_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/fregrid_util.c b/src/fre-grid/fregrid_util.c
index bc1094b..111d7e8 100644
--- a/src/fre-grid/fregrid_util.c
+++ b/src/fre-grid/fregrid_util.c
@@ -808,11 +808,11 @@ void do_vertical_interp(VGrid_config *vgrid_in, VGrid_config *vgrid_out, Grid_co
     for(k=0; k<kstart; k++) {
       for(i=0; i<nx*ny; i++) field->data[k*nx*ny+i] = tmp[i];
     }
-    for(k=kend; k<nk2; k++) {
+    for(k=kend+1; k<nk2; k++) {
       for(i=0; i<nx*ny; i++) field->data[k*nx*ny+i] = tmp[(nk1-1)*nx*ny+i];
     }
     nk2 = kend - kstart + 1;
-    linear_vertical_interp(nx, ny, nk1, nk2, vgrid_in->z, vgrid_out->z+kstart, tmp, field->data+kstart*nx*ny);
+    if(nk2 > 0) linear_vertical_interp(nx, ny, nk1, nk2, vgrid_in->z, vgrid_out->z+kstart, tmp, field->data+kstart*nx*ny);
     free(tmp);
   }
 
-- 
2.43.0


From 8b35451b7a856ff5049fa8d0ba020ea0f8469427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:16 +0000
Subject: [PATCH 14/37] fix: mppnccombine reports a read error instead of
 writing from a null buffer

---
 src/mpp-nccombine/mppnccombine.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpp-nccombine/mppnccombine.c b/src/mpp-nccombine/mppnccombine.c
index dfe8b5d..73efe5c 100644
--- a/src/mpp-nccombine/mppnccombine.c
+++ b/src/mpp-nccombine/mppnccombine.c
@@ -1839,6 +1839,12 @@ flush_decomp (struct fileinfo *ncoutfile, int nfiles, int r, int bf,
       /* Record variable without records */
       if (varrecdim != (-1) && varbuf[(r % bf)][v] == NULL)
         continue;
+      /* Nothing could be read for this variable */
+      if (varbuf[(r % bf)][v] == NULL)
+        {
+          fprintf (stderr, "Error: no data for variable \"%d\"!\n", v);
+          return (1);
+        }
       if (verbose > 1)
         printf ("      writing to disk\n");
       if (ncvarput (ncoutfile->ncfid, v, outstart, count, varbuf[(r % bf)][v])
-- 
2.43.0


From 70163675cc16150f78cf5878c1a2c78232e3bf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:30 +0000
Subject: [PATCH 15/37] fix: monotonic remapping indexes each tile with its own
 size

do_scalar_conserve_interp used the size of the last input tile for every
tile, so a mosaic whose tiles differ in size was read and limited at the
wrong cells (and out of bounds).
---
 src/fre-grid/conserve_interp.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index bc61291..df19a37 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -650,6 +650,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	di   = interp[m].di_in[n];
 	dj   = interp[m].dj_in[n];
 	tile = interp[m].t_in [n];
+	nx1  = grid_in[tile].nx;
 	n1 = j1*nx1+i1;
         n2 = (j1+1)*(nx1+2)+i1+1;
 	if( field_in[tile].data[n2] != missing ) {
@@ -671,6 +672,8 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
       /* get the global f_max and f_min */
       if(mpp_npes() >1) {
 	for(n=0; n<ntiles_in; n++) {
+	  nx1 = grid_in[n].nx;
+	  ny1 = grid_in[n].ny;
 	  mpp_min_double(nx1*ny1, monotone_data[n].f_min);
 	  mpp_max_double(nx1*ny1, monotone_data[n].f_max);
 	}
@@ -681,6 +684,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	i1   = interp[m].i_in [n];
 	j1   = interp[m].j_in [n];
 	tile = interp[m].t_in [n];
+	nx1  = grid_in[tile].nx;
 	n1 = j1*nx1+i1;
 	n2 = (j1+1)*(nx1+2)+i1+1;
 	f_bar = field_in[tile].data[n2];
@@ -727,6 +731,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	j1   = interp[m].j_in [n];
 	tile = interp[m].t_in [n];
 	area = interp[m].area [n];
+	nx1  = grid_in[tile].nx;
 	if(xdata[n] == missing) continue;
 	if(weight_exist) area *= grid_in[tile].weight[j1*nx1+i1];
 	n1 = j1*nx1+i1;
-- 
2.43.0


From 08cb48e0c1a3147a1d8d0109d0f08a2e17104ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 16/37] fix: monotonic remapping limits the lower bound also
 when the upper one is exceeded

When the reconstruction in a cell exceeded both the largest and the
smallest neighbouring value, only the upper bound was enforced and the
output could undershoot the data.
---
 src/fre-grid/conserve_interp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index df19a37..429dc64 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -616,7 +616,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
     }
     else if(monotonic) {
       int ii, jj;
-      double f_bar;
+      double f_bar, f_low;
       double *xdata;
       for(n=0; n<ntiles_in; n++) {
 	nx1 =  grid_in[n].nx;
@@ -689,12 +689,15 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	n2 = (j1+1)*(nx1+2)+i1+1;
 	f_bar = field_in[tile].data[n2];
 	if(xdata[n] == missing) continue;
+	f_low = monotone_data[tile].f_min[n1];
 
 	if( monotone_data[tile].f_max[n1] > monotone_data[tile].f_bar_max[n1] ) {
 	  /* z1l: Due to truncation error, we might get xdata[n] > f_bar_max[n1]. So
 	     we allow some tolerance. What is the suitable tolerance? */
 	  xdata[n] = f_bar + ((xdata[n]-f_bar)/(monotone_data[tile].f_max[n1]-f_bar))
 	    * (monotone_data[tile].f_bar_max[n1]-f_bar);
+	  f_low = f_bar + ((f_low-f_bar)/(monotone_data[tile].f_max[n1]-f_bar))
+	    * (monotone_data[tile].f_bar_max[n1]-f_bar);
 	  if( xdata[n] > monotone_data[tile].f_bar_max[n1]) {
 	    if(xdata[n] - monotone_data[tile].f_bar_max[n1] < TOLERANCE ) xdata[n] = monotone_data[tile].f_bar_max[n1];
 	    if( xdata[n] > monotone_data[tile].f_bar_max[n1]) {
@@ -703,10 +706,10 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	    }
 	  }
 	}
-	else if( monotone_data[tile].f_min[n1] < monotone_data[tile].f_bar_min[n1] ) {
+	if( f_low < monotone_data[tile].f_bar_min[n1] ) {
 	  /* z1l: Due to truncation error, we might get xdata[n] < f_bar_min[n1]. So
 	     we allow some tolerance. What is the suitable tolerance? */
-	  xdata[n] = f_bar + ((xdata[n]-f_bar)/(monotone_data[tile].f_min[n1]-f_bar)) * (monotone_data[tile].f_bar_min[n1]-f_bar);
+	  xdata[n] = f_bar + ((xdata[n]-f_bar)/(f_low-f_bar)) * (monotone_data[tile].f_bar_min[n1]-f_bar);
 	  if( xdata[n] < monotone_data[tile].f_bar_min[n1]) {
 	    if(monotone_data[tile].f_bar_min[n1] - xdata[n]< TOLERANCE ) xdata[n] = monotone_data[tile].f_bar_min[n1];
 	    if( xdata[n] < monotone_data[tile].f_bar_min[n1]) {
-- 
2.43.0


From 729697815b841c6008960aab59f554d88d6eccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 17/37] fix: monotonic remapping records which output cells
 have data

A cell whose exchange cells all have zero weight was set to missing with
conserve_order2_monotonic and to zero with the other methods.
---
 src/fre-grid/conserve_interp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 429dc64..69d827a 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -745,6 +745,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  area *= (field_in[tile].area[n1]/grid_in[tile].cell_area[n1]);
 	field_out[m].data[n0] += xdata[n]*area;
 	out_area[n0] += area;
+	out_miss[n0] = 1;
       }
       free(xdata);
     }
-- 
2.43.0


From b051bee3bdca30f88616fa134819d874789dae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:11 +0000
Subject: [PATCH 18/37] fix: monotonic remapping of large values does not abort
 on rounding

The absolute tolerance 1e-10 is below one unit in the last place for
values above about 1e6, so rounding in the limiter ended fregrid with
'xdata is greater than f_bar_max'.
---
 src/fre-grid/conserve_interp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fre-grid/conserve_interp.c b/src/fre-grid/conserve_interp.c
index 69d827a..71f2385 100644
--- a/src/fre-grid/conserve_interp.c
+++ b/src/fre-grid/conserve_interp.c
@@ -699,7 +699,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	  f_low = f_bar + ((f_low-f_bar)/(monotone_data[tile].f_max[n1]-f_bar))
 	    * (monotone_data[tile].f_bar_max[n1]-f_bar);
 	  if( xdata[n] > monotone_data[tile].f_bar_max[n1]) {
-	    if(xdata[n] - monotone_data[tile].f_bar_max[n1] < TOLERANCE ) xdata[n] = monotone_data[tile].f_bar_max[n1];
+	    if(xdata[n] - monotone_data[tile].f_bar_max[n1] < TOLERANCE*(1+fabs(f_bar)+fabs(monotone_data[tile].f_bar_max[n1])) ) xdata[n] = monotone_data[tile].f_bar_max[n1];
 	    if( xdata[n] > monotone_data[tile].f_bar_max[n1]) {
 	      printf(" n = %d, n1 = %d, xdata = %f, f_bar_max=%f\n", n, n1, xdata[n], monotone_data[tile].f_bar_max[n1]);
 	      mpp_error(" xdata is greater than f_bar_max ");
@@ -711,7 +711,7 @@ void do_scalar_conserve_interp(Interp_config *interp, int varid, int ntiles_in,
 	     we allow some tolerance. What is the suitable tolerance? */
 	  xdata[n] = f_bar + ((xdata[n]-f_bar)/(f_low-f_bar)) * (monotone_data[tile].f_bar_min[n1]-f_bar);
 	  if( xdata[n] < monotone_data[tile].f_bar_min[n1]) {
-	    if(monotone_data[tile].f_bar_min[n1] - xdata[n]< TOLERANCE ) xdata[n] = monotone_data[tile].f_bar_min[n1];
+	    if(monotone_data[tile].f_bar_min[n1] - xdata[n]< TOLERANCE*(1+fabs(f_bar)+fabs(monotone_data[tile].f_bar_min[n1])) ) xdata[n] = monotone_data[tile].f_bar_min[n1];
 	    if( xdata[n] < monotone_data[tile].f_bar_min[n1]) {
 	      printf(" n = %d, n1 = %d, xdata = %f, f_bar_min=%f\n", n, n1, xdata[n], monotone_data[tile].f_bar_min[n1]);
 	      mpp_error(" xdata is less than f_bar_min ");
-- 
2.43.0


From 224614ec7c7673fa874f3ad6ec1a0fca8f4590e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:54 +0000
Subject: [PATCH 19/37] fix: mpp_get_var_dimname had room for four dimensions
 only

nc_inq_vardimid stores all dimension ids of the variable; fregrid accepts
fields with five dimensions, so the fifth id was written past the array.
---
 lib/libfrencutils/mpp_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index 58c4499..c49e58d 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -692,7 +692,7 @@ For each dimension we are assuming there is a 1-d field have the same name as th
 *********************************************************************/
 void mpp_get_var_dimname(int fid, int vid, int ind, char *name)
 {
-  int status, ncid, fldid, ndims, dims[4];
+  int status, ncid, fldid, ndims, dims[NC_MAX_VAR_DIMS];
   char errmsg[512];
 
   if(fid<0 || fid >=nfiles) mpp_error("mpp_io(mpp_get_var_dimname): invalid fid number, fid should be "
-- 
2.43.0


From deb54ebc3823719347dc2bca3ae1cab5e40516b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:02 +0000
Subject: [PATCH 20/37] fix: mpp_get_var_cart read the whole axis attribute
 into one character

An attribute longer than one letter (or with a terminating zero) was
written past the variable cart.
---
 lib/libfrencutils/mpp_io.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index c49e58d..470eae1 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -727,6 +727,22 @@ void mpp_get_var_dimname(int fid, int vid, int ind, char *name)
 }; /* mpp_get_var_dimname */
 
 
+/* get the first letter of a text attribute, which might be longer than that */
+static int get_att_letter(int ncid, int fldid, const char *name, char *letter)
+{
+  int status;
+  size_t attlen;
+  char *attval;
+
+  status = nc_inq_attlen(ncid, fldid, name, &attlen);
+  if(status != NC_NOERR) return status;
+  attval = (char *)malloc(attlen+1);
+  status = nc_get_att_text(ncid, fldid, name, attval);
+  if(status == NC_NOERR && attlen > 0) *letter = attval[0];
+  free(attval);
+  return status;
+}
+
 /***************************************************************************
   char mpp_get_var_cart(int fid, int vid)
   get the cart of the dimension variable
@@ -745,8 +761,8 @@ char mpp_get_var_cart(int fid, int vid)
 
   ncid = files[fid].ncid;
   fldid = files[fid].var[vid].fldid;
-  status = nc_get_att_text(ncid, fldid, "cartesian_axis", &cart);
-  if(status != NC_NOERR)status = nc_get_att_text(ncid, fldid, "axis", &cart);
+  status = get_att_letter(ncid, fldid, "cartesian_axis", &cart);
+  if(status != NC_NOERR)status = get_att_letter(ncid, fldid, "axis", &cart);
   /*
   if(status != NC_NOERR){
     sprintf(errmsg, "mpp_io(mpp_get_var_cart): Error in getting attribute cartesian_axis/axis of "
-- 
2.43.0


From 5e84d9942b8f915083cbdb7fc3dd89408f97857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:02 +0000
Subject: [PATCH 21/37] fix: mpp_set_deflation had room for names of 63
 characters only

Longer names of output variables were written past the array; NetCDF
names have up to NC_MAX_NAME characters.
---
 lib/libfrencutils/mpp_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index 470eae1..129b7dd 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -29,7 +29,7 @@
 #define  MAXFILE 200
 #define  MAXVAR  1024
 #define  STRING 255
-#define  VARNAME_MAXSIZE 64
+#define  VARNAME_MAXSIZE (NC_MAX_NAME+1)
 
 typedef struct {
   int fldid;
-- 
2.43.0


From ed3f3ef3282137dd1e758a47b09363796e67c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:39 +0000
Subject: [PATCH 22/37] fix: mpp_get_varid printed a name that was not set yet

When the type of a variable cannot be read the error message used the
name of the table entry before it was filled, and could crash instead of
ending with the error.
---
 lib/libfrencutils/mpp_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index 129b7dd..1951e11 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -357,7 +357,7 @@ int mpp_get_varid(int fid, const char *varname)
   status = nc_inq_vartype(files[fid].ncid, fldid, &(files[fid].var[vid].type));
   if(status != NC_NOERR) {
     sprintf(errmsg, "mpp_io(mpp_get_varid): Error in getting type of of field %s in file %s ",
-	    files[fid].var[vid].name, files[fid].name );
+	    varname, files[fid].name );
     netcdf_error(errmsg, status);
   }
 
-- 
2.43.0


From b24a230d7eb7269ad25a4a0c90e01867e378b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:39 +0000
Subject: [PATCH 23/37] fix: mpp_copy_data indexed the file table with the
 variable id in its error message

---
 lib/libfrencutils/mpp_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/mpp_io.c b/lib/libfrencutils/mpp_io.c
index 1951e11..fc1b0ce 100644
--- a/lib/libfrencutils/mpp_io.c
+++ b/lib/libfrencutils/mpp_io.c
@@ -1185,7 +1185,7 @@ void mpp_copy_data(int fid_in, int vid_in, int fid_out, int vid_out)
   status = nc_inq_vardimid(files[fid_in].ncid, files[fid_in].var[vid_in].fldid,dims);
   if(status != NC_NOERR) {
     sprintf(errmsg, "mpp_io(mpp_copy_data): Error in getting dimid of var %s from file %s",
-	    files[fid_in].var[vid_in].name, files[vid_in].name );
+	    files[fid_in].var[vid_in].name, files[fid_in].name );
     netcdf_error(errmsg, status);
   }
   dsize = 1;
-- 
2.43.0


From 1cd704fa06af2a71dfcfaf5b8dacade818f8e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:38 +0000
Subject: [PATCH 24/37] fix: exchange grid larger than MAXXGRID is refused
 before it is written past the arrays

---
 lib/libfrencutils/create_xgrid.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/libfrencutils/create_xgrid.c b/lib/libfrencutils/create_xgrid.c
index e2959c8..aa30093 100644
--- a/lib/libfrencutils/create_xgrid.c
+++ b/lib/libfrencutils/create_xgrid.c
@@ -288,13 +288,13 @@ int create_xgrid_1dx2d_order1(const int *nlon_in, const int *nlat_in, const int
 	Xarea = poly_area (x_out, y_out, n_out ) * mask_in[j1*nx1+i1];
 	min_area = min(area_in[j1*nx1+i1], area_out[j2*nx2+i2]);
 	if( Xarea/min_area > AREA_RATIO_THRESH ) {
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
       	  xgrid_area[nxgrid] = Xarea;
 	  i_in[nxgrid]    = i1;
 	  j_in[nxgrid]    = j1;
 	  i_out[nxgrid]   = i2;
 	  j_out[nxgrid]   = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
@@ -387,6 +387,7 @@ int create_xgrid_1dx2d_order2(const int *nlon_in, const int *nlat_in, const int
 	xarea = poly_area (x_out, y_out, n_out ) * mask_in[j1*nx1+i1];
         min_area = min(area_in[j1*nx1+i1], area_out[j2*nx2+i2]);
 	if(xarea/min_area > AREA_RATIO_THRESH ) {
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	  xgrid_area[nxgrid] = xarea;
 	  xgrid_clon[nxgrid] = poly_ctrlon(x_out, y_out, n_out, lon_in_avg);
 	  xgrid_clat[nxgrid] = poly_ctrlat (x_out, y_out, n_out );
@@ -395,7 +396,6 @@ int create_xgrid_1dx2d_order2(const int *nlon_in, const int *nlat_in, const int
 	  i_out[nxgrid]   = i2;
 	  j_out[nxgrid]   = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
@@ -488,13 +488,13 @@ int create_xgrid_2dx1d_order1(const int *nlon_in, const int *nlat_in, const int
 	Xarea = poly_area ( x_out, y_out, n_out ) * mask_in[j1*nx1+i1];
 	min_area = min(area_in[j1*nx1+i1], area_out[j2*nx2+i2]);
 	if( Xarea/min_area > AREA_RATIO_THRESH ) {
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
       	  xgrid_area[nxgrid] = Xarea;
 	  i_in[nxgrid]    = i1;
 	  j_in[nxgrid]    = j1;
 	  i_out[nxgrid]   = i2;
 	  j_out[nxgrid]   = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
@@ -592,6 +592,7 @@ int create_xgrid_2dx1d_order2(const int *nlon_in, const int *nlat_in, const int
 	xarea = poly_area (x_out, y_out, n_out ) * mask_in[j1*nx1+i1];
 	min_area = min(area_in[j1*nx1+i1], area_out[j2*nx2+i2]);
 	if(xarea/min_area > AREA_RATIO_THRESH ) {
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	  xgrid_area[nxgrid] = xarea;
 	  xgrid_clon[nxgrid] = poly_ctrlon(x_out, y_out, n_out, lon_in_avg);
 	  xgrid_clat[nxgrid] = poly_ctrlat (x_out, y_out, n_out );
@@ -600,7 +601,6 @@ int create_xgrid_2dx1d_order2(const int *nlon_in, const int *nlat_in, const int
 	  i_out[nxgrid] = i2;
 	  j_out[nxgrid] = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
@@ -1452,6 +1452,7 @@ int create_xgrid_great_circle(const int *nlon_in, const int *nlat_in, const int
 #ifdef debug_test_create_xgrid
 	  printf("(i2,j2)=(%d,%d), (i1,j1)=(%d,%d), xarea=%g\n", i2, j2, i1, j1, xarea);
 #endif
+	  if(nxgrid >= get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	  xgrid_area[nxgrid] = xarea;
 	  xgrid_clon[nxgrid] = 0; /*z1l: will be developed very soon */
 	  xgrid_clat[nxgrid] = 0;
@@ -1460,7 +1461,6 @@ int create_xgrid_great_circle(const int *nlon_in, const int *nlat_in, const int
 	  i_out[nxgrid]      = i2;
 	  j_out[nxgrid]      = j2;
 	  ++nxgrid;
-	  if(nxgrid > get_maxxgrid()) error_handler("nxgrid exceeds MAXXGRID limit; increase the value using --maxxgrid flag or reduce grid resolution");
 	}
       }
     }
-- 
2.43.0


From 723ad977f0705f3cef95ab49888c7d6db8297c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:21 +0000
Subject: [PATCH 25/37] fix: create_spectral_grid starts the sum of the weights
 at zero and counts its iterations

sum_wts was used uninitialised, so the cell boundaries depended on what was on
the stack, and the Newton loop advanced i instead of iter, so an abscissa that
does not converge made make_hgrid hang instead of reporting the error.
---
 src/make-hgrid/create_lonlat_grid.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index ebdec7b..f9a5d28 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -187,7 +187,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
   const int itermax = 10;
   const double epsln = 1e-15;
   int ni, nj, nx, ny, nxp, nyp, i, j, converge, iter;
-  double dlon, z, p1, p2, p3, z1, pp, a, b, c, d, sum_wts;
+  double dlon, z, p1, p2, p3, z1, pp, a, b, c, d, sum_wts=0.0;
   double *xb, *yb, *lon, *lonb, *lat, *latb;
   double *sin_hem, *wts_hem, *sin_lat, *wts_lat;
 
@@ -215,7 +215,7 @@ void create_spectral_grid( int *nlon, int *nlat, int *isc, int *iec,
   for(j=0;j<nj/2;j++) {
     converge = 0;
     z = cos(M_PI*(j +0.75)/(nj + 0.5));
-    for(iter=1; iter<=itermax; i++){
+    for(iter=1; iter<=itermax; iter++){
       p1 = 1.0;
       p2 = 0.0;
 
-- 
2.43.0


From a214f14c12fab97e0956517bea6217330f3a46da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:21 +0000
Subject: [PATCH 26/37] fix: create_tripolar_grid passes longitudes and
 latitudes to get_grid_great_circle_area

With --great_circle_algorithm the Cartesian x and y of the points were passed
where the routine takes longitude and latitude in radians, so every cell area
of a tripolar grid was wrong.
---
 src/make-hgrid/create_lonlat_grid.c | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/make-hgrid/create_lonlat_grid.c b/src/make-hgrid/create_lonlat_grid.c
index f9a5d28..4873863 100644
--- a/src/make-hgrid/create_lonlat_grid.c
+++ b/src/make-hgrid/create_lonlat_grid.c
@@ -456,26 +456,18 @@ void create_tripolar_grid( int *nxbnds, int *nybnds, double *xbnds, double *ybnd
  /*calculte cell area */
   n = 0;
   if(use_great_circle_algorithm) {
-    double *cart_x=NULL, *cart_y=NULL, *cart_z=NULL;
     double *x_rad=NULL, *y_rad=NULL;
 
     /* since make_hgrid is limited to be run on 1 processor, we could assume nx = iec-isc+1 and ny=jec-jsc+1 */
-    cart_x = (double *)malloc(nxp*nyp*sizeof(double));
-    cart_y = (double *)malloc(nxp*nyp*sizeof(double));
-    cart_z = (double *)malloc(nxp*nyp*sizeof(double));
     x_rad  = (double *)malloc(nxp*nyp*sizeof(double));
     y_rad  = (double *)malloc(nxp*nyp*sizeof(double));
     for(i=0; i<nxp*nyp; i++){
       x_rad[i] = x[i]*D2R;
       y_rad[i] = y[i]*D2R;
     }
-    latlon2xyz(nxp*nyp, x_rad, y_rad, cart_x, cart_y, cart_z);
-    get_grid_great_circle_area(&nx, &ny, cart_x, cart_y, area);
+    get_grid_great_circle_area(&nx, &ny, x_rad, y_rad, area);
     free(x_rad);
     free(y_rad);
-    free(cart_x);
-    free(cart_y);
-    free(cart_z);
   }
   else {
     for(j=*jsc;j<=*jec;j++){
-- 
2.43.0


From 409026f5088a2341818b8dbac7595ab81d6763ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:21 +0000
Subject: [PATCH 27/37] fix: make_vgrid initialises the number of --dbnds
 entries

Without --dbnds the count was read uninitialised: a wrong number of --nz entries
could be taken for the legacy algorithm with uninitialised resolutions.
---
 src/make-vgrid/make_vgrid.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/make-vgrid/make_vgrid.c b/src/make-vgrid/make_vgrid.c
index 0b9b06a..eb1a855 100644
--- a/src/make-vgrid/make_vgrid.c
+++ b/src/make-vgrid/make_vgrid.c
@@ -163,6 +163,7 @@ int main(int argc, char* argv[])
   nbnds = 0;
   n1 = 0;
   n2 = 0;
+  n3 = 0;
   while ((c = getopt_long(argc, argv, "", long_options, &option_index)) != -1)
     switch (c) {
     case 'n':
-- 
2.43.0


From 07454d8f4eb0c58659570704f1514b416e01a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:07 +0000
Subject: [PATCH 28/37] fix: compute_grid_bound_legacy lets the last region be
 stretched

The check for a whole number of cells is meant to be skipped in the last region
when it is stretched, but compared l, which runs from 0 to nb-2, with nb-1, so
that any --stretch other than 1 ended with an error.
---
 lib/libfrencutils/tool_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libfrencutils/tool_util.c b/lib/libfrencutils/tool_util.c
index a199879..772d98f 100644
--- a/lib/libfrencutils/tool_util.c
+++ b/lib/libfrencutils/tool_util.c
@@ -643,7 +643,7 @@ double* compute_grid_bound_legacy(int nb, const double *bnds, const double *dbnd
 	else
 	  break;
       }
-      if( stretch == 1 || l != nb-1 ) {
+      if( stretch == 1 || l != nb-2 ) {
 	if( fabs(an-n) > tol ) {
 	  if(mpp_pe() == mpp_root_pe()) {
 	    printf("==>Error: non integral number of cells in region #%d, average resolution within "
-- 
2.43.0


From 2caa47fa2e4e245eef53fb01e31aef572de49b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 29/37] fix: set_depth looks up the longitude elon2 among all
 nx longitudes

The number of latitudes was passed as the number of longitudes, so that on grids
with ny != nx the wrong column, or memory behind xbnd, was used.
---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 4e1fd2f..b431a06 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -320,7 +320,7 @@ void set_depth(int nx, int ny, const double *xbnd, const double *ybnd, double al
   ie1 = max(i1,i2);
 
   i1  = nearest_index(slon2, xbnd, nx );
-  i2  = nearest_index(elon2, xbnd, ny );
+  i2  = nearest_index(elon2, xbnd, nx );
   is2 = min(i1,i2);
   ie2 = max(i1,i2);
 
-- 
2.43.0


From 20d8a4b5548b1b0b58ea071040cf763409d023be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 30/37] fix: create_box_channel_topog stays within the grid
 when the channel starts beyond it

With jwest_south or jeast_south larger than ny the boundary was written behind
the end of the depth array.
---
 src/make-topog/topog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index b431a06..4edfe62 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -1066,10 +1066,10 @@ void create_box_channel_topog(int nx, int ny, double basin_depth,
     depth[(ny-1)*nx+i] = 0; /* northern boundary */
   }
   /* west boundary */
-  for(j=0; j<jwest_south; j++) depth[j*nx] = 0;
+  for(j=0; j<jwest_south && j<ny; j++) depth[j*nx] = 0;
   for(j=jwest_north; j<ny; j++) depth[j*nx] = 0;
   /* east boundary */
-  for(j=0; j<jeast_south; j++) depth[j*nx+nx-1] = 0;
+  for(j=0; j<jeast_south && j<ny; j++) depth[j*nx+nx-1] = 0;
   for(j=jeast_north; j<ny; j++) depth[j*nx+nx-1] = 0;
   
 }
-- 
2.43.0


From dab4328d0ecb3a71ecd8d5d17ca888d4dfc78ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 31/37] fix: make_topog --verbose without a vertical grid does
 not read its levels

show_deepest was called with an uninitialised number of levels and a NULL array.
---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 4edfe62..db10261 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -520,7 +520,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
    }
   
   if (filter_topog) filter_topo(nx_dst, ny_dst, num_filter_pass, smooth_topo_allow_deepening, depth, domain);
-  if(debug) show_deepest(nk, zw, depth, domain);
+  if(debug && vgrid_file) show_deepest(nk, zw, depth, domain);
   
   /* make first row of ocean model all land points for ice model */
 
-- 
2.43.0


From 973de28c28c57bcfd9e376f68d6768f4763e9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 32/37] fix: create_realistic_topog handles a destination grid
 within one row of the source

When no corner of the source grid lies between the extreme latitudes of the
destination, the number of source rows came out zero or negative.
---
 src/make-topog/topog.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index db10261..4ec4871 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -444,6 +444,10 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
       if(j < jstart) jstart = j;
     }
   }
+  if(jend < jstart) { /* destination grid lies between two source rows */
+    jstart = 0;
+    jend   = ny_src-1;
+  }
   jstart = max(0, jstart-1);
   jend   = min(ny_src-1, jend+1);
   ny_now = jend-jstart+1;
-- 
2.43.0


From 981cecc7f49c6c6715c1c570965b661508100e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 33/37] fix: make_topog --on_grid refuses data that are not on
 the grid

Source data of another size were copied past the end of the depth array or left
cells without a value.
---
 src/make-topog/topog.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 4ec4871..0fc6620 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -506,6 +506,8 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   }
   if(on_grid) {
      printf("We do no topography interpolation!\n");
+     if(nx_src != nx_dst || ny_now != ny_dst)
+       mpp_error("topog.c: size of the source data should be the size of the model grid when on_grid is set");
      for(i=0; i<nx_src*ny_now; i++) {
         if(depth_src[i] == missing)
           depth[i] = 0.0;
-- 
2.43.0


From 05a10904e40b7b8caf856c2525ed67224ece83bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 34/37] fix: create_gaussian_topog takes the extent of the
 domain over all of its cells

The first row and the first column were left out, which moves the bump on grids
whose extreme longitudes or latitudes lie there.
---
 src/make-topog/topog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 0fc6620..8c1719d 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -126,8 +126,8 @@ void create_gaussian_topog(int nx, int ny, const double *x, const double *y, dou
   xe = xw;
   yn = ys;
 
-  for(j=1;j<ny;j++){
-    for(i=1;i<nx;i++){
+  for(j=0;j<ny;j++){
+    for(i=0;i<nx;i++){
       xw = min(xt[j*nx+i],xw); xe = max(xt[j*nx+i],xe);
       ys = min(yt[j*nx+i],ys); yn = max(yt[j*nx+i],yn);
     }
-- 
2.43.0


From 4dfe149bae03da47cf995775ae86f024d8e2daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:55 +0000
Subject: [PATCH 35/37] fix: make_topog compares great_circle_algorithm with
 the one of the previous tile

The previous value was reset for every tile, so that a mosaic with more than one
tile and the great circle algorithm was refused.
---
 src/make-topog/make_topog.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/make-topog/make_topog.c b/src/make-topog/make_topog.c
index 522fe6b..2dda07a 100644
--- a/src/make-topog/make_topog.c
+++ b/src/make-topog/make_topog.c
@@ -693,9 +693,8 @@ int main(int argc, char* argv[])
     ny = (int *)malloc(ntiles*sizeof(int));
     nxp = (int *)malloc(ntiles*sizeof(int));
     nyp = (int *)malloc(ntiles*sizeof(int));
+    int use_great_circle_algorithm_prev=0;
     for( n = 0; n < ntiles; n++ ) {
-      int use_great_circle_algorithm_prev=0;
-
       tile_files[n] = (char *)malloc(STRING*sizeof(double));
       start[0] = n;
       start[1] = 0;
-- 
2.43.0


From fc8d6066a18d074040126a4691d7596edc5aa80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:11 +0000
Subject: [PATCH 36/37] fix: make_topog --on_grid reads every row of data that
 are on the grid

Which rows were read was decided by comparing coordinates of the source data with
latitudes of the grid, although no interpolation is done; rows left out had no depth.
---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 8c1719d..1b908d7 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -444,7 +444,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
       if(j < jstart) jstart = j;
     }
   }
-  if(jend < jstart) { /* destination grid lies between two source rows */
+  if(jend < jstart || on_grid) { /* destination grid lies between two source rows, or no interpolation */
     jstart = 0;
     jend   = ny_src-1;
   }
-- 
2.43.0


From a15adeeedec0979fed42ff8b16da571cb1d77d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:12 +0000
Subject: [PATCH 37/37] fix: make_topog reads a missing_value of any numeric
 type

---
 src/make-topog/topog.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/make-topog/topog.c b/src/make-topog/topog.c
index 1b908d7..f62a4fb 100644
--- a/src/make-topog/topog.c
+++ b/src/make-topog/topog.c
@@ -406,7 +406,7 @@ void create_realistic_topog(int nx_dst, int ny_dst, const double *x_dst, const d
   xc_src    = (double *)malloc(nxp_src*sizeof(double));
   yc_src    = (double *)malloc(nyp_src*sizeof(double));
 
-  mpp_get_var_att(fid, vid, "missing_value", &missing);
+  mpp_get_var_att_double(fid, vid, "missing_value", &missing);
   vid = mpp_get_varid(fid, xname);
   mpp_get_var_value(fid, vid, xt_src);
   vid = mpp_get_varid(fid, yname);
-- 
2.43.0

