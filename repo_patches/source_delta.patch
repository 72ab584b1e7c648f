From 8b9ae575999a7f8a8e1aa224806b459e094b34fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 01/35] fix: poly_addpointat() overwrote Y coordinates with X
 ones and wrote before the arrays for a negative index

---
 gridutils/poly.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 91cbfc4..62ec827 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -129,10 +129,14 @@ void poly_addpoint(poly* pl, double x, double y)
  */
 void poly_addpointat(poly* pl, int index, double x, double y)
 {
+    if (index < 0)
+        return;
     if (index > pl->n - 1) {
         poly_addpoint(pl, x, y);
         return;
     }
+    if (isnan(x) || isnan(y))
+        gu_quit("poly_addpointat(): NaN detected");
 
     if (pl->n == pl->nallocated) {
         pl->x = realloc(pl->x, pl->nallocated * sizeof(double) * 2);
@@ -141,7 +145,7 @@ void poly_addpointat(poly* pl, int index, double x, double y)
     }
 
     memmove(&pl->x[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
-    memmove(&pl->y[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
+    memmove(&pl->y[index + 1], &pl->y[index], (pl->n - index) * sizeof(double));
     pl->x[index] = x;
     pl->y[index] = y;
     pl->n++;
-- 
2.43.0


From 88b21e1c8ed1ee865b92303f7bf391845713a1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 02/35] fix: poly_append() looped forever or wrote beyond the
 arrays and did not update the point count and the extent

---
 gridutils/poly.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 62ec827..08fdf6e 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -161,7 +161,7 @@ void poly_append(poly* pl1, poly* pl2)
     int n = pl1->n + pl2->n;
     int sizechanged = 0;
 
-    while (n < pl1->nallocated) {
+    while (n > pl1->nallocated) {
         pl1->nallocated *= 2;
         sizechanged = 1;
     }
@@ -173,6 +173,8 @@ void poly_append(poly* pl1, poly* pl2)
 
     memcpy(&pl1->x[pl1->n], pl2->x, pl2->n * sizeof(double));
     memcpy(&pl1->y[pl1->n], pl2->y, pl2->n * sizeof(double));
+    pl1->n = n;
+    poly_recalcextent(pl1);
 }
 
 /** Computes the area of a polygon. 
-- 
2.43.0


From c427037237a6374aa5805652efc2aa2eb39e66f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 03/35] fix: poly_area() returned the area with the sign
 opposite to the documented one

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 08fdf6e..c2e64a1 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -193,7 +193,7 @@ double poly_area(poly* pl)
     for (i = 0; i < n; ++i) {
         int i1 = (i + 1) % n;
 
-        area += (x[i1] - x[i]) * (y[i1] + y[i]);
+        area += (x[i] - x[i1]) * (y[i1] + y[i]);
     }
 
     return area / 2.0;
-- 
2.43.0


From f8516ab85ad14a96347777b35180732ce5efc96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 04/35] fix: poly_compact() left an unusable polyline when all
 its points were redundant, and a stale extent

---
 gridutils/poly.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index c2e64a1..01c34b0 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -702,10 +702,11 @@ void poly_compact(poly* pl, double eps)
             y[i] = y[ids[i]];
         }
         pl->n = nnew;
+        poly_recalcextent(pl);
     }
 
     free(ids);
-    pl->x = realloc(pl->x, sizeof(double) * pl->n);
-    pl->y = realloc(pl->y, sizeof(double) * pl->n);
-    pl->nallocated = pl->n;
+    pl->nallocated = (pl->n > POLY_NSTART) ? pl->n : POLY_NSTART;
+    pl->x = realloc(pl->x, sizeof(double) * pl->nallocated);
+    pl->y = realloc(pl->y, sizeof(double) * pl->nallocated);
 }
-- 
2.43.0


From 4107a2059e7260f994cb312ccc0c884d6eb091be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 05/35] fix: poly_close() added an uninitialised point to an
 empty polyline

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 01c34b0..941b0cb 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -238,7 +238,7 @@ poly* poly_copy(poly* pl)
  */
 void poly_close(poly* pl)
 {
-    if (!poly_isclosed(pl, 0.0))
+    if (pl->n > 0 && !poly_isclosed(pl, 0.0))
         poly_addpoint(pl, pl->x[0], pl->y[0]);
 }
 
-- 
2.43.0


From 69419991b425465ed9364ce2e80a1ff758801446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 06/35] fix: a node with NaN for Y coordinate only was not
 treated as invalid on reading

---
 gridutils/gridnodes.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index a80c6c5..ba02dbf 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -131,13 +131,12 @@ gridnodes* gridnodes_read(char* fname, NODETYPE type)
         for (i = 0; i < gn->nx; ++i, ++xx, ++yy) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th point (%d x %d points expected)", fname, j * gn->nx + i + 1, gn->nx, gn->ny);
-            if (sscanf(buf, "%lf %lf", xx, yy) != 2) {
+            if (sscanf(buf, "%lf %lf", xx, yy) != 2 || isnan(*xx) || isnan(*yy)) {
                 *xx = NaN;
                 *yy = NaN;
                 continue;
             }
-            if (!isnan(*xx))
-                count++;
+            count++;
         }
     }
 
-- 
2.43.0


From 38578a39a7b1e49c7b81128fe6c6368983ef60fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 07/35] fix: gu_readmask() did not accept the last mask line
 without a newline

---
 gridutils/gucommon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 928675e..8998141 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -132,7 +132,7 @@ int** gu_readmask(char* fname, int nx, int ny)
         for (i = 0; i < nx; ++i) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th mask value (%d x %d values expected)", fname, j * nx + i + 1, nx, ny);
-            buf[strlen(buf) - 1] = 0;
+            buf[strcspn(buf, "\n")] = 0;
             if (strcmp(buf, "0") == 0)
                 v[j][i] = 0;
             else if (strcmp(buf, "1") == 0) {
-- 
2.43.0


From bc899f6fa5e52442488fc7a56cddeab022e5e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 08/35] fix: kd_findnearestnode() and kd_findnodeswithinrange()
 crashed for an empty tree

---
 gridutils/kdtree.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 37c1906..77ae066 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -282,7 +282,7 @@ static int _kd_findnodeswithinrange(const kdtree* tree, int id, const double* co
     double dist, dx;
     int i, ret, added_res;
 
-    if (id < 0)
+    if (id < 0 || tree->nnodes == 0)
         return 0;
 
     node = &tree->nodes[id];
@@ -409,11 +409,15 @@ static void _kd_findnearestnode(const kdtree* tree, const size_t nodeid, const d
 size_t kd_findnearestnode(const kdtree* tree, const double* coords)
 {
     int ndim = tree->ndim;
-    double* minmax = malloc(ndim * 2 * sizeof(double));
+    double* minmax;
     size_t result;
     double dist;
     int i;
 
+    if (tree->nnodes == 0)
+        return SIZE_MAX;
+    minmax = malloc(ndim * 2 * sizeof(double));
+
     for (i = 0; i < ndim * 2; ++i)
         minmax[i] = tree->min[i];
 
-- 
2.43.0


From 086a3c96a17edc6c9fe312ee97f7d9b9a163d05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 09/35] fix: conversion of centre nodes crashed when no four
 adjacent nodes were valid

---
 gridutils/gridnodes.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index ba02dbf..86ce28d 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -20,6 +20,7 @@
 #include <string.h>
 #include <stdarg.h>
 #include <limits.h>
+#include <stdint.h>
 #include <math.h>
 #include <assert.h>
 #include "nan.h"
@@ -686,9 +687,9 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     pos[0] = (double) i - 0.5;
                     pos[1] = (double) j - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    pos1 = (nearest != SIZE_MAX) ? kd_getnodecoords(kt, nearest) : NULL;
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
@@ -754,9 +755,9 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
                     pos[0] = (double) i / 2.0 - 0.5;
                     pos[1] = (double) j / 2.0 - 0.5;
                     nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    pos1 = (nearest != SIZE_MAX) ? kd_getnodecoords(kt, nearest) : NULL;
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
-- 
2.43.0


From 484aba21a16fff152579d1ae79f9997d552ced59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 10/35] fix: kd_insertnode() lost the tree root when growing a
 tree filled with kd_insertnodes() to 1024 nodes

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 77ae066..bc8f769 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -135,7 +135,7 @@ void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
             tree->nallocated = NALLOCSTART;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == NALLOCSTART)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
-- 
2.43.0


From dc2531e7f9e47b3990a8a4cdad498728e3d7e510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 11/35] fix: kd_findnodeswithinrange() could miss nodes exactly
 at the specified distance

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index bc8f769..041f884 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -299,7 +299,7 @@ static int _kd_findnodeswithinrange(const kdtree* tree, int id, const double* co
 
     dx = coords[node->dir] - nodecoords[node->dir];
     ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->left : node->right, coords, range, set, ordered);
-    if (fabs(dx) < range) {
+    if (fabs(dx) <= range) {
         added_res += ret;
         ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->right : node->left, coords, range, set, ordered);
     }
-- 
2.43.0


From 6bc82bb7a546aacfee07e2d6d4eec386e76d7b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 12/35] fix: kd_getnodeorigid() truncated original IDs to int

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 041f884..a4bcce0 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -507,7 +507,7 @@ double* kd_getnodecoords(const kdtree* tree, size_t id)
 size_t kd_getnodeorigid(const kdtree* tree, size_t id)
 {
 
-    return (int) tree->nodes[id].id_orig;
+    return tree->nodes[id].id_orig;
 }
 
 /* get boundary rectangle
-- 
2.43.0


From f2feec396421728b3eb66412f2f7af58cc86887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 13/35] fix: gridnodes_subgrid() corrupted memory for an empty
 index range

---
 gridutils/gridnodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 86ce28d..0341d2d 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -463,6 +463,9 @@ gridnodes* gridnodes_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jm
     if (jmax >= gn->ny)
         jmax = gn->ny - 1;
 
+    if (imin > imax || jmin > jmax)
+        gu_quit("gridnodes_subgrid(): no nodes within the specified index range");
+
     if (imin == 0 && imax == gn->nx - 1 && jmin == 0 && jmax == gn->ny - 1)
         return gridnodes_copy(gn);
 
-- 
2.43.0


From 2c72f2d7ed3730bd2d8fa93d454a0182cb6d6a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 14/35] fix: insertgrid overwrote the column next to the
 inserted grid and read beyond the grid arrays

---
 gridutils/insertgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index ac13a82..585768a 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -209,13 +209,13 @@ int main(int argc, char* argv[])
     if (!merge) {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
 
                 if (ok2) {
                     gx3[j3][i3] = gx2[j2][i2];
                     gy3[j3][i3] = gy2[j2][i2];
                 } else {
-                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                     if (ok1) {
                         gx3[j3][i3] = gx1[j1][i1];
@@ -230,8 +230,8 @@ int main(int argc, char* argv[])
     } else {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
-                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
+                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                 if (!ok2 && !ok1) {
                     gx3[j3][i3] = NaN;
-- 
2.43.0


From 5428ff7b075355de3ca228a7e059c3ded91a8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 15/35] fix: validation of double density nodes read beyond the
 arrays for even grid dimensions

---
 gridutils/gridnodes.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 0341d2d..e3fa71d 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -408,9 +408,11 @@ void gridnodes_validate(gridnodes* gn)
 {
     if (gu_verbose)
         fprintf(stderr, "## grid validation:\n");
-    if (gn->type == NT_DD)
+    if (gn->type == NT_DD) {
+        if (gn->nx % 2 == 0 || gn->ny % 2 == 0)
+            gu_quit("gridnodes_validate(): grid size (%d x %d) must be odd for double density grid nodes", gn->nx, gn->ny);
         gridnodes_validate_dd(gn);
-    else if (gn->type == NT_COR)
+    } else if (gn->type == NT_COR)
         gridnodes_validate_cor(gn);
     else if (gu_verbose)
         fprintf(stderr, "## gridnodes_validate(): nothing to do for nodes of \"%s\" type\n", nodetype2str[gn->type]);
-- 
2.43.0


From af1eafcf5bf2ab17b59b76aa8cae13b31df2738c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 16/35] fix: deviation from orthogonality was calculated from
 half of the cosine of the angle

---
 gridutils/gridnodes.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index e3fa71d..98c0429 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -935,8 +935,8 @@ static void gridstats_init(gridstats* gs)
  */
 static double dtheta(double x1, double y1, double x2, double y2)
 {
-    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2) / 2.0;
-    double th = acos(cos_th) * 180.0 / M_PI;
+    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2);
+    double th = acos(fmax(-1.0, fmin(1.0, cos_th))) * 180.0 / M_PI;
     double dth = fabs(90.0 - th);
 
     return dth;
-- 
2.43.0


From e4df5b6d0d80c866f4f21bf85da33f5671f08d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 17/35] fix: signed overflow when building a binary map of a
 grid without valid nodes

---
 gridutils/gridbmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 2ab20ec..83fd1b7 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -332,7 +332,7 @@ static void subgrid_divide(subgrid* sg, subgrid** sg1, subgrid** sg2)
     gridbmap* gm = sg->gmap;
     int index;
 
-    if ((sg->maxi <= sg->mini + 1) && (sg->maxj <= sg->minj + 1)) {
+    if (sg->bound->n == 0 || (sg->maxi <= sg->mini + 1 && sg->maxj <= sg->minj + 1)) {
         *sg1 = *sg2 = NULL;
         return;
     }
-- 
2.43.0


From 3bc11cb73379bc54608c9314e599b7df432d30a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 18/35] fix: gridmap_fij2xy() crashed for NaN indices

---
 gridutils/gridmap.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 02796eb..ef6fe00 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -158,6 +158,12 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
         nce2 = gridkmap_getnce2(gm->map);
     }
 
+    if (isnan(fi) || isnan(fj)) {
+        *x = NaN;
+        *y = NaN;
+        return 0;
+    }
+
     /*
      * Trim I to range 0 to nce1 
      */
-- 
2.43.0


From cf2d628f49901d83907423225b73ab01785655c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 19/35] fix: setbathy wrote "(null)" when no value was
 specified

---
 gridutils/setbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 0a3a6ed..95a231b 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -117,6 +117,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* imin, i
 
     if (*fname == NULL)
         usage();
+    if (*z == NULL)
+        gu_quit("no value specified (use \"-z\")");
 }
 
 /**
-- 
2.43.0


From f6a33f27facbf6c9dce86a12ea1e84fcb8e19684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 20/35] fix: gridbathy used Sibson interpolation for "-a 1" and
 non-Sibsonian for "-a 2", opposite to the documentation

---
 gridutils/gridbathy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 7a832ba..0351a2f 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -47,7 +47,7 @@
 #define ZMIN_DEF (-DBL_MAX)
 #define ZMAX_DEF DBL_MAX
 
-enum { CSA = 0, NN_SIBSON = 1, NN_NONSIBSONIAN = 2, LINEAR = 3, AVERAGE = 4 } rule = CSA;
+enum { CSA = 0, NN_NONSIBSONIAN = 1, NN_SIBSON = 2, LINEAR = 3, AVERAGE = 4 } rule = CSA;
 
 int linear = 0;
 int indexspace = 0;
-- 
2.43.0


From 423112ae582a1ff284518b16813a35cd3ee4830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 21/35] fix: boundary walk crossed the gap between two cells
 connected by a pair of adjacent nodes only

---
 gridutils/gridbmap.c |  4 ++--
 gridutils/poly.c     | 28 ++++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 83fd1b7..dfdefc7 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -204,7 +204,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
              * not the next boundary node. 
              */
             tmp = poly_findindex(pl, gx[index][i + 1], gy[index][i + 1]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
+            if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, (gx[index][i] + gx[index][i + 1]) / 2.0, (gy[index][i] + gy[index][i + 1]) / 2.0)))
                 break;
         }
 
@@ -274,7 +274,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
             if (ii1 < 0)
                 continue;
             tmp = poly_findindex(pl, gx[i + 1][index], gy[i + 1][index]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
+            if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, (gx[i][index] + gx[i + 1][index]) / 2.0, (gy[i][index] + gy[i + 1][index]) / 2.0)))
                 break;
         }
 
diff --git a/gridutils/poly.c b/gridutils/poly.c
index 941b0cb..99e058d 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -373,6 +373,30 @@ int poly_findindex(poly* pl, double x, double y)
     return -1;
 }
 
+/** Checks whether a grid cell is valid.
+ */
+static int isvalidcell(int nce1, int nce2, double** x, int i, int j)
+{
+    if (i < 0 || j < 0 || i >= nce1 || j >= nce2)
+        return 0;
+
+    return !isnan(x[j][i]) && !isnan(x[j][i + 1]) && !isnan(x[j + 1][i]) && !isnan(x[j + 1][i + 1]);
+}
+
+/** Checks whether two neighbouring nodes are connected by an edge of at least
+ * one valid cell.
+ */
+static int isvalidedge(int nce1, int nce2, double** x, int i1, int j1, int i2, int j2)
+{
+    int i = (i1 < i2) ? i1 : i2;
+    int j = (j1 < j2) ? j1 : j2;
+
+    if (isvalidcell(nce1, nce2, x, i, j))
+        return 1;
+
+    return (i1 == i2) ? isvalidcell(nce1, nce2, x, i - 1, j) : isvalidcell(nce1, nce2, x, i, j - 1);
+}
+
 /** Forms polyline boundary around a grid.
  * Note: supposed to handle a grid of corner nodes only.
  * @param nce1 Number of cells in X direction
@@ -410,7 +434,7 @@ poly* poly_formbound(int nce1, int nce2, double** x, double** y)
         inext = i + iinc[direction];
         jnext = j + jinc[direction];
 
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while (!isvalidedge(nce1, nce2, x, i, j, inext, jnext) && direction != direction_stop) {
             direction = (direction + 1) % 4;
             inext = i + iinc[direction];
             jnext = j + jinc[direction];
@@ -466,7 +490,7 @@ poly* poly_formboundij(int nce1, int nce2, double** x)
         inext = i + iinc[direction];
         jnext = j + jinc[direction];
 
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while (!isvalidedge(nce1, nce2, x, i, j, inext, jnext) && direction != direction_stop) {
             direction = (direction + 1) % 4;
             inext = i + iinc[direction];
             jnext = j + jinc[direction];
-- 
2.43.0


From bbfccc5c573ac06ab3f0cf850e9fd8576477b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 22/35] fix: xy->ij conversion used an absolute tolerance and
 failed for grids with small cells or lost accuracy for large ones

---
 gridutils/gridmap.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index ef6fe00..2bdff12 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -267,19 +267,20 @@ static int calc_branch(gridmap* gm, double x, double y)
         double B, C;
         int k;
 
+        B = e * x - a * y + a * h - d * e + c * f - b * g;
+        C = g * x - c * y + c * h - d * g;
+
         /*
          * normally one checks A before calling calc_branch() 
          */
-        if (fabs(A) < EPS_ZERO)
+        if (fabs(A) <= EPS_ZERO * fabs(B))
             return 0;           /* failed */
 
-        B = e * x - a * y + a * h - d * e + c * f - b * g;
-        C = g * x - c * y + c * h - d * g;
-
         for (k = 0; k < 2; ++k) {
             double u = (-B + sign * sqrt(B * B - 4.0 * A * C)) / (2.0 * A);
-            double v_denom = a * u + c;
-            double v = (fabs(v_denom) < EPS_ZERO) ? (y - f * u - h) / (e * u + g) : (x - b * u - d) / v_denom;
+            double d1 = a * u + c;
+            double d2 = e * u + g;
+            double v = (fabs(d2) > fabs(d1)) ? (y - f * u - h) / d2 : (x - b * u - d) / d1;
 
             error[k] = 0.0;
 
@@ -353,7 +354,7 @@ int gridmap_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
 
         double u, v, d1, d2;
 
-        if (fabs(A) < EPS_ZERO)
+        if (fabs(A) <= EPS_ZERO * fabs(B))
             u = -C / B * (1.0 + A * C / B / B);
         else {
             if (gm->sign == 0) {
-- 
2.43.0


From 0d440b8af96084ace47e1dbe9eecfdd4c722d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 23/35] fix: gridbathy read beyond the grid arrays for a cell
 outside the grid specified with "-c"

---
 gridutils/gridbathy.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 0351a2f..62c7b7f 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -373,6 +373,9 @@ int main(int argc, char* argv[])
      */
     gm = gridmap_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn), gridnodes_getmaptype(gn));
 
+    if (i >= 0 && (i >= gridnodes_getnce1(gn) || j < 0 || j >= gridnodes_getnce2(gn)))
+        gu_quit("cell (%d,%d) is outside the grid (%d x %d cells)", i, j, gridnodes_getnce1(gn), gridnodes_getnce2(gn));
+
     /*
      * convert bathymetry to index space if necessary 
      */
-- 
2.43.0


From 868b315265a28558c7d591e794beff31bd810acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 24/35] fix: gridbathy lost all data points for averaging ("-a
 4") combined with "-x"

---
 gridutils/gridbathy.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 62c7b7f..7174a32 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -334,6 +334,11 @@ int main(int argc, char* argv[])
         gu_quit("min depth = %.3g > max depth = %.3g", zmin, zmax);
     if (nt != NT_DD && nt != NT_COR)
         gu_quit("unsupported node type");
+    /*
+     * the data points are averaged within the grid cells in physical space
+     */
+    if (rule == AVERAGE)
+        indexspace = 0;
 
     /*
      * read bathymetry 
-- 
2.43.0


From 7011858ed5e79fdbcba59827aabdbdad1602b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 25/35] fix: xy2fij could round a fractional index up into the
 next cell

---
 gridutils/gridmap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 2bdff12..e999ba6 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -370,11 +370,11 @@ int gridmap_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
 
         if (u < 0.0)
             u = 0.0;
-        else if (u >= 1.0)
+        else if (u > 1.0 - EPS)
             u = 1.0 - EPS;
         if (v < 0.0)
             v = 0.0;
-        else if (v >= 1.0)
+        else if (v > 1.0 - EPS)
             v = 1.0 - EPS;
 
         *fi = i + u;
-- 
2.43.0


From fbf4a0b6f2a9e902e1510b6a0b27f6d83e4501dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:10 +0000
Subject: [PATCH 26/35] fix: a point on the common edge of two cells could be
 mapped to a third cell

---
 gridutils/poly.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 99e058d..c984b05 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -287,7 +287,10 @@ int poly_containspoint(poly* pl, double x, double y)
             if (x1 > 0.0 && x2 > 0.0)
                 hits += 2;
             else if (x1 * x2 <= 0.0) {
-                double xx = x1 - (x2 - x1) * y1 / (y2 - y1);
+                /*
+                 * (this form gives the same value for the reversed segment)
+                 */
+                double xx = (x1 * y2 - x2 * y1) / (y2 - y1);
 
                 if (xx == 0)
                     return 1;
-- 
2.43.0


From efbed1e2bf35d394761068babd723cbdb8e05915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:36 +0000
Subject: [PATCH 27/35] fix: gridmap_fij2xy read outside the node arrays of a
 grid without cells

---
 gridutils/gridmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index e999ba6..3302f54 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -158,7 +158,7 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
         nce2 = gridkmap_getnce2(gm->map);
     }
 
-    if (isnan(fi) || isnan(fj)) {
+    if (isnan(fi) || isnan(fj) || nce1 < 1 || nce2 < 1) {
         *x = NaN;
         *y = NaN;
         return 0;
-- 
2.43.0


From 49b241d85c5a2bf739bbd9e2afa3c3699976d5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 28/35] fix: kd_findnearestnode() returned an uninitialised
 node id for a NaN query

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index a4bcce0..a2e15c6 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -410,7 +410,7 @@ size_t kd_findnearestnode(const kdtree* tree, const double* coords)
 {
     int ndim = tree->ndim;
     double* minmax;
-    size_t result;
+    size_t result = SIZE_MAX;
     double dist;
     int i;
 
-- 
2.43.0


From 831df44fbf9110b58d7940ec2845824737d8d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 29/35] fix: points with NaN for other than the first
 coordinate were stored in the kd-tree and broke the search for the nearest
 node

---
 gridutils/kdtree.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index a2e15c6..f29137f 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -125,8 +125,9 @@ void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
 {
     int i;
 
-    if (!isfinite(coords[0]))
-        return;
+    for (i = 0; i < tree->ndim; ++i)
+        if (!isfinite(coords[i]))
+            return;
 
     if (tree->nallocated == tree->nnodes) {
         if (tree->nallocated != 0)
@@ -198,9 +199,12 @@ void kd_insertnodes(kdtree* tree, size_t n, double** src, int randomise)
     for (i = 0; i < n; ++i) {
         int id = (randomise) ? ids[i] : i;
 
-        for (j = 0; j < tree->ndim; ++j)
+        for (j = 0; j < tree->ndim; ++j) {
             coords[j] = src[j][id];
-        if (!isfinite(coords[0]))
+            if (!isfinite(coords[j]))
+                break;
+        }
+        if (j < tree->ndim)
             continue;
         (void) _kd_insertnode(tree, &tree->nodes[0].id, coords, id + nnodes0, 0);
         tree->nnodes++;
-- 
2.43.0


From 1f3d0c8c5ca33249c8b0258f6cf2c9226fd4fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 30/35] fix: insertgrid refused or truncated a grid inserted at
 a negative position

---
 gridutils/insertgrid.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index 585768a..ce8fba9 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -26,6 +26,7 @@
 #include <stdarg.h>
 #include <string.h>
 #include <limits.h>
+#include <ctype.h>
 #include <math.h>
 #include "nan.h"
 #include "gucommon.h"
@@ -85,19 +86,19 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
 
     *fname1 = NULL;
     *fname2 = NULL;
-    *i0 = -1;
-    *j0 = -1;
+    *i0 = INT_MIN;
+    *j0 = INT_MIN;
     *type = NT_NONE;
 
     for (i = 1; i < argc; ++i) {
-        if (argv[i][0] != '-') {
+        if (argv[i][0] != '-' || (*fname2 != NULL && isdigit((unsigned char) argv[i][1]))) {
             if (*fname1 == NULL)
                 *fname1 = argv[i];
             else if (*fname2 == NULL)
                 *fname2 = argv[i];
-            else if (*i0 == -1)
+            else if (*i0 == INT_MIN)
                 *i0 = atoi(argv[i]);
-            else if (*j0 == -1)
+            else if (*j0 == INT_MIN)
                 *j0 = atoi(argv[i]);
             else
                 usage();
@@ -143,7 +144,7 @@ static void parse_commandline(int argc, char* argv[], char** fname1, char** fnam
     if (gu_verbose && argc == 2)
         version();
 
-    if (*fname1 == NULL || *fname2 == NULL || *i0 == -1 || *j0 == -1)
+    if (*fname1 == NULL || *fname2 == NULL || *i0 == INT_MIN || *j0 == INT_MIN)
         usage();
 }
 
@@ -186,8 +187,16 @@ int main(int argc, char* argv[])
     gx2 = gridnodes_getx(grid2);
     gy2 = gridnodes_gety(grid2);
 
+    /*
+     * if i0 (j0) is negative then the first node of the second grid becomes the
+     * first node of the new grid, and the first grid is shifted
+     */
     nx3 = (i0 + nx2 > nx1) ? i0 + nx2 : nx1;
+    if (i0 < 0)
+        nx3 -= i0;
     ny3 = (j0 + ny2 > ny1) ? j0 + ny2 : ny1;
+    if (j0 < 0)
+        ny3 -= j0;
     grid3 = gridnodes_create(nx3, ny3, type);
     gx3 = gridnodes_getx(grid3);
     gy3 = gridnodes_gety(grid3);
-- 
2.43.0


From 51f224d2fb05f31b425bb697c54775792fffce36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 31/35] fix: the binary map and getbound -c merged the vertices
 of cells smaller than about 1e-4

---
 gridutils/poly.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index c984b05..c392c5f 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -682,7 +682,17 @@ void poly_write(poly* pl, FILE* fp)
  */
 static int ononeline(double* x, double* y, int i1, int i2, int i3, double eps)
 {
-    return fabs((x[i1] - x[i2]) * (y[i3] - y[i2]) - (x[i3] - x[i2]) * (y[i1] - y[i2])) <= eps;
+    double dx1 = x[i1] - x[i2];
+    double dy1 = y[i1] - y[i2];
+    double dx3 = x[i3] - x[i2];
+    double dy3 = y[i3] - y[i2];
+    double scale = hypot(dx1, dy1) * hypot(dx3, dy3);
+
+    /*
+     * for short segments compare the sine of the angle, so that they are not
+     * taken for being on one line just because they are short
+     */
+    return fabs(dx1 * dy3 - dx3 * dy1) <= ((scale < 1.0) ? eps * scale : eps);
 }
 
 /** Deletes redundant nodes.
-- 
2.43.0


From 23a2fc32a4aa4ab0320db2f2f64eca8ff7f654bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 32/35] fix: gridbathy took arguments without a dash for
 options

---
 gridutils/gridbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 7174a32..e875c15 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -194,6 +194,8 @@ static void parse_commandline(int argc, char* argv[], char** bathyfname, char**
 
     i = 1;
     while (i < argc) {
+        if (argv[i][0] != '-')
+            usage();
         switch (argv[i][1]) {
         case 'a':
             i++;
-- 
2.43.0


From 47b16db672f32a6c99829c4d1df96a535da82c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 33/35] fix: results that could not be written were lost
 without an error

---
 gridutils/getbound.c  |  2 ++
 gridutils/gridbathy.c |  3 +++
 gridutils/gridnodes.c | 10 ++++++----
 gridutils/setbathy.c  |  3 +++
 gridutils/xy2ij.c     |  3 +++
 5 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/gridutils/getbound.c b/gridutils/getbound.c
index 1974b27..92a2ddb 100644
--- a/gridutils/getbound.c
+++ b/gridutils/getbound.c
@@ -183,6 +183,8 @@ int main(int argc, char* argv[])
         poly_compact(pl, 1.0e-10);
 
     poly_write(pl, stdout);
+    if (fflush(stdout) != 0 || ferror(stdout))
+        gu_quit("could not write the boundary");
 
     poly_destroy(pl);
     gridnodes_destroy(gn);
diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index e875c15..bc903ae 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -537,5 +537,8 @@ int main(int argc, char* argv[])
     gridnodes_destroy(gn);
     free(pbathy);
 
+    if (fflush(stdout) != 0 || ferror(stdout))
+        gu_quit("could not write the depths");
+
     return 0;
 }
diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 98c0429..2c38557 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -859,6 +859,7 @@ void gridnodes_write(gridnodes* gn, char* fname, COORDTYPE ctype)
     int nx = gn->nx;
     int ny = gn->ny;
     int count = 0;
+    int failed;
     int i, j;
 
     if (gu_verbose) {
@@ -911,10 +912,11 @@ void gridnodes_write(gridnodes* gn, char* fname, COORDTYPE ctype)
     if (gu_verbose)
         fprintf(stderr, "##   %d non-empty grid nodes (%.1f%%)\n", count, 100.0 * count / gn->nx / gn->ny);
 
-    if (f != stdout)
-        fclose(f);
-    else
-        fflush(stdout);
+    failed = ferror(f);
+    if (((f != stdout) ? fclose(f) : fflush(stdout)) != 0)
+        failed = 1;
+    if (failed)
+        gu_quit("%s: could not write grid nodes", fname);
 }
 
 /**
diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 95a231b..80f4079 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -194,5 +194,8 @@ int main(int argc, char* argv[])
     if (f == stdin)
         free(fname);
 
+    if (fflush(stdout) != 0 || ferror(stdout))
+        gu_quit("could not write the data");
+
     return 0;
 }
diff --git a/gridutils/xy2ij.c b/gridutils/xy2ij.c
index 778d20f..b87ae25 100644
--- a/gridutils/xy2ij.c
+++ b/gridutils/xy2ij.c
@@ -253,5 +253,8 @@ int main(int argc, char* argv[])
     gridmap_destroy(map);
     gridnodes_destroy(gn);
 
+    if (fflush(stdout) != 0 || ferror(stdout))
+        gu_quit("could not write the points");
+
     return 0;
 }
-- 
2.43.0


From 5613a135b9d9fca781f20d51590c5a0fdd238eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:42 +0000
Subject: [PATCH 34/35] fix: insertgrid with a far position lost the inserted
 grid or crashed

---
 gridutils/insertgrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index ce8fba9..076513b 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -191,12 +191,16 @@ int main(int argc, char* argv[])
      * if i0 (j0) is negative then the first node of the second grid becomes the
      * first node of the new grid, and the first grid is shifted
      */
+    if (fabs((double) i0) + (double) nx1 + (double) nx2 > (double) INT_MAX || fabs((double) j0) + (double) ny1 + (double) ny2 > (double) INT_MAX)
+        gu_quit("position (%d,%d) is too far from the master grid", i0, j0);
     nx3 = (i0 + nx2 > nx1) ? i0 + nx2 : nx1;
     if (i0 < 0)
         nx3 -= i0;
     ny3 = (j0 + ny2 > ny1) ? j0 + ny2 : ny1;
     if (j0 < 0)
         ny3 -= j0;
+    if ((double) nx3 * (double) ny3 > (double) INT_MAX)
+        gu_quit("size of the new grid (%d x %d) is too big", nx3, ny3);
     grid3 = gridnodes_create(nx3, ny3, type);
     gx3 = gridnodes_getx(grid3);
     gy3 = gridnodes_gety(grid3);
-- 
2.43.0


From 21a71b03cf5715e2e1896b7ca3da24c33f89e4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 35/35] fix: xy2ij and setbathy took a read error for the end
 of the input

---
 gridutils/setbathy.c | 2 ++
 gridutils/xy2ij.c    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 80f4079..1e41798 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -190,6 +190,8 @@ int main(int argc, char* argv[])
 
     while (fgets(buf, BUFSIZE, f) != NULL)
         fprintf(stdout, "%s", buf);
+    if (ferror(f))
+        gu_quit("%s: could not read the data", fname);
 
     if (f == stdin)
         free(fname);
diff --git a/gridutils/xy2ij.c b/gridutils/xy2ij.c
index b87ae25..21c55ac 100644
--- a/gridutils/xy2ij.c
+++ b/gridutils/xy2ij.c
@@ -241,6 +241,8 @@ int main(int argc, char* argv[])
         } else
             printf("%s", buf);
     }
+    if (ferror(of))
+        gu_quit("%s: could not read points", ofname);
     if (gu_verbose) {
         fprintf(stderr, "\n");
         fprintf(stderr, "## total mappings: %d\n", count);
-- 
2.43.0

