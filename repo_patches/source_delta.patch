From e2c8fde44bcf397656b51a7cba3694643e2b48ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:43 +0000
Subject: [PATCH 01/55] fix: make point in polygon test consistent for polygons
 sharing an edge

The intersection of an edge with the horizontal line was calculated from the
first end of the edge, so that round-up errors were different for two polygons
containing the same edge in opposite directions, and a point close to the edge
could be found to be outside both or inside both.
---
 gridutils/poly.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 91cbfc4..885c854 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -281,7 +281,11 @@ int poly_containspoint(poly* pl, double x, double y)
             if (x1 > 0.0 && x2 > 0.0)
                 hits += 2;
             else if (x1 * x2 <= 0.0) {
-                double xx = x1 - (x2 - x1) * y1 / (y2 - y1);
+                /*
+                 * (always go along the edge upwards, so that for an edge
+                 * shared by two polygons the result is the same)
+                 */
+                double xx = (y1 < y2) ? x1 - (x2 - x1) * y1 / (y2 - y1) : x2 - (x1 - x2) * y2 / (y1 - y2);
 
                 if (xx == 0)
                     return 1;
-- 
2.43.0


From b57cd2db5b501d3b66a84391aa0b83f747780667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 02/55] fix: follow only edges of valid cells when forming the
 boundary

Two neighbour valid nodes do not necessarily share a valid cell. The boundary
used to run along such edges, cutting off a part of the grid or walking
through a node more than once (and crashing xy2ij for C-shaped grids).
---
 gridutils/poly.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 885c854..369b025 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -371,6 +371,24 @@ int poly_findindex(poly* pl, double x, double y)
     return -1;
 }
 
+/** Checks whether a cell is valid.
+ */
+static int isvalidcell(int nce1, int nce2, double** x, int i, int j)
+{
+    return i >= 0 && j >= 0 && i < nce1 && j < nce2 && !isnan(x[j][i]) && !isnan(x[j][i + 1]) && !isnan(x[j + 1][i]) && !isnan(x[j + 1][i + 1]);
+}
+
+/** Checks whether two neighbour nodes are connected by an edge of a valid cell.
+ * (Two valid neighbour nodes can belong to different cells only.)
+ */
+static int isvalidedge(int nce1, int nce2, double** x, int i1, int j1, int i2, int j2)
+{
+    int i = (i1 < i2) ? i1 : i2;
+    int j = (j1 < j2) ? j1 : j2;
+
+    return isvalidcell(nce1, nce2, x, i, j) || ((j1 == j2) ? isvalidcell(nce1, nce2, x, i, j - 1) : isvalidcell(nce1, nce2, x, i - 1, j));
+}
+
 /** Forms polyline boundary around a grid.
  * Note: supposed to handle a grid of corner nodes only.
  * @param nce1 Number of cells in X direction
@@ -408,7 +426,7 @@ poly* poly_formbound(int nce1, int nce2, double** x, double** y)
         inext = i + iinc[direction];
         jnext = j + jinc[direction];
 
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while (!isvalidedge(nce1, nce2, x, i, j, inext, jnext) && direction != direction_stop) {
             direction = (direction + 1) % 4;
             inext = i + iinc[direction];
             jnext = j + jinc[direction];
@@ -464,7 +482,7 @@ poly* poly_formboundij(int nce1, int nce2, double** x)
         inext = i + iinc[direction];
         jnext = j + jinc[direction];
 
-        while ((inext < 0 || jnext < 0 || inext > nce1 || jnext > nce2 || isnan(x[jnext][inext])) && direction != direction_stop) {
+        while (!isvalidedge(nce1, nce2, x, i, j, inext, jnext) && direction != direction_stop) {
             direction = (direction + 1) % 4;
             inext = i + iinc[direction];
             jnext = j + jinc[direction];
-- 
2.43.0


From 097a89f41de8be4f81c35dc650ce7eebca398fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:45 +0000
Subject: [PATCH 03/55] fix: check that the cutting line goes inside the
 polygon in cut_boundary()

With two nodes both at the boundary but not joined by an edge within the
subgrid the cut was made through the outside of the polygon, so that building
the binary tree failed for some simply connected grids.
---
 gridutils/gridbmap.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 2ab20ec..48a6b89 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -201,10 +201,11 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
              * this node belongs to the boundary polygon To accept it as a
              * valid intersection, we must ensure that the very next node is 
              * either inside the polygon or belongs to the boundary but is
-             * not the next boundary node. 
+             * not the next boundary node, and is reached through the inside
+             * of the polygon.
              */
             tmp = poly_findindex(pl, gx[index][i + 1], gy[index][i + 1]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
+            if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, (gx[index][i] + gx[index][i + 1]) / 2.0, (gy[index][i] + gy[index][i + 1]) / 2.0)))
                 break;
         }
 
@@ -274,7 +275,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
             if (ii1 < 0)
                 continue;
             tmp = poly_findindex(pl, gx[i + 1][index], gy[i + 1][index]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1))
+            if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, (gx[i][index] + gx[i + 1][index]) / 2.0, (gy[i][index] + gy[i + 1][index]) / 2.0)))
                 break;
         }
 
-- 
2.43.0


From 8f63ac8e215677d9a9e992596ca9b27c0d8c3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 04/55] fix: do not return a wrong cell for points at subgrid
 boundaries

Point in polygon tests may be not consistent with each other for points at
(within round-up error of) the boundary of a subgrid; then the search in the
binary tree would end up in some remote cell not containing the point.
---
 gridutils/gridbmap.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 48a6b89..503b9a8 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -422,6 +422,28 @@ void gridbmap_destroy(gridbmap* gm)
     free(gm);
 }
 
+/** Finds the leaf containing a point by testing the grid cells themselves.
+ * @param sg Subgrid
+ * @param x X coordinate
+ * @param y Y coordinate
+ * @return Leaf subgrid if found; NULL otherwise
+ */
+static subgrid* subgrid_findleaf(subgrid* sg, double x, double y)
+{
+    extent* e = &sg->bound->e;
+    subgrid* leaf = NULL;
+
+    if (x < e->xmin || x > e->xmax || y < e->ymin || y > e->ymax)
+        return NULL;
+
+    if (sg->half1 == NULL)
+        return (poly_containspoint(sg->bound, x, y)) ? sg : NULL;
+
+    leaf = subgrid_findleaf(sg->half1, x, y);
+
+    return (leaf != NULL) ? leaf : subgrid_findleaf(sg->half2, x, y);
+}
+
 /** Calculates indices (i,j) of a grid cell containing point (x,y).
  *
  * @param gm Grid map
@@ -457,6 +479,16 @@ int gridbmap_xy2ij(gridbmap* gm, double x, double y, int* i, int* j)
             sg = (poly_containspoint(sg->half2->bound, x, y)) ? sg->half2 : sg->half1;
     }
 
+    /*
+     * For a point at (within round-up error of) a boundary polyline the tests
+     * above may be not consistent with each other and lead to a wrong leaf.
+     */
+    if (!poly_containspoint(sg->bound, x, y)) {
+        sg = subgrid_findleaf(gm->trunk, x, y);
+        if (sg == NULL)
+            return 0;
+    }
+
     *i = sg->mini;
     *j = sg->minj;
 
-- 
2.43.0


From 24bbd6bc9b1c8d82763898579144d2e5d402e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 05/55] fix: calculate the angle between cell edges correctly

The cosine was divided by 2 for no reason, so that a cell with a 60 degree
corner was reported as deviating from orthogonality by 14.5 rather than by 30
degrees.
---
 gridutils/gridnodes.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index a80c6c5..8daa6e5 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -930,9 +930,16 @@ static void gridstats_init(gridstats* gs)
  */
 static double dtheta(double x1, double y1, double x2, double y2)
 {
-    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2) / 2.0;
-    double th = acos(cos_th) * 180.0 / M_PI;
-    double dth = fabs(90.0 - th);
+    double cos_th = (x1 * x2 + y1 * y2) / hypot(x1, y1) / hypot(x2, y2);
+    double th;
+    double dth;
+
+    if (cos_th > 1.0)
+        cos_th = 1.0;           /* (round-up error) */
+    else if (cos_th < -1.0)
+        cos_th = -1.0;
+    th = acos(cos_th) * 180.0 / M_PI;
+    dth = fabs(90.0 - th);
 
     return dth;
 }
-- 
2.43.0


From eef8df905478086c743146718ecd20a35ead92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 06/55] fix: insertgrid: do not read beyond the last column of
 a grid

The column index was allowed to be equal to the number of columns, so that one
extra column with nodes from the next row (or from outside of the array) was
inserted.
---
 gridutils/insertgrid.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index ac13a82..585768a 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -209,13 +209,13 @@ int main(int argc, char* argv[])
     if (!merge) {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
 
                 if (ok2) {
                     gx3[j3][i3] = gx2[j2][i2];
                     gy3[j3][i3] = gy2[j2][i2];
                 } else {
-                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                    int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                     if (ok1) {
                         gx3[j3][i3] = gx1[j1][i1];
@@ -230,8 +230,8 @@ int main(int argc, char* argv[])
     } else {
         for (j3 = 0, j1 = j1start, j2 = j2start; j3 < ny3; ++j3, ++j1, ++j2) {
             for (i3 = 0, i1 = i1start, i2 = i2start; i3 < nx3; ++i3, ++i1, ++i2) {
-                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 <= nx2);
-                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 <= nx1);
+                int ok2 = (j2 >= 0 && j2 < ny2 && i2 >= 0 && i2 < nx2);
+                int ok1 = (j1 >= 0 && j1 < ny1 && i1 >= 0 && i1 < nx1);
 
                 if (!ok2 && !ok1) {
                     gx3[j3][i3] = NaN;
-- 
2.43.0


From 6c3eb72c69bf28959976ca0fc026a1babd8d2281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:24 +0000
Subject: [PATCH 07/55] fix: check the grid size when validating double density
 nodes

Only gridnodes_read() used to check that, so that "insertgrid -i DD" with an
even number of rows or columns accessed nodes outside of the array.
---
 gridutils/gridnodes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 8daa6e5..3562291 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -270,6 +270,11 @@ static void gridnodes_validate_dd(gridnodes* gn)
     int count;
     int i, j;
 
+    if (nx % 2 == 0)
+        gu_quit("gridnodes_validate(): nx = %d must be odd for double density grid nodes", nx);
+    if (ny % 2 == 0)
+        gu_quit("gridnodes_validate(): ny = %d must be odd for double density grid nodes", ny);
+
     count = 0;                  /* the valid nodes marked as bad */
     /*
      * corner nodes:
-- 
2.43.0


From 74006f7bc60ace9d3a4a8c3beb030a835ecbf5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 08/55] fix: gridmap_fij2xy(): handle NaNs and grids with no
 cells in one direction

Converting a NaN index to int resulted in a crash; for a grid with a single
row or column of nodes an index beyond the range was replaced by -1.0e-8 and
the node next to the existing one was accessed.
---
 gridutils/gridmap.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 02796eb..686c8b5 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -158,6 +158,12 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
         nce2 = gridkmap_getnce2(gm->map);
     }
 
+    if (isnan(fi) || isnan(fj)) {
+        *x = NaN;
+        *y = NaN;
+        return 0;
+    }
+
     /*
      * Trim I to range 0 to nce1 
      */
@@ -167,7 +173,7 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     }
 
     if (fi > nce1) {
-        fi = nce1 - EPS;
+        fi = (nce1 > 0) ? nce1 - EPS : 0.0;
         status = 0;
     }
 
@@ -180,7 +186,7 @@ int gridmap_fij2xy(gridmap* gm, double fi, double fj, double* x, double* y)
     }
 
     if (fj > nce2) {
-        fj = nce2 - EPS;
+        fj = (nce2 > 0) ? nce2 - EPS : 0.0;
         status = 0;
     }
 
-- 
2.43.0


From 2aa065365c3c579bf8c21a4e53a2f7575c34d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:26 +0000
Subject: [PATCH 09/55] fix: gridnodes_transform(): handle centre nodes with no
 complete cell

With no 2 x 2 block of valid centre nodes the kd-tree is empty, and searching
it crashed getnodes. Set all nodes to NaNs then.
---
 gridutils/gridnodes.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 3562291..49b68a5 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -686,15 +686,17 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
             for (j = 0; j < gn1->ny; ++j) {
                 for (i = 0; i < gn1->nx; ++i) {
                     double pos[2];
-                    double* pos1;
+                    double* pos1 = NULL;
                     size_t nearest;
 
                     pos[0] = (double) i - 0.5;
                     pos[1] = (double) j - 0.5;
-                    nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    if (kd_getsize(kt) > 0) {
+                        nearest = kd_findnearestnode(kt, pos);
+                        pos1 = kd_getnodecoords(kt, nearest);
+                    }
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
@@ -754,15 +756,17 @@ gridnodes* gridnodes_transform(gridnodes* gn, NODETYPE type)
             for (j = 0; j < gn1->ny; ++j) {
                 for (i = 0; i < gn1->nx; ++i) {
                     double pos[2];
-                    double* pos1;
+                    double* pos1 = NULL;
                     size_t nearest;
 
                     pos[0] = (double) i / 2.0 - 0.5;
                     pos[1] = (double) j / 2.0 - 0.5;
-                    nearest = kd_findnearestnode(kt, pos);
-                    pos1 = kd_getnodecoords(kt, nearest);
+                    if (kd_getsize(kt) > 0) {
+                        nearest = kd_findnearestnode(kt, pos);
+                        pos1 = kd_getnodecoords(kt, nearest);
+                    }
 
-                    if (hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
+                    if (pos1 != NULL && hypot(pos1[0] - pos[0], pos1[1] - pos[1]) < 1.5) {
                         fij2xy(gn, pos[0], pos[1], (int) pos1[0], (int) pos1[1], &gn1->gx[j][i], &gn1->gy[j][i]);
                     } else {
                         gn1->gx[j][i] = NaN;
-- 
2.43.0


From 1e989e802da992f0831956777dae14b9a3705ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 10/55] fix: gridnodes_subgrid(): quit on empty index range

Otherwise arrays of negative size were allocated, and subgrid crashed.
---
 gridutils/gridnodes.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 49b68a5..755641f 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -471,6 +471,9 @@ gridnodes* gridnodes_subgrid(gridnodes* gn, int imin, int imax, int jmin, int jm
     if (imin == 0 && imax == gn->nx - 1 && jmin == 0 && jmax == gn->ny - 1)
         return gridnodes_copy(gn);
 
+    if (imin > imax || jmin > jmax)
+        gu_quit("gridnodes_subgrid(): no grid nodes in the specified index range");
+
     new = calloc(1, sizeof(gridnodes));
 
     new->nx = imax - imin + 1;
-- 
2.43.0


From 01a3de2239082e08e28f5cf52568628ad57d9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 11/55] fix: gu_readmask(): remove the last character of a line
 only if it is newline

The last mask value was not recognised in a file with no newline at the end.
---
 gridutils/gucommon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 928675e..8998141 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -132,7 +132,7 @@ int** gu_readmask(char* fname, int nx, int ny)
         for (i = 0; i < nx; ++i) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th mask value (%d x %d values expected)", fname, j * nx + i + 1, nx, ny);
-            buf[strlen(buf) - 1] = 0;
+            buf[strcspn(buf, "\n")] = 0;
             if (strcmp(buf, "0") == 0)
                 v[j][i] = 0;
             else if (strcmp(buf, "1") == 0) {
-- 
2.43.0


From e51a425409b4eda3e5577fa6c0f84d0167b1adad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 12/55] fix: gridnodes_read(): treat a node with either
 coordinate NaN as invalid

A node with valid X and NaN Y was considered as valid everywhere, and e.g.
building the boundary with such a node would fail.
---
 gridutils/gridnodes.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 755641f..9ac1c36 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -131,13 +131,12 @@ gridnodes* gridnodes_read(char* fname, NODETYPE type)
         for (i = 0; i < gn->nx; ++i, ++xx, ++yy) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th point (%d x %d points expected)", fname, j * gn->nx + i + 1, gn->nx, gn->ny);
-            if (sscanf(buf, "%lf %lf", xx, yy) != 2) {
+            if (sscanf(buf, "%lf %lf", xx, yy) != 2 || isnan(*xx) || isnan(*yy)) {
                 *xx = NaN;
                 *yy = NaN;
                 continue;
             }
-            if (!isnan(*xx))
-                count++;
+            count++;
         }
     }
 
-- 
2.43.0


From d97d46cbd38ba2a9b9173f19aa6eefbd30862033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 13/55] fix: setbathy: quit if no value is specified

"-z <value>" is mandatory; without it "(null)" was written.
---
 gridutils/setbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 0a3a6ed..b06838f 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -117,6 +117,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* imin, i
 
     if (*fname == NULL)
         usage();
+    if (*z == NULL)
+        gu_quit("no value specified (use \"-z <value>\")");
 }
 
 /**
-- 
2.43.0


From c02b86ea5815de5c6b042ac7c4053e2580ca5c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 14/55] fix: poly_addpointat(): shift Y coordinates

X coordinates were copied to Y coordinates of the points following the inserted
one.
---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 369b025..a490226 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -141,7 +141,7 @@ void poly_addpointat(poly* pl, int index, double x, double y)
     }
 
     memmove(&pl->x[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
-    memmove(&pl->y[index + 1], &pl->x[index], (pl->n - index) * sizeof(double));
+    memmove(&pl->y[index + 1], &pl->y[index], (pl->n - index) * sizeof(double));
     pl->x[index] = x;
     pl->y[index] = y;
     pl->n++;
-- 
2.43.0


From 4e8876fe66afa141f6de8a4125e98c45254e92f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:33 +0000
Subject: [PATCH 15/55] fix: poly_append(): allocate enough space, update
 number of points and extent

The allocation was increased (without end) when there was enough space, and was
not increased when there was not; the appended points were never counted.
---
 gridutils/poly.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index a490226..38d9a1c 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -157,7 +157,7 @@ void poly_append(poly* pl1, poly* pl2)
     int n = pl1->n + pl2->n;
     int sizechanged = 0;
 
-    while (n < pl1->nallocated) {
+    while (n > pl1->nallocated) {
         pl1->nallocated *= 2;
         sizechanged = 1;
     }
@@ -169,6 +169,8 @@ void poly_append(poly* pl1, poly* pl2)
 
     memcpy(&pl1->x[pl1->n], pl2->x, pl2->n * sizeof(double));
     memcpy(&pl1->y[pl1->n], pl2->y, pl2->n * sizeof(double));
+    pl1->n = n;
+    poly_recalcextent(pl1);
 }
 
 /** Computes the area of a polygon. 
-- 
2.43.0


From 56bee7e10a5ceba1476aac4f3af536dc4a9e48b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 16/55] fix: poly_area(): return positive area for
 counterclockwise polygons

This is what the description says.
---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 38d9a1c..b22832d 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -189,7 +189,7 @@ double poly_area(poly* pl)
     for (i = 0; i < n; ++i) {
         int i1 = (i + 1) % n;
 
-        area += (x[i1] - x[i]) * (y[i1] + y[i]);
+        area += (x[i] - x[i1]) * (y[i1] + y[i]);
     }
 
     return area / 2.0;
-- 
2.43.0


From 49f94651b0ab484c3077b3eac2eacf4e5516017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:18 +0000
Subject: [PATCH 17/55] fix: poly_addpointat(): no action for negative index

As the description says.
---
 gridutils/poly.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index b22832d..f706ece 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -129,6 +129,9 @@ void poly_addpoint(poly* pl, double x, double y)
  */
 void poly_addpointat(poly* pl, int index, double x, double y)
 {
+    if (index < 0)
+        return;
+
     if (index > pl->n - 1) {
         poly_addpoint(pl, x, y);
         return;
-- 
2.43.0


From 025127d9c3dd0c73162f23a558fd300885b163f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:19 +0000
Subject: [PATCH 18/55] fix: poly_compact(): do not leave a polyline with no
 allocated space

When there are no points left, the allocation became zero and doubling it in
poly_addpoint() did not help.
---
 gridutils/poly.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index f706ece..42c0ed9 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -726,6 +726,8 @@ void poly_compact(poly* pl, double eps)
     }
 
     free(ids);
+    if (pl->n == 0)
+        return;
     pl->x = realloc(pl->x, sizeof(double) * pl->n);
     pl->y = realloc(pl->y, sizeof(double) * pl->n);
     pl->nallocated = pl->n;
-- 
2.43.0


From 1856abf869365a630ceb5217e4db6be30fa8f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 19/55] fix: poly_compact(): make test on three points
 belonging to one line relative

The area was compared with eps regardless of the polyline's size, so that for
grids with cells of about 1e-5 (1 m in degrees) or smaller the boundary was
reduced to nothing and no point could be mapped to index space, while for grids
with cells of 1e-4 points 1% of a cell off the boundary could be treated wrongly.
---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 42c0ed9..47a41de 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -676,7 +676,7 @@ void poly_write(poly* pl, FILE* fp)
  */
 static int ononeline(double* x, double* y, int i1, int i2, int i3, double eps)
 {
-    return fabs((x[i1] - x[i2]) * (y[i3] - y[i2]) - (x[i3] - x[i2]) * (y[i1] - y[i2])) <= eps;
+    return fabs((x[i1] - x[i2]) * (y[i3] - y[i2]) - (x[i3] - x[i2]) * (y[i1] - y[i2])) <= eps * hypot(x[i1] - x[i2], y[i1] - y[i2]) * hypot(x[i3] - x[i2], y[i3] - y[i2]);
 }
 
 /** Deletes redundant nodes.
-- 
2.43.0


From c07413fcf11c71aa4823743ab19aadaec1001fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 20/55] fix: gridmap_xy2fij(): make the switch to linear
 solution independent of scale

The coefficients were compared with absolute threshold, so that for cells of
1e-2 or smaller the fractional index was wrong (e.g. by 0.02 for 1e-2, by any
value for 1e-3), and the branch for the whole grid could be chosen wrongly.
---
 gridutils/gridmap.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index 686c8b5..f6b017e 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -267,19 +267,13 @@ static int calc_branch(gridmap* gm, double x, double y)
         double B, C;
         int k;
 
-        /*
-         * normally one checks A before calling calc_branch() 
-         */
-        if (fabs(A) < EPS_ZERO)
-            return 0;           /* failed */
-
         B = e * x - a * y + a * h - d * e + c * f - b * g;
         C = g * x - c * y + c * h - d * g;
 
         for (k = 0; k < 2; ++k) {
             double u = (-B + sign * sqrt(B * B - 4.0 * A * C)) / (2.0 * A);
             double v_denom = a * u + c;
-            double v = (fabs(v_denom) < EPS_ZERO) ? (y - f * u - h) / (e * u + g) : (x - b * u - d) / v_denom;
+            double v = (fabs(e * u + g) > fabs(v_denom)) ? (y - f * u - h) / (e * u + g) : (x - b * u - d) / v_denom;
 
             error[k] = 0.0;
 
@@ -353,7 +347,7 @@ int gridmap_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
 
         double u, v, d1, d2;
 
-        if (fabs(A) < EPS_ZERO)
+        if (fabs(A) < EPS_ZERO * fabs(B))
             u = -C / B * (1.0 + A * C / B / B);
         else {
             if (gm->sign == 0) {
-- 
2.43.0


From 601d3cf46e6c641315b8336f7eaf95cff1b8da0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:22 +0000
Subject: [PATCH 21/55] fix: kd-tree: set the root only when inserting the
 first node

In a tree filled with kd_insertnodes() the root was re-initialised by
kd_insertnode() when the allocation grew to 1024, and all nodes were lost.
---
 gridutils/kdtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 37c1906..1fe4cc8 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -135,7 +135,7 @@ void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
             tree->nallocated = NALLOCSTART;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == NALLOCSTART)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
@@ -182,7 +182,7 @@ void kd_insertnodes(kdtree* tree, size_t n, double** src, int randomise)
         tree->nallocated += n;
         tree->nodes = realloc(tree->nodes, tree->nallocated * sizeof(kdnode));
         tree->coords = realloc(tree->coords, tree->nallocated * tree->ndim * sizeof(double));
-        if (tree->nallocated == n)
+        if (tree->nnodes == 0)
             tree->nodes[0].id = SIZE_MAX;
     }
 
-- 
2.43.0


From 8da0d23e06699f1fb7ac1130cb5d80509c2ef65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:23 +0000
Subject: [PATCH 22/55] fix: kd-tree: do not miss nodes at exactly the
 specified range

Nodes with distance equal to range are included, unless they happened to be in
the subtree that was not searched.
---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 1fe4cc8..e56e4ed 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -299,7 +299,7 @@ static int _kd_findnodeswithinrange(const kdtree* tree, int id, const double* co
 
     dx = coords[node->dir] - nodecoords[node->dir];
     ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->left : node->right, coords, range, set, ordered);
-    if (fabs(dx) < range) {
+    if (fabs(dx) <= range) {
         added_res += ret;
         ret = _kd_findnodeswithinrange(tree, dx <= 0.0 ? node->right : node->left, coords, range, set, ordered);
     }
-- 
2.43.0


From a641852b917f6df98bb726946b4cf390868c850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 23/55] fix: kd-tree: do not search empty tree

---
 gridutils/kdtree.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index e56e4ed..319fff5 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -319,6 +319,9 @@ kdset* kd_findnodeswithinrange(const kdtree* tree, const double* coords, double
     rset->root = NULL;
     rset->size = 0;
 
+    if (tree->nnodes == 0)
+        return rset;
+
     ret = _kd_findnodeswithinrange(tree, 0, coords, range, rset, ordered);
     rset->size = ret;
 
@@ -409,11 +412,15 @@ static void _kd_findnearestnode(const kdtree* tree, const size_t nodeid, const d
 size_t kd_findnearestnode(const kdtree* tree, const double* coords)
 {
     int ndim = tree->ndim;
-    double* minmax = malloc(ndim * 2 * sizeof(double));
+    double* minmax = NULL;
     size_t result;
     double dist;
     int i;
 
+    if (tree->nnodes == 0)
+        return SIZE_MAX;
+
+    minmax = malloc(ndim * 2 * sizeof(double));
     for (i = 0; i < ndim * 2; ++i)
         minmax[i] = tree->min[i];
 
-- 
2.43.0


From ef24e040aea34c52a9ef4a3071951f3e8ad711a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 24/55] fix: gridbmap: avoid integer overflow for a grid with
 no valid cells

---
 gridutils/gridbmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 503b9a8..8043599 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -333,7 +333,7 @@ static void subgrid_divide(subgrid* sg, subgrid** sg1, subgrid** sg2)
     gridbmap* gm = sg->gmap;
     int index;
 
-    if ((sg->maxi <= sg->mini + 1) && (sg->maxj <= sg->minj + 1)) {
+    if (sg->bound->n == 0 || ((sg->maxi <= sg->mini + 1) && (sg->maxj <= sg->minj + 1))) {
         *sg1 = *sg2 = NULL;
         return;
     }
-- 
2.43.0


From 5e70274cbbcd9f4f47194da44671bc3374ecd2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:25 +0000
Subject: [PATCH 25/55] fix: gridbathy: check cell indices specified by "-c"

Indices outside the grid resulted in access outside the node arrays.
---
 gridutils/gridbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 7a832ba..a1ccef1 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -452,6 +452,8 @@ int main(int argc, char* argv[])
             jmin = 0;
             jmax = gridnodes_getnce2(gn) - 1;
         } else {
+            if (i >= gridnodes_getnce1(gn) || j < 0 || j >= gridnodes_getnce2(gn))
+                gu_quit("no cell (%d,%d) in the grid", i, j);
             if (gu_verbose)
                 fprintf(stderr, "## calculating depth for cell (%d,%d)\n", i, j);
             imin = i;
-- 
2.43.0


From 99126620def5fcac20b58d1a31c2819bc91b4460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:26 +0000
Subject: [PATCH 26/55] fix: gridbathy: ignore "-x" when averaging

The averager converts points from physical to index space itself; with points
already converted to index space it counted wrong points if any.
---
 gridutils/gridbathy.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index a1ccef1..ee7d4e4 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -373,6 +373,13 @@ int main(int argc, char* argv[])
      */
     gm = gridmap_build(gridnodes_getnce1(gn), gridnodes_getnce2(gn), gridnodes_getx(gn), gridnodes_gety(gn), gridnodes_getmaptype(gn));
 
+    /*
+     * (averaging within grid cells is the same in either space; the averager
+     * makes the conversion itself)
+     */
+    if (rule == AVERAGE)
+        indexspace = 0;
+
     /*
      * convert bathymetry to index space if necessary 
      */
-- 
2.43.0


From 32c9bf8ccf452ea158a3206fece1a44c8fee201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 27/55] fix: getnodes -p: unwrap longitude for jumps in both
 directions

360 degrees was added for either sign of the jump, so that a jump from -170 to
170 became one from -170 to 530.
---
 gridutils/getnodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/getnodes.c b/gridutils/getnodes.c
index 2fd37af..4e4fe03 100644
--- a/gridutils/getnodes.c
+++ b/gridutils/getnodes.c
@@ -195,7 +195,7 @@ static void gridnodes_tweaknpolar(gridnodes* gn)
     for (i = 0; i < nx; ++i)
         for (j = 1; j < ny; ++j)
             if (fabs(gx[j][i] - gx[j - 1][i]) > 180.0)
-                gx[j][i] += 360.0;
+                gx[j][i] += (gx[j][i] < gx[j - 1][i]) ? 360.0 : -360.0;
 
     for (j = 0; j < ny; ++j)
         for (i = 1; i < nx; ++i)
-- 
2.43.0


From 5d4fe9e4098a11b23ab28dd6af1ae22fd1a145d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:54 +0000
Subject: [PATCH 28/55] fix: gridkmap: find cells with no corner being the
 nearest node

Only the cells around the node nearest to the point were checked. With cells of
different size next to each other, or with elongated and sheared cells, a point
can be closer to a node of another cell than to the corners of the cell it is
in. For these check cells around all nodes that can be corners of its cell.
---
 gridutils/gridkmap.c | 95 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 73 insertions(+), 22 deletions(-)

diff --git a/gridutils/gridkmap.c b/gridutils/gridkmap.c
index 721f4e1..f1e5cad 100644
--- a/gridutils/gridkmap.c
+++ b/gridutils/gridkmap.c
@@ -18,6 +18,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <limits.h>
+#include <stdint.h>
 #include "kdtree.h"
 #include "poly.h"
 #include "gridkmap.h"
@@ -34,8 +35,17 @@ struct gridkmap {
     double** gy;                /* reference to array of Y coords
                                  * [nce2+1][nce1+1] */
     kdtree* tree;               /* kd tree with grid nodes */
+    double range;               /* a point in a valid cell is within this
+                                 * distance from a corner of the cell */
 };
 
+/** Checks whether a cell is valid.
+ */
+static int isvalidcell(gridkmap* gm, int i, int j)
+{
+    return isfinite(gm->gx[j][i]) && isfinite(gm->gx[j][i + 1]) && isfinite(gm->gx[j + 1][i + 1]) && isfinite(gm->gx[j + 1][i]);
+}
+
 /** Builds a grid map structure to facilitate conversion from coordinate
  * to index space.
  *
@@ -49,6 +59,7 @@ gridkmap* gridkmap_build(int nce1, int nce2, double** gx, double** gy)
 {
     gridkmap* gm = malloc(sizeof(gridkmap));
     double* data[2];
+    int i, j;
 
     gm->nce1 = nce1;
     gm->nce2 = nce2;
@@ -60,6 +71,29 @@ gridkmap* gridkmap_build(int nce1, int nce2, double** gx, double** gy)
     data[1] = gy[0];
     kd_insertnodes(gm->tree, (nce1 + 1) * (nce2 + 1), data, 1 /* shuffle */ );
 
+    /*
+     * A point in a triangle is within 1 / sqrt(3) of the longest side from one
+     * of its vertices.
+     */
+    gm->range = 0.0;
+    for (j = 0; j < nce2; ++j)
+        for (i = 0; i < nce1; ++i) {
+            double x[4] = { gx[j][i], gx[j][i + 1], gx[j + 1][i + 1], gx[j + 1][i] };
+            double y[4] = { gy[j][i], gy[j][i + 1], gy[j + 1][i + 1], gy[j + 1][i] };
+            int k, l;
+
+            if (!isvalidcell(gm, i, j))
+                continue;
+            for (k = 0; k < 4; ++k)
+                for (l = k + 1; l < 4; ++l) {
+                    double dist = hypot(x[k] - x[l], y[k] - y[l]);
+
+                    if (dist > gm->range)
+                        gm->range = dist;
+                }
+        }
+    gm->range *= 0.6;
+
     return gm;
 }
 
@@ -71,26 +105,11 @@ void gridkmap_destroy(gridkmap* gm)
     free(gm);
 }
 
-/**
+/** Looks for a point in the cells around a node.
  */
-int gridkmap_xy2ij(gridkmap* gm, double x, double y, int* iout, int* jout)
+static int findcell(gridkmap* gm, size_t id, poly* p, double x, double y, int* iout, int* jout)
 {
-    double* minmax = kd_getminmax(gm->tree);
-    double pos[2];
-    size_t nearest;
-    size_t id;
-    poly* p;
     int i, j, i1, i2, j1, j2;
-    int success = 0;
-
-    if (x < minmax[0] || y < minmax[1] || x > minmax[2] || y > minmax[3])
-        return success;
-
-    pos[0] = x;
-    pos[1] = y;
-    nearest = kd_findnearestnode(gm->tree, pos);
-    id = kd_getnodeorigid(gm->tree, nearest);
-    p = poly_create();
 
     j = id / (gm->nce1 + 1);
     i = id % (gm->nce1 + 1);
@@ -105,8 +124,9 @@ int gridkmap_xy2ij(gridkmap* gm, double x, double y, int* iout, int* jout)
      */
     for (j = j1; j <= j2 - 1; ++j)
         for (i = i1; i <= i2 - 1; ++i) {
-            if (!isfinite(gm->gx[j][i]) || !isfinite(gm->gx[j][i + 1]) || !isfinite(gm->gx[j + 1][i + 1]) || !isfinite(gm->gx[j + 1][i]))
+            if (!isvalidcell(gm, i, j))
                 continue;
+            poly_clear(p);
             poly_addpoint(p, gm->gx[j][i], gm->gy[j][i]);
             poly_addpoint(p, gm->gx[j][i + 1], gm->gy[j][i + 1]);
             poly_addpoint(p, gm->gx[j + 1][i + 1], gm->gy[j + 1][i + 1]);
@@ -114,15 +134,46 @@ int gridkmap_xy2ij(gridkmap* gm, double x, double y, int* iout, int* jout)
             poly_addpoint(p, gm->gx[j][i], gm->gy[j][i]);
 
             if (poly_containspoint(p, x, y)) {
-                success = 1;
                 *iout = i;
                 *jout = j;
-                goto finish;
+                return 1;
             }
-            poly_clear(p);
         }
 
-  finish:
+    return 0;
+}
+
+/**
+ */
+int gridkmap_xy2ij(gridkmap* gm, double x, double y, int* iout, int* jout)
+{
+    double* minmax = kd_getminmax(gm->tree);
+    double pos[2];
+    size_t nearest;
+    poly* p;
+    int success = 0;
+
+    if (x < minmax[0] || y < minmax[1] || x > minmax[2] || y > minmax[3])
+        return success;
+
+    pos[0] = x;
+    pos[1] = y;
+    nearest = kd_findnearestnode(gm->tree, pos);
+    p = poly_create();
+
+    success = findcell(gm, kd_getnodeorigid(gm->tree, nearest), p, x, y, iout, jout);
+    if (!success) {
+        /*
+         * none of the corners of the cell needs to be the nearest node
+         */
+        kdset* set = kd_findnodeswithinrange(gm->tree, pos, gm->range, 0);
+        double dist;
+        size_t id;
+
+        while (!success && (id = kdset_read(set, &dist)) != SIZE_MAX)
+            success = findcell(gm, kd_getnodeorigid(gm->tree, id), p, x, y, iout, jout);
+        kdset_free(set);
+    }
 
     poly_destroy(p);
 
-- 
2.43.0


From 3e4337ca0aab855af391447bce0cc9426495a2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 29/55] fix: gridbathy: make "-a 1" and "-a 2" select the
 documented interpolation rules

---
 gridutils/gridbathy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index ee7d4e4..36cf339 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -47,7 +47,7 @@
 #define ZMIN_DEF (-DBL_MAX)
 #define ZMAX_DEF DBL_MAX
 
-enum { CSA = 0, NN_SIBSON = 1, NN_NONSIBSONIAN = 2, LINEAR = 3, AVERAGE = 4 } rule = CSA;
+enum { CSA = 0, NN_NONSIBSONIAN = 1, NN_SIBSON = 2, LINEAR = 3, AVERAGE = 4 } rule = CSA;
 
 int linear = 0;
 int indexspace = 0;
-- 
2.43.0


From 21ee1701062885571c60ecb06f94de91dc4937db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 30/55] fix: kdtree: do not truncate original node ids to int

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 319fff5..18dc6da 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -510,7 +510,7 @@ double* kd_getnodecoords(const kdtree* tree, size_t id)
 size_t kd_getnodeorigid(const kdtree* tree, size_t id)
 {
 
-    return (int) tree->nodes[id].id_orig;
+    return tree->nodes[id].id_orig;
 }
 
 /* get boundary rectangle
-- 
2.43.0


From 566053742253931a4bb3ab3be9329deab23a8401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:52 +0000
Subject: [PATCH 31/55] fix: setbathy: keep the header

The header with grid dimensions was read but not written, so that the output could not be processed again.
---
 gridutils/setbathy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index b06838f..821ba13 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -165,6 +165,7 @@ int main(int argc, char* argv[])
 
         if (sscanf(buf, "## %d x %d", &nx, &ny) != 2)
             gu_quit("%s: could not read grid size: expected header in \"## %%d x %%d\" format\n or \"-d\" option", fname);
+        fprintf(stdout, "%s", buf);
     }
 
     if (gu_verbose)
-- 
2.43.0


From 8eb17e50c73ac8bcf4f92d4b90337b514f5dc72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 32/55] fix: getnodes -p: unwrap jumps of more than one turn

After several wraps along a column the original longitude differs from the unwrapped one of the previous node by more than one turn.
---
 gridutils/getnodes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/getnodes.c b/gridutils/getnodes.c
index 4e4fe03..4f0f303 100644
--- a/gridutils/getnodes.c
+++ b/gridutils/getnodes.c
@@ -195,7 +195,7 @@ static void gridnodes_tweaknpolar(gridnodes* gn)
     for (i = 0; i < nx; ++i)
         for (j = 1; j < ny; ++j)
             if (fabs(gx[j][i] - gx[j - 1][i]) > 180.0)
-                gx[j][i] += (gx[j][i] < gx[j - 1][i]) ? 360.0 : -360.0;
+                gx[j][i] += 360.0 * rint((gx[j - 1][i] - gx[j][i]) / 360.0);
 
     for (j = 0; j < ny; ++j)
         for (i = 1; i < nx; ++i)
-- 
2.43.0


From b6ea251efeab760b24ae49a93f589cfd2253d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 33/55] fix: gridbathy: reject cell indices and point counts
 that do not fit an integer

---
 gridutils/gridbathy.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 36cf339..c603a5d 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -167,19 +167,22 @@ static int str2double(char* token, double* value)
 static int str2int(char* token, int* value)
 {
     char* end = NULL;
+    long v;
 
     if (token == NULL) {
         *value = INT_MIN;
         return 0;
     }
 
-    *value = strtol(token, &end, 10);
+    v = strtol(token, &end, 10);
 
-    if (end == token) {
+    if (end == token || v < INT_MIN || v > INT_MAX) {
         *value = INT_MIN;
         return 0;
     }
 
+    *value = (int) v;
+
     return 1;
 }
 
@@ -215,11 +218,13 @@ static void parse_commandline(int argc, char* argv[], char** bathyfname, char**
             i++;
             if (i >= argc)
                 gu_quit("no cell <i> index found after -c");
-            *ii = atof(argv[i]);
+            if (!str2int(argv[i], ii))
+                gu_quit("could not read cell <i> index after -c");
             i++;
             if (i >= argc)
                 gu_quit("no cell <j> index found after -c");
-            *jj = atof(argv[i]);
+            if (!str2int(argv[i], jj))
+                gu_quit("could not read cell <j> index after -c");
             i++;
             break;
         case 'g':
-- 
2.43.0


From ab3870085a39ae8e869c75d6efc2ef05b35d3a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:32 +0000
Subject: [PATCH 34/55] fix: gridbathy: do not read beyond an empty argument

---
 gridutils/gridbathy.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index c603a5d..750c308 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -197,6 +197,8 @@ static void parse_commandline(int argc, char* argv[], char** bathyfname, char**
 
     i = 1;
     while (i < argc) {
+        if (argv[i][0] != '-')
+            usage();
         switch (argv[i][1]) {
         case 'a':
             i++;
-- 
2.43.0


From cf7f76ad536f1308cd3b1647cb3fd0d5e37da250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:20 +0000
Subject: [PATCH 35/55] fix: gridbmap: infinite loop when the last boundary
 point is next to, but not the same as the first

---
 gridutils/gridbmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 8043599..6a025b0 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -183,7 +183,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
     /*
      * if the polygon has been explicitely closed, ignore the last point 
      */
-    if (poly_isclosed(pl, 1.0e-15))
+    if (poly_isclosed(pl, 0.0))
         n--;
 
     if (horiz) {                /* horizontal cut */
-- 
2.43.0


From a96ce6f36fbbaea0085533f2d8956fc0359546ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 36/55] fix: insertgrid: integer overflow in the size of the
 grid

---
 gridutils/insertgrid.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index 585768a..581e751 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -186,8 +186,13 @@ int main(int argc, char* argv[])
     gx2 = gridnodes_getx(grid2);
     gy2 = gridnodes_gety(grid2);
 
+    if (i0 > INT_MAX - nx2 || j0 > INT_MAX - ny2)
+        gu_quit("insertgrid: position (%d,%d) is too big", i0, j0);
+
     nx3 = (i0 + nx2 > nx1) ? i0 + nx2 : nx1;
     ny3 = (j0 + ny2 > ny1) ? j0 + ny2 : ny1;
+    if ((double) nx3 * (double) ny3 > (double) INT_MAX)
+        gu_quit("insertgrid: grid size (%d x %d) is too big", nx3, ny3);
     grid3 = gridnodes_create(nx3, ny3, type);
     gx3 = gridnodes_getx(grid3);
     gy3 = gridnodes_gety(grid3);
-- 
2.43.0


From 2919fd215b980342d2782f44c684499be31d2171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 37/55] fix: insertgrid: nodes of the master grid lost when the
 position is negative

---
 gridutils/insertgrid.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gridutils/insertgrid.c b/gridutils/insertgrid.c
index 581e751..9cea0e9 100644
--- a/gridutils/insertgrid.c
+++ b/gridutils/insertgrid.c
@@ -186,11 +186,15 @@ int main(int argc, char* argv[])
     gx2 = gridnodes_getx(grid2);
     gy2 = gridnodes_gety(grid2);
 
-    if (i0 > INT_MAX - nx2 || j0 > INT_MAX - ny2)
+    if (i0 > INT_MAX - nx2 || j0 > INT_MAX - ny2 || i0 < nx1 - INT_MAX || j0 < ny1 - INT_MAX)
         gu_quit("insertgrid: position (%d,%d) is too big", i0, j0);
 
     nx3 = (i0 + nx2 > nx1) ? i0 + nx2 : nx1;
     ny3 = (j0 + ny2 > ny1) ? j0 + ny2 : ny1;
+    if (i0 < 0)
+        nx3 -= i0;
+    if (j0 < 0)
+        ny3 -= j0;
     if ((double) nx3 * (double) ny3 > (double) INT_MAX)
         gu_quit("insertgrid: grid size (%d x %d) is too big", nx3, ny3);
     grid3 = gridnodes_create(nx3, ny3, type);
-- 
2.43.0


From a78f50cdc690109bac2e319d0fab350a7ba436b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 38/55] fix: kd-tree: do not degenerate to a list for
 coinciding nodes

---
 gridutils/kdtree.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 18dc6da..1ceb2b3 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -101,6 +101,7 @@ static int _kd_insertnode(kdtree* tree, size_t* id, const double* coords, size_t
     int ndim = tree->ndim;
     int new_dir;
     kdnode* node;
+    double diff;
 
     if (*id == SIZE_MAX) {
         node = &tree->nodes[tree->nnodes];
@@ -116,7 +117,13 @@ static int _kd_insertnode(kdtree* tree, size_t* id, const double* coords, size_t
     node = &tree->nodes[*id];
     new_dir = (node->dir + 1) % ndim;
 
-    return _kd_insertnode(tree, (coords[node->dir] < tree->coords[node->id * ndim + node->dir]) ? &node->left : &node->right, coords, id_orig, new_dir);
+    /*
+     * use ids for nodes with equal coordinates; otherwise the tree would
+     * degenerate to a list for coinciding nodes
+     */
+    diff = coords[node->dir] - tree->coords[node->id * ndim + node->dir];
+
+    return _kd_insertnode(tree, (diff < 0.0 || (diff == 0.0 && id_orig < node->id_orig)) ? &node->left : &node->right, coords, id_orig, new_dir);
 }
 
 /**
-- 
2.43.0


From 7bdaa0aa827cbc9bc05a35987485e85ebf903ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 39/55] fix: poly_close(): no action for an empty polyline

---
 gridutils/poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 47a41de..80aef34 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -237,7 +237,7 @@ poly* poly_copy(poly* pl)
  */
 void poly_close(poly* pl)
 {
-    if (!poly_isclosed(pl, 0.0))
+    if (pl->n > 0 && !poly_isclosed(pl, 0.0))
         poly_addpoint(pl, pl->x[0], pl->y[0]);
 }
 
-- 
2.43.0


From 450dd76eae67a030662b26178e0bb642335d5397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 40/55] fix: poly_compact(): update the extent

The points deleted can be those farthest out if the polyline turns back on
itself or is reduced to nothing.
---
 gridutils/poly.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gridutils/poly.c b/gridutils/poly.c
index 80aef34..0448394 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -723,6 +723,7 @@ void poly_compact(poly* pl, double eps)
             y[i] = y[ids[i]];
         }
         pl->n = nnew;
+        poly_recalcextent(pl);
     }
 
     free(ids);
-- 
2.43.0


From a6d1ba75d806bd27cd655c8f38d8014f59248787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:52 +0000
Subject: [PATCH 41/55] fix: gridbmap: keep the extent of all nodes of a
 subgrid

With the extent of the compacted polyline, points at the boundary of
a subgrid could be lost.
---
 gridutils/gridbmap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index 6a025b0..c1f1f0b 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -365,6 +365,7 @@ static void gridbmap_subdivide(gridbmap* gm, subgrid* sg)
 {
     subgrid* sg1 = NULL;
     subgrid* sg2 = NULL;
+    extent e;
 
     subgrid_divide(sg, &sg1, &sg2);
 
@@ -378,7 +379,13 @@ static void gridbmap_subdivide(gridbmap* gm, subgrid* sg)
         sg->half2 = sg2;
         ++(gm->nleaves);
     }
+    /*
+     * keep the extent of all nodes of the subgrid: that of the compacted
+     * polyline may miss some of its cells by the tolerance of compaction
+     */
+    e = sg->bound->e;
     poly_compact(sg->bound, EPS_COMPACT);
+    sg->bound->e = e;
 }
 
 /** Builds a grid map structure to facilitate conversion from coordinate
-- 
2.43.0


From f95bdf35a888feb6792970ac962774e4c1865e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:22 +0000
Subject: [PATCH 42/55] fix: gridmap_xy2fij(): NaN or wrong branch at a corner
 of (close to) 180 degrees

---
 gridutils/gridmap.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/gridutils/gridmap.c b/gridutils/gridmap.c
index f6b017e..35f181f 100644
--- a/gridutils/gridmap.c
+++ b/gridutils/gridmap.c
@@ -267,6 +267,13 @@ static int calc_branch(gridmap* gm, double x, double y)
         double B, C;
         int k;
 
+        /*
+         * use the centre of the cell rather than the point itself: the
+         * branches merge at a corner of (or close to) 180 degrees
+         */
+        x = (gx[j][i] + gx[j][i + 1] + gx[j + 1][i] + gx[j + 1][i + 1]) / 4.0;
+        y = (gy[j][i] + gy[j][i + 1] + gy[j + 1][i] + gy[j + 1][i + 1]) / 4.0;
+
         B = e * x - a * y + a * h - d * e + c * f - b * g;
         C = g * x - c * y + c * h - d * g;
 
@@ -345,7 +352,7 @@ int gridmap_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
         double B = e * x - a * y + a * h - d * e + c * f - b * g;
         double C = g * x - c * y + c * h - d * g;
 
-        double u, v, d1, d2;
+        double D, u, v, d1, d2;
 
         if (fabs(A) < EPS_ZERO * fabs(B))
             u = -C / B * (1.0 + A * C / B / B);
@@ -355,7 +362,10 @@ int gridmap_xy2fij(gridmap* gm, double x, double y, double* fi, double* fj)
                 if (gm->sign == 0)
                     return 0;   /* failed */
             }
-            u = (-B + gm->sign * sqrt(B * B - 4.0 * A * C)) / (2.0 * A);
+            D = B * B - 4.0 * A * C;
+            if (D < 0.0)
+                D = 0.0;        /* (round-up error) */
+            u = (-B + gm->sign * sqrt(D)) / (2.0 * A);
         }
         d1 = a * u + c;
         d2 = e * u + g;
-- 
2.43.0


From e155d46c4c240c833cf560774d5db0468bc3f3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 43/55] fix: gridbmap: divide the grid in index space

The vertices of the boundary of a part of a grid were looked for among the
grid nodes by their coordinates, so that the map could not be built
("boundary vertex not in the grid"), or was wrong, for a simply connected grid
with coinciding nodes, such as one folded upon a cut. Use indices instead.
---
 gridutils/gridbmap.c | 121 +++++++++++++++----------------------------
 1 file changed, 43 insertions(+), 78 deletions(-)

diff --git a/gridutils/gridbmap.c b/gridutils/gridbmap.c
index c1f1f0b..3d39018 100644
--- a/gridutils/gridbmap.c
+++ b/gridutils/gridbmap.c
@@ -42,6 +42,8 @@
 typedef struct subgrid {
     gridbmap* gmap;              /* gridf map this subgrid belongs to */
     poly* bound;                /* boundary polygon */
+    poly* boundij;              /* boundary polygon in index space; NULL after
+                                 * the subgrid has been divided */
     int mini;                   /* minimal i index within the subgrid */
     int maxi;                   /* maximal i index within the subgrid */
     int minj;                   /* minimal j index within the subgrid */
@@ -64,25 +66,17 @@ struct gridbmap {
 
 /** Creates a subgrid.
  * @param gm Grid map
- * @param pl Boundary polygon for the subgrid
- * @param mini Minimal i index within the subgrid
- * @param maxi Maximal i index within the subgrid
- * @param minj Minimal j index within the subgrid
- * @param maxj Maximal j index within the subgrid
+ * @param plij Boundary polygon for the subgrid in index space
  * @return Subgrid
  */
-static subgrid* subgrid_create(gridbmap* gm, poly* pl, int i1, int i2, int j1, int j2)
+static subgrid* subgrid_create(gridbmap* gm, poly* plij)
 {
     subgrid* l = malloc(sizeof(subgrid));
+    int n = plij->n;
+    int ii;
 
-    double** gx = gm->gx;
-    double** gy = gm->gy;
-    int n = pl->n;
-    double x, y;
-    int i = i1;                 /* to eliminate warning */
-    int j, ii;
-
-    l->bound = pl;
+    l->bound = poly_create();
+    l->boundij = plij;
     l->gmap = gm;
     l->mini = INT_MAX;
     l->maxi = INT_MIN;
@@ -91,43 +85,14 @@ static subgrid* subgrid_create(gridbmap* gm, poly* pl, int i1, int i2, int j1, i
     l->half1 = NULL;
     l->half2 = NULL;
 
-    if (n == 0)
-        return l;
-
-    x = pl->x[0];
-    y = pl->y[0];
-
-    for (j = j1; j <= j2; ++j)
-        for (i = i1; i <= i2; ++i)
-            if (x == gx[j][i] && y == gy[j][i])
-                goto aftersearch;
-
-  aftersearch:
-
-    if (j > j2)
-        gu_quit("subgrid_create(): boundary vertex not in the grid");
-
-    l->mini = i;
-    l->maxi = i;
-    l->minj = j;
-    l->maxj = j;
-
-    for (ii = 1; ii < n; ++ii) {
-        x = pl->x[ii];
-        y = pl->y[ii];
-
-        if (i > i1 && x == gx[j][i - 1] && y == gy[j][i - 1])
-            i--;
-        else if (i < i2 && x == gx[j][i + 1] && y == gy[j][i + 1])
-            i++;
-        else if (j > j1 && x == gx[j - 1][i] && y == gy[j - 1][i])
-            j--;
-        else if (j < j2 && x == gx[j + 1][i] && y == gy[j + 1][i])
-            j++;
-        else if (x == gx[j][i] && y == gy[j][i])
-            continue;
-        else
-            gu_quit("subgrid_create(): boundary vertex not in the grid");
+    /*
+     * (different nodes may have the same coordinates, e.g. in a folded grid)
+     */
+    for (ii = 0; ii < n; ++ii) {
+        int i = (int) plij->x[ii];
+        int j = (int) plij->y[ii];
+
+        poly_addpoint(l->bound, gm->gx[j][i], gm->gy[j][i]);
 
         if (l->mini > i)
             l->mini = i;
@@ -152,17 +117,16 @@ static void subgrid_destroy(subgrid* l)
     if (l->half2 != NULL)
         subgrid_destroy(l->half2);
     poly_destroy(l->bound);
+    if (l->boundij != NULL)
+        poly_destroy(l->boundij);
     free(l);
 }
 
 /** Cuts boundary polygon in two. 
  * The cut goes either horizontally ([fixed][changes]) or vertically 
- * ([changes][fixed]) in index space; the physical nodes are given by
- * input double arrays; first two intersections of the cutting polyline
- * with the polygon are used to form the new polygons.
- * @param pl Original polygon
- * @param gx Array of x cell corner coordinates
- * @param gy Array of y cell corner coordinates
+ * ([changes][fixed]) in index space; first two intersections of the cutting
+ * polyline with the polygon are used to form the new polygons.
+ * @param pl Original polygon (in index space)
  * @param horiz flag: 1 for horizontal cut; 0 otherwise
  * @param index Value of "fixed" index
  * @param start Start value of "variable" index
@@ -170,7 +134,7 @@ static void subgrid_destroy(subgrid* l)
  * @param pl1 Output polygon 1
  * @param pl1 Output polygon 2
  */
-static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int index, int start, int end, poly** pl1, poly** pl2)
+static void cut_boundary(poly* pl, int horiz, int index, int start, int end, poly** pl1, poly** pl2)
 {
     int n = pl->n;
     int i = -1;
@@ -191,7 +155,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
          * find first intersection 
          */
         for (i = start; i < end; ++i) {
-            ii1 = poly_findindex(pl, gx[index][i], gy[index][i]);
+            ii1 = poly_findindex(pl, i, index);
             if (ii1 < 0)
                 /*
                  * this node does not belong to the boundary 
@@ -204,8 +168,8 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
              * not the next boundary node, and is reached through the inside
              * of the polygon.
              */
-            tmp = poly_findindex(pl, gx[index][i + 1], gy[index][i + 1]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[index][i + 1], gy[index][i + 1])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, (gx[index][i] + gx[index][i + 1]) / 2.0, (gy[index][i] + gy[index][i + 1]) / 2.0)))
+            tmp = poly_findindex(pl, i + 1, index);
+            if ((tmp < 0 && poly_containspoint(pl, i + 1, index)) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, i + 0.5, index)))
                 break;
         }
 
@@ -222,7 +186,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
          * intersection 
          */
         for (i = i1 + 1; i <= end; ++i) {
-            ii2 = poly_findindex(pl, gx[index][i], gy[index][i]);
+            ii2 = poly_findindex(pl, i, index);
             if (ii2 >= 0)
                 /*
                  * this node must be inside the boundary polygon -- skip 
@@ -256,7 +220,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
          * add the cutting section 
          */
         for (i = i2; i > i1; --i)
-            poly_addpoint(*pl1, gx[index][i], gy[index][i]);
+            poly_addpoint(*pl1, i, index);
 
         /*
          * add the portion of perimeter 
@@ -267,15 +231,15 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
          * add the cutting section 
          */
         for (i = i1; i < i2; ++i)
-            poly_addpoint(*pl2, gx[index][i], gy[index][i]);
+            poly_addpoint(*pl2, i, index);
 
     } else {                    /* vertical cut */
         for (i = start; i < end; ++i) {
-            ii1 = poly_findindex(pl, gx[i][index], gy[i][index]);
+            ii1 = poly_findindex(pl, index, i);
             if (ii1 < 0)
                 continue;
-            tmp = poly_findindex(pl, gx[i + 1][index], gy[i + 1][index]);
-            if ((tmp < 0 && poly_containspoint(pl, gx[i + 1][index], gy[i + 1][index])) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, (gx[i][index] + gx[i + 1][index]) / 2.0, (gy[i][index] + gy[i + 1][index]) / 2.0)))
+            tmp = poly_findindex(pl, index, i + 1);
+            if ((tmp < 0 && poly_containspoint(pl, index, i + 1)) || (tmp >= 0 && abs(tmp - ii1) > 1 && abs(tmp - ii1) < n - 1 && poly_containspoint(pl, index, i + 0.5)))
                 break;
         }
 
@@ -285,7 +249,7 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
             return;
 
         for (i = i1 + 1; i <= end; ++i) {
-            ii2 = poly_findindex(pl, gx[i][index], gy[i][index]);
+            ii2 = poly_findindex(pl, index, i);
             if (ii2 >= 0)
                 break;
         }
@@ -301,12 +265,12 @@ static void cut_boundary(poly* pl, double** gx, double** gy, int horiz, int inde
         for (i = ii1; i != ii2; i = (i + 1) % n)
             poly_addpoint(*pl1, pl->x[i], pl->y[i]);
         for (i = i2; i > i1; --i)
-            poly_addpoint(*pl1, gx[i][index], gy[i][index]);
+            poly_addpoint(*pl1, index, i);
 
         for (i = ii2; i != ii1; i = (i + 1) % n)
             poly_addpoint(*pl2, pl->x[i], pl->y[i]);
         for (i = i1; i < i2; ++i)
-            poly_addpoint(*pl2, gx[i][index], gy[i][index]);
+            poly_addpoint(*pl2, index, i);
         /*
          * There used to be closure of the polylines here:
          *        poly_close(*pl1);
@@ -343,20 +307,23 @@ static void subgrid_divide(subgrid* sg, subgrid** sg1, subgrid** sg2)
          * divide "vertically" 
          */
         index = (sg->mini + sg->maxi) / 2;
-        cut_boundary(sg->bound, gm->gx, gm->gy, 0, index, sg->minj, sg->maxj, &pl1, &pl2);
+        cut_boundary(sg->boundij, 0, index, sg->minj, sg->maxj, &pl1, &pl2);
     } else {
         /*
          * divide "horizontally" 
          */
         index = (sg->minj + sg->maxj) / 2;
-        cut_boundary(sg->bound, gm->gx, gm->gy, 1, index, sg->mini, sg->maxi, &pl1, &pl2);
+        cut_boundary(sg->boundij, 1, index, sg->mini, sg->maxi, &pl1, &pl2);
     }
 
     if (pl1 == NULL || pl2 == NULL)
         gu_quit("dividesubgrid(): could not cut the boundary");
 
-    *sg1 = subgrid_create(gm, pl1, sg->mini, sg->maxi, sg->minj, sg->maxj);
-    *sg2 = subgrid_create(gm, pl2, sg->mini, sg->maxi, sg->minj, sg->maxj);
+    *sg1 = subgrid_create(gm, pl1);
+    *sg2 = subgrid_create(gm, pl2);
+
+    poly_destroy(sg->boundij);
+    sg->boundij = NULL;
 }
 
 /**
@@ -400,7 +367,6 @@ static void gridbmap_subdivide(gridbmap* gm, subgrid* sg)
 gridbmap* gridbmap_build(int nce1, int nce2, double** gx, double** gy)
 {
     gridbmap* gm = malloc(sizeof(gridbmap));
-    poly* bound;
     subgrid* trunk;
 
     gm->nce1 = nce1;
@@ -408,10 +374,9 @@ gridbmap* gridbmap_build(int nce1, int nce2, double** gx, double** gy)
     gm->gx = gx;
     gm->gy = gy;
 
-    bound = poly_formbound(nce1, nce2, gx, gy);
-    trunk = subgrid_create(gm, bound, 0, nce1, 0, nce2);
+    trunk = subgrid_create(gm, poly_formboundij(nce1, nce2, gx));
 
-    gm->bound = bound;
+    gm->bound = trunk->bound;
     gm->trunk = trunk;
     gm->nleaves = 1;
 
-- 
2.43.0


From 9d6b77f88f4f604d97e911e51691e088b7d664f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:17 +0000
Subject: [PATCH 44/55] fix: kd-tree: uninitialised result for nodes or queries
 with NaN in any coordinate

---
 gridutils/kdtree.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 1ceb2b3..92f7bac 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -126,13 +126,26 @@ static int _kd_insertnode(kdtree* tree, size_t* id, const double* coords, size_t
     return _kd_insertnode(tree, (diff < 0.0 || (diff == 0.0 && id_orig < node->id_orig)) ? &node->left : &node->right, coords, id_orig, new_dir);
 }
 
+/**
+ */
+static int isvalidnode(int ndim, const double* coords)
+{
+    int i;
+
+    for (i = 0; i < ndim; ++i)
+        if (!isfinite(coords[i]))
+            return 0;
+
+    return 1;
+}
+
 /**
  */
 void kd_insertnode(kdtree* tree, const double* coords, size_t id_orig)
 {
     int i;
 
-    if (!isfinite(coords[0]))
+    if (!isvalidnode(tree->ndim, coords))
         return;
 
     if (tree->nallocated == tree->nnodes) {
@@ -207,7 +220,7 @@ void kd_insertnodes(kdtree* tree, size_t n, double** src, int randomise)
 
         for (j = 0; j < tree->ndim; ++j)
             coords[j] = src[j][id];
-        if (!isfinite(coords[0]))
+        if (!isvalidnode(tree->ndim, coords))
             continue;
         (void) _kd_insertnode(tree, &tree->nodes[0].id, coords, id + nnodes0, 0);
         tree->nnodes++;
@@ -420,7 +433,7 @@ size_t kd_findnearestnode(const kdtree* tree, const double* coords)
 {
     int ndim = tree->ndim;
     double* minmax = NULL;
-    size_t result;
+    size_t result = 0;
     double dist;
     int i;
 
-- 
2.43.0


From 087944809763eff7bfe64c7c75eae630f5301aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 45/55] fix: kd: the number of dimensions was not initialised

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 92f7bac..8a14a41 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -596,7 +596,7 @@ static int str2double(char* token, double* value)
  */
 static kdtree* kd_readfile(char* fname, int ndimin, int dorandomise)
 {
-    int ndim = (isll) ? 3 : ndim;
+    int ndim = (isll) ? 3 : ndimin;
     FILE* f = NULL;
     kdtree* tree = NULL;
     char buf[BUFSIZE];
-- 
2.43.0


From 7363b169174f250f4ff12b2a6e5722a05b703c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 46/55] fix: kd: the distance to the nearest node was not
 initialised

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 8a14a41..c3a6b88 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -848,7 +848,7 @@ int main(int argc, char* argv[])
                 rescoordsout[0] = lon / INVRAD;
                 rescoordsout[1] = lat / INVRAD;
             } else {
-                for (i = 0; i < ndim; ++i)
+                for (i = 0, dist = 0.0; i < ndim; ++i)
                     dist += (rescoords[i] - coords[i]) * (rescoords[i] - coords[i]);
                 for (i = 0; i < ndim; ++i)
                     rescoordsout[i] = rescoords[i];
-- 
2.43.0


From b93fb04b4d014184ecd40bae72da2f4c42c01266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 47/55] fix: kd: the range was not passed to printf()

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index c3a6b88..7aa700a 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -865,7 +865,7 @@ int main(int argc, char* argv[])
         /*
          * find nodes within range
          */
-        printf("  nodes within r < %.3g%s", (isll) ? "km" : "");
+        printf("  nodes within r < %.3g%s", range, (isll) ? "km" : "");
         fflush(stdout);
         set = kd_findnodeswithinrange(tree, coords, range, dosort);
         printf("    %zu points found:\n", kdset_getsize(set));
-- 
2.43.0


From 43a35fb12b68c11cc60c572cd6ffef246ac26d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 48/55] fix: kd: wrong longitude of nodes beyond 90 degrees
 from the zero meridian

---
 gridutils/kdtree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 7aa700a..5bfc8b3 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -842,7 +842,7 @@ int main(int argc, char* argv[])
 
             if (isll) {
                 double lat = asin(rescoords[2] / REARTH);
-                double lon = asin(rescoords[0] / REARTH / cos(lat));
+                double lon = atan2(rescoords[0], rescoords[1]);
 
                 dist = sqrt((rescoords[0] - coords[0]) * (rescoords[0] - coords[0]) + (rescoords[1] - coords[1]) * (rescoords[1] - coords[1]) + (rescoords[2] - coords[2]) * (rescoords[2] - coords[2]));
                 rescoordsout[0] = lon / INVRAD;
@@ -878,7 +878,7 @@ int main(int argc, char* argv[])
 
             if (isll) {
                 double lat = asin(rescoords[2] / REARTH);
-                double lon = asin(rescoords[0] / REARTH / cos(lat));
+                double lon = atan2(rescoords[0], rescoords[1]);
 
                 rescoords[0] = lon / INVRAD;
                 rescoords[1] = lat / INVRAD;
-- 
2.43.0


From 061c68831ba27510d40ca7771e082b90db3b870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 49/55] fix: kd: negative, missing and superfluous coordinates
 of the point

---
 gridutils/kdtree.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 5bfc8b3..8950646 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -711,7 +711,8 @@ static void usage(void)
  */
 static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, double* coords, double* range, int* dosort, int* dorandomise)
 {
-    int i, ii;
+    int ncoords = 0;
+    int i;
 
     if (argc < 2)
         usage();
@@ -747,9 +748,12 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, d
             i++;
             if (i >= argc)
                 quit("no <coords> values found after -p");
-            for (ii = 0; i < argc && argv[i][0] != '-'; ++ii, ++i)
-                if (!str2double(argv[i], &coords[ii]))
+            for (ncoords = 0; i < argc && (argv[i][0] != '-' || strchr("0123456789.", argv[i][1]) != NULL); ++ncoords, ++i) {
+                if (ncoords == NDIMMAX)
+                    quit("more than %d coordinates after -p", NDIMMAX);
+                if (!str2double(argv[i], &coords[ncoords]))
                     usage();
+            }
             break;
         case 'o':
             i++;
@@ -777,6 +781,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, d
 
     if (*ndim <= 0)
         quit("\"ndim\" must be defined");
+    if (ncoords != *ndim)
+        quit("%d coordinates found after -p; expected %d", ncoords, *ndim);
 }
 
 /**
-- 
2.43.0


From 6454edd850c5b79b1d5a551b1af6ff0a151f4c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:21 +0000
Subject: [PATCH 50/55] fix: kd: uninitialised coordinates used with -g and a
 number of dimensions other than 2

---
 gridutils/kdtree.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 8950646..3c18c71 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -781,6 +781,8 @@ static void parse_commandline(int argc, char* argv[], char** fname, int* ndim, d
 
     if (*ndim <= 0)
         quit("\"ndim\" must be defined");
+    if (isll && *ndim != 2)
+        quit("\"ndim\" = %d; expected 2 with -g", *ndim);
     if (ncoords != *ndim)
         quit("%d coordinates found after -p; expected %d", ncoords, *ndim);
 }
-- 
2.43.0


From 2e7457de3b41e4ad085575397727056255bc3bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 51/55] fix: kd: rows longer than 1 kB were taken for several
 rows

---
 gridutils/kdtree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 3c18c71..948d4ea 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -545,7 +545,7 @@ double* kd_getminmax(const kdtree* tree)
 #include <stdarg.h>
 #include <errno.h>
 
-#define BUFSIZE 1024
+#define BUFSIZE 10240
 #define NDIMMAX 256
 #define NALLOCSTART 1024
 #define NDATAMAX 256
-- 
2.43.0


From 76359e9af4025e498f8a71aeaa76581dbf814dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:48 +0000
Subject: [PATCH 52/55] fix: lines longer than the buffer were taken for
 several lines

A line of the grid, polygon or point file that does not fit the buffer of
fgets() was read as two or more lines: the rest of it was taken for the next
node, vertex or point.
---
 gridutils/gridnodes.c |  2 ++
 gridutils/gucommon.c  | 24 ++++++++++++++++++++++++
 gridutils/gucommon.h  |  1 +
 gridutils/poly.c      |  5 ++++-
 gridutils/setbathy.c  | 12 +++++++++---
 gridutils/xy2ij.c     | 12 ++++++++----
 6 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 9ac1c36..9e7cedb 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -97,6 +97,7 @@ gridnodes* gridnodes_read(char* fname, NODETYPE type)
      */
     if (fgets(buf, BUFSIZE, f) == NULL)
         gu_quit("%s: empty file", fname);
+    gu_finishline(buf, BUFSIZE, f, NULL);
 
     if (sscanf(buf, "## %d x %d", &gn->nx, &gn->ny) != 2)
         gu_quit("%s: could not read grid size: expected header in \"## %%d x %%d\" format", fname);
@@ -131,6 +132,7 @@ gridnodes* gridnodes_read(char* fname, NODETYPE type)
         for (i = 0; i < gn->nx; ++i, ++xx, ++yy) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th point (%d x %d points expected)", fname, j * gn->nx + i + 1, gn->nx, gn->ny);
+            gu_finishline(buf, BUFSIZE, f, NULL);
             if (sscanf(buf, "%lf %lf", xx, yy) != 2 || isnan(*xx) || isnan(*yy)) {
                 *xx = NaN;
                 *yy = NaN;
diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 8998141..eb67623 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -111,6 +111,30 @@ void gu_free2d(void* p)
     free(p);
 }
 
+/** Reads the rest of a line that does not fit the buffer of fgets().
+ * @param buf Buffer filled by fgets()
+ * @param size Size of the buffer
+ * @param in Input stream
+ * @param out Stream to copy the rest of the line to; can be NULL
+ * @return 1 if the end of line has been read, 0 otherwise
+ */
+int gu_finishline(char* buf, int size, FILE* in, FILE* out)
+{
+    int c;
+
+    if (strlen(buf) + 1 < size || buf[size - 2] == '\n')
+        return 0;
+
+    while ((c = fgetc(in)) != EOF) {
+        if (out != NULL)
+            fputc(c, out);
+        if (c == '\n')
+            return 1;
+    }
+
+    return 0;
+}
+
 /**
  */
 int** gu_readmask(char* fname, int nx, int ny)
diff --git a/gridutils/gucommon.h b/gridutils/gucommon.h
index 1325ad3..bd5fb5e 100644
--- a/gridutils/gucommon.h
+++ b/gridutils/gucommon.h
@@ -23,6 +23,7 @@ extern char* gu_version;
 FILE* gu_fopen(const char* path, const char* mode);
 void* gu_alloc2d(size_t nj, size_t ni, size_t unitsize);
 void gu_free2d(void* dummy);
+int gu_finishline(char* buf, int size, FILE* in, FILE* out);
 int** gu_readmask(char* fname, int nx, int ny);
 
 #endif
diff --git a/gridutils/poly.c b/gridutils/poly.c
index 0448394..8f7ab9a 100644
--- a/gridutils/poly.c
+++ b/gridutils/poly.c
@@ -19,7 +19,7 @@
 #include <stdlib.h>
 #include <float.h>
 #include <string.h>
-#include "guquit.h"
+#include "gucommon.h"
 #include "poly.h"
 
 #define POLY_NSTART 4
@@ -544,6 +544,8 @@ static int nextline(char* line, int n, FILE* fp)
 
     do {
         s = fgets(line, n, fp);
+        if (s != NULL)
+            gu_finishline(line, n, fp, NULL);
     } while (s && (iscommentline(line) || isblankline(line)));
 
     if (s == NULL)
@@ -572,6 +574,7 @@ int poly_read(poly* pl, FILE* fp)
         poly_addpoint(pl, x, y);
         if (fgets(buf, POLY_MAXLINELEN, fp) == NULL)
             break;
+        gu_finishline(buf, POLY_MAXLINELEN, fp, NULL);
     }
 
     return (pl->n);
diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 821ba13..9b6d953 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -151,8 +151,10 @@ int main(int argc, char* argv[])
     for (i = 0; i < offset; ++i)
         if (fgets(buf, BUFSIZE, f) == NULL)
             gu_quit("%s: could not read %d-th line", fname, i);
-        else
+        else {
             fprintf(stdout, "%s", buf);
+            gu_finishline(buf, BUFSIZE, f, stdout);
+        }
 
     if (nx < 0) {
         if (gu_verbose)
@@ -166,6 +168,7 @@ int main(int argc, char* argv[])
         if (sscanf(buf, "## %d x %d", &nx, &ny) != 2)
             gu_quit("%s: could not read grid size: expected header in \"## %%d x %%d\" format\n or \"-d\" option", fname);
         fprintf(stdout, "%s", buf);
+        gu_finishline(buf, BUFSIZE, f, stdout);
     }
 
     if (gu_verbose)
@@ -182,10 +185,13 @@ int main(int argc, char* argv[])
         for (i = 0; i < nx; ++i) {
             if (fgets(buf, BUFSIZE, f) == NULL)
                 gu_quit("%s: could not read %d-th point (%d x %d points expected)", fname, j * nx + i + 1, nx, ny);
-            if (i >= imin && i <= imax && j >= jmin && j <= jmax)
+            if (i >= imin && i <= imax && j >= jmin && j <= jmax) {
                 fprintf(stdout, "%s\n", z);
-            else
+                gu_finishline(buf, BUFSIZE, f, NULL);
+            } else {
                 fprintf(stdout, "%s", buf);
+                gu_finishline(buf, BUFSIZE, f, stdout);
+            }
         }
     }
 
diff --git a/gridutils/xy2ij.c b/gridutils/xy2ij.c
index 778d20f..c79dd3a 100644
--- a/gridutils/xy2ij.c
+++ b/gridutils/xy2ij.c
@@ -226,20 +226,24 @@ int main(int argc, char* argv[])
             if (fn(map, xc, yc, &ic, &jc)) {
                 if (!isnan(ic)) {
                     count_success++;
-                    printf("%.15g %.15g %s\n", ic, jc, rem);
+                    printf("%.15g %.15g %s", ic, jc, rem);
                 } else
-                    printf("NaN NaN %s\n", rem);
+                    printf("NaN NaN %s", rem);
             } else {
                 if (!force)
                     gu_quit("could not convert (%.15g, %.15g) from %s to %s space", xc, yc, (reverse) ? "index" : "physical", (reverse) ? "physical" : "index");
                 else
-                    printf("NaN NaN %s\n", rem);
+                    printf("NaN NaN %s", rem);
             }
+            if (!gu_finishline(buf, BUFSIZE, of, stdout))
+                printf("\n");
             count++;
             if (gu_verbose && count % 1000 == 0)
                 fprintf(stderr, ".");
-        } else
+        } else {
             printf("%s", buf);
+            gu_finishline(buf, BUFSIZE, of, stdout);
+        }
     }
     if (gu_verbose) {
         fprintf(stderr, "\n");
-- 
2.43.0


From 688c57a602dfdd8844a58aec025301fdea978ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 53/55] fix: matrices of negative or overflowing sizes were
 allocated too small

gu_alloc2d() takes the sizes as size_t, so that a negative one (e.g. from
gridnodes_create()) passed the check for being positive, and the number of
bytes could overflow: the memory beyond the allocated was then written to.
---
 gridutils/gucommon.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index eb67623..1f7992f 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -18,6 +18,7 @@
 #include <string.h>
 #include <stdarg.h>
 #include <limits.h>
+#include <stdint.h>
 #include <assert.h>
 #include <errno.h>
 #include "version.h"
@@ -82,10 +83,13 @@ void* gu_alloc2d(size_t nj, size_t ni, size_t unitsize)
     size_t size;
     void* p;
     void** pp;
-    int i;
+    size_t i;
 
-    if (ni <= 0 || nj <= 0)
-        gu_quit("gu_alloc2d(): invalid size (nj = %d, ni = %d)", nj, ni);
+    /*
+     * (a negative size becomes a very big one)
+     */
+    if (ni <= 0 || nj <= 0 || (double) nj * ((double) ni * (double) unitsize + (double) sizeof(void*)) > (double) (SIZE_MAX / 2))
+        gu_quit("gu_alloc2d(): invalid size (nj = %zd, ni = %zd)", nj, ni);
 
     size = nj * sizeof(void*) + nj * ni * unitsize;
     if ((p = malloc(size)) == NULL) {
-- 
2.43.0


From 05999bb0db747e21729b2a38d51ad3e1a3187817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 54/55] fix: output that could not be written was not reported

---
 gridutils/getbound.c  |  1 +
 gridutils/gridbathy.c |  2 ++
 gridutils/gridnodes.c |  5 +----
 gridutils/gucommon.c  | 15 +++++++++++++++
 gridutils/gucommon.h  |  1 +
 gridutils/kdtree.c    |  3 +++
 gridutils/setbathy.c  |  1 +
 gridutils/xy2ij.c     |  1 +
 8 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/gridutils/getbound.c b/gridutils/getbound.c
index 1974b27..ec2e023 100644
--- a/gridutils/getbound.c
+++ b/gridutils/getbound.c
@@ -183,6 +183,7 @@ int main(int argc, char* argv[])
         poly_compact(pl, 1.0e-10);
 
     poly_write(pl, stdout);
+    gu_fclose(stdout, "stdout");
 
     poly_destroy(pl);
     gridnodes_destroy(gn);
diff --git a/gridutils/gridbathy.c b/gridutils/gridbathy.c
index 750c308..baca349 100644
--- a/gridutils/gridbathy.c
+++ b/gridutils/gridbathy.c
@@ -523,6 +523,8 @@ int main(int argc, char* argv[])
         }
     }
 
+    gu_fclose(stdout, "stdout");
+
     /*
      * clean up, just because 
      */
diff --git a/gridutils/gridnodes.c b/gridutils/gridnodes.c
index 9e7cedb..2eb6d66 100644
--- a/gridutils/gridnodes.c
+++ b/gridutils/gridnodes.c
@@ -919,10 +919,7 @@ void gridnodes_write(gridnodes* gn, char* fname, COORDTYPE ctype)
     if (gu_verbose)
         fprintf(stderr, "##   %d non-empty grid nodes (%.1f%%)\n", count, 100.0 * count / gn->nx / gn->ny);
 
-    if (f != stdout)
-        fclose(f);
-    else
-        fflush(stdout);
+    gu_fclose(f, fname);
 }
 
 /**
diff --git a/gridutils/gucommon.c b/gridutils/gucommon.c
index 1f7992f..72ca279 100644
--- a/gridutils/gucommon.c
+++ b/gridutils/gucommon.c
@@ -70,6 +70,21 @@ FILE* gu_fopen(const char* path, const char* mode)
     return f;
 }
 
+/** Closes a file (flushes if it is the standard output) and makes sure that
+ * there has been no error in writing it.
+ * @param f File handle
+ * @param fname File name
+ */
+void gu_fclose(FILE* f, const char* fname)
+{
+    int failed = ferror(f);
+
+    if (((f == stdout) ? fflush(f) : fclose(f)) != 0)
+        failed = 1;
+    if (failed)
+        gu_quit("%s: could not write", fname);
+}
+
 /** Allocates ni x nj matrix of something and fills it with zeros. An element
  * (i,j) will be accessed as [j][i]. For deallocation use free().
  *
diff --git a/gridutils/gucommon.h b/gridutils/gucommon.h
index bd5fb5e..d88959c 100644
--- a/gridutils/gucommon.h
+++ b/gridutils/gucommon.h
@@ -21,6 +21,7 @@ extern int gu_verbose;          /* set verbosity from your application */
 extern char* gu_version;
 
 FILE* gu_fopen(const char* path, const char* mode);
+void gu_fclose(FILE* f, const char* fname);
 void* gu_alloc2d(size_t nj, size_t ni, size_t unitsize);
 void gu_free2d(void* dummy);
 int gu_finishline(char* buf, int size, FILE* in, FILE* out);
diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 948d4ea..41ea4a1 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -902,6 +902,9 @@ int main(int argc, char* argv[])
     kdset_free(set);
     kd_destroy(tree);
 
+    if (fflush(stdout) != 0 || ferror(stdout))
+        quit("could not write the results");
+
     return 0;
 }
 #endif                          /* STANDALONE */
diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 9b6d953..5972b81 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -197,6 +197,7 @@ int main(int argc, char* argv[])
 
     while (fgets(buf, BUFSIZE, f) != NULL)
         fprintf(stdout, "%s", buf);
+    gu_fclose(stdout, "stdout");
 
     if (f == stdin)
         free(fname);
diff --git a/gridutils/xy2ij.c b/gridutils/xy2ij.c
index c79dd3a..14be553 100644
--- a/gridutils/xy2ij.c
+++ b/gridutils/xy2ij.c
@@ -245,6 +245,7 @@ int main(int argc, char* argv[])
             gu_finishline(buf, BUFSIZE, of, stdout);
         }
     }
+    gu_fclose(stdout, "stdout");
     if (gu_verbose) {
         fprintf(stderr, "\n");
         fprintf(stderr, "## total mappings: %d\n", count);
-- 
2.43.0


From bb879aea18b21e2d700bbb5d017e19e7d659c5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 55/55] fix: an error in reading points or values was taken for
 the end of the file

---
 gridutils/kdtree.c   | 2 ++
 gridutils/setbathy.c | 2 ++
 gridutils/xy2ij.c    | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/gridutils/kdtree.c b/gridutils/kdtree.c
index 41ea4a1..33e8ef5 100644
--- a/gridutils/kdtree.c
+++ b/gridutils/kdtree.c
@@ -661,6 +661,8 @@ static kdtree* kd_readfile(char* fname, int ndimin, int dorandomise)
             coords[i][npoints] = point[i];
         npoints++;
     }
+    if (ferror(f))
+        quit("%s: %s", (fname == NULL) ? "stdin" : fname, strerror(errno));
     if (f != stdin)
         if (fclose(f) != 0)
             quit("%s: %s", fname, strerror(errno));
diff --git a/gridutils/setbathy.c b/gridutils/setbathy.c
index 5972b81..cab9837 100644
--- a/gridutils/setbathy.c
+++ b/gridutils/setbathy.c
@@ -197,6 +197,8 @@ int main(int argc, char* argv[])
 
     while (fgets(buf, BUFSIZE, f) != NULL)
         fprintf(stdout, "%s", buf);
+    if (ferror(f))
+        gu_quit("%s: could not read", fname);
     gu_fclose(stdout, "stdout");
 
     if (f == stdin)
diff --git a/gridutils/xy2ij.c b/gridutils/xy2ij.c
index 14be553..9766a8d 100644
--- a/gridutils/xy2ij.c
+++ b/gridutils/xy2ij.c
@@ -245,6 +245,8 @@ int main(int argc, char* argv[])
             gu_finishline(buf, BUFSIZE, of, stdout);
         }
     }
+    if (ferror(of))
+        gu_quit("%s: could not read", ofname);
     gu_fclose(stdout, "stdout");
     if (gu_verbose) {
         fprintf(stderr, "\n");
-- 
2.43.0

