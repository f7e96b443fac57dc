From 91d464f5d8da92c88e47bb0f261a1da1f0f82e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:07 +0000
Subject: [PATCH 001/134] fix: clearing a well's controls also resets its
 current control

A dangling control index made clone_wells() abort on a well whose
controls had been cleared.
---
 opm/core/wells/wells.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index c1327f7..24759f7 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -590,7 +590,8 @@ clear_well_controls(int well_index, struct Wells *W)
     assert ((0 <= well_index) && (well_index < W->number_of_wells));
 
     if (W->ctrls[well_index] != NULL) {
-        W->ctrls[well_index]->num = 0;
+        W->ctrls[well_index]->num     =  0;
+        W->ctrls[well_index]->current = -1;
     }
 }
 
-- 
2.43.0


From f09a19371afa6758f5312b26e99073888e017ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 002/134] fix: judge handedness of corner-point input on
 sign-corrected depths

Input with decreasing ZCORN was classified as left-handed in addition to
being sign-flipped, which cancelled the reversal of face nodes and gave
negative cell volumes.
---
 opm/core/grid/cpgpreprocess/preprocess.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 3b465c2..3cb0bf7 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -670,7 +670,7 @@ vert_size(const struct grdecl *in,
 
 /* ---------------------------------------------------------------------- */
 static int
-is_lefthanded(const struct grdecl *in)
+is_lefthanded(const struct grdecl *in, int sign)
 /* ---------------------------------------------------------------------- */
 {
     int           active, searching;
@@ -722,7 +722,7 @@ is_lefthanded(const struct grdecl *in)
 
     /* Compute vector triple product to distinguish left-handed (<0)
      * from right-handed (>0) coordinate systems. */
-    triple = dz * (dx[0]*dy[1] - dx[1]*dy[0]);
+    triple = sign * dz * (dx[0]*dy[1] - dx[1]*dy[0]);
 
     assert (fabs(triple) > 0.0);
 
@@ -849,7 +849,7 @@ void process_grdecl(const struct grdecl   *in,
     free (actnum);
 
     /* Determine if coordinate system is left handed or not. */
-    left_handed = is_lefthanded(in);
+    left_handed = is_lefthanded(in, sign);
     if (left_handed) {
         /* Reflect Y coordinates about XZ plane to create right-handed
          * coordinate system whilst processing intersections. */
-- 
2.43.0


From 7a4cbf0b2df0f1d09d2f5ab44e21aa38b59fe457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 003/134] fix: flip pillar depths along with ZCORN when its
 sign is reversed

Sloping pillars were evaluated at depths of opposite sign, displacing all
nodes of grids given with decreasing ZCORN.
---
 opm/core/grid/cpgpreprocess/preprocess.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 3cb0bf7..7e67652 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -557,6 +557,22 @@ copy_and_permute_zcorn(int nx, int ny, int nz, const double *in,
     return out;
 }
 
+/* ------------------------------------------------------------------ */
+static double*
+copy_and_sign_coord(int nx, int ny, const double *in, double sign)
+/* ------------------------------------------------------------------ */
+{
+    size_t  i;
+    size_t  n   = ((size_t) 6) * (nx + 1) * (ny + 1);
+    double *out = malloc(n * sizeof *out);
+
+    for (i = 0; i < n; ++i) {
+        out[i] = (i % 3 == 2) ? sign * in[i] : in[i];
+    }
+
+    return out;
+}
+
 /* ------------------------------------------------------------------ */
 static int
 get_zcorn_sign(int nx, int ny, int nz, const int *actnum,
@@ -771,7 +787,7 @@ void process_grdecl(const struct grdecl   *in,
     int    *actnum, *iptr;
     int    *global_cell_index;
 
-    double *zcorn;
+    double *zcorn, *coord;
 
     const size_t BIGNUM = 64;
     const int    nx = in->dims[0];
@@ -836,7 +852,9 @@ void process_grdecl(const struct grdecl   *in,
     sign      = get_zcorn_sign(nx, ny, nz, in->actnum, in->zcorn, &error);
     g.zcorn   = copy_and_permute_zcorn(nx, ny, nz, in->zcorn, sign, zcorn);
 
-    g.coord   = in->coord;
+    /* Pillar end-points must use the same depth convention as g.zcorn. */
+    coord     = copy_and_sign_coord(nx, ny, in->coord, sign);
+    g.coord   = coord;
 
 
     /* allocate space for cornerpoint numbers plus INT_MIN (INT_MAX)
@@ -845,6 +863,7 @@ void process_grdecl(const struct grdecl   *in,
 
     finduniquepoints(&g, plist, tolerance, out);
 
+    free (coord);
     free (zcorn);
     free (actnum);
 
-- 
2.43.0


From 2ab61fe6386474042a1c3e136fc0a05ee6cbf8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 004/134] fix: ignore table file lines with too few numeric
 columns

---
 opm/core/utility/MonotCubicInterpolator.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index f2e0200..605da7d 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -142,9 +142,8 @@ read(const std::string & datafilename, int xColumn, int fColumn)
     int columnindex = 0;
     std::vector<double> value; 
     if (linestring.size() > 0 && linestring.at(0) != '#') {
-        while (!(strs.rdstate() & std::ios::failbit)) {
-            double tmp;
-            strs >> tmp;
+        double tmp;
+        while (strs >> tmp) {
             value.push_back(tmp);
             columnindex++;
         }
-- 
2.43.0


From 367ac8d97e4e7bbcec833e4c8df42610dbfcf5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 005/134] fix: chopFlatEndpoints used erased map iterators

---
 opm/core/utility/MonotCubicInterpolator.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 605da7d..778c85a 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -527,9 +527,8 @@ chopFlatEndpoints(const double epsilon) {
     // Erase data points that are similar to its right value from the left end.
     while ((xf_next_iterator != data.end()) && 
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
-        xf_next_iterator++;
         data.erase(xf_iterator);
-	xf_iterator++;
+        xf_iterator = xf_next_iterator++;
     }
 
     xf_iterator = data.end(); 
@@ -539,9 +538,8 @@ chopFlatEndpoints(const double epsilon) {
     // Erase data points that are similar to its left value from the right end.
     while ((xf_next_iterator != data.begin()) &&
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
-        xf_next_iterator--;
         data.erase(xf_iterator);
-	xf_iterator--;
+        xf_iterator = xf_next_iterator--;
     }
     
     // Finished chopping, so recompute function data:
-- 
2.43.0


From 0108cb9b488880fbb658b93f3892f5433a0ccc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:22 +0000
Subject: [PATCH 006/134] fix: recompute derivatives after removing flat areas

---
 opm/core/utility/MonotCubicInterpolator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 778c85a..248fcf8 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -609,7 +609,9 @@ shrinkFlatAreas(const double epsilon) {
             xf_next_iterator++;
         }
     }
-    
+
+    // Finished shrinking, so recompute function data:
+    computeInternalFunctionData();
 }
 
 
-- 
2.43.0


From 7eaf4ff2eaa674981409f0cbddf53962ea3fdf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 007/134] fix: chopFlatEndpoints stepped before the first point
 of a constant table

---
 opm/core/utility/MonotCubicInterpolator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 248fcf8..506cb75 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -531,6 +531,12 @@ chopFlatEndpoints(const double epsilon) {
         xf_iterator = xf_next_iterator++;
     }
 
+    if (getSize() < 2) {
+        // Constant function, nothing left to chop.
+        computeInternalFunctionData();
+        return;
+    }
+
     xf_iterator = data.end(); 
     xf_iterator--;   // (data.end() points beyond the last element)
     xf_next_iterator = xf_iterator;
-- 
2.43.0


From 45eef0139bc820f5268ac45133825d6e01cfd394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 008/134] fix: recompute monotonicity information after scaling
 table data

---
 opm/core/utility/MonotCubicInterpolator.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 506cb75..9b0d82c 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -732,6 +732,13 @@ scaleData(double factor) {
       it->second  *= factor ;
     } 
   } 
+  // A negative factor reverses the direction of the function.
+  if (factor < 0.0) {
+    swap(increasing, decreasing);
+    swap(strictlyIncreasing, strictlyDecreasing);
+  } else if (factor == 0.0) {
+    computeInternalFunctionData();
+  }
 }
 
 
-- 
2.43.0


From ce5fa7911410514716db23a6ef46c33a89a5fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 009/134] fix: inverse lookup used the old domain after
 rescaleDomain

---
 opm/core/utility/NonuniformTableLinear.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/NonuniformTableLinear.hpp b/opm/core/utility/NonuniformTableLinear.hpp
index aac2db2..be2cf21 100644
--- a/opm/core/utility/NonuniformTableLinear.hpp
+++ b/opm/core/utility/NonuniformTableLinear.hpp
@@ -151,6 +151,9 @@ namespace Opm
         for (int i = 0; i < int(x_values_.size()); ++i) {
             x_values_[i] = (x_values_[i] - a)*(d - c)/(b - a) + c;
         }
+        // Invalidate the cached data used by inverse().
+        x_values_reversed_.clear();
+        y_values_reversed_.clear();
     }
 
     template<typename T>
-- 
2.43.0


From c1267bf476dceadab9d7dacf3c984bab4fe26702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:57 +0000
Subject: [PATCH 010/134] fix: always report the number of root finder
 iterations made

---
 opm/core/utility/RootFinders.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opm/core/utility/RootFinders.hpp b/opm/core/utility/RootFinders.hpp
index 47b6057..49f007d 100644
--- a/opm/core/utility/RootFinders.hpp
+++ b/opm/core/utility/RootFinders.hpp
@@ -117,6 +117,7 @@ namespace Opm
                                    int& iterations_used)
         {
             using namespace std;
+            iterations_used = 0;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
 
@@ -134,17 +135,16 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
+                if (iterations_used >= max_iter) {
+                    return ErrorPolicy::handleTooManyIterations(x0, x1, max_iter);
+                }
                 double xnew = regulaFalsiStep(x0, x1, f0, f1);
                 double fnew = f(xnew);
 // 		cout << "xnew = " << xnew << "    fnew = " << fnew << endl;
                 ++iterations_used;
-                if (iterations_used > max_iter) {
-                    return ErrorPolicy::handleTooManyIterations(x0, x1, max_iter);
-                }
                 if (fabs(fnew) < epsF) {
                     return xnew;
                 }
@@ -197,6 +197,7 @@ namespace Opm
                                    int& iterations_used)
         {
             using namespace std;
+            iterations_used = 0;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
 
@@ -231,17 +232,16 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
+                if (iterations_used >= max_iter) {
+                    return ErrorPolicy::handleTooManyIterations(x0, x1, max_iter);
+                }
                 double xnew = regulaFalsiStep(x0, x1, f0, f1);
                 double fnew = f(xnew);
 // 		cout << "xnew = " << xnew << "    fnew = " << fnew << endl;
                 ++iterations_used;
-                if (iterations_used > max_iter) {
-                    return ErrorPolicy::handleTooManyIterations(x0, x1, max_iter);
-                }
                 if (fabs(fnew) < epsF) {
                     return xnew;
                 }
-- 
2.43.0


From a05fc86d734e9072ceb1ae96af7db514a54b6aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 011/134] fix: record the capacity of compressible boundary
 conditions when it grows

---
 opm/core/pressure/tpfa/compr_bc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 32c5bc1..d50f112 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -63,6 +63,8 @@ expand_source_tables(int alloc, struct compr_bc *bc)
         bc->type       = t;  bc->face = f;
         bc->press      = p;  bc->flux = v;
         bc->saturation = s;
+
+        bc->cpty       = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 068e1b572962b12fc8b1faf255eb21d1e8ecae58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:40 +0000
Subject: [PATCH 012/134] fix: append_compr_source_term returns zero when it
 refuses a source term

---
 opm/core/pressure/tpfa/compr_source.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/compr_source.c b/opm/core/pressure/tpfa/compr_source.c
index eef23bb..e1b2e55 100644
--- a/opm/core/pressure/tpfa/compr_source.c
+++ b/opm/core/pressure/tpfa/compr_source.c
@@ -136,7 +136,7 @@ append_compr_source_term(int               c  ,
     int alloc, status;
 
     if (np != src->nphases) {
-        return -1;
+        return 0;
     }
 
     if (src->nsrc == src->cpty) {
-- 
2.43.0


From dd3a9fbda10b00800399a0909a65a1d331c960f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 013/134] fix: report failure of the direct linear solver

---
 opm/core/linalg/LinearSolverUmfpack.cpp |  4 ++--
 opm/core/linalg/call_umfpack.c          | 17 ++++++++++++-----
 opm/core/linalg/call_umfpack.h          |  8 +++++++-
 3 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/opm/core/linalg/LinearSolverUmfpack.cpp b/opm/core/linalg/LinearSolverUmfpack.cpp
index 5d459a2..5cf0859 100644
--- a/opm/core/linalg/LinearSolverUmfpack.cpp
+++ b/opm/core/linalg/LinearSolverUmfpack.cpp
@@ -55,9 +55,9 @@ namespace Opm
             const_cast<int*>(ja),
             const_cast<double*>(sa)
         };
-        call_UMFPACK(&A, rhs, solution);
+        const int ok = call_UMFPACK(&A, rhs, solution);
         LinearSolverReport rep;
-        rep.converged = true;
+        rep.converged = (ok != 0);
         return rep;
     }
 
diff --git a/opm/core/linalg/call_umfpack.c b/opm/core/linalg/call_umfpack.c
index e907442..50b32b8 100644
--- a/opm/core/linalg/call_umfpack.c
+++ b/opm/core/linalg/call_umfpack.c
@@ -137,10 +137,11 @@ csr_to_csc(const int        *ia,
 
 
 /* ---------------------------------------------------------------------- */
-static void
+static int
 solve_umfpack(struct CSCMatrix *csc, const double *b, double *x)
 /* ---------------------------------------------------------------------- */
 {
+    UF_long status;
     void *Symbolic, *Numeric;
     double Info[UMFPACK_INFO], Control[UMFPACK_CONTROL];
 
@@ -153,28 +154,34 @@ solve_umfpack(struct CSCMatrix *csc, const double *b, double *x)
 
     umfpack_dl_free_symbolic(&Symbolic);
 
-    umfpack_dl_solve(UMFPACK_A, csc->p, csc->i, csc->x, x, b,
-                     Numeric, Control, Info);
+    status = umfpack_dl_solve(UMFPACK_A, csc->p, csc->i, csc->x, x, b,
+                              Numeric, Control, Info);
 
     umfpack_dl_free_numeric(&Numeric);
+
+    return status == UMFPACK_OK;
 }
 
 
 /*---------------------------------------------------------------------------*/
-void
+int
 call_UMFPACK(struct CSRMatrix *A, const double *b, double *x)
 /*---------------------------------------------------------------------------*/
 {
+    int               ok;
     struct CSCMatrix *csc;
 
+    ok  = 0;
     csc = csc_allocate(A->m, A->ia[A->m]);
 
     if (csc != NULL) {
         csr_to_csc(A->ia, A->ja, A->sa, csc);
 
-        solve_umfpack(csc, b, x);
+        ok = solve_umfpack(csc, b, x);
     }
 
     csc_deallocate(csc);
+
+    return ok;
 }
 
diff --git a/opm/core/linalg/call_umfpack.h b/opm/core/linalg/call_umfpack.h
index 98ba848..bce012e 100644
--- a/opm/core/linalg/call_umfpack.h
+++ b/opm/core/linalg/call_umfpack.h
@@ -41,7 +41,13 @@ extern "C" {
 
 struct CSRMatrix;
 
-void call_UMFPACK(struct CSRMatrix *A, const double *b, double *x);
+/**
+ * Solve the linear system A*x = b using UMFPACK.
+ *
+ * Returns one (1, true) if successful and zero (0, false) otherwise,
+ * e.g., if the matrix is singular.
+ */
+int call_UMFPACK(struct CSRMatrix *A, const double *b, double *x);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From c8744a36abb6520467d7cb4cdabb8f0a0c543c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 014/134] fix: do not close a file that could not be opened
 when writing matrices

---
 opm/core/linalg/sparse_sys.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 3546965..62c7dce 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -211,9 +211,8 @@ csrmatrix_write(const struct CSRMatrix *A, const char *fn)
 
     if (fp != NULL) {
         csrmatrix_write_stream(A, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
@@ -245,9 +244,8 @@ vector_write(size_t n, const double *v, const char *fn)
 
     if (fp != NULL) {
         vector_write_stream(n, v, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
-- 
2.43.0


From 52f82ca0c84d4be43672b610f4d9b76e268e3da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 015/134] fix: well pressure differences were appended to those
 of earlier solves

---
 opm/core/utility/miscUtilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 468dad6..789d067 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -490,6 +490,7 @@ namespace Opm
             saturations.size()/grid.number_of_cells
             : saturations.size()/wells.well_connpos[nw];
         // Simple for now:
+        wdp.clear();
         for (int i = 0; i < nw; i++) {
             double depth_ref = wells.depth_ref[i];
             for (int j = wells.well_connpos[i]; j < wells.well_connpos[i + 1]; j++) {
-- 
2.43.0


From 2c006540153b7897daebf45742b4554680418b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 016/134] fix: do not read beyond the coordinates of
 two-dimensional grids with wells

---
 opm/core/pressure/IncompTpfa.cpp   | 2 +-
 opm/core/utility/miscUtilities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index d9e3aac..4ee889a 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -336,7 +336,7 @@ namespace Opm
         // wdp_
         if (wells_) {
             Opm::computeWDP(*wells_, grid_, state.saturation(), props_.density(),
-                            gravity_ ? gravity_[2] : 0.0, true, wdp_);
+                            gravity_ ? gravity_[grid_.dimensions - 1] : 0.0, true, wdp_);
         }
         // totmob_, omega_, gpress_omegaweighted_
         if (gravity_) {
diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 789d067..74bb7c6 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -497,7 +497,7 @@ namespace Opm
                 int cell = wells.well_cells[j];
 
                 // Is this correct wrt. depth_ref?
-                double cell_depth = grid.cell_centroids[3 * cell + 2];
+                double cell_depth = grid.cell_centroids[grid.dimensions * cell + grid.dimensions - 1];
 
                 double saturation_sum = 0.0;
                 for (size_t p = 0; p < np; p++) {
-- 
2.43.0


From db3e0b7238b88885c8ba2c91ad2fce4754411e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 017/134] fix: computeFlowRatePerWell appended to its output
 argument

---
 opm/core/utility/miscUtilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 74bb7c6..0e3f836 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -531,6 +531,7 @@ namespace Opm
             std::vector<double>& flow_rates_per_well)
     {
         int index_in_flow_rates = 0;
+        flow_rates_per_well.clear();
         for (int w = 0; w < wells.number_of_wells; w++) {
             int number_of_cells = wells.well_connpos[w + 1] - wells.well_connpos[w];
             double flow_sum = 0.0;
-- 
2.43.0


From e7d1f1b109e9549a4c6df14bf397bdf1ef8d1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 018/134] fix: well reports use the injected composition of
 each well

---
 opm/core/utility/miscUtilities.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 0e3f836..2e7191d 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -619,12 +619,12 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
                     double mob[max_np];
-                    props.relperm(1, &saturation[2*cell], &cell, mob, 0);
+                    props.relperm(1, &saturation[np*cell], &cell, mob, 0);
                     double tmob = 0;
                     for(int i = 0; i < np; ++i) {
                         mob[i] /= visc[i];
@@ -677,7 +677,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[np*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
-- 
2.43.0


From 3c07368caa502e1cf69e0b76a3b212add453aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 019/134] fix: wellsToSrc keeps all wells of a cell and no
 stale sources

---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 2e7191d..3a805d2 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -454,7 +454,7 @@ namespace Opm
         if (np != 2) {
             THROW("wellsToSrc() requires a 2 phase case.");
         }
-        src.resize(num_cells);
+        src.assign(num_cells, 0.0);
         for (int w = 0; w < wells.number_of_wells; ++w) {
             const int cur = wells.ctrls[w]->current;
             if (wells.ctrls[w]->num != 1) {
@@ -476,7 +476,7 @@ namespace Opm
                 flow *= wells.comp_frac[np*w + 0]; // Obtaining water rate for inflow source.
             }
             const int cell = wells.well_cells[wells.well_connpos[w]];
-            src[cell] = flow;
+            src[cell] += flow;
         }
     }
 
-- 
2.43.0


From c345e9b68b500c76d7c2b4144e5249f13ef1d2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 020/134] fix: sum repeated matrix entries before calling
 UMFPACK

A well perforating the same cell twice, or two cells sharing several
faces, gives repeated column indices in the pressure matrix. UMFPACK
rejects such matrices.
---
 opm/core/linalg/call_umfpack.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/opm/core/linalg/call_umfpack.c b/opm/core/linalg/call_umfpack.c
index 50b32b8..1b40d22 100644
--- a/opm/core/linalg/call_umfpack.c
+++ b/opm/core/linalg/call_umfpack.c
@@ -102,7 +102,7 @@ csr_to_csc(const int        *ia,
            struct CSCMatrix *csc)
 /* ---------------------------------------------------------------------- */
 {
-    UF_long i, nz;
+    UF_long i, j, nz, begin, end;
 
     /* Clear garbage, prepare for counting */
     for (i = 0; i <= csc->n; i++) { csc->p[i] = 0; }
@@ -133,6 +133,29 @@ csr_to_csc(const int        *ia,
     assert (csc->p[csc->n] == csc->nnz);
 
     csc->p[0] = 0;
+
+    /* UMFPACK refuses repeated entries.  Rows were inserted in increasing
+     * order, so entries of a column which address the same row are adjacent.
+     * Replace them by their sum. */
+    begin = nz = 0;
+    for (i = 0; i < csc->n; i++) {
+        end = csc->p[i + 1];
+
+        for (j = begin; j < end; j++) {
+            if ((nz > csc->p[i]) && (csc->i[nz - 1] == csc->i[j])) {
+                csc->x[nz - 1] += csc->x[j];
+            } else {
+                csc->i[nz] = csc->i[j];
+                csc->x[nz] = csc->x[j];
+                nz += 1;
+            }
+        }
+
+        begin         = end;
+        csc->p[i + 1] = nz;
+    }
+
+    csc->nnz = nz;
 }
 
 
-- 
2.43.0


From ed4a199b16d7d104e7243a8d8a48d41930702e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 021/134] fix: do not use UMFPACK factors that were never
 created

When symbolic or numeric factorisation fails, the factor handles were
used uninitialised.
---
 opm/core/linalg/call_umfpack.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/opm/core/linalg/call_umfpack.c b/opm/core/linalg/call_umfpack.c
index 1b40d22..ad176dc 100644
--- a/opm/core/linalg/call_umfpack.c
+++ b/opm/core/linalg/call_umfpack.c
@@ -170,13 +170,23 @@ solve_umfpack(struct CSCMatrix *csc, const double *b, double *x)
 
     umfpack_dl_defaults(Control);
 
-    umfpack_dl_symbolic(csc->n, csc->n, csc->p, csc->i, csc->x,
-                        &Symbolic, Control, Info);
+    Symbolic = Numeric = NULL;
+
+    status = umfpack_dl_symbolic(csc->n, csc->n, csc->p, csc->i, csc->x,
+                                 &Symbolic, Control, Info);
+    if (status != UMFPACK_OK) {
+        return 0;
+    }
+
     umfpack_dl_numeric (csc->p, csc->i, csc->x,
                         Symbolic, &Numeric, Control, Info);
 
     umfpack_dl_free_symbolic(&Symbolic);
 
+    if (Numeric == NULL) {
+        return 0;
+    }
+
     status = umfpack_dl_solve(UMFPACK_A, csc->p, csc->i, csc->x, x, b,
                               Numeric, Control, Info);
 
-- 
2.43.0


From 983cd7e73f520632d03e48275c53edb8c02009e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 022/134] fix: advance inner product offset by its size in
 hybsys_compute_press_flux_well

---
 opm/core/pressure/mimetic/hybsys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/mimetic/hybsys.c b/opm/core/pressure/mimetic/hybsys.c
index 694c561..13da354 100644
--- a/opm/core/pressure/mimetic/hybsys.c
+++ b/opm/core/pressure/mimetic/hybsys.c
@@ -686,7 +686,7 @@ hybsys_compute_press_flux_well(int nc, const int *pgconn, int nf,
             }
         }
 
-        gp2 += ngconn + ngconn;
+        gp2 += ngconn * ngconn;
     }
 
     /* Assign well BHP from linsolve output */
-- 
2.43.0


From 6548eacc43b6958f99fc982de2dce7714ab8a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 023/134] fix: use well stride when eliminating BHP well
 couplings in ifsh

---
 opm/core/pressure/ifsh.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index a174bda..0d040f3 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -169,8 +169,8 @@ ifsh_impose_well_control(int              c,
             /* Well->well */
             for (w2 = (w1 + 1) % nwconn; w2 != w1; w2 = (w2 + 1) % nwconn) {
                 r  [ngconn + w2]    -= w2w[w2 + w1*nwconn] * bhp;
-                w2w[w2 + w1*ngconn]  = 0.0;
-                w2w[w1 + w2*ngconn]  = 0.0;
+                w2w[w2 + w1*nwconn]  = 0.0;
+                w2w[w1 + w2*nwconn]  = 0.0;
             }
 
             /* Assemble final well equation of the form S*p_bh = S*p_bh^0 */
-- 
2.43.0


From 28d7d220e429aca22027d0ef808acd0fe68e5b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 024/134] fix: only eliminate prescribed pressures from well
 equations in ifsh

---
 opm/core/pressure/ifsh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/ifsh.c b/opm/core/pressure/ifsh.c
index 0d040f3..9d767c8 100644
--- a/opm/core/pressure/ifsh.c
+++ b/opm/core/pressure/ifsh.c
@@ -133,7 +133,7 @@ ifsh_impose_well_control(int              c,
         f = gconn[i];
         j = ifsh->pimpl->bdry_condition[ f ];
 
-        if (j != -1) {
+        if ((j != -1) && (bc->type[j] == BC_PRESSURE)) {
             for (w1 = 0; w1 < nwconn; w1++) {
                 /* Eliminate prescribed (boundary) pressure value */
                 r  [ngconn + w1]   -= r2w[i + w1*ngconn] * bc->value[j];
-- 
2.43.0


From bcca7e3d17f7ee7bad95782cff8cdd81095d7017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 025/134] fix: do not modify the non-singular compressible
 system in cfsh_assemble

---
 opm/core/pressure/cfsh.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/core/pressure/cfsh.c b/opm/core/pressure/cfsh.c
index 8ca7e9f..251d77a 100644
--- a/opm/core/pressure/cfsh.c
+++ b/opm/core/pressure/cfsh.c
@@ -191,6 +191,7 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
               struct fsh_data *h)
 /* ---------------------------------------------------------------------- */
 {
+    int c;
     int npp;                /* Number of prescribed pressure values */
 
     /* Suppress warnings about unused parameters. */
@@ -204,6 +205,11 @@ cfsh_assemble(struct FlowBoundaryConditions *bc,
 
     npp = cfsh_assemble_grid(bc, Binv, gpress, src, h);
 
+    /* Accumulation terms, if any, make the system non-singular */
+    for (c = 0; (npp == 0) && (c < h->pimpl->nc); c++) {
+        npp += fabs(P[c]) > 0.0;
+    }
+
     if (npp == 0) {
         h->A->sa[0] *= 2;        /* Remove zero eigenvalue */
     }
-- 
2.43.0


From 1397bbdad58f24bfeeb8b3c1f5609c7c6591840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 026/134] fix: make hybrid solver work array hold all wells of
 a cell

---
 opm/core/pressure/fsh_common_impl.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/fsh_common_impl.c b/opm/core/pressure/fsh_common_impl.c
index 463d545..793baf5 100644
--- a/opm/core/pressure/fsh_common_impl.c
+++ b/opm/core/pressure/fsh_common_impl.c
@@ -246,7 +246,8 @@ fsh_define_impl_arrays(size_t           nc,
         pimpl->cwell_pos = pimpl->bdry_condition + nf;
         pimpl->cwells    = pimpl->cwell_pos + nc + 1;
 
-        pimpl->WI  = pimpl->work + max_ncf;
+        /* A cell may be perforated by more wells than it has faces */
+        pimpl->WI  = pimpl->work + max_ncf + W->well_connpos[ W->number_of_wells ];
         pimpl->wdp = pimpl->WI + W->well_connpos[ W->number_of_wells ];
     }
 }
@@ -313,5 +314,8 @@ fsh_compute_table_sz(struct UnstructuredGrid *G, well_t *W, int max_ngconn,
 
         /* WI, wdp */
         *ddata_sz += 2 * W->well_connpos[ W->number_of_wells ];
+
+        /* work, cells perforated by more wells than they have faces */
+        *ddata_sz += W->well_connpos[ W->number_of_wells ];
     }
 }
-- 
2.43.0


From 1217dcbf5ecfb5198c44273fa573a17d070fe82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:44 +0000
Subject: [PATCH 027/134] fix: count well-to-well couplings once in hybrid
 system sparsity

---
 opm/core/pressure/mimetic/hybsys_global.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys_global.c b/opm/core/pressure/mimetic/hybsys_global.c
index 33a352e..784d7b3 100644
--- a/opm/core/pressure/mimetic/hybsys_global.c
+++ b/opm/core/pressure/mimetic/hybsys_global.c
@@ -171,8 +171,10 @@ count_conn_per_row_well(struct UnstructuredGrid *G, well_t *W,
 
             for (m = 0; m < wia[w]->m; m++) {
                 if ((dof = wia[w]->s[m]) >= 0) {
-                    A->ia[ dof + 1 ] += 1; /* face to well */
-                    nwdof            += 1; /* well to face */
+                    if (dof < nf) {
+                        A->ia[ dof + 1 ] += 1; /* face to well */
+                    }
+                    nwdof += 1;            /* well to other */
                 }
             }
 
-- 
2.43.0


From 7f771ad6a314e060309627728931fa81dcb1e903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 028/134] fix: upwind each phase by its own potential in
 CompressibleTpfa

---
 opm/core/pressure/CompressibleTpfa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 3dcb204..4363990 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -429,7 +429,7 @@ namespace Opm
             for (int phase = 0; phase < np; ++phase) {
                 int upwindc = -1;
                 if (c[0] >=0 && c[1] >= 0) {
-                    upwindc = (pot[0] < pot[1]) ? c[1] : c[0];
+                    upwindc = (pot[0][phase] < pot[1][phase]) ? c[1] : c[0];
                 } else {
                     upwindc = (c[0] >= 0) ? c[0] : c[1];
                 }
-- 
2.43.0


From 95839d7f20b65876d1ca5224cf6929743e3d0ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 029/134] fix: do not count shut wells as pressure conditions
 in cfs_tpfa_res_assemble

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 001f9a3..79492fc 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -956,13 +956,13 @@ assemble_well_contrib(struct cfs_tpfa_res_wells   *wells ,
         }
 
         ctrl = W->ctrls[ w ];
-        if ((ctrl->current >= 0) && /* OPEN? */
-            (ctrl->type[ ctrl->current ] != BHP)) {
-
-            h->F[ nc + w ] -= dt * ctrl->target[ ctrl->current ];
-        }
-        else {
-            is_neumann = 0;
+        if (ctrl->current >= 0) { /* OPEN? */
+            if (ctrl->type[ ctrl->current ] != BHP) {
+                h->F[ nc + w ] -= dt * ctrl->target[ ctrl->current ];
+            }
+            else {
+                is_neumann = 0;
+            }
         }
     }
 
-- 
2.43.0


From 23fb96e33f3054c34aea29a60b6aca429b04b051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 030/134] fix: report zero perforation rates for shut wells in
 cfs_tpfa_res_flux

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 79492fc..6065e58 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1089,7 +1089,7 @@ compute_wflux(int                        np    ,
               const double              *wpress,
               double                    *wflux )
 {
-    int           w, c, i, p;
+    int           w, c, i, p, shut;
     double        pw, dp, t;
     const double *pmob, *wdp;
 
@@ -1105,7 +1105,8 @@ compute_wflux(int                        np    ,
     wdp   = cdata->wdp;
 
     for (w = i = 0; w < W->number_of_wells; w++) {
-        pw = wpress[w];
+        pw   = wpress[w];
+        shut = W->ctrls[w]->current < 0;
 
         for (; i < W->well_connpos[w + 1]; i++) {
             c  = W->well_cells[ i ];
@@ -1118,7 +1119,7 @@ compute_wflux(int                        np    ,
                 t += pmob[ p ];
             }
 
-            wflux[ i ] = W->WI[i] * t * dp;
+            wflux[ i ] = shut ? 0.0 : W->WI[i] * t * dp;
         }
     }
 }
-- 
2.43.0


From e9488f7d45e90a9d55fa23a2a38412522b45f6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:27 +0000
Subject: [PATCH 031/134] fix: do not accept non-finite pressure increments in
 CompressibleTpfa

---
 opm/core/pressure/CompressibleTpfa.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opm/core/pressure/CompressibleTpfa.cpp b/opm/core/pressure/CompressibleTpfa.cpp
index 4363990..c041f1e 100644
--- a/opm/core/pressure/CompressibleTpfa.cpp
+++ b/opm/core/pressure/CompressibleTpfa.cpp
@@ -37,6 +37,7 @@
 #include <cmath>
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <numeric>
 
 namespace Opm
@@ -157,6 +158,9 @@ namespace Opm
 
             // Stop iterating if increment is small.
             inc_norm = incrementNorm();
+            if (inc_norm > std::numeric_limits<double>::max()) {
+                THROW("CompressibleTpfa::solve() diverged in iteration " << iter << '.');
+            }
             if (inc_norm <= change_tol_) {
                 std::cout << std::setw(9) << iter
                           << std::setw(18) << '*'
@@ -564,6 +568,10 @@ namespace Opm
         {
             double norm = 0.0;
             for (; beg != end; ++beg) {
+                if (*beg != *beg) {
+                    // NaN must not be mistaken for a small number.
+                    return std::numeric_limits<double>::infinity();
+                }
                 norm = std::max(norm, std::fabs(*beg));
             }
             return norm;
-- 
2.43.0


From 0ca1551a91d9ef75b4889419e4b2624f4c98b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:57 +0000
Subject: [PATCH 032/134] fix: compute compressible well fluxes with the
 mobilities of the solved equations

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 6065e58..0e5e674 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1096,6 +1096,9 @@ compute_wflux(int                        np    ,
     struct Wells          *W;
     struct CompletionData *cdata;
 
+    /* Suppress warning about unused parameter. */
+    (void) pmobc;
+
     assert (wells       != NULL);
     assert (wells->W    != NULL);
     assert (wells->data != NULL);
@@ -1112,8 +1115,9 @@ compute_wflux(int                        np    ,
             c  = W->well_cells[ i ];
             dp = pw + wdp[ i ] - cpress[c];
 
-            if (dp > 0) { pmob = cdata->phasemob + (i * np); } /* w->c */
-            else        { pmob = pmobc           + (c * np); } /* c->w */
+            /* Same mobilities as in the assembled well equations,
+             * irrespective of flow direction. */
+            pmob = cdata->phasemob + (i * np);
 
             for (p = 0, t = 0.0; p < np; p++) {
                 t += pmob[ p ];
-- 
2.43.0


From a956ef96a1fb3c5e736d60750198b1374d980e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 033/134] fix: reset start pointer of first cell in
 partition_create_c2c

---
 opm/core/pressure/msmfem/partition.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/pressure/msmfem/partition.c b/opm/core/pressure/msmfem/partition.c
index db55831..379a283 100644
--- a/opm/core/pressure/msmfem/partition.c
+++ b/opm/core/pressure/msmfem/partition.c
@@ -362,6 +362,10 @@ partition_create_c2c(int nc, int nneigh, const int *neigh,
                 }
             }
 
+            /* Number of connections no longer needed: pc2c[0] is the
+             * start of the first cell's connections. */
+            (*pc2c)[0] = 0;
+
             ret = nc;
         } else {
             free(*pc2c);
-- 
2.43.0


From da657b7e9e011d69154abb749f782d1a60eed8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 034/134] fix: no division by zero in partition_unif_idx when
 there are more bins than cells

---
 opm/core/pressure/msmfem/partition.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/partition.c b/opm/core/pressure/msmfem/partition.c
index 379a283..1305652 100644
--- a/opm/core/pressure/msmfem/partition.c
+++ b/opm/core/pressure/msmfem/partition.c
@@ -81,7 +81,7 @@ partition_loadbal_lin_dist(int ndims, const int *size, const int *nbins,
         R = size[i] % nbins[i]; /* # bins containing one extra entity */
 
         b1 =  idx[i]      / (L + 1);
-        b2 = (idx[i] - R) /  L     ;
+        b2 = (L > 0) ? (idx[i] - R) / L : b1; /* L==0: fewer entities than bins */
 
         idx[i] = MAX(b1, b2);
     }
-- 
2.43.0


From 8575f836c4fb3122fcd70c99a4f5de0f0fb3598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 035/134] fix: scale each cell's inverse inner product by its
 own mobility

---
 opm/core/pressure/msmfem/coarse_sys.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index ec746e1..76a86e6 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1204,7 +1204,7 @@ Binv_scale_mobility(int nc, struct coarse_sys_meta *m,
     int c, i;
 
     for (c = i = 0; c < nc; c++) {
-        for (; i < m->pconn2[c]; i++) {
+        for (; i < m->pconn2[c + 1]; i++) {
             Binv[i] *= totmob[c];
         }
     }
-- 
2.43.0


From afb56dcf80772262809e497339ce7ef7e67e1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:54 +0000
Subject: [PATCH 036/134] fix: leave mobility out of the fine-scale part of the
 coarse inner product

coarse_sys_compute_Binv() weights every cell's contribution by its inverse
total mobility, so the contributions themselves must not include it.
---
 opm/core/pressure/msmfem/coarse_sys.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 76a86e6..5297e6e 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1211,6 +1211,24 @@ Binv_scale_mobility(int nc, struct coarse_sys_meta *m,
 }
 
 
+/* ---------------------------------------------------------------------- */
+/* Remove the mobility scaling of Binv_scale_mobility(). */
+/* ---------------------------------------------------------------------- */
+static void
+Binv_unscale_mobility(int nc, struct coarse_sys_meta *m,
+                      const double *totmob, double *Binv)
+/* ---------------------------------------------------------------------- */
+{
+    int c, i;
+
+    for (c = i = 0; c < nc; c++) {
+        for (; i < m->pconn2[c + 1]; i++) {
+            Binv[i] /= totmob[c];
+        }
+    }
+}
+
+
 /* ---------------------------------------------------------------------- */
 /* Project BF flux values for coarse face 'cf' onto continuous flux
  * field. */
@@ -1485,6 +1503,10 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
             }
         }
 
+        /* Mobility effects enter the coarse inner product separately,
+         * in coarse_sys_compute_Binv(). */
+        Binv_unscale_mobility(g->number_of_cells, m, totmob, Binv);
+
         coarse_sys_compute_cell_ip(g->number_of_cells,
                                    m->max_ngconn,
                                    ct->nblocks,
-- 
2.43.0


From 9d6236df738628ea26c30d05acca5c23fa8dca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 037/134] fix: shut wells give no source in wellsToSrc()

---
 opm/core/utility/miscUtilities.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 3a805d2..cecb706 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -457,6 +457,9 @@ namespace Opm
         src.assign(num_cells, 0.0);
         for (int w = 0; w < wells.number_of_wells; ++w) {
             const int cur = wells.ctrls[w]->current;
+            if (cur < 0) {
+                continue; // Well is shut.
+            }
             if (wells.ctrls[w]->num != 1) {
                 MESSAGE("In wellsToSrc(): well has more than one control, all but current control will be ignored.");
             }
-- 
2.43.0


From 7c70699cf3c69c9422fe8a1f01e82a22835ce3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 038/134] fix: black-oil mobilities for any list of cells, as
 for incompressible fluids

---
 opm/core/utility/miscUtilitiesBlackoil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/miscUtilitiesBlackoil.cpp b/opm/core/utility/miscUtilitiesBlackoil.cpp
index 4584e45..25452b1 100644
--- a/opm/core/utility/miscUtilitiesBlackoil.cpp
+++ b/opm/core/utility/miscUtilitiesBlackoil.cpp
@@ -196,7 +196,7 @@ namespace Opm
                                 const std::vector<double>&              s,
                                 std::vector<double>&                    pmobc)
     {
-        const int nc = props.numCells();
+        const int nc = cells.size();
         const int np = props.numPhases();
 
         ASSERT (int(s.size()) == nc * np);
-- 
2.43.0


From 918bf0098756a749d3aabb80dc368cfc6480aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:41 +0000
Subject: [PATCH 039/134] fix: let GravityColumnSolver headers include each
 other by their real paths

---
 opm/core/transport/implicit/GravityColumnSolver.hpp      | 2 +-
 opm/core/transport/implicit/GravityColumnSolver_impl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/implicit/GravityColumnSolver.hpp b/opm/core/transport/implicit/GravityColumnSolver.hpp
index 1213297..0d058e5 100644
--- a/opm/core/transport/implicit/GravityColumnSolver.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver.hpp
@@ -61,6 +61,6 @@ namespace Opm
 
 } // namespace Opm
 
-#include <opm/core/transport/GravityColumnSolver_impl.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver_impl.hpp>
 
 #endif // OPM_GRAVITYCOLUMNSOLVER_HEADER_INCLUDED
diff --git a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
index 7e31778..d3c9b26 100644
--- a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
@@ -17,7 +17,7 @@
   along with OPM.  If not, see <http://www.gnu.org/licenses/>.
 */
 
-#include <opm/core/transport/GravityColumnSolver.hpp>
+#include <opm/core/transport/implicit/GravityColumnSolver.hpp>
 #include <opm/core/linalg/blas_lapack.h>
 #include <opm/core/utility/ErrorMacros.hpp>
 #include <sys/time.h>
-- 
2.43.0


From f506a1dc5e26a7a23a6608bd969bf983b55ff124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 040/134] fix: upwind oil by gravity on faces without Darcy
 flux

---
 opm/core/transport/minimal/spu_explicit.c | 12 ++++++++----
 opm/core/transport/minimal/spu_implicit.c | 10 +++++++---
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/opm/core/transport/minimal/spu_explicit.c b/opm/core/transport/minimal/spu_explicit.c
index 91b12bc..3989068 100644
--- a/opm/core/transport/minimal/spu_explicit.c
+++ b/opm/core/transport/minimal/spu_explicit.c
@@ -21,7 +21,8 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
     int nc = g->number_of_cells;
     int nf = g->number_of_faces;
 
-    double m1, m2, flux;
+    int    oil_from_c1;
+    double m1, m2, vw, flux;
 
 
     /* Contribution form sources */
@@ -67,15 +68,18 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
             }
 
             else {
-                /* Oil mobility */
-                if (dflux[f]>0) {
+                /* Oil mobility.  Without Darcy flux, gravity alone
+                 * decides the direction. */
+                oil_from_c1 = (dflux[f]>0) || (dflux[f]==0 && gflux[f]<0);
+                if (oil_from_c1) {
                     m2 = mob[2*c1+1];
                 }
                 else {
                     m2 = mob[2*c2+1];
                 }
                 /* Water mobility */
-                if (dflux[f]+m2*gflux[f]>0) {
+                vw = dflux[f]+m2*gflux[f];
+                if (vw>0 || (vw==0 && oil_from_c1)) {
                     m1 = mob[2*c1];
                 }
                 else {
diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index d544714..43f0cbd 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -206,6 +206,8 @@ static void
 phase_upwind_mobility(double darcyflux, double gravityflux,  int i, int c, 
                       double *mob, double *dmob, double *m, double *dm, int *cix)
 {
+    double vw;
+
     /* ====================================================== */
     /* If darcy flux and gravity flux have same sign...       */
     if ( (darcyflux>0.0 && gravityflux>0.0) ||
@@ -244,8 +246,9 @@ phase_upwind_mobility(double darcyflux, double gravityflux,  int i, int c,
     /* If Darcy flux and gravity flux have opposite sign...   */
     else {
         
-        /* Positive oil phase flux */
-        if (darcyflux>0) {
+        /* Positive oil phase flux.  Without Darcy flux, gravity alone
+         * decides the direction. */
+        if (darcyflux>0 || (darcyflux==0 && gravityflux<0)) {
             m [1]  =  mob[2*i+1];
             dm[1]  = dmob[2*i+1];
             cix[1] = i;
@@ -259,7 +262,8 @@ phase_upwind_mobility(double darcyflux, double gravityflux,  int i, int c,
         }
 
         /* Positive water phase flux */
-        if (darcyflux+m[1]*gravityflux>0) {
+        vw = darcyflux+m[1]*gravityflux;
+        if (vw>0 || (vw==0 && cix[1]==i)) {
             m [0]  =  mob[2*i+0];
             dm[0]  = dmob[2*i+0];
             cix[0] = i;
-- 
2.43.0


From 7e5665e372c1083120faec0de0b45df7222a03b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 041/134] fix: make room for the diagonal in spu_implicit()'s
 matrix

---
 opm/core/transport/minimal/spu_implicit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index 43f0cbd..e57f7b6 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -148,8 +148,9 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
     sparse_t      *S = malloc(sizeof *S);
     if (S) {
         S->ia = malloc((nc+1) * sizeof *S->ia);
-        S->ja = malloc( nhf   * sizeof *S->ja);
-        S->sa = malloc( nhf   * sizeof *S->sa);
+        /* One diagonal entry per cell in addition to the connections */
+        S->ja = malloc((nc+nhf) * sizeof *S->ja);
+        S->sa = malloc((nc+nhf) * sizeof *S->sa);
         S->n  = nc;
         S->m  = nc;
     }
-- 
2.43.0


From 4b0ed874a6054f1450e2f4e936bd4d7f6c020f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 042/134] fix: keep total mobility positive over faces between
 segregated cells

---
 opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
index 92d8703..6e156a5 100644
--- a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
+++ b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
@@ -638,8 +638,11 @@ namespace Opm {
 
                 m[0] = store_.mob(n[ pix[0] ]) [ 0 ];
 
-                if (! (dflux - m[0]*gflux < 0))     { pix[1] = 0; }
-                else                                { pix[1] = 1; }
+                // An immobile first phase must not leave the second
+                // phase to be taken from the other cell too.
+                const double vo = dflux - m[0]*gflux;
+                if ((vo > 0) || (vo == 0 && pix[0] == 0)) { pix[1] = 0; }
+                else                                      { pix[1] = 1; }
 
                 m[1] = store_.mob(n[ pix[1] ]) [ 1 ];
 
-- 
2.43.0


From 0b25ecce13c3dc58311a27689e145b090eeec4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 043/134] fix: keep single-cell columns unchanged in
 GravityColumnSolver

---
 opm/core/transport/implicit/GravityColumnSolver_impl.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
index d3c9b26..0bb43ca 100644
--- a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
@@ -134,7 +134,11 @@ namespace Opm
 	// not with arbitrary problem models.
 	const int col_size = column_cells.size();
         if (col_size == 1) {
-            sol_vec[column_cells[0]] = 0.0;
+            // No exchange with other cells: undo any change made by the
+            // model's initial guess.
+            double jac = 0.0, res = 0.0;
+            model_.accumulation(grid_, column_cells[0], &jac, &res);
+            sol_vec[column_cells[0]] = -res/jac;
             return;
         }
 	StateWithZeroFlux state(s); // This holds s by reference.
-- 
2.43.0


From 0b1b66bf6e423a9a809885be0592292f279770f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 044/134] fix: skip faces without flow in multidimensional
 upwind time of flight

---
 opm/core/tof/TofReorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 618b541..9f7c289 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -219,7 +219,7 @@ namespace Opm
             // Add flux to upwind_term or downwind_term_[face|cell_factor].
             if (flux < 0.0) {
                 upwind_term += flux*face_tof_[f];
-            } else {
+            } else if (flux > 0.0) {
                 double fterm, cterm_factor;
                 multidimUpwindTerms(f, cell, fterm, cterm_factor);
                 downwind_term_face += fterm*flux;
-- 
2.43.0


From 06685d98c77ff8b367d0dc4337acd248e783f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 045/134] fix: keep tracers of source cells unchanged when flow
 enters from upstream

---
 opm/core/tof/TofReorder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 9f7c289..40adf0a 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -172,8 +172,11 @@ namespace Opm
                 // face.
                 if (other != -1) {
                     upwind_term += flux*tof_[other];
-                    for (int tr = 0; tr < num_tracers_; ++tr) {
-                        tracer_[num_tracers_*cell + tr] += flux*tracer_[num_tracers_*other + tr];
+                    // Do not change tracer solution in source cells.
+                    if (source_[cell] <= 0.0) {
+                        for (int tr = 0; tr < num_tracers_; ++tr) {
+                            tracer_[num_tracers_*cell + tr] += flux*tracer_[num_tracers_*other + tr];
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From d06b64b6e4efcaa0a63a2055d966471f6acf7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 046/134] fix: no tracer, rather than NaN, in cells without
 flow

---
 opm/core/tof/TofReorder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 40adf0a..8e1482a 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -188,8 +188,9 @@ namespace Opm
         tof_[cell] = (porevolume_[cell] - upwind_term)/downwind_flux;
 
         // Compute tracers (if any).
-        // Do not change tracer solution in source cells.
-        if (source_[cell] <= 0.0) {
+        // Do not change tracer solution in source cells,
+        // and leave it at zero in cells without any flow.
+        if (source_[cell] <= 0.0 && downwind_flux > 0.0) {
             for (int tr = 0; tr < num_tracers_; ++tr) {
                 tracer_[num_tracers_*cell + tr] *= -1.0/downwind_flux;
             }
-- 
2.43.0


From 7ff151f4fe567a9986b94ce9df56d025bd02e506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 047/134] fix: TITLE skipped the title and swallowed the line
 after it

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 9041b28..fe412eb 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -263,7 +263,7 @@ struct TITLE : public SpecialBase
     virtual std::string name() const
     { return std::string("TITLE"); }
     virtual void read(std::istream& is)
-    { is >> ignoreLine; std::getline(is, title); }
+    { is >> ignoreWhitespace; std::getline(is, title); }
     virtual void write(std::ostream& os) const
     { os << name() << '\n' << title << '\n'; }
     virtual void convertToSI(const EclipseUnits&)
-- 
2.43.0


From 4a0d5d9e9eb631732e3b572cdaa7884cf7c295d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 048/134] fix: SPECGRID with defaulted trailing items swallowed
 the next keyword

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index fe412eb..ae34f2d 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -91,6 +91,9 @@ struct SPECGRID : public SpecialBase
         int nd = std::min(nread, ndim);
         copy(data.begin(), data.begin()+nd, &dimensions[0]);
         numres = data[ndim];
+        if (nread <= ndim) {
+            return;     // The record ended before the coordinate type.
+        }
         std::string candidate;
         is >> candidate;
         if (candidate == "/") {
-- 
2.43.0


From 94a8e7ea601e6e3778475e038642e41892678377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 049/134] fix: comments inside records of deck keywords were
 read as data

---
 .../io/eclipse/EclipseGridParserHelpers.hpp   | 37 +++++++++++++++----
 opm/core/io/eclipse/SpecialEclipseFields.hpp  | 28 +++++++-------
 2 files changed, 43 insertions(+), 22 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index a476cd1..58dcf32 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -58,8 +58,19 @@ namespace
 
     inline std::istream& ignoreSlashLine(std::istream& is)
     {
-	is.ignore(std::numeric_limits<int>::max(), '/');
-	is.ignore(std::numeric_limits<int>::max(), '\n');
+	// The slash ending the record is not one in a comment or a quoted string.
+	bool quoted = false;
+	char c;
+	while (is.get(c)) {
+	    if (c == '\'' || c == '\n') {
+		quoted = (c == '\'') && !quoted;
+	    } else if (!quoted && c == '/') {
+		is >> ignoreLine;
+		break;
+	    } else if (!quoted && c == '-' && is.peek() == int('-')) {
+		is >> ignoreLine;
+	    }
+	}
 	return is;
     }
 
@@ -78,10 +89,23 @@ namespace
 	return is;
     }
 
+    inline std::istream& ignoreWhitespaceAndComments(std::istream& is)
+    {
+	while (is >> ignoreWhitespace && is.peek() == int('-')) {
+	    is.get();
+	    if (is.peek() != int('-')) {
+		is.unget();     // A negative number, not a comment.
+		break;
+	    }
+	    is >> ignoreLine;
+	}
+	return is;
+    }
+
     inline std::string readString(std::istream& is)
     {
 	std::string string_candidate;
-	is >> string_candidate;
+	is >> ignoreWhitespaceAndComments >> string_candidate;
         const char quote('\'');
         int beg = string_candidate[0] == quote ? 1 : 0;
         int len = string_candidate[0] == quote ? string_candidate.size() - 2 : string_candidate.size();
@@ -243,14 +267,11 @@ namespace
 
     inline boost::gregorian::date readDate(std::istream& is)
     {
-        while (is.peek() == int('-')) {
-            is >> ignoreLine;   // This line is a comment
-        }
         int day, year;
         std::string month_name;
-        is >> day;
+        is >> ignoreWhitespaceAndComments >> day;
         month_name = readString(is);
-        is >> year;
+        is >> ignoreWhitespaceAndComments >> year;
         ignoreSlashLine(is);
         int month = getMonthNumber(month_name);
 
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index ae34f2d..b3ad613 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -95,7 +95,7 @@ struct SPECGRID : public SpecialBase
             return;     // The record ended before the coordinate type.
         }
         std::string candidate;
-        is >> candidate;
+        is >> ignoreWhitespaceAndComments >> candidate;
         if (candidate == "/") {
             return;
         } else {
@@ -151,7 +151,7 @@ struct FAULTS : public SpecialBase
     {
         while(is) {
             std::string fltname;
-            is >> fltname;
+            is >> ignoreWhitespaceAndComments >> fltname;
             if (fltname[0] == '/') {
                 is >> ignoreLine;
                 break;
@@ -167,7 +167,7 @@ struct FAULTS : public SpecialBase
             if (nread != 6) {
                 THROW("Error reading fault_segment " << fltname);
             }
-            is >> fault_segment.face;
+            is >> ignoreWhitespaceAndComments >> fault_segment.face;
             faults.push_back(fault_segment);
             ignoreSlashLine(is);
         }
@@ -221,7 +221,7 @@ struct MULTFLT : public SpecialBase
     {
         while(is) {
             std::string fltname;
-            is >> fltname;
+            is >> ignoreWhitespaceAndComments >> fltname;
             if (fltname[0] == '/') {
                 is >> ignoreLine;
                 break;
@@ -306,7 +306,7 @@ struct GRUPTREE : public SpecialBase {
             tree[child] = parent;
             
             is >> ignoreSlashLine;
-            is >> ignoreWhitespace;
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 is >> ignoreSlashLine;
                 return;
@@ -334,7 +334,7 @@ struct DATES : public SpecialBase
     {
         while(is) {
             dates.push_back(readDate(is));
-            is >> ignoreWhitespace;
+            is >> ignoreWhitespaceAndComments;
             if (is.peek() == int('/')) {
                 is >> ignoreLine;
                 break;
@@ -1620,7 +1620,7 @@ struct WELTARG : public SpecialBase
             WeltargLine weltarg_line;
             weltarg_line.well_ = wellname;
             weltarg_line.control_change_ = readString(is);
-            is >> weltarg_line.new_value_;
+            is >> ignoreWhitespaceAndComments >> weltarg_line.new_value_;
             ignoreSlashLine(is);
             weltarg.push_back(weltarg_line);
         }
@@ -2167,8 +2167,8 @@ struct WPOLYMER : public SpecialBase
             }
             WpolymerLine wpolymer_line;
             wpolymer_line.well_ = wellname;
-            is >> wpolymer_line.polymer_concentration_;    
-            is >> wpolymer_line.salt_concentration_;
+            is >> ignoreWhitespaceAndComments >> wpolymer_line.polymer_concentration_;
+            is >> ignoreWhitespaceAndComments >> wpolymer_line.salt_concentration_;
             std::string group = readString(is);
             if (group[0] == '/') {
                 is >> ignoreLine;
@@ -2179,7 +2179,7 @@ struct WPOLYMER : public SpecialBase
                     is >> ignoreLine;
                 } else {
                     wpolymer_line.salt_group_ = group;
-                    is >> ignoreLine;
+                    is >> ignoreSlashLine;
                 }
             }
             wpolymer_.push_back(wpolymer_line);
@@ -2242,19 +2242,19 @@ struct ENDSCALE : public SpecialBase {
                 break;
             }
             revers_switch_ = tmp;
-            is >> ignoreWhitespace;
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 is >> ignoreLine;
                 return;
             }
             is >> n_tab_;
-            is >> ignoreWhitespace;
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 is >> ignoreLine;
                 return;
             }
             is >> n_node_;
-            is >> ignoreLine;
+            is >> ignoreSlashLine;
             break;
         }
     }
@@ -2291,7 +2291,7 @@ struct SCALECRS : public SpecialBase {
             } else if (tmp[0] == 'Y') {
                 scalecrs_ = std::string("YES");
             }
-            is >> ignoreLine;
+            is >> ignoreSlashLine;
             break;
         }
     }
-- 
2.43.0


From fdb9f3e56cc5c1ac1c3882ddfc299504c702eaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 050/134] fix: text directly after the slash of a record was
 refused by some deck keywords only

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 58dcf32..a9a4193 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -170,7 +170,7 @@ namespace
                 is.clear(is.rdstate() & ~std::ios::failbit);
                 std::string dummy;
                 is >> dummy;
-                if (dummy == "/") {
+                if (dummy[0] == '/') {
                     is >> ignoreLine;	
                     break;
 		} else if (dummy[0] == '-') {  // "comment test"
@@ -221,7 +221,7 @@ namespace
 		is.clear(is.rdstate() & ~std::ios::failbit);
 		std::string dummy;
 		is >> dummy;
-		if (dummy == "/") {
+		if (dummy[0] == '/') {
                     is >> ignoreLine;
 		    break;
 		} else if (dummy[0] == '-') {  // "comment test"
-- 
2.43.0


From f5ccfd4a36e17c3bb1558139959433fa20f32fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 051/134] fix: repeat counts beyond the items of a record wrote
 outside the data

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index a9a4193..a72a2ba 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -181,6 +181,9 @@ namespace
             } else {
                 if (is.peek() == int('*')) {
                     is.ignore(); // ignore the '*'
+                    if (!(candidate >= 1 && candidate <= max_values - num_values)) {
+                        THROW("Invalid repeat count while reading data values: " << candidate);
+                    }
                     int multiplier = (int)candidate;
                     if (ct.is(std::ctype_base::space, is.peek())) {
                         num_values += multiplier;  // Use default value(s)
-- 
2.43.0


From c215eec6c845ebb13647776f95ea61aa9799eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 052/134] fix: default counts spanning items of different type
 shifted COMPDAT and WELSPECS data

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 26 +++++++++-----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index b3ad613..1fd8630 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -821,13 +821,12 @@ struct WELSPECS : public SpecialBase
             WelspecsLine welspecs_line;
             welspecs_line.name_ = wellname;
             welspecs_line.group_ = readString(is);
-            std::vector<int> int_data(2,1);
-            readDefaultedVectorData(is, int_data, 2);
-            welspecs_line.I_ = int_data[0];
-            welspecs_line.J_ = int_data[1];
-            std::vector<double> double_data(1,-1.0);
-            readDefaultedVectorData(is, double_data, 1);
-            welspecs_line.datum_depth_BHP_ = double_data[0];
+            std::vector<double> double_data(3,1.0);
+            double_data[2] = -1.0;
+            readDefaultedVectorData(is, double_data, 3);
+            welspecs_line.I_ = (int)double_data[0];
+            welspecs_line.J_ = (int)double_data[1];
+            welspecs_line.datum_depth_BHP_ = double_data[2];
             welspecs_line.pref_phase_ = readString(is);
 
             // HACK! Ignore items 7-13.
@@ -944,14 +943,13 @@ struct COMPDAT : public SpecialBase
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
             compdat_line.open_shut_flag_ = readString(is);
-            std::vector<int> int_data(1,-1);
-            readDefaultedVectorData(is, int_data, 1);
-            compdat_line.sat_table_number_ = int_data[0];
-            std::vector<double> double_data(2, 0.0);
-            int num_to_read = 2;
+            std::vector<double> double_data(3, 0.0);
+            double_data[0] = -1;
+            int num_to_read = 3;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
-            compdat_line.connect_trans_fac_ = double_data[0];
-            compdat_line.diameter_ = double_data[1];
+            compdat_line.sat_table_number_ = (int)double_data[0];
+            compdat_line.connect_trans_fac_ = double_data[1];
+            compdat_line.diameter_ = double_data[2];
 
             // HACK! Ignore items 10-14.
             if (num_read == num_to_read) {
-- 
2.43.0


From b294dbe94aec94014bc06a52b58eb517229149ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 053/134] fix: GCONPROD lost the reservoir rate limit unless
 the items before it were defaulted by one count

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 1fd8630..d64ed40 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1279,7 +1279,7 @@ struct GCONPROD : public SpecialBase
                 }
                 int read_ignored = 0;
                 int to_read = 6;
-                for (; read_ignored < to_read; ++read_ignored) {
+                while (read_ignored < to_read) {
                     std::string ignored_value = readString(is);
                     if (ignored_value[ignored_value.size()-1]=='*') {
                         // we've got defaulted argument, increment
@@ -1288,12 +1288,11 @@ struct GCONPROD : public SpecialBase
                         std::string num_defaulted_str = ignored_value.substr(0, ignored_value.size()-1);
                         std::istringstream(num_defaulted_str) >> num_defaulted;
                         read_ignored += num_defaulted;
-                        if (read_ignored >= to_read) {
-                            break;
-                        }
                     } else if(ignored_value[0] == '/') {
                         is.putback('/');
                         break;
+                    } else {
+                        ++read_ignored;
                     }
                 }
                 if ( read_ignored <= to_read) {
-- 
2.43.0


From bae7f21524ea53253ecf10cb1a68e3ad1ac9e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 054/134] fix: WGRUPCON records with defaulted trailing items
 lost themselves and all records after them

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index d64ed40..b790e29 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1406,11 +1406,17 @@ struct WGRUPCON : public SpecialBase
             const int num_to_read = 1;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
             wgrupcon_line.guide_rate_ = double_data[0];
-            
+            if (num_read < num_to_read) {
+                // The record ended before the phase.
+                wgrupcon.push_back(wgrupcon_line);
+                continue;
+            }
+
             std::string phase = readString(is); 
             if (phase[0] == '/') {
                 is >> ignoreLine;
-                break;
+                wgrupcon.push_back(wgrupcon_line);
+                continue;
             }
             while (phase.find("--") == 0) {
                 // This line is a comment
-- 
2.43.0


From 2e9590fa9f1a28865209edf920d75abd772930dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 055/134] fix: GCONINJE reservoir rates were not converted to
 SI

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index b790e29..64fec1b 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1086,6 +1086,7 @@ struct GCONINJE : public SpecialBase
             } else {
                 gconinje[i].surface_flow_max_rate_ *= units.liqvol_s/units.time;
             }
+            gconinje[i].resv_flow_max_rate_ *= units.liqvol_r/units.time;
         }
     }
 };
-- 
2.43.0


From 353234635943ef390c530cc65aa24944e9107bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 056/134] fix: vaporised oil concentration of gas injectors was
 converted as a gas-oil ratio

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 64fec1b..f745764 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1202,7 +1202,11 @@ struct WCONINJE : public SpecialBase
             wconinje[i].reservoir_flow_max_rate_ *= units.liqvol_r/units.time;
             wconinje[i].BHP_limit_ *= units.pressure;
             wconinje[i].THP_limit_ *= units.pressure;
-            wconinje[i].concentration_ *= units.gasvol_s/units.liqvol_s; // ??? @bsp 10
+            if (wconinje[i].injector_type_ == "GAS") {
+                wconinje[i].concentration_ *= units.liqvol_s/units.gasvol_s; // Vaporised oil
+            } else {
+                wconinje[i].concentration_ *= units.gasvol_s/units.liqvol_s; // Dissolved gas
+            }
         }
     }
 };
-- 
2.43.0


From c67359853fe882fa8aa6c2712a73060171375894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 057/134] fix: gas-oil ratios in RS were not converted to SI

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 8a1905e..1ec75a4 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -558,13 +558,15 @@ void EclipseGridParser::convertToSI()
                    key == "LAMEMOD"  || key == "SHEARMOD" || key == "POISSONMOD" ||
                    key == "PWAVEMOD" || key == "MULTPV"   || key == "PWAVEMOD" ||
                    key == "SGAS"     || key == "SWAT"     || key == "SOIL"     ||
-                   key == "RS"       || key == "SWCR"     || key == "SWL"      || 
+                   key == "SWCR"     || key == "SWL"      ||
                    key == "SWU"      || key == "SOWCR"    || key == "KRW"      || 
                    key == "KRWR"     || key == "KRORW"    || key == "KRO") {
             unit = 1.0;
             do_convert = false; // Dimensionless keywords...
         } else if (key == "PRESSURE") {
             unit = units_.pressure;
+        } else if (key == "RS") {
+            unit = units_.gasvol_s/units_.liqvol_s;
         } else if (key == "MAPAXES") {
             MESSAGE("Not applying units to MAPAXES yet!");
             unit = 1.0;
-- 
2.43.0


From 954f48cf7a11966a490a90587275307a3f978b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 058/134] fix: repeat counts in saturation tables were read as
 defaults or refused

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index a72a2ba..090802e 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -36,6 +36,8 @@
 #ifndef OPM_ECLIPSEGRIDPARSERHELPERS_HEADER
 #define OPM_ECLIPSEGRIDPARSERHELPERS_HEADER
 
+#include <cctype>
+#include <cstdio>
 #include <limits>
 #include <string>
 #include <istream>
@@ -235,8 +237,17 @@ namespace
 	    } else {
 		if (is.peek() == int('*')) {
 		    is.ignore(); // ignore the '*'
-		    ASSERT(int(candidate) == 1);
-		    data.push_back(-1); // Set new flag for interpolation.
+		    if (!(candidate >= 1)) {
+			THROW("Invalid repeat count while reading data values: " << candidate);
+		    }
+		    const int multiplier = int(candidate);
+		    const int next = is.peek();
+		    if (next == EOF || next == int('/') || std::isspace(next)) {
+			candidate = -1; // Set new flag for interpolation.
+		    } else {
+			is >> candidate;
+		    }
+		    data.insert(data.end(), multiplier, candidate);
 		} else {
 		    data.push_back(candidate);
 		}
-- 
2.43.0


From ef150341d8e483914848a3b5e3b51c0d79b68579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 059/134] fix: ENPTVD and ENKRVD depended on the closing slash
 starting its line

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index f745764..9c6c0a3 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -2325,6 +2325,7 @@ struct ENPTVD : public SpecialBase {
         table_.resize(5);
         std::vector<std::vector<double> > sub_table(5);
         while (!is.eof()) {
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 if (sub_table[0].empty() && !(table_[0].empty())) {
                     is >> ignoreLine; 
@@ -2349,7 +2350,7 @@ struct ENPTVD : public SpecialBase {
             sub_table[2].push_back(data[2]); //swcr
             sub_table[3].push_back(data[3]); //swu
             sub_table[4].push_back(data[7]); //sowcr
-            is >> ignoreWhitespace;
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 is >> ignoreLine;
                 if (sub_table[0].size() >= 2) {
@@ -2412,6 +2413,7 @@ struct ENKRVD : public SpecialBase {
         table_.resize(5);
         std::vector<std::vector<double> > sub_table(5);
         while (!is.eof()) {
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 if (sub_table[0].empty() && !(table_[0].empty())) {
                     is >> ignoreLine; 
@@ -2436,7 +2438,7 @@ struct ENKRVD : public SpecialBase {
             sub_table[2].push_back(data[3]); //kro
             sub_table[3].push_back(data[4]); //krw(sowcr)
             sub_table[4].push_back(data[7]); //kro(swcr)
-            is >> ignoreWhitespace;
+            is >> ignoreWhitespaceAndComments;
             if(is.peek() == int('/')) {
                 is >> ignoreLine;
                 if (sub_table[0].size() >= 2) {
-- 
2.43.0


From 33dfa518e915c017afab4913866cfac17cbd3de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 060/134] fix: reading a second deck kept the start date, unit
 system and reading mode of the first

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 1ec75a4..99d49a3 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -320,6 +320,9 @@ void EclipseGridParser::read(istream& is, bool convert_to_SI)
     floating_field_map_.clear();
     special_field_by_epoch_.clear();
     special_field_by_epoch_.push_back(SpecialMap());
+    ignored_fields_.clear();
+    current_reading_mode_ = Regular;
+    start_date_ = boost::gregorian::date(boost::date_time::not_a_date_time);
     current_time_days_ = 0.0;
     current_epoch_ = 0;
 
-- 
2.43.0


From bdef7183cfeddc7d60cb8b081916e88ae48a2abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 061/134] fix: defaulted open/shut flags of wells and
 connections were read as the flag 1*

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 8 ++++++++
 opm/core/io/eclipse/SpecialEclipseFields.hpp     | 6 +++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 090802e..7269ed5 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -114,6 +114,14 @@ namespace
         return string_candidate.substr(beg, len);
     }
 
+    // As readString(), but returns the given default for 1*.
+    inline std::string readDefaultedString(std::istream& is, const std::string& default_value)
+    {
+	const std::string s = readString(is);
+	return (s == "1*" || s == "*") ? default_value : s;
+    }
+
+
     // Reads data until '/' or an error is encountered.
     template<typename T>
     inline void readVectorData(std::istream& is, std::vector<T>& data)
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 9c6c0a3..cfa5192 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -942,7 +942,7 @@ struct COMPDAT : public SpecialBase
             CompdatLine compdat_line;
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
-            compdat_line.open_shut_flag_ = readString(is);
+            compdat_line.open_shut_flag_ = readDefaultedString(is, compdat_line.open_shut_flag_);
             std::vector<double> double_data(3, 0.0);
             double_data[0] = -1;
             int num_to_read = 3;
@@ -1150,7 +1150,7 @@ struct WCONINJE : public SpecialBase
             WconinjeLine wconinje_line;
             wconinje_line.well_ = wellname;
             wconinje_line.injector_type_ = readString(is);
-            wconinje_line.open_shut_flag_ = readString(is);
+            wconinje_line.open_shut_flag_ = readDefaultedString(is, wconinje_line.open_shut_flag_);
             wconinje_line.control_mode_ = readString(is);
             std::vector<double> double_data(6, -1.0E20);
             double_data[2] = wconinje_line.BHP_limit_; 
@@ -1518,7 +1518,7 @@ struct WCONPROD : public SpecialBase
             }
             WconprodLine wconprod_line;
             wconprod_line.well_ = wellname;
-            wconprod_line.open_shut_flag_ = readString(is);
+            wconprod_line.open_shut_flag_ = readDefaultedString(is, wconprod_line.open_shut_flag_);
             wconprod_line.control_mode_ = readString(is);
             std::vector<double> double_data(14, -1.0E20);
             double_data[5] = wconprod_line.BHP_limit_; 
-- 
2.43.0


From 7100d155c47f0dd3bb122e87781f65bccd002e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 062/134] fix: default counts past the last item of a record
 are allowed, repeat counts are not

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 7269ed5..3dd9520 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -191,13 +191,18 @@ namespace
             } else {
                 if (is.peek() == int('*')) {
                     is.ignore(); // ignore the '*'
-                    if (!(candidate >= 1 && candidate <= max_values - num_values)) {
+                    if (!(candidate >= 1)) {
                         THROW("Invalid repeat count while reading data values: " << candidate);
                     }
-                    int multiplier = (int)candidate;
+                    // More defaults than items are harmless, more values are not.
+                    const bool too_many = candidate > max_values - num_values;
+                    int multiplier = too_many ? max_values - num_values : (int)candidate;
                     if (ct.is(std::ctype_base::space, is.peek())) {
                         num_values += multiplier;  // Use default value(s)
                     } else {
+                        if (too_many) {
+                            THROW("Repeat count exceeds the number of data values: " << candidate);
+                        }
                         is >> candidate;         // Use candidate 'multipler' times
                         for (int i=0; i<multiplier; ++i, ++num_values) {
                             data[num_values] = candidate;
-- 
2.43.0


From e174f0271ca6a090f10bc9ca694ebe07fc2f1753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 063/134] fix: SimulatorTimer::setCurrentStepNum checked the
 old step number and accepted invalid ones

---
 opm/core/simulator/SimulatorTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 4aa52ec..f46cc20 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -72,8 +72,8 @@ namespace Opm
     /// Set current step number.
     void SimulatorTimer::setCurrentStepNum(int step)
     {
-        if (current_step_ < 0 || current_step_ > int(timesteps_.size())) {
-            // Note that we do allow current_step_ == timesteps_.size(),
+        if (step < 0 || step > int(timesteps_.size())) {
+            // Note that we do allow step == timesteps_.size(),
             // that is the done() state.
             THROW("Trying to set invalid step number: " << step);
         }
-- 
2.43.0


From a8153d5a38d87d773511222d3740a84f2b77b90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 064/134] fix: dates more than 68 years after the start date
 were wrong

---
 opm/core/simulator/SimulatorTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index f46cc20..f8c012b 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -98,7 +98,7 @@ namespace Opm
 
     boost::posix_time::ptime SimulatorTimer::currentDateTime() const
     {
-      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( (int) current_time_ );
+      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( (long) current_time_ );
     }
     
 
-- 
2.43.0


From ed6cf6b44e8b3d8d33f61d799c1f2cdd1984e148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 065/134] fix: GCONPROD and SPECGRID records ended by a slash
 with attached text or number lost later records

---
 .../io/eclipse/EclipseGridParserHelpers.hpp   |  7 ++++
 opm/core/io/eclipse/SpecialEclipseFields.hpp  | 40 +++++++++----------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 3dd9520..58eb448 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -104,6 +104,13 @@ namespace
 	return is;
     }
 
+    // True if the next item is the slash that ends the record.
+    inline bool atSlash(std::istream& is)
+    {
+	is >> ignoreWhitespaceAndComments;
+	return is.peek() == int('/');
+    }
+
     inline std::string readString(std::istream& is)
     {
 	std::string string_candidate;
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index cfa5192..8cedb1c 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -96,7 +96,8 @@ struct SPECGRID : public SpecialBase
         }
         std::string candidate;
         is >> ignoreWhitespaceAndComments >> candidate;
-        if (candidate == "/") {
+        if (candidate[0] == '/') {
+            is >> ignoreLine;
             return;
         } else {
             qrdial = candidate[0];
@@ -1277,38 +1278,35 @@ struct GCONPROD : public SpecialBase
 
             std::string procedure;
             if (num_read == num_to_read) {
-                procedure = readString(is);
-                if (procedure[0] == '/') {
-                    is.putback('/');
-                    procedure = "NONE";
-                }
+                procedure = atSlash(is) ? std::string("NONE") : readString(is);
                 int read_ignored = 0;
-                int to_read = 6;
-                while (read_ignored < to_read) {
+                const int to_read = 6;
+                while (read_ignored < to_read && !atSlash(is)) {
                     std::string ignored_value = readString(is);
-                    if (ignored_value[ignored_value.size()-1]=='*') {
+                    if (ignored_value.empty()) {
+                        THROW("End of file reading " << name());
+                    } else if (ignored_value[ignored_value.size()-1]=='*') {
                         // we've got defaulted argument, increment
-                        
-                        int num_defaulted;
-                        std::string num_defaulted_str = ignored_value.substr(0, ignored_value.size()-1);
-                        std::istringstream(num_defaulted_str) >> num_defaulted;
-                        read_ignored += num_defaulted;
-                    } else if(ignored_value[0] == '/') {
-                        is.putback('/');
-                        break;
+                        int num_defaulted = 0;
+                        std::istringstream(ignored_value) >> num_defaulted;
+                        if (num_defaulted < 1) {
+                            THROW("Invalid default count in " << name() << ": " << ignored_value);
+                        }
+                        read_ignored += std::min(num_defaulted, to_read + 1);
                     } else {
                         ++read_ignored;
                     }
                 }
-                if ( read_ignored <= to_read) {
+                if (read_ignored <= to_read && !atSlash(is)) {
                     // Not defaulted, we can read
                     std::string reservoir_volume = readString(is);
-                    if (reservoir_volume[reservoir_volume.size()-1] == '*') {
+                    if (reservoir_volume.empty() || reservoir_volume[reservoir_volume.size()-1] == '*') {
                         // Defaulted, we're not doing anything
-                    } else if(reservoir_volume[0] == '/') {
-                        is.putback('/');
                     } else {
                         std::istringstream(reservoir_volume) >> gconprod_line.resv_max_rate_;
+                        if (reservoir_volume[reservoir_volume.size()-1] == '/') {
+                            is.putback('/');
+                        }
                     }
                 }
             } else {
-- 
2.43.0


From e12a4e38f490ea0983bf0d94fc8062f6e748334c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 066/134] fix: tables closed by a slash at the very end of a
 file were refused, GCONPROD read reservoir rates with attached comments
 wrongly

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp |  4 +++-
 opm/core/io/eclipse/SpecialEclipseFields.hpp     | 12 +++---------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 58eb448..8c15121 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -54,7 +54,9 @@ namespace
 
     inline std::istream& ignoreLine(std::istream& is)
     {
-	is.ignore(std::numeric_limits<int>::max(), '\n');
+	if (!is.eof()) { // The last line needs no newline.
+	    is.ignore(std::numeric_limits<int>::max(), '\n');
+	}
 	return is;
     }
 
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 8cedb1c..31617d9 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1299,15 +1299,9 @@ struct GCONPROD : public SpecialBase
                 }
                 if (read_ignored <= to_read && !atSlash(is)) {
                     // Not defaulted, we can read
-                    std::string reservoir_volume = readString(is);
-                    if (reservoir_volume.empty() || reservoir_volume[reservoir_volume.size()-1] == '*') {
-                        // Defaulted, we're not doing anything
-                    } else {
-                        std::istringstream(reservoir_volume) >> gconprod_line.resv_max_rate_;
-                        if (reservoir_volume[reservoir_volume.size()-1] == '/') {
-                            is.putback('/');
-                        }
-                    }
+                    std::vector<double> resv(1, gconprod_line.resv_max_rate_);
+                    readDefaultedVectorData(is, resv, 1);
+                    gconprod_line.resv_max_rate_ = resv[0];
                 }
             } else {
                 procedure = "NONE";
-- 
2.43.0


From 8107dee785ead00ba6d8c93750036d774429610b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 067/134] fix: live gas viscosity was NaN without oil and gas,
 and undersaturated tables of a single entry were read out of bounds

---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 41 +++++++++++--------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index e58a51a..5c6f0f9 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -41,6 +41,17 @@ namespace Opm
     using Opm::linearInterpolation;
     using Opm::linearInterpolationDerivative;
 
+    namespace {
+        // The value of an undersaturated table. A table holding only its
+        // saturated entry does not depend on the oil content.
+        double undersatValue(const std::vector<std::vector<double> >& table,
+                             const int item, const double r)
+        {
+            return table[0].size() < 2 ? table[item][0]
+                : linearInterpolation(table[0], table[item], r);
+        }
+    }
+
     //------------------------------------------------------------------------
     // Member functions
     //-------------------------------------------------------------------------
@@ -231,7 +242,7 @@ namespace Opm
         double Rval = linearInterpolation(saturated_gas_table_[0],
                                                 saturated_gas_table_[3], press,
                                                 section);
-        double maxR = surfvol[phase_pos_[Liquid]]/surfvol[phase_pos_[Vapour]];
+        double maxR = (surfvol[phase_pos_[Liquid]] == 0.0) ? 0.0 : surfvol[phase_pos_[Liquid]]/surfvol[phase_pos_[Vapour]];
         if (deriv) {
             if (Rval < maxR ) {  // Saturated case
                 return linearInterpolationDerivative(saturated_gas_table_[0],
@@ -246,14 +257,8 @@ namespace Opm
                          saturated_gas_table_[0][is]);
                     return val;
                 }
-                double val1 =
-                    linearInterpolation(undersat_gas_tables_[is][0],
-                                              undersat_gas_tables_[is][item],
-                                              maxR);
-                double val2 =
-                    linearInterpolation(undersat_gas_tables_[is+1][0],
-                                              undersat_gas_tables_[is+1][item],
-                                              maxR);
+                double val1 = undersatValue(undersat_gas_tables_[is], item, maxR);
+                double val2 = undersatValue(undersat_gas_tables_[is+1], item, maxR);
                 double val = (val2 - val1)/
                     (saturated_gas_table_[0][is+1] - saturated_gas_table_[0][is]);
                 return val;
@@ -267,17 +272,13 @@ namespace Opm
                 int is = section;
                 // Extrapolate from first table section
                 if (is == 0 && press < saturated_gas_table_[0][0]) {
-                    return linearInterpolation(undersat_gas_tables_[0][0],
-                                                     undersat_gas_tables_[0][item],
-                                                     maxR);
+                    return undersatValue(undersat_gas_tables_[0], item, maxR);
                 }
 
                 // Extrapolate from last table section
                 int ltp = saturated_gas_table_[0].size() - 1;
                 if (is+1 == ltp && press > saturated_gas_table_[0][ltp]) {
-                    return linearInterpolation(undersat_gas_tables_[ltp][0],
-                                                     undersat_gas_tables_[ltp][item],
-                                                     maxR);
+                    return undersatValue(undersat_gas_tables_[ltp], item, maxR);
                 }
 
                 // Interpolate between table sections
@@ -290,14 +291,8 @@ namespace Opm
                            saturated_gas_table_[item][is]);
                     return val;
                 }
-                double val1 =
-                    linearInterpolation(undersat_gas_tables_[is][0],
-                                              undersat_gas_tables_[is][item],
-                                              maxR);
-                double val2 =
-                    linearInterpolation(undersat_gas_tables_[is+1][0],
-                                              undersat_gas_tables_[is+1][item],
-                                              maxR);
+                double val1 = undersatValue(undersat_gas_tables_[is], item, maxR);
+                double val2 = undersatValue(undersat_gas_tables_[is+1], item, maxR);
                 double val = val1 + w*(val2 - val1);
                 return val;
             }
-- 
2.43.0


From 69d2fb15aac138474836c91a352252edf8d99cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 068/134] fix: saturation functions with exact tables
 extrapolated the curves beyond their end points

---
 opm/core/props/satfunc/SatFuncGwseg.cpp    | 12 +++----
 opm/core/props/satfunc/SatFuncGwseg.hpp    | 12 +++----
 opm/core/props/satfunc/SatFuncSimple.cpp   | 12 +++----
 opm/core/props/satfunc/SatFuncSimple.hpp   | 12 +++----
 opm/core/props/satfunc/SatFuncStone2.cpp   | 12 +++----
 opm/core/props/satfunc/SatFuncStone2.hpp   | 12 +++----
 opm/core/utility/NonuniformTableLinear.hpp | 37 ++++++++++++++++++++++
 7 files changed, 73 insertions(+), 36 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncGwseg.cpp b/opm/core/props/satfunc/SatFuncGwseg.cpp
index 94b0131..b568fa1 100644
--- a/opm/core/props/satfunc/SatFuncGwseg.cpp
+++ b/opm/core/props/satfunc/SatFuncGwseg.cpp
@@ -252,9 +252,9 @@ namespace Opm
             const std::vector<double>& krw = swof_table[table_num][1];
             const std::vector<double>& krow = swof_table[table_num][2];
             const std::vector<double>& pcow = swof_table[table_num][3];
-            krw_ = NonuniformTableLinear<double>(sw, krw);
-            krow_ = NonuniformTableLinear<double>(sw, krow);
-            pcow_ = NonuniformTableLinear<double>(sw, pcow);
+            krw_ = NonuniformTableLinearConstOutside<double>(sw, krw);
+            krow_ = NonuniformTableLinearConstOutside<double>(sw, krow);
+            pcow_ = NonuniformTableLinearConstOutside<double>(sw, pcow);
             krocw_ = krow[0]; // At connate water -> ecl. SWOF
             swco = sw[0];
             smin_[phase_usage.phase_pos[Aqua]] = sw[0];
@@ -267,9 +267,9 @@ namespace Opm
             const std::vector<double>& krg = sgof_table[table_num][1];
             const std::vector<double>& krog = sgof_table[table_num][2];
             const std::vector<double>& pcog = sgof_table[table_num][3];
-            krg_ = NonuniformTableLinear<double>(sg, krg);
-            krog_ = NonuniformTableLinear<double>(sg, krog);
-            pcog_ = NonuniformTableLinear<double>(sg, pcog);
+            krg_ = NonuniformTableLinearConstOutside<double>(sg, krg);
+            krog_ = NonuniformTableLinearConstOutside<double>(sg, krog);
+            pcog_ = NonuniformTableLinearConstOutside<double>(sg, pcog);
             smin_[phase_usage.phase_pos[Vapour]] = sg[0];
             if (std::fabs(sg.back() + swco - 1.0) > 1e-3) {
                 THROW("Gas maximum saturation in SGOF table = " << sg.back() <<
diff --git a/opm/core/props/satfunc/SatFuncGwseg.hpp b/opm/core/props/satfunc/SatFuncGwseg.hpp
index 14bb15c..91e3237 100644
--- a/opm/core/props/satfunc/SatFuncGwseg.hpp
+++ b/opm/core/props/satfunc/SatFuncGwseg.hpp
@@ -79,12 +79,12 @@ namespace Opm
         double krorw_;  // Oil relperm at critical water saturation.
     private:
         PhaseUsage phase_usage; // A copy of the outer class' phase_usage_.
-        NonuniformTableLinear<double> krw_;
-        NonuniformTableLinear<double> krow_;
-        NonuniformTableLinear<double> pcow_;
-        NonuniformTableLinear<double> krg_;
-        NonuniformTableLinear<double> krog_;
-        NonuniformTableLinear<double> pcog_;
+        NonuniformTableLinearConstOutside<double> krw_;
+        NonuniformTableLinearConstOutside<double> krow_;
+        NonuniformTableLinearConstOutside<double> pcow_;
+        NonuniformTableLinearConstOutside<double> krg_;
+        NonuniformTableLinearConstOutside<double> krog_;
+        NonuniformTableLinearConstOutside<double> pcog_;
         double krocw_; // = krow_(s_wc)
     };
 
diff --git a/opm/core/props/satfunc/SatFuncSimple.cpp b/opm/core/props/satfunc/SatFuncSimple.cpp
index 2f1fd83..189f083 100644
--- a/opm/core/props/satfunc/SatFuncSimple.cpp
+++ b/opm/core/props/satfunc/SatFuncSimple.cpp
@@ -275,9 +275,9 @@ namespace Opm
             if (krw.front() != 0.0 || krow.back() != 0.0) {
                 THROW("Error SWOF data - non-zero krw(swco) and/or krow(1-sor)");
             }
-            krw_ = NonuniformTableLinear<double>(sw, krw);
-            krow_ = NonuniformTableLinear<double>(sw, krow);
-            pcow_ = NonuniformTableLinear<double>(sw, pcow);
+            krw_ = NonuniformTableLinearConstOutside<double>(sw, krw);
+            krow_ = NonuniformTableLinearConstOutside<double>(sw, krow);
+            pcow_ = NonuniformTableLinearConstOutside<double>(sw, pcow);
             krocw_ = krow[0]; // At connate water -> ecl. SWOF
             swco = sw[0];
             smin_[phase_usage.phase_pos[Aqua]] = sw[0];
@@ -312,9 +312,9 @@ namespace Opm
             const std::vector<double>& krg = sgof_table[table_num][1];
             const std::vector<double>& krog = sgof_table[table_num][2];
             const std::vector<double>& pcog = sgof_table[table_num][3];
-            krg_ = NonuniformTableLinear<double>(sg, krg);
-            krog_ = NonuniformTableLinear<double>(sg, krog);
-            pcog_ = NonuniformTableLinear<double>(sg, pcog);
+            krg_ = NonuniformTableLinearConstOutside<double>(sg, krg);
+            krog_ = NonuniformTableLinearConstOutside<double>(sg, krog);
+            pcog_ = NonuniformTableLinearConstOutside<double>(sg, pcog);
             smin_[phase_usage.phase_pos[Vapour]] = sg[0];
             if (std::fabs(sg.back() + swco - 1.0) > 1e-3) {
                 THROW("Gas maximum saturation in SGOF table = " << sg.back() <<
diff --git a/opm/core/props/satfunc/SatFuncSimple.hpp b/opm/core/props/satfunc/SatFuncSimple.hpp
index bef13a1..c87a99f 100644
--- a/opm/core/props/satfunc/SatFuncSimple.hpp
+++ b/opm/core/props/satfunc/SatFuncSimple.hpp
@@ -79,12 +79,12 @@ namespace Opm
         double krorw_;  // Oil relperm at critical water saturation.
     private:
         PhaseUsage phase_usage; // A copy of the outer class' phase_usage_.
-        NonuniformTableLinear<double> krw_;
-        NonuniformTableLinear<double> krow_;
-        NonuniformTableLinear<double> pcow_;
-        NonuniformTableLinear<double> krg_;
-        NonuniformTableLinear<double> krog_;
-        NonuniformTableLinear<double> pcog_;
+        NonuniformTableLinearConstOutside<double> krw_;
+        NonuniformTableLinearConstOutside<double> krow_;
+        NonuniformTableLinearConstOutside<double> pcow_;
+        NonuniformTableLinearConstOutside<double> krg_;
+        NonuniformTableLinearConstOutside<double> krog_;
+        NonuniformTableLinearConstOutside<double> pcog_;
         double krocw_; // = krow_(s_wc)
     };
 
diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index 93cbe00..e712941 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -241,9 +241,9 @@ namespace Opm
             const std::vector<double>& krw = swof_table[table_num][1];
             const std::vector<double>& krow = swof_table[table_num][2];
             const std::vector<double>& pcow = swof_table[table_num][3];
-            krw_ = NonuniformTableLinear<double>(sw, krw);
-            krow_ = NonuniformTableLinear<double>(sw, krow);
-            pcow_ = NonuniformTableLinear<double>(sw, pcow);
+            krw_ = NonuniformTableLinearConstOutside<double>(sw, krw);
+            krow_ = NonuniformTableLinearConstOutside<double>(sw, krow);
+            pcow_ = NonuniformTableLinearConstOutside<double>(sw, pcow);
             krocw_ = krow[0]; // At connate water -> ecl. SWOF
             swco = sw[0];
             smin_[phase_usage.phase_pos[Aqua]] = sw[0];
@@ -256,9 +256,9 @@ namespace Opm
             const std::vector<double>& krg = sgof_table[table_num][1];
             const std::vector<double>& krog = sgof_table[table_num][2];
             const std::vector<double>& pcog = sgof_table[table_num][3];
-            krg_ = NonuniformTableLinear<double>(sg, krg);
-            krog_ = NonuniformTableLinear<double>(sg, krog);
-            pcog_ = NonuniformTableLinear<double>(sg, pcog);
+            krg_ = NonuniformTableLinearConstOutside<double>(sg, krg);
+            krog_ = NonuniformTableLinearConstOutside<double>(sg, krog);
+            pcog_ = NonuniformTableLinearConstOutside<double>(sg, pcog);
             smin_[phase_usage.phase_pos[Vapour]] = sg[0];
             if (std::fabs(sg.back() + swco - 1.0) > 1e-3) {
                 THROW("Gas maximum saturation in SGOF table = " << sg.back() <<
diff --git a/opm/core/props/satfunc/SatFuncStone2.hpp b/opm/core/props/satfunc/SatFuncStone2.hpp
index c698948..4f767d0 100644
--- a/opm/core/props/satfunc/SatFuncStone2.hpp
+++ b/opm/core/props/satfunc/SatFuncStone2.hpp
@@ -79,12 +79,12 @@ namespace Opm
         double krorw_;  // Oil relperm at critical water saturation.
     private:
         PhaseUsage phase_usage; // A copy of the outer class' phase_usage_.
-        NonuniformTableLinear<double> krw_;
-        NonuniformTableLinear<double> krow_;
-        NonuniformTableLinear<double> pcow_;
-        NonuniformTableLinear<double> krg_;
-        NonuniformTableLinear<double> krog_;
-        NonuniformTableLinear<double> pcog_;
+        NonuniformTableLinearConstOutside<double> krw_;
+        NonuniformTableLinearConstOutside<double> krow_;
+        NonuniformTableLinearConstOutside<double> pcow_;
+        NonuniformTableLinearConstOutside<double> krg_;
+        NonuniformTableLinearConstOutside<double> krog_;
+        NonuniformTableLinearConstOutside<double> pcog_;
         double krocw_; // = krow_(s_wc)
     };
 
diff --git a/opm/core/utility/NonuniformTableLinear.hpp b/opm/core/utility/NonuniformTableLinear.hpp
index be2cf21..497fe43 100644
--- a/opm/core/utility/NonuniformTableLinear.hpp
+++ b/opm/core/utility/NonuniformTableLinear.hpp
@@ -87,6 +87,43 @@ namespace Opm
     };
 
 
+    /// @brief A NonuniformTableLinear that keeps the end values outside
+    ///        its domain instead of extrapolating.
+    template<typename T>
+    class NonuniformTableLinearConstOutside : public NonuniformTableLinear<T>
+    {
+    public:
+        NonuniformTableLinearConstOutside()
+        {
+        }
+
+        NonuniformTableLinearConstOutside(const std::vector<double>& x_values,
+                                          const std::vector<T>& y_values)
+            : NonuniformTableLinear<T>(x_values, y_values)
+        {
+        }
+
+        double operator()(const double x) const
+        {
+            if (x <= this->x_values_.front()) {
+                return this->y_values_.front();
+            }
+            if (x >= this->x_values_.back()) {
+                return this->y_values_.back();
+            }
+            return NonuniformTableLinear<T>::operator()(x);
+        }
+
+        double derivative(const double x) const
+        {
+            if (x < this->x_values_.front() || x > this->x_values_.back()) {
+                return 0.0;
+            }
+            return NonuniformTableLinear<T>::derivative(x);
+        }
+    };
+
+
     // A utility function
     /// @brief Detect if a sequence is nondecreasing.
     /// @tparam FI a forward iterator whose value type has operator< defined.
-- 
2.43.0


From 0375bcb4597e4d0cc838c88e410161a99ab726d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 069/134] fix: derivatives of the oil relative permeability
 were wrong in the Stone II model and undefined at connate water in the
 segregated model

---
 opm/core/props/satfunc/SatFuncGwseg.cpp  | 34 +++++++++++++++---------
 opm/core/props/satfunc/SatFuncStone2.cpp | 22 +++++++++------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncGwseg.cpp b/opm/core/props/satfunc/SatFuncGwseg.cpp
index b568fa1..254c1a8 100644
--- a/opm/core/props/satfunc/SatFuncGwseg.cpp
+++ b/opm/core/props/satfunc/SatFuncGwseg.cpp
@@ -154,12 +154,17 @@ namespace Opm
             const double dkrow = krow_.derivative(ssw);
             const double dkrog = krog_.derivative(ssg);
             const double d = ssg; // = sw - swco + sg (using 'd' for consistency with mrst docs).
-            dkrds[Aqua   + Aqua*np]   =  (xg/d)*krw + xw*dkrww;
-            dkrds[Aqua   + Vapour*np] = -(xw/d)*krw + xw*dkrww;
-            dkrds[Liquid + Aqua*np]   =  (xg/d)*krow + xw*dkrow - (xg/d)*krog + xg*dkrog;
-            dkrds[Liquid + Vapour*np] = -(xw/d)*krow + xw*dkrow + (xw/d)*krog + xg*dkrog;
-            dkrds[Vapour + Aqua*np]   = -(xg/d)*krg + xg*dkrgg;
-            dkrds[Vapour + Vapour*np] =  (xw/d)*krg + xg*dkrgg;
+            // Derivatives of xw. The denominator of xw is d or eps, whichever is larger.
+            const double dxww = (d > eps) ?  xg/d : 1.0/eps;
+            const double dxwg = (d > eps) ? -xw/d : 0.0;
+            if (s[Aqua] >= swco) { // Else nothing depends on water saturation.
+                dkrds[Aqua   + Aqua*np] =  dxww*krw + xw*dkrww;
+                dkrds[Liquid + Aqua*np] =  dxww*krow + xw*dkrow - dxww*krog + xg*dkrog;
+                dkrds[Vapour + Aqua*np] = -dxww*krg + xg*dkrgg;
+            }
+            dkrds[Aqua   + Vapour*np] =  dxwg*krw + xw*dkrww;
+            dkrds[Liquid + Vapour*np] =  dxwg*krow + xw*dkrow - dxwg*krog + xg*dkrog;
+            dkrds[Vapour + Vapour*np] = -dxwg*krg + xg*dkrgg;
             return;
         }
         // We have a two-phase situation. We know that oil is active.
@@ -359,12 +364,17 @@ namespace Opm
             const double dkrow = krow_.derivative(ssw);
             const double dkrog = krog_.derivative(ssg);
             const double d = ssg; // = sw - swco + sg (using 'd' for consistency with mrst docs).
-            dkrds[Aqua   + Aqua*np]   =  (xg/d)*krw + xw*dkrww;
-            dkrds[Aqua   + Vapour*np] = -(xw/d)*krw + xw*dkrww;
-            dkrds[Liquid + Aqua*np]   =  (xg/d)*krow + xw*dkrow - (xg/d)*krog + xg*dkrog;
-            dkrds[Liquid + Vapour*np] = -(xw/d)*krow + xw*dkrow + (xw/d)*krog + xg*dkrog;
-            dkrds[Vapour + Aqua*np]   = -(xg/d)*krg + xg*dkrgg;
-            dkrds[Vapour + Vapour*np] =  (xw/d)*krg + xg*dkrgg;
+            // Derivatives of xw. The denominator of xw is d or eps, whichever is larger.
+            const double dxww = (d > eps) ?  xg/d : 1.0/eps;
+            const double dxwg = (d > eps) ? -xw/d : 0.0;
+            if (s[Aqua] >= swco) { // Else nothing depends on water saturation.
+                dkrds[Aqua   + Aqua*np] =  dxww*krw + xw*dkrww;
+                dkrds[Liquid + Aqua*np] =  dxww*krow + xw*dkrow - dxww*krog + xg*dkrog;
+                dkrds[Vapour + Aqua*np] = -dxww*krg + xg*dkrgg;
+            }
+            dkrds[Aqua   + Vapour*np] =  dxwg*krw + xw*dkrww;
+            dkrds[Liquid + Vapour*np] =  dxwg*krow + xw*dkrow - dxwg*krog + xg*dkrog;
+            dkrds[Vapour + Vapour*np] = -dxwg*krg + xg*dkrgg;
             return;
         }
         // We have a two-phase situation. We know that oil is active.
diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index e712941..f10d106 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -140,14 +140,17 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
-            if (kr[Liquid] < 0.0) {
+            const bool oil_mobile = kr[Liquid] >= 0.0;
+            if (!oil_mobile) {
                 kr[Liquid] = 0.0;
             }
             dkrds[Aqua + Aqua*np] = dkrww;
             dkrds[Vapour + Vapour*np] = dkrgg;
-            dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
-            dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
+            if (oil_mobile) {
+                dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
+                dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
+                        + dkrow*(krog/krocw + krg);
+            }
             return;
         }
         // We have a two-phase situation. We know that oil is active.
@@ -334,14 +337,17 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
-            if (kr[Liquid] < 0.0) {
+            const bool oil_mobile = kr[Liquid] >= 0.0;
+            if (!oil_mobile) {
                 kr[Liquid] = 0.0;
             }
             dkrds[Aqua + Aqua*np] = dkrww;
             dkrds[Vapour + Vapour*np] = dkrgg;
-            dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
-            dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
+            if (oil_mobile) {
+                dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
+                dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
+                        + dkrow*(krog/krocw + krg);
+            }
             return;
         }
         // We have a two-phase situation. We know that oil is active.
-- 
2.43.0


From 8232059e8542f510f318a00a925a9f618c9c0037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 070/134] fix: end-point scaling read the wrong array, ignored
 shared critical points in three-point mode and used uninitialised table data
 for incompressible fluids

---
 opm/core/props/satfunc/SatFuncStone2.cpp      | 29 +++++++++++++++++--
 .../satfunc/SaturationPropsFromDeck_impl.hpp  |  6 ++--
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index f10d106..f333665 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -55,6 +55,27 @@ namespace Opm
             smin_[phase_usage.phase_pos[Aqua]] = sw[0];
             swmax = sw.back();
             smax_[phase_usage.phase_pos[Aqua]] = sw.back();
+
+            krwmax_ = krw.back();
+            kromax_ = krow.front();
+            swcr_ = swmax;
+            sowcr_ = 1.0 - swco;
+            krwr_ = krw.back();
+            krorw_ = krow.front();
+            for (std::vector<double>::size_type i=1; i<sw.size(); ++i) {
+                if (krw[i]> 0.0) {
+                   swcr_ = sw[i-1];
+                   krorw_ = krow[i-1];
+                   break;
+                }
+            }
+            for (std::vector<double>::size_type i=sw.size()-1; i>=1; --i) {
+                if (krow[i-1]> 0.0) {
+                   sowcr_ = 1.0 - sw[i];
+                   krwr_ = krw[i];
+                   break;
+                }
+            }
         }
         if (phase_usage.phase_used[Vapour]) {
             const SGOF::table_t& sgof_table = deck.getSGOF().sgof_;
@@ -103,7 +124,8 @@ namespace Opm
             int opos = phase_usage.phase_pos[Liquid];
             double sw = s[wpos];
             double krw = krw_(sw);
-            double krow = krow_(sw);
+            double so = s[opos];
+            double krow = krow_(1.0-so);
             kr[wpos] = krw;
             kr[opos] = krow;
         } else {
@@ -160,8 +182,9 @@ namespace Opm
             double sw = s[wpos];
             double krw = krw_(sw);
             double dkrww = krw_.derivative(sw);
-            double krow = krow_(sw);
-            double dkrow = krow_.derivative(sw);
+            double so = s[opos];
+            double krow = krow_(1.0-so);
+            double dkrow = krow_.derivative(1.0-so);
             kr[wpos] = krw;
             kr[opos] = krow;
             dkrds[wpos + wpos*np] = dkrww;
diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 5f1983c..b0bbf62 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -383,7 +383,7 @@ namespace Opm
        
        if (do_3pt_) { // Three-point scaling
            // Transforms for water saturation 
-           if (eps_.swcr_.empty() && eps_.swu_.empty()) {
+           if (eps_.swcr_.empty() && eps_.swu_.empty() && eps_.sowcr_.empty()) {
                ss[wpos] = s[wpos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).sowcr_;
@@ -399,7 +399,7 @@ namespace Opm
                }
            }
            // Transforms for oil saturation 
-           if (eps_.sowcr_.empty() && eps_.swl_.empty()) {
+           if (eps_.sowcr_.empty() && eps_.swl_.empty() && eps_.swcr_.empty()) {
                ss[opos] = s[opos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).swcr_;
@@ -477,7 +477,7 @@ namespace Opm
            } else if (sr > swmax-1.0e-6) {
                if (do_3pt_) { //Ignore krw and do two-point?
                    kr[wpos] *= eps_.krwr_[cell]/funcForCell(cell).krwr_;
-               } else if (!eps_.kro_.empty()){ //Ignore krwr and do two-point
+               } else if (!eps_.krw_.empty()){ //Ignore krwr and do two-point
                    kr[wpos] *= eps_.krw_[cell]/funcForCell(cell).krwmax_;
                }
            } else if (s[wpos] <= sr) {
-- 
2.43.0


From 209c8dd38e3e86c8642a1e000c149e0c7f58eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 071/134] fix: accept well name wildcards in WCONINJE and
 WCONPROD

The control records were matched with wildcards when the controls were
set, but the classification of the wells and the group specification of
each well looked names up literally, so that every wildcard record was
refused.
---
 opm/core/wells/WellsGroup.cpp   | 10 ++++++++--
 opm/core/wells/WellsGroup.hpp   |  6 ++++++
 opm/core/wells/WellsManager.cpp | 27 ++++++++++++++++-----------
 3 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 5e9c4ed..d70f787 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -1041,6 +1041,12 @@ namespace Opm
         }
     } // anonymous namespace
 
+    bool wellNameMatches(const std::string& pattern, const std::string& name)
+    {
+        const std::string::size_type len = pattern.find('*');
+        return name.compare(0, len, pattern, 0, len) == 0;
+    }
+
     std::tr1::shared_ptr<WellsGroupInterface> createWellsGroup(const std::string& name,
                                                                const EclipseGridParser& deck)
     {
@@ -1066,7 +1072,7 @@ namespace Opm
             if (deck.hasField("WCONINJE")) {
                 WCONINJE wconinje = deck.getWCONINJE();
                 for (size_t i = 0; i < wconinje.wconinje.size(); i++) {
-                    if (wconinje.wconinje[i].well_ == name) {
+                    if (wellNameMatches(wconinje.wconinje[i].well_, name)) {
                         WconinjeLine line = wconinje.wconinje[i];
                         injection_specification.BHP_limit_ = line.BHP_limit_;
                         injection_specification.injector_type_ = toInjectorType(line.injector_type_);
@@ -1081,7 +1087,7 @@ namespace Opm
             if (deck.hasField("WCONPROD")) {
                 WCONPROD wconprod = deck.getWCONPROD();
                 for (size_t i = 0; i < wconprod.wconprod.size(); i++) {
-                    if (wconprod.wconprod[i].well_ == name) {
+                    if (wellNameMatches(wconprod.wconprod[i].well_, name)) {
                         WconprodLine line = wconprod.wconprod[i];
                         production_specification.BHP_limit_ = line.BHP_limit_;
                         production_specification.reservoir_flow_max_rate_ = line.reservoir_flow_max_rate_;
diff --git a/opm/core/wells/WellsGroup.hpp b/opm/core/wells/WellsGroup.hpp
index 0da2008..28c4d28 100644
--- a/opm/core/wells/WellsGroup.hpp
+++ b/opm/core/wells/WellsGroup.hpp
@@ -399,6 +399,12 @@ namespace Opm
         bool shut_well_;
     };
 
+    /// Matches a well name against the well name of a deck record, in which
+    /// a '*' stands for any remainder of the name.
+    /// \param[in] pattern the name used in the deck record.
+    /// \param[in] name    the name of a well.
+    bool wellNameMatches(const std::string& pattern, const std::string& name);
+
     /// Creates the WellsGroupInterface for the given name
     /// \param[in] name the name of the wells group.
     /// \param[in] deck the deck from which to fetch information.
diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 328abd4..62e40e5 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -430,11 +430,14 @@ namespace Opm
         if (deck.hasField("WCONINJE")) {
             const std::vector<WconinjeLine>& lines = deck.getWCONINJE().wconinje;
             for (size_t i = 0 ; i < lines.size(); ++i) {
-                const std::map<std::string, int>::const_iterator it = well_names_to_index.find(lines[i].well_);
-                if (it != well_names_to_index.end()) {
-                    const int well_index = it->second;
-                    well_data[well_index].type = INJECTOR;
-                } else {
+                bool well_found = false;
+                for (int wix = 0; wix < num_wells; ++wix) {
+                    if (wellNameMatches(lines[i].well_, well_names[wix])) {
+                        well_data[wix].type = INJECTOR;
+                        well_found = true;
+                    }
+                }
+                if (!well_found) {
                     THROW("Unseen well name: " << lines[i].well_ << " first seen in WCONINJE");
                 }
             }
@@ -442,14 +445,16 @@ namespace Opm
         if (deck.hasField("WCONPROD")) {
             const std::vector<WconprodLine>& lines = deck.getWCONPROD().wconprod;
             for (size_t i = 0; i < lines.size(); ++i) {
-                const std::map<std::string, int>::const_iterator it = well_names_to_index.find(lines[i].well_);
-                if (it != well_names_to_index.end()) {
-                    const int well_index = it->second;
-                    well_data[well_index].type = PRODUCER;
-                } else {
+                bool well_found = false;
+                for (int wix = 0; wix < num_wells; ++wix) {
+                    if (wellNameMatches(lines[i].well_, well_names[wix])) {
+                        well_data[wix].type = PRODUCER;
+                        well_found = true;
+                    }
+                }
+                if (!well_found) {
                     THROW("Unseen well name: " << lines[i].well_ << " first seen in WCONPROD");
                 }
-
             }
         }
 
-- 
2.43.0


From bd2ca12e877c37c7aa05f0537c3562e3196e5d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 072/134] fix: create one group hierarchy node per well

A well with several WELSPECS lines got one leaf node for each, and the
additional nodes referred to wells beyond the end of the Wells struct.
---
 opm/core/wells/WellsManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 62e40e5..890b8c5 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -764,8 +764,9 @@ namespace Opm
                 well_collection_.addChild(it->first, it->second, deck);
             }
         }
-        for (size_t i = 0; i < welspecs.welspecs.size(); ++i) {
-            WelspecsLine line = welspecs.welspecs[i];
+        // One leaf node per well, as stated by the last WELSPECS line of the well.
+        for (int w = 0; w < num_wells; ++w) {
+            WelspecsLine line = welspecs.welspecs[well_data[w].welspecsline];
             well_collection_.addChild(line.name_, line.group_, deck);
         }
 
-- 
2.43.0


From 322b96bf8dfde42235ee9bcbd7f8a1e81b5d58d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 073/134] fix: initialise the type of wells without control
 records

---
 opm/core/wells/WellsManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 890b8c5..0cab45c 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -288,6 +288,8 @@ namespace Opm
                 well_names_to_index[welspecs.welspecs[w].name_] = well_data.size();
                 well_names.push_back(name);
                 WellData wd;
+                // Until a control record says otherwise.
+                wd.type = PRODUCER;
                 // If negative (defaulted), set refdepth to a marker
                 // value, will be changed after getting perforation
                 // data to the centroid of the cell of the top well
-- 
2.43.0


From 5b01803829d81cbfbb0901e5c75cfe44db087d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 074/134] fix: keep shut wells with GRUP control mode shut

The complement of the missing current control (-1) selected control 0,
opening the well (or failing an assertion for a well without limits of
its own), and group controls opened wells that WELOPEN had shut.
---
 opm/core/wells/WellsManager.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 0cab45c..1796b5f 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -49,6 +49,8 @@ namespace
         double reference_bhp_depth;
         // Opm::InjectionSpecification::InjectorType injected_phase;
         int welspecsline;
+        bool shut;          // Stated to be shut, by control record or WELOPEN.
+        bool group_control; // Mode is GRUP: no current control before group controls are applied.
     };
 
 
@@ -290,6 +292,8 @@ namespace Opm
                 WellData wd;
                 // Until a control record says otherwise.
                 wd.type = PRODUCER;
+                wd.shut = false;
+                wd.group_control = false;
                 // If negative (defaulted), set refdepth to a marker
                 // value, will be changed after getting perforation
                 // data to the centroid of the cell of the top well
@@ -539,7 +543,9 @@ namespace Opm
                             THROW("Control for " << wci_line.control_mode_ << " not specified in well " << well_names[wix]);
                         }
                         // We need to check if the well is shut or not
-                        if (wci_line.open_shut_flag_ == "SHUT") {
+                        well_data[wix].shut = (wci_line.open_shut_flag_ == "SHUT");
+                        well_data[wix].group_control = (mode == InjectionControl::GRUP);
+                        if (well_data[wix].shut && cpos >= 0) {
                         	cpos = ~cpos;
                         }
                         set_current_control(wix, cpos, w_);
@@ -667,7 +673,9 @@ namespace Opm
                             THROW("Control mode type " << mode << " not present in well " << well_names[wix]);
                         }
                         // If it's shut, we complement the cpos
-                        if (wcp_line.open_shut_flag_ == "SHUT") {
+                        well_data[wix].shut = (wcp_line.open_shut_flag_ == "SHUT");
+                        well_data[wix].group_control = (mode == ProductionControl::GRUP);
+                        if (well_data[wix].shut && cpos >= 0) {
                         	cpos = ~cpos; // So we can easily retrieve the cpos later
                         }
                         set_current_control(wix, cpos, w_);
@@ -740,17 +748,21 @@ namespace Opm
                 }
                 const int index = it->second;
                 if (line.openshutflag_ == "SHUT") {
+                    well_data[index].shut = true;
                     int& cur_ctrl = w_->ctrls[index]->current;
                     if (cur_ctrl >= 0) {
                         cur_ctrl = ~cur_ctrl;
                     }
                     ASSERT(w_->ctrls[index]->current < 0);
                 } else if (line.openshutflag_ == "OPEN") {
+                    well_data[index].shut = false;
                     int& cur_ctrl = w_->ctrls[index]->current;
-                    if (cur_ctrl < 0) {
-                        cur_ctrl = ~cur_ctrl;
+                    if (!well_data[index].group_control) {
+                        if (cur_ctrl < 0) {
+                            cur_ctrl = ~cur_ctrl;
+                        }
+                        ASSERT(w_->ctrls[index]->current >= 0);
                     }
-                    ASSERT(w_->ctrls[index]->current >= 0);
                 } else {
                     THROW("Unknown Open/close keyword: \"" << line.openshutflag_<< "\". Allowed values: OPEN, SHUT.");
                 }
@@ -808,6 +820,14 @@ namespace Opm
         }
         well_collection_.setWellsPointer(w_);
         well_collection_.applyGroupControls();
+
+        // Wells that are stated to be shut remain shut under group control.
+        for (int w = 0; w < num_wells; ++w) {
+            int& cur_ctrl = w_->ctrls[w]->current;
+            if (well_data[w].shut && cur_ctrl >= 0) {
+                cur_ctrl = ~cur_ctrl;
+            }
+        }
     }
 
 
-- 
2.43.0


From 6343d5d637590ec23fb8cd02d19b25cb161fd0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 075/134] fix: leave wells that are not under group control
 alone in subgroups

When a group control was applied to a subgroup without force, the
subgroup forced it upon all its wells, so that wells operating under
their own controls were given a zero group target.
---
 opm/core/wells/WellsGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index d70f787..959936a 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -269,7 +269,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->injectionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyInjGroupControl(control_mode, child_target, true);
+                children_[i]->applyInjGroupControl(control_mode, child_target, forced);
             }
             injSpec().control_mode_ = InjectionSpecification::FLD;
         }
@@ -294,7 +294,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->productionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyProdGroupControl(control_mode, child_target, true);
+                children_[i]->applyProdGroupControl(control_mode, child_target, forced);
             }
             prodSpec().control_mode_ = ProductionSpecification::FLD;
         }
-- 
2.43.0


From d4d5139881ccc02f43dd492dc14f46a106f8dedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 076/134] fix: shut the well with the largest production when a
 group limit is exceeded

Production rates are negative, so the largest signed rate belongs to the
well producing the least, or to an injector in the group.
---
 opm/core/wells/WellsGroup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 959936a..22b5e1c 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -428,7 +428,8 @@ namespace Opm
             std::pair<WellNode*, double> child_max = children_[i]->getWorstOffending(well_reservoirrates_phase,
                                                                                      well_surfacerates_phase,
                                                                                      mode);
-            if (i == 0 || max.second < child_max.second) {
+            // Production rates are negative.
+            if (i == 0 || child_max.second < max.second) {
                 max = child_max;
             }
         }
-- 
2.43.0


From 6815c21531bac6921a97eb83a2988874f9c0c456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 077/134] fix: record the production control a group has been
 put under

Like for injection, the limit that has become the group's control is not
to be checked again: rates meeting the target up to rounding would be
reported as violations for ever.
---
 opm/core/wells/WellsGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 22b5e1c..e1ae9a0 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -390,6 +390,7 @@ namespace Opm
                 applyProdGroupControl(production_mode_violated, 
                                       getTarget(production_mode_violated),
                                       true);
+                prodSpec().control_mode_ = production_mode_violated;
                 return false;
             case ProductionSpecification::NONE_P:
                 // Do nothing
-- 
2.43.0


From 46987e830a4b2943acc3a7a747738d9d090a4c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 078/134] fix: apply explicit reinjection controls of subgroups

Only groups at the top of the hierarchy got their REIN and VREP targets,
leaving the injectors of all other such groups without control.
---
 opm/core/wells/WellsGroup.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index e1ae9a0..1b1e5ae 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -617,6 +617,14 @@ namespace Opm
             }
             
         }
+        else if (injSpec().control_mode_ == InjectionSpecification::FLD
+                 || injSpec().control_mode_ == InjectionSpecification::NONE) {
+            // Subgroups may have reinjection controls.
+            for (size_t i = 0; i < children_.size(); ++i) {
+                children_[i]->applyExplicitReinjectionControls(well_reservoirrates_phase,
+                                                               well_surfacerates_phase);
+            }
+        }
     }
 
     // ==============    WellNode members   ============
-- 
2.43.0


From f3a99ffac5de22988db1b7342ce5e1886e43c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 079/134] fix: refuse injection group controls when the guide
 rates sum to zero

As for production. The targets became not-a-number.
---
 opm/core/wells/WellsGroup.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 1b1e5ae..5b8db99 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -481,6 +481,9 @@ namespace Opm
         case InjectionSpecification::RESV:
         {
             const double my_guide_rate = injectionGuideRate(true);
+            if (my_guide_rate == 0) {
+                THROW("Can't apply group control for group " << name() << " as the sum of guide rates for all group controlled wells is zero.");
+            }
             for (size_t i = 0; i < children_.size(); ++i) {
                 // Apply for all children. 
                 // Note, we do _not_ want to call the applyProdGroupControl in this object,
@@ -577,6 +580,9 @@ namespace Opm
             const double total_produced = getTotalProductionFlow(well_surfacerates_phase, phase);
             const double total_reinjected = - total_produced; // Production negative, injection positive
             const double my_guide_rate = injectionGuideRate(true);
+            if (my_guide_rate == 0) {
+                THROW("Can't apply group control for group " << name() << " as the sum of guide rates for all group controlled wells is zero.");
+            }
             for (size_t i = 0; i < children_.size(); ++i) {
                 // Apply for all children. 
                 // Note, we do _not_ want to call the applyProdGroupControl in this object,
@@ -606,6 +612,9 @@ namespace Opm
             }
             const double total_reinjected = - total_produced; // Production negative, injection positive
             const double my_guide_rate = injectionGuideRate(true);
+            if (my_guide_rate == 0) {
+                THROW("Can't apply group control for group " << name() << " as the sum of guide rates for all group controlled wells is zero.");
+            }
             for (size_t i = 0; i < children_.size(); ++i) {
                 // Apply for all children. 
                 // Note, we do _not_ want to call the applyProdGroupControl in this object,
-- 
2.43.0


From 84933e3861e44f0c1e3a9ea3b44492aeca4dafd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:52 +0000
Subject: [PATCH 080/134] fix: checking limits and applying group controls does
 not open shut wells

A shut well has no meaningful bottom-hole pressure, so its BHP limit could
be found violated, and the switch to that control opened the well. Group
controls forced upon a group opened its shut wells.
---
 opm/core/wells/WellsGroup.cpp | 22 ++++++++++++++++++++--
 opm/core/wells/WellsGroup.hpp |  3 +++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 5b8db99..1dda102 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -670,6 +670,10 @@ namespace Opm
         }
 
         // Check constraints.
+        if (isShut()) {
+            // Not subject to any.
+            return true;
+        }
         bool is_producer = (wells_->type[self_index_] == PRODUCER);
         const WellControls& ctrls = *wells_->ctrls[self_index_];
         for (int ctrl_index = 0; ctrl_index < ctrls.num; ++ctrl_index) {
@@ -808,6 +812,7 @@ namespace Opm
             return;
         }
 
+        const bool shut = isShut();
         const double distr[3] = { 1.0, 1.0, 1.0 };
         WellControlType wct;
         switch (control_mode) {
@@ -833,7 +838,8 @@ namespace Opm
             wells_->ctrls[self_index_]->target[group_control_index_] = target;
             std::copy(distr, distr + np, wells_->ctrls[self_index_]->distr + np*group_control_index_);
         }
-        set_current_control(self_index_, group_control_index_, wells_);
+        // A shut well gets the control, but remains shut.
+        set_current_control(self_index_, shut ? ~group_control_index_ : group_control_index_, wells_);
     }
 
 
@@ -852,6 +858,16 @@ namespace Opm
         return phase_flows[self_index_*phaseUsage().num_phases + phaseUsage().phase_pos[phase]];
     }
     
+    bool WellNode::isShut() const {
+        const bool group_controlled = (type() == INJECTOR)
+            ? injSpec().control_mode_ == InjectionSpecification::GRUP
+            : prodSpec().control_mode_ == ProductionSpecification::GRUP;
+        // Before it gets its group control, a well under group control
+        // has no current control without being shut.
+        return wells_->ctrls[self_index_]->current < 0
+            && !(group_controlled && group_control_index_ < 0);
+    }
+
     WellType WellNode::type() const {
         return wells_->type[self_index_];
     }
@@ -884,6 +900,7 @@ namespace Opm
             ASSERT(target == 0.0);
             return;
         }
+        const bool shut = isShut();
         // We're a producer, so we need to negate the input
         double ntarget = -target;
         
@@ -945,7 +962,8 @@ namespace Opm
             wells_->ctrls[self_index_]->target[group_control_index_] = ntarget;
             std::copy(distr, distr + np, wells_->ctrls[self_index_]->distr + np*group_control_index_);
         }
-        set_current_control(self_index_, group_control_index_, wells_);
+        // A shut well gets the control, but remains shut.
+        set_current_control(self_index_, shut ? ~group_control_index_ : group_control_index_, wells_);
     }
 
     
diff --git a/opm/core/wells/WellsGroup.hpp b/opm/core/wells/WellsGroup.hpp
index 28c4d28..22759d9 100644
--- a/opm/core/wells/WellsGroup.hpp
+++ b/opm/core/wells/WellsGroup.hpp
@@ -379,6 +379,9 @@ namespace Opm
 
         /// Returns the type of the well.
         WellType type() const;
+
+        /// Whether the well is shut.
+        bool isShut() const;
         
         /// Applies explicit reinjection controls. This must be called at each timestep to be correct.
         /// \param[in]    well_reservoirrates_phase
-- 
2.43.0


From 9c1f723c83a41cf0bd1e2318bca322f340c4dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 081/134] fix: tell shut wells without current control from
 those awaiting group control

A SHUT well in GRUP mode without active group control was opened by its
own BHP limit or by a group control applied later.
---
 opm/core/wells/WellsGroup.cpp   | 12 +++++++++---
 opm/core/wells/WellsGroup.hpp   |  5 +++++
 opm/core/wells/WellsManager.cpp |  8 +++-----
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 1dda102..a750ed2 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -648,7 +648,8 @@ namespace Opm
           wells_(0),
           self_index_(-1),
           group_control_index_(-1),
-          shut_well_(true) // This is default for now
+          shut_well_(true), // This is default for now
+          stated_shut_(false)
     {
     }
 
@@ -864,8 +865,13 @@ namespace Opm
             : prodSpec().control_mode_ == ProductionSpecification::GRUP;
         // Before it gets its group control, a well under group control
         // has no current control without being shut.
-        return wells_->ctrls[self_index_]->current < 0
-            && !(group_controlled && group_control_index_ < 0);
+        return stated_shut_
+            || (wells_->ctrls[self_index_]->current < 0
+                && !(group_controlled && group_control_index_ < 0));
+    }
+
+    void WellNode::setShut() {
+        stated_shut_ = true;
     }
 
     WellType WellNode::type() const {
diff --git a/opm/core/wells/WellsGroup.hpp b/opm/core/wells/WellsGroup.hpp
index 22759d9..8676779 100644
--- a/opm/core/wells/WellsGroup.hpp
+++ b/opm/core/wells/WellsGroup.hpp
@@ -382,6 +382,10 @@ namespace Opm
 
         /// Whether the well is shut.
         bool isShut() const;
+
+        /// States that the well is shut. This is necessary for wells under
+        /// group control, which have no current control to begin with.
+        void setShut();
         
         /// Applies explicit reinjection controls. This must be called at each timestep to be correct.
         /// \param[in]    well_reservoirrates_phase
@@ -400,6 +404,7 @@ namespace Opm
         int self_index_;
         int group_control_index_;
         bool shut_well_;
+        bool stated_shut_;
     };
 
     /// Matches a well name against the well name of a deck record, in which
diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 1796b5f..1afae2d 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -819,15 +819,13 @@ namespace Opm
             }
         }
         well_collection_.setWellsPointer(w_);
-        well_collection_.applyGroupControls();
-
         // Wells that are stated to be shut remain shut under group control.
         for (int w = 0; w < num_wells; ++w) {
-            int& cur_ctrl = w_->ctrls[w]->current;
-            if (well_data[w].shut && cur_ctrl >= 0) {
-                cur_ctrl = ~cur_ctrl;
+            if (well_data[w].shut) {
+                well_collection_.getLeafNodes()[w]->setShut();
             }
         }
+        well_collection_.applyGroupControls();
     }
 
 
-- 
2.43.0


From 695cfc7dc9da2d98de05ac06b1877700ad860a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:15 +0000
Subject: [PATCH 082/134] fix: do not loop for ever on parameter file lines
 without a parameter name

---
 opm/core/utility/parameters/ParameterGroup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index ce85d4d..04a086e 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -127,6 +127,7 @@ namespace Opm {
                     int fpos = parameter.find(ID_delimiter_assignment);
                     if (fpos == int(std::string::npos)) {
                         std::cerr << "WARNING: No '" << ID_delimiter_assignment << "' found on line " << lineno << ".\n";
+                        continue;
                     }
                     int pos = fpos + ID_delimiter_assignment.size();
                     int spos = parameter.find(ID_delimiter_assignment, pos);
@@ -206,6 +207,10 @@ namespace Opm {
 	void ParameterGroup::insertParameter(const std::string& name,
                                              const std::string& value)
         {
+	    if (name.find_first_not_of(ID_delimiter_path) == std::string::npos) {
+		std::cerr << "Error: Cannot insert a parameter without a name ('" << name << "').\n";
+		throw std::exception();
+	    }
 	    std::pair<std::string, std::string> name_path = split(name);
 	    while (name_path.first == "") {
 		name_path = split(name_path.second);
-- 
2.43.0


From bd28e8c0e2b8685f20217c6feebfa3e7c7f4440b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 083/134] fix: make groups moved by a merge refer to their new
 parent

---
 opm/core/utility/parameters/ParameterGroup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 04a086e..39683ef 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -187,6 +187,10 @@ namespace Opm {
 		    ParameterGroup& beta  = dynamic_cast<ParameterGroup&>(*data);
 		    for (map_type::const_iterator
                              item = beta.map_.begin(); item != beta.map_.end(); ++item) {
+			if ((*item).second->getTag() == ID_xmltag__param_grp) {
+			    // beta may not outlive this call.
+			    dynamic_cast<ParameterGroup&>(*(*item).second).parent_ = &alpha;
+			}
 			alpha.insert((*item).first, (*item).second);
 		    }
 		} else {
-- 
2.43.0


From e4800665975c85e9ae7450e9737bc0962f069cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 084/134] fix: let the non-empty requirement refuse the empty
 string, not all others

---
 opm/core/utility/parameters/ParameterRequirement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/parameters/ParameterRequirement.hpp b/opm/core/utility/parameters/ParameterRequirement.hpp
index c9b19f7..670fc54 100644
--- a/opm/core/utility/parameters/ParameterRequirement.hpp
+++ b/opm/core/utility/parameters/ParameterRequirement.hpp
@@ -167,7 +167,7 @@ namespace Opm {
 	/// @return
 	struct ParameterRequirementNonEmpty {
 	    std::string operator()(const std::string& x) const {
-		if (x != "") {
+		if (x == "") {
 		    return "The string was empty.";
 		} else {
 		    return "";
-- 
2.43.0


From 92cc3604322d1aa7c65736405f9f64990c9457a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 085/134] fix: refuse numeric parameter values with trailing
 characters

---
 opm/core/utility/parameters/Parameter.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/parameters/Parameter.hpp b/opm/core/utility/parameters/Parameter.hpp
index c96a981..a368ad7 100644
--- a/opm/core/utility/parameters/Parameter.hpp
+++ b/opm/core/utility/parameters/Parameter.hpp
@@ -105,7 +105,7 @@ namespace Opm {
 		stream << parameter.getValue();
 		int value;
 		stream >> value;
-		if (stream.fail()) {
+		if (stream.fail() || !(stream >> std::ws).eof()) {
 		    conversion_error = "Conversion to '" +
                                        ID_param_type__int +
                                        "' failed. Data was '" +
@@ -140,7 +140,7 @@ namespace Opm {
 		stream << parameter.getValue();
 		double value;
 		stream >> value;
-		if (stream.fail()) {
+		if (stream.fail() || !(stream >> std::ws).eof()) {
 		    conversion_error = "Conversion to '" +
                                        ID_param_type__float +
                                        "' failed. Data was '" +
-- 
2.43.0


From 2bcdf84319ad67208fb87e5ff137d5fe06f7c343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 086/134] fix: define initBlackoilStateFromDeck()

---
 opm/core/simulator/initState_impl.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index d8e53bd..889992e 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -599,6 +599,19 @@ namespace Opm
     }
 
 
+    /// Initialize a two-phase water-oil blackoil state from input deck.
+    template <class Props, class State>
+    void initBlackoilStateFromDeck(const UnstructuredGrid& grid,
+                                   const Props& props,
+                                   const EclipseGridParser& deck,
+                                   const double gravity,
+                                   State& state)
+    {
+        initStateFromDeck(grid, props, deck, gravity, state);
+        initBlackoilSurfvol(grid, props, state);
+    }
+
+
 } // namespace Opm
 
 
-- 
2.43.0


From e3a80d48d8908a4d3aac699738c80d620823170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 087/134] fix: read ref_pressure as a real number

---
 opm/core/simulator/initState_impl.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 889992e..fae5b23 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -337,7 +337,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (segregation_testcase) {
             // Warn against error-prone usage.
@@ -351,7 +351,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterAbove, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             double dens[2] = { props.density()[1], props.density()[0] };
             initHydrostaticPressure(grid, dens, woc, gravity, woc, ref_p, state);
         } else if (param.has("water_oil_contact")) {
@@ -366,7 +366,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props.density(), woc, gravity, woc, ref_p, state);
         } else if (param.has("init_saturation")) {
             // Initialise water saturation to init_saturation parameter.
@@ -376,7 +376,7 @@ namespace Opm
                 state.saturation()[2*cell + 1] = 1.0 - init_saturation;
             }
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[0]*init_saturation + props.density()[1]*(1.0 - init_saturation);
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -384,7 +384,7 @@ namespace Opm
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[1];
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -432,7 +432,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (param.has("water_oil_contact")) {
             // Warn against error-prone usage.
@@ -446,12 +446,12 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props, woc, gravity, woc, ref_p, state);
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
             const double woc = -1e100;
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
-- 
2.43.0


From 2b03570397b2c07f654e526110d7219c23385b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 088/134] fix: integrate compressible hydrostatic pressures
 over the right intervals

---
 opm/core/simulator/initState_impl.hpp | 70 ++++++++++++++-------------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index fae5b23..7c43ef3 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -165,6 +165,32 @@ namespace Opm
             }
         };
 
+        // Helper for initHydrostaticPressure() for compressible fluids.
+        // Solve dp/dz = rho(p)*gravity for a single phase from (z0, p0) to z1,
+        // with steps no longer than hmax, storing p(z) after every step.
+        // Returns the pressure at z1.
+        inline double solveHydrostaticOde(Density& rho,
+                                          const int phase,
+                                          const double gravity,
+                                          const double hmax,
+                                          const double z0,
+                                          const double p0,
+                                          const double z1,
+                                          std::map<double, double>& press_by_z)
+        {
+            if (z0 == z1) {
+                return p0;
+            }
+            const int num_steps = int(std::ceil(std::fabs(z1 - z0)/hmax));
+            const double h = (z1 - z0)/double(num_steps);
+            double pval = p0;
+            for (int i = 0; i < num_steps; ++i) {
+                pval += h*rho(pval, phase)*gravity;
+                press_by_z[i + 1 == num_steps ? z1 : z0 + (i + 1)*h] = pval;
+            }
+            return pval;
+        }
+
         // Initialize hydrostatic pressures depending only on gravity,
         // phase densities that may vary with pressure and a water-oil
         // contact depth. The pressure ODE is given as
@@ -186,15 +212,15 @@ namespace Opm
             // Obtain max and min z for which we will need to compute p.
             const int num_cells = grid.number_of_cells;
             const int dim = grid.dimensions;
-            double zlim[2] = { 1e100, -1e100 };
+            double zlim[2] = { datum_z, datum_z };
             for (int c = 0; c < num_cells; ++c) {
                 const double z = grid.cell_centroids[dim*c + dim - 1];
                 zlim[0] = std::min(zlim[0], z);
                 zlim[1] = std::max(zlim[1], z);
             }
 
-            // We'll use a minimum stepsize of 1/100 of the z range.
-            const double hmin = (zlim[1] - zlim[0])/100.0;
+            // We'll use a maximum stepsize of 1/100 of the z range.
+            const double hmax = (zlim[1] - zlim[0])/100.0;
 
             // Store p(z) results in an associative array.
             std::map<double, double> press_by_z;
@@ -203,46 +229,24 @@ namespace Opm
             // Set up density evaluator.
             Density rho(props);
 
+            // Only the part of the z range on the far side of the
+            // woc (as seen from the datum) contains the other phase.
+            const double woc_z = std::min(std::max(woc, zlim[0]), zlim[1]);
+
             // Solve the ODE from datum_z to woc.
             int phase = (datum_z > woc) ? 0 : 1;
-            int num_steps = int(std::ceil(std::fabs(woc - datum_z)/hmin));
-            double pval = datum_p;
-            double zval = datum_z;
-            double h = (woc - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
-            }
-            double woc_p = pval;
+            const double woc_p = solveHydrostaticOde(rho, phase, gravity, hmax,
+                                                     datum_z, datum_p, woc_z, press_by_z);
 
             // Solve the ODE from datum_z to the end of the interval.
             double z_end = (datum_z > woc) ? zlim[1] : zlim[0];
-            num_steps = int(std::ceil(std::fabs(z_end - datum_z)/hmin));
-            pval = datum_p;
-            zval = datum_z;
-            h = (z_end - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
-            }
+            solveHydrostaticOde(rho, phase, gravity, hmax, datum_z, datum_p, z_end, press_by_z);
 
             // Solve the ODE from woc to the other end of the interval.
             // Switching phase and z_end.
             phase = (phase + 1) % 2;
             z_end = (datum_z > woc) ? zlim[0] : zlim[1];
-            pval = woc_p;
-            zval = woc;
-            h = (z_end - datum_z)/double(num_steps);
-            for (int i = 0; i < num_steps; ++i) {
-                zval += h;
-                const double dp = rho(pval, phase)*gravity;
-                pval += h*dp;
-                press_by_z[zval] = pval;
-            }
+            solveHydrostaticOde(rho, phase, gravity, hmax, woc_z, woc_p, z_end, press_by_z);
 
             // Create monotone spline for interpolating solution.
             std::vector<double> zv, pv;
-- 
2.43.0


From 3f7d3d166b04310f2125fbf769e7acab4c14f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:56 +0000
Subject: [PATCH 089/134] fix: use the oil density for default hydrostatic
 pressures of blackoil states

---
 opm/core/simulator/initState_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index 7c43ef3..6f9c73a 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -457,7 +457,7 @@ namespace Opm
             // Initialise pressure to hydrostatic state.
             const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
-            const double woc = -1e100;
+            const double woc = 1e100; // There is oil only.
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
         }
 
-- 
2.43.0


From b898282faa9d6032a075280869faa4f6c6edbbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:20 +0000
Subject: [PATCH 090/134] fix: let setFirstSat() accept an empty set of cells

---
 opm/core/simulator/BlackoilState.hpp | 3 +++
 opm/core/simulator/TwophaseState.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/opm/core/simulator/BlackoilState.hpp b/opm/core/simulator/BlackoilState.hpp
index 153c2ee..eeaa442 100644
--- a/opm/core/simulator/BlackoilState.hpp
+++ b/opm/core/simulator/BlackoilState.hpp
@@ -60,6 +60,9 @@ namespace Opm
                          ExtremalSat es)
         {
             const int n = cells.size();
+            if (n == 0) {
+                return;
+            }
             std::vector<double> smin(num_phases_*n);
             std::vector<double> smax(num_phases_*n);
             props.satRange(n, &cells[0], &smin[0], &smax[0]);
diff --git a/opm/core/simulator/TwophaseState.hpp b/opm/core/simulator/TwophaseState.hpp
index e1eaa17..5487b6d 100644
--- a/opm/core/simulator/TwophaseState.hpp
+++ b/opm/core/simulator/TwophaseState.hpp
@@ -56,6 +56,9 @@ namespace Opm
                          ExtremalSat es)
         {
             const int n = cells.size();
+            if (n == 0) {
+                return;
+            }
             std::vector<double> smin(num_phases_*n);
             std::vector<double> smax(num_phases_*n);
             props.satRange(n, &cells[0], &smin[0], &smax[0]);
-- 
2.43.0


From d5ac42670f9a11d5e0633704b5ff3ba41bc09f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 091/134] fix: simulators: transport substeps must follow the
 changing pore volume

---
 opm/core/simulator/SimulatorCompressibleTwophase.cpp | 11 ++++++++++-
 opm/core/simulator/SimulatorIncompTwophase.cpp       | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 1905bce..4047d35 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -443,9 +443,18 @@ namespace Opm
             }
             double injected[2] = { 0.0 };
             double produced[2] = { 0.0 };
+            // Pore volumes at the start and end of each transport substep.
+            std::vector<double> begin_porevol;
+            std::vector<double> end_porevol = initial_porevol;
             for (int tr_substep = 0; tr_substep < num_transport_substeps_; ++tr_substep) {
+                begin_porevol = end_porevol;
+                const double step_frac = double(tr_substep + 1)/double(num_transport_substeps_);
+                for (std::vector<double>::size_type c = 0; c < porevol.size(); ++c) {
+                    end_porevol[c] = (tr_substep + 1 == num_transport_substeps_) ? porevol[c]
+                        : initial_porevol[c] + step_frac*(porevol[c] - initial_porevol[c]);
+                }
                 tsolver_.solve(&state.faceflux()[0], &state.pressure()[0],
-                               &initial_porevol[0], &porevol[0], &transport_src[0], stepsize,
+                               &begin_porevol[0], &end_porevol[0], &transport_src[0], stepsize,
                                state.saturation(), state.surfacevol());
                 double substep_injected[2] = { 0.0 };
                 double substep_produced[2] = { 0.0 };
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 5b60a8f..bc44acb 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -542,8 +542,17 @@ namespace Opm
             }
             double injected[2] = { 0.0 };
             double produced[2] = { 0.0 };
+            // Pore volumes at the start and end of each transport substep.
+            std::vector<double> begin_porevol;
+            std::vector<double> end_porevol = initial_porevol;
             for (int tr_substep = 0; tr_substep < num_transport_substeps_; ++tr_substep) {
-                tsolver_->solve(&initial_porevol[0], &transport_src[0], stepsize, state);
+                begin_porevol = end_porevol;
+                const double step_frac = double(tr_substep + 1)/double(num_transport_substeps_);
+                for (std::vector<double>::size_type c = 0; c < porevol.size(); ++c) {
+                    end_porevol[c] = (tr_substep + 1 == num_transport_substeps_) ? porevol[c]
+                        : initial_porevol[c] + step_frac*(porevol[c] - initial_porevol[c]);
+                }
+                tsolver_->solve(&begin_porevol[0], &transport_src[0], stepsize, state);
 
                 double substep_injected[2] = { 0.0 };
                 double substep_produced[2] = { 0.0 };
-- 
2.43.0


From 28f6e0690da55b5ca64da4d9621ee9125b76b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 092/134] fix: SimulatorIncompTwophase: segregate with the pore
 volume at the end of the step

---
 opm/core/simulator/SimulatorIncompTwophase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index bc44acb..dfddf66 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -566,7 +566,7 @@ namespace Opm
                     // Again, unfortunate but safe use of dynamic_cast.
                     // Possible solution: refactor gravity solver to its own class.
                     dynamic_cast<TransportSolverTwophaseReorder&>(*tsolver_)
-                        .solveGravity(&initial_porevol[0], stepsize, state);
+                        .solveGravity(&end_porevol[0], stepsize, state);
                 }
                 watercut.push(timer.currentTime() + timer.currentStepLength(),
                               produced[0]/(produced[0] + produced[1]),
-- 
2.43.0


From 83d912d4dabd81f8d04f28bb8ad836ffbda95ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:42 +0000
Subject: [PATCH 093/134] fix: simulators: checking well controls without wells
 dereferenced a null pointer

---
 opm/core/simulator/SimulatorCompressibleTwophase.cpp | 3 ++-
 opm/core/simulator/SimulatorIncompTwophase.cpp       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 4047d35..c359098 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -274,7 +274,8 @@ namespace Opm
         }
 
         // Well control related init.
-        check_well_controls_ = param.getDefault("check_well_controls", false);
+        check_well_controls_ = param.getDefault("check_well_controls", false)
+            && wells_ != 0;
         max_well_control_iterations_ = param.getDefault("max_well_control_iterations", 10);
 
         // Transport related init.
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index dfddf66..5bb595c 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -373,7 +373,8 @@ namespace Opm
         }
 
         // Well control related init.
-        check_well_controls_ = param.getDefault("check_well_controls", false);
+        check_well_controls_ = param.getDefault("check_well_controls", false)
+            && wells_ != 0;
         max_well_control_iterations_ = param.getDefault("max_well_control_iterations", 10);
 
         // Transport related init.
-- 
2.43.0


From 65f597b2f155574dbadcbe176b03ae1ba00ab2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 094/134] fix: SimulatorIncompTwophase: water cut and well
 report once per step, including the step's own production

---
 opm/core/simulator/SimulatorIncompTwophase.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index 5bb595c..eb166d7 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -569,14 +569,6 @@ namespace Opm
                     dynamic_cast<TransportSolverTwophaseReorder&>(*tsolver_)
                         .solveGravity(&end_porevol[0], stepsize, state);
                 }
-                watercut.push(timer.currentTime() + timer.currentStepLength(),
-                              produced[0]/(produced[0] + produced[1]),
-                              tot_produced[0]/tot_porevol_init);
-                if (wells_) {
-                    wellreport.push(props_, *wells_, state.saturation(),
-                                    timer.currentTime() + timer.currentStepLength(),
-                                    well_state.bhp(), well_state.perfRates());
-                }
             }
             transport_timer.stop();
             double tt = transport_timer.secsSinceStart();
@@ -593,6 +585,14 @@ namespace Opm
                           tot_injected, tot_produced,
                           injected, produced,
                           init_satvol);
+            watercut.push(timer.currentTime() + timer.currentStepLength(),
+                          produced[0]/(produced[0] + produced[1]),
+                          tot_produced[0]/tot_porevol_init);
+            if (wells_) {
+                wellreport.push(props_, *wells_, state.saturation(),
+                                timer.currentTime() + timer.currentStepLength(),
+                                well_state.bhp(), well_state.perfRates());
+            }
             sreport.total_time =  step_timer.secsSinceStart();
             if (output_) {
                 sreport.reportParam(tstep_os);
-- 
2.43.0


From ff885670bb10125d18a7856d96d826c7ab534b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:36 +0000
Subject: [PATCH 095/134] fix: simulators: report failed writes of step and
 report files

---
 .../SimulatorCompressibleTwophase.cpp         | 22 ++++++++++++++++
 .../simulator/SimulatorIncompTwophase.cpp     | 26 +++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index c359098..3840d3f 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -164,6 +164,10 @@ namespace Opm
         Opm::estimateCellVelocity(grid, state.faceflux(), cell_velocity);
         dm["velocity"] = &cell_velocity;
         Opm::writeVtkData(grid, dm, vtkfile);
+        vtkfile.close();
+        if (!vtkfile) {
+            THROW("Failed to write " << vtkfilename.str());
+        }
     }
 
 
@@ -199,6 +203,10 @@ namespace Opm
             file.precision(15);
             const std::vector<double>& d = *(it->second);
             std::copy(d.begin(), d.end(), std::ostream_iterator<double>(file, "\n"));
+            file.close();
+            if (!file) {
+                THROW("Failed to write " << fname.str());
+            }
         }
     }
 
@@ -213,6 +221,10 @@ namespace Opm
             THROW("Failed to open " << fname);
         }
         watercut.write(os);
+        os.close();
+        if (!os) {
+            THROW("Failed to write " << fname);
+        }
     }
 
 
@@ -226,6 +238,10 @@ namespace Opm
             THROW("Failed to open " << fname);
         }
         wellreport.write(os);
+        os.close();
+        if (!os) {
+            THROW("Failed to write " << fname);
+        }
     }
 
 
@@ -341,6 +357,9 @@ namespace Opm
         if (output_) {
             std::string filename = output_dir_ + "/step_timing.param";
             tstep_os.open(filename.c_str(), std::fstream::out | std::fstream::app);
+            if (!tstep_os) {
+                THROW("Failed to open " << filename);
+            }
         }
         for (; !timer.done(); ++timer) {
             // Report timestep and (optionally) write state to disk.
@@ -532,6 +551,9 @@ namespace Opm
                 outputWellReport(wellreport, output_dir_);
             }
             tstep_os.close();
+            if (!tstep_os) {
+                THROW("Failed to write step timings to " << output_dir_);
+            }
         }
 
         total_timer.stop();
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index eb166d7..a7e8edd 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -190,6 +190,10 @@ namespace Opm
         Opm::estimateCellVelocity(grid, state.faceflux(), cell_velocity);
         dm["velocity"] = &cell_velocity;
         Opm::writeVtkData(grid, dm, vtkfile);
+        vtkfile.close();
+        if (!vtkfile) {
+            THROW("Failed to write " << vtkfilename.str());
+        }
     }
 
     static void outputVectorMatlab(const std::string& name,
@@ -212,6 +216,10 @@ namespace Opm
             THROW("Failed to open " << fname.str());
         }
         std::copy(vec.begin(), vec.end(), std::ostream_iterator<double>(file, "\n"));
+        file.close();
+        if (!file) {
+            THROW("Failed to write " << fname.str());
+        }
     }
 
     static void outputStateMatlab(const UnstructuredGrid& grid,
@@ -245,6 +253,10 @@ namespace Opm
             file.precision(15);
             const std::vector<double>& d = *(it->second);
             std::copy(d.begin(), d.end(), std::ostream_iterator<double>(file, "\n"));
+            file.close();
+            if (!file) {
+                THROW("Failed to write " << fname.str());
+            }
         }
     }
 
@@ -259,6 +271,10 @@ namespace Opm
             THROW("Failed to open " << fname);
         }
         watercut.write(os);
+        os.close();
+        if (!os) {
+            THROW("Failed to write " << fname);
+        }
     }
 
 
@@ -272,6 +288,10 @@ namespace Opm
             THROW("Failed to open " << fname);
         }
         wellreport.write(os);
+        os.close();
+        if (!os) {
+            THROW("Failed to write " << fname);
+        }
     }
 
 
@@ -435,6 +455,9 @@ namespace Opm
         if (output_) {
             std::string filename = output_dir_ + "/step_timing.param";
             tstep_os.open(filename.c_str(), std::fstream::out | std::fstream::app);
+            if (!tstep_os) {
+                THROW("Failed to open " << filename);
+            }
         }
         for (; !timer.done(); ++timer) {
             // Report timestep and (optionally) write state to disk.
@@ -615,6 +638,9 @@ namespace Opm
                 outputWellReport(wellreport, output_dir_);
             }
             tstep_os.close();
+            if (!tstep_os) {
+                THROW("Failed to write step timings to " << output_dir_);
+            }
         }
 
         total_timer.stop();
-- 
2.43.0


From 5359e334aa9edfdbbe14c3bc197c7f310c5cdeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:10 +0000
Subject: [PATCH 096/134] fix: read_grid: reject inconsistent sizes and indices
 instead of writing out of bounds or returning a broken grid

---
 opm/core/grid/grid.c | 96 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 88 insertions(+), 8 deletions(-)

diff --git a/opm/core/grid/grid.c b/opm/core/grid/grid.c
index 58179b7..653382d 100644
--- a/opm/core/grid/grid.c
+++ b/opm/core/grid/grid.c
@@ -22,6 +22,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -175,14 +176,66 @@ input_error(FILE *fp, const char * const err)
 }
 
 
+/* Whether the sizes declared in a grid file can describe a grid. */
+static int
+valid_grid_sizes(const size_t *dimens)
+{
+    size_t i;
+
+    if ((dimens[GRID_NDIMS] < 1) || (dimens[GRID_NDIMS] > 3)) {
+        return 0;
+    }
+
+    for (i = 0; i < GRID_NMETA; i++) {
+        /* Largest count whose (x,y,z) coordinates are indexable by int */
+        if (dimens[i] > (size_t) (INT_MAX / 3 - 1)) {
+            return 0;
+        }
+    }
+
+    return 1;
+}
+
+
+/* Whether 'pos' divides 'n' items, as promised by the file's header. */
+static int
+valid_indirection(const int *pos, size_t m, size_t n)
+{
+    size_t i;
+
+    if (pos[0] != 0) { return 0; }
+
+    for (i = 0; i < m; i++) {
+        if (pos[i + 1] < pos[i]) { return 0; }
+    }
+
+    return (size_t) pos[m] == n;
+}
+
+
+/* Whether all of the 'n' indices are in the range [lo, hi). */
+static int
+valid_indices(const int *ix, size_t n, int lo, int hi)
+{
+    size_t i;
+
+    for (i = 0; i < n; i++) {
+        if ((ix[i] < lo) || (ix[i] >= hi)) { return 0; }
+    }
+
+    return 1;
+}
+
+
 static struct UnstructuredGrid *
-allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
+allocate_grid_from_file(FILE *fp, size_t *dimens,
+                        int *has_tag, int *has_indexmap)
 {
     struct UnstructuredGrid *G;
 
     int           save_errno;
     unsigned long tmp;
-    size_t        dimens[GRID_NMETA], i;
+    size_t        i;
 
     save_errno = errno;
 
@@ -193,7 +246,11 @@ allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
         i += 1;
     }
 
-    if (i == GRID_NMETA) {
+    if ((i == GRID_NMETA) && ! valid_grid_sizes(dimens)) {
+        fprintf(stderr, "Invalid grid dimensions\n");
+        G = NULL;
+    }
+    else if (i == GRID_NMETA) {
         if (fscanf(fp, "%d %d", has_tag, has_indexmap) == 2) {
             G = allocate_grid(dimens[GRID_NDIMS]     ,
                               dimens[GRID_NCELLS]    ,
@@ -285,7 +342,7 @@ read_grid_nodes(FILE *fp, struct UnstructuredGrid *G)
 
 
 static int
-read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
+read_grid_faces(FILE *fp, size_t nfacenodes, struct UnstructuredGrid *G)
 {
     int    save_errno, ok;
     size_t nf, nfn, i;
@@ -305,6 +362,10 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
     if (! ok) {
         input_error(fp, "Unable to read node indirection array");
     }
+    else if (! valid_indirection(G->face_nodepos, nf, nfacenodes)) {
+        fprintf(stderr, "Invalid node indirection array\n");
+        ok = 0;
+    }
     else {
         /* G->face_nodes */
         nfn = G->face_nodepos[ nf ];
@@ -318,6 +379,10 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
         if (! ok) {
             input_error(fp, "Unable to read face-nodes");
         }
+        else if (! valid_indices(G->face_nodes, nfn, 0, G->number_of_nodes)) {
+            fprintf(stderr, "Invalid face-nodes\n");
+            ok = 0;
+        }
     }
 
     if (ok) {
@@ -331,6 +396,11 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
         if (! ok) {
             input_error(fp, "Unable to read neighbourship");
         }
+        else if (! valid_indices(G->face_cells, 2 * nf,
+                                 -1, G->number_of_cells)) {
+            fprintf(stderr, "Invalid neighbourship\n");
+            ok = 0;
+        }
     }
 
     if (ok) {
@@ -389,7 +459,7 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
 
 
 static int
-read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
+read_grid_cells(FILE *fp, size_t ncellfaces, int has_tag, int has_indexmap,
                 struct UnstructuredGrid *G)
 {
     int    save_errno, ok;
@@ -409,6 +479,10 @@ read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
     if (! ok) {
         input_error(fp, "Unable to read face indirection array");
     }
+    else if (! valid_indirection(G->cell_facepos, nc, ncellfaces)) {
+        fprintf(stderr, "Invalid face indirection array\n");
+        ok = 0;
+    }
     else {
         /* G->cell_faces (and G->cell_facetag if applicable) */
         ncf = G->cell_facepos[ nc ];
@@ -435,6 +509,10 @@ read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
         if (! ok) {
             input_error(fp, "Unable to read cell-faces");
         }
+        else if (! valid_indices(G->cell_faces, ncf, 0, G->number_of_faces)) {
+            fprintf(stderr, "Invalid cell-faces\n");
+            ok = 0;
+        }
     }
 
     if (ok) {
@@ -512,18 +590,20 @@ read_grid(const char *fname)
 
     int save_errno;
     int has_tag, has_indexmap, ok;
+    size_t dimens[GRID_NMETA];
 
     save_errno = errno;
 
     fp = fopen(fname, "rt");
     if (fp != NULL) {
-        G = allocate_grid_from_file(fp, & has_tag, & has_indexmap);
+        G = allocate_grid_from_file(fp, dimens, & has_tag, & has_indexmap);
 
         ok = G != NULL;
 
         if (ok) { ok = read_grid_nodes(fp, G); }
-        if (ok) { ok = read_grid_faces(fp, G); }
-        if (ok) { ok = read_grid_cells(fp, has_tag, has_indexmap, G); }
+        if (ok) { ok = read_grid_faces(fp, dimens[GRID_NFACENODES], G); }
+        if (ok) { ok = read_grid_cells(fp, dimens[GRID_NCELLFACES],
+                                       has_tag, has_indexmap, G); }
 
         if (! ok) {
             destroy_grid(G);
-- 
2.43.0


From 9bc76dcb3da74936e6375c17f0b80d25cec938da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 097/134] fix: grids from decks: verify field sizes before
 using them

---
 opm/core/grid/GridManager.cpp                |  6 +++++
 opm/core/io/eclipse/EclipseGridInspector.cpp |  9 ++++++++
 opm/core/io/eclipse/EclipseGridParser.cpp    | 24 +++++++++++++++++++-
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/opm/core/grid/GridManager.cpp b/opm/core/grid/GridManager.cpp
index df93bdc..879bf11 100644
--- a/opm/core/grid/GridManager.cpp
+++ b/opm/core/grid/GridManager.cpp
@@ -176,6 +176,9 @@ namespace Opm
         } else {
             THROW("Deck must have either DIMENS or SPECGRID.");
         }
+        if (dims.size() != 3 || dims[0] < 1 || dims[1] < 1 || dims[2] < 1) {
+            THROW("Invalid grid dimensions in DIMENS or SPECGRID.");
+        }
 
         // Extract coordinates (or offsets from top, in case of z).
         const std::vector<double>& dxv = deck.getFloatingPointValue("DXV");
@@ -210,6 +213,9 @@ namespace Opm
             // It is not 100% clear how we best can deal with
             // varying TOPS (stair-stepping grid, or not).
             const std::vector<double>& tops = deck.getFloatingPointValue("TOPS");
+            if (tops.empty()) {
+                THROW("TOPS is empty.");
+            }
             if (std::count(tops.begin(), tops.end(), tops[0]) != int(tops.size())) {
                 THROW("We do not support nonuniform TOPS, please use ZCORN/COORDS instead.");
             }
diff --git a/opm/core/io/eclipse/EclipseGridInspector.cpp b/opm/core/io/eclipse/EclipseGridInspector.cpp
index fed61a8..1217de5 100644
--- a/opm/core/io/eclipse/EclipseGridInspector.cpp
+++ b/opm/core/io/eclipse/EclipseGridInspector.cpp
@@ -67,6 +67,9 @@ EclipseGridInspector::EclipseGridInspector(const EclipseGridParser& parser)
         logical_gridsize_[2] = sgr.dimensions[2];
     } else if (parser_.hasField("DIMENS")) {
         const std::vector<int>& dim = parser.getIntegerValue("DIMENS");
+        if (dim.size() != 3) {
+            THROW("DIMENS must have three entries, found " << dim.size());
+        }
         logical_gridsize_[0] = dim[0];
         logical_gridsize_[1] = dim[1];
         logical_gridsize_[2] = dim[2];
@@ -273,6 +276,12 @@ std::tr1::array<double, 6> EclipseGridInspector::getGridLimits() const
 
 
     int pillars = (logical_gridsize_[0]+1) * (logical_gridsize_[1]+1);
+    if (6*pillars != int(coord.size())) {
+        throw std::runtime_error("Wrong size of COORD field.");
+    }
+    if (zcorn.empty()) {
+        throw std::runtime_error("Wrong size of ZCORN field");
+    }
 
     for (int pillarindex = 0; pillarindex < pillars; ++pillarindex) {
         if        (coord[pillarindex * 6 + 0] > xmax)
diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 99d49a3..40ff589 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -847,7 +847,11 @@ struct grdecl EclipseGridParser::get_grdecl() const {
   const std::vector<double>& coord = getFloatingPointValue("COORD");
   const int* actnum = NULL;
   if (hasField("ACTNUM")) {
-    actnum = &(getIntegerValue("ACTNUM")[0]);
+    const std::vector<int>& actnum_vec = getIntegerValue("ACTNUM");
+    if (actnum_vec.empty()) {
+      THROW("ACTNUM is empty.");
+    }
+    actnum = &actnum_vec[0];
   }
 
   std::vector<int> dims;
@@ -859,6 +863,21 @@ struct grdecl EclipseGridParser::get_grdecl() const {
     THROW("Deck must have either DIMENS or SPECGRID.");
   }
   
+  // Check that all fields match the dimensions.
+  if (dims.size() != 3 || dims[0] < 1 || dims[1] < 1 || dims[2] < 1) {
+    THROW("Invalid grid dimensions in DIMENS or SPECGRID.");
+  }
+  const double num_cells = double(dims[0])*dims[1]*dims[2];
+  if (double(zcorn.size()) != 8*num_cells) {
+    THROW("Size of ZCORN does not match DIMENS or SPECGRID: " << zcorn.size());
+  }
+  if (double(coord.size()) != 6*(dims[0] + 1.0)*(dims[1] + 1.0)) {
+    THROW("Size of COORD does not match DIMENS or SPECGRID: " << coord.size());
+  }
+  if (actnum != NULL && double(getIntegerValue("ACTNUM").size()) != num_cells) {
+    THROW("Size of ACTNUM does not match DIMENS or SPECGRID: " << getIntegerValue("ACTNUM").size());
+  }
+
   // Collect in input struct for preprocessing.
   
   grdecl.zcorn = &zcorn[0];
@@ -870,6 +889,9 @@ struct grdecl EclipseGridParser::get_grdecl() const {
 
   if (hasField("MAPAXES")) {
     const std::vector<double> &mapaxes = getFloatingPointValue("MAPAXES");
+    if (mapaxes.size() != 6) {
+      THROW("MAPAXES must have six entries, found " << mapaxes.size());
+    }
     grdecl.mapaxes = &mapaxes[0];
   } else
     grdecl.mapaxes = NULL;
-- 
2.43.0


From 287194594082b965b23c758ecde99d94d349cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:43 +0000
Subject: [PATCH 098/134] fix: GridManager: refuse inactive cells in block-size
 decks instead of ignoring ACTNUM

---
 opm/core/grid/GridManager.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opm/core/grid/GridManager.cpp b/opm/core/grid/GridManager.cpp
index 879bf11..03b33c0 100644
--- a/opm/core/grid/GridManager.cpp
+++ b/opm/core/grid/GridManager.cpp
@@ -180,6 +180,14 @@ namespace Opm
             THROW("Invalid grid dimensions in DIMENS or SPECGRID.");
         }
 
+        // Inactive cells cannot be represented on this format.
+        if (deck.hasField("ACTNUM")) {
+            const std::vector<int>& actnum = deck.getIntegerValue("ACTNUM");
+            if (std::count(actnum.begin(), actnum.end(), 0) > 0) {
+                THROW("We do not support inactive cells with DXV, DYV and DZV, please use ZCORN/COORD instead.");
+            }
+        }
+
         // Extract coordinates (or offsets from top, in case of z).
         const std::vector<double>& dxv = deck.getFloatingPointValue("DXV");
         const std::vector<double>& dyv = deck.getFloatingPointValue("DYV");
-- 
2.43.0


From c4cca55ed31c56c31078d06ae4b28e259a48037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 099/134] fix: writeVagFormat: write files that readVagGrid can
 read back

---
 opm/core/io/vag/vag.cpp | 21 ++++++++++++++-------
 opm/core/io/vag/vag.hpp |  2 +-
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index 75854a2..d41644a 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -35,6 +35,7 @@
 
 #include "config.h"
 #include <opm/core/io/vag/vag.hpp>
+#include <opm/core/utility/ErrorMacros.hpp>
 #include <opm/core/grid/cornerpoint_grid.h>	 	      
 #include <iostream>
 #include <fstream>
@@ -237,8 +238,10 @@ namespace Opm
     void unstructuredGridToVag(UnstructuredGrid& grid,Opm::VAG& vag_grid){
         using namespace std;
         using namespace Opm;
+        if(grid.dimensions != 3){
+            THROW("The vag format is only for 3d grids");
+        }
         cout << "Converting grid" << endl;
-        //	grid.dimensions=3;
         vag_grid.number_of_volumes=grid.number_of_cells;
 	vag_grid.number_of_faces=grid.number_of_faces;
 	vag_grid.number_of_vertices=grid.number_of_nodes;
@@ -356,6 +359,8 @@ namespace Opm
         // fill face_to_egdes
 	vag_grid.number_of_edges=edges.size();
 	vag_grid.faces_to_edges.pos.resize(vag_grid.number_of_faces+1);
+	vag_grid.faces_to_edges.pos[0]=0;
+	vag_grid.faces_to_edges.value.clear();
 	for(int i=0;i < grid.number_of_faces;++i){
             int ne=grid.face_nodepos[i+1]-grid.face_nodepos[i];
 	    vag_grid.faces_to_edges.pos[i+1]=vag_grid.faces_to_edges.pos[i]+ne;	    
@@ -372,16 +377,17 @@ namespace Opm
     
     void writeVagFormat(std::ostream& os,Opm::VAG& vag_grid){
 	using namespace std;
+	const streamsize old_precision = os.precision(17); // coordinates are read back unchanged
 	os << "File in the Vag grid format\n";
-        os << "Number of vertices " ;
-        os << vag_grid.number_of_vertices << endl;;
-        os <<"Number of control volume ";
+        os << "Number of vertices" << endl;
+        os << vag_grid.number_of_vertices << endl;
+        os << "Number of control volume" << endl;
         os << vag_grid.number_of_volumes << endl;
-        os <<"Number of faces " ;
+        os << "Number of faces" << endl;
         os << vag_grid.number_of_faces << endl;
-        os <<"Number of edges " ;
+        os << "Number of edges" << endl;
         os << vag_grid.number_of_edges << endl;
-        os <<"Vertices      "   << vag_grid.vertices.size() << endl;
+        os <<"Vertices      "   << vag_grid.vertices.size()/3 << endl;
         writeVector(os, vag_grid.vertices,3);
         os << "Volumes->faces   " << vag_grid.volumes_to_faces.pos.size()-1 << endl;
         writePosStruct(os, vag_grid.volumes_to_faces);        
@@ -395,6 +401,7 @@ namespace Opm
         writeVector(os,vag_grid.faces_to_volumes,2);        
         os << "Edges   " << floor(vag_grid.edges.size()/2) << endl;
         writeVector(os,vag_grid.edges,2);
+	os.precision(old_precision);
         /*
         assert(vag_grid.material.size()%vag_grid.number_of_volumes==0);
         int lines= floor(vag_grid.material.size()/vag_grid.number_of_volumes);  
diff --git a/opm/core/io/vag/vag.hpp b/opm/core/io/vag/vag.hpp
index 412e4ea..4611de3 100644
--- a/opm/core/io/vag/vag.hpp
+++ b/opm/core/io/vag/vag.hpp
@@ -125,7 +125,7 @@ namespace Opm
         const sz_t nn = n;
 
         for (sz_t i = 0; i < vec.size(); ++i) {
-            os << vec[i] << (((i % nn) == 0) ? '\n' : ' ');
+            os << vec[i] << (((i % nn) == nn - 1) ? '\n' : ' ');
         }
 
         if ((vec.size() % nn) != 0) {
-- 
2.43.0


From 48b48c65f13d65930e2b11c13c9ba2ee3e471119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 100/134] fix: readVagGrid, vagToUnstructuredGrid: report
 truncated and inconsistent input

---
 opm/core/io/vag/vag.cpp | 123 +++++++++++++++++++++++++++-------------
 opm/core/io/vag/vag.hpp |   9 ++-
 2 files changed, 93 insertions(+), 39 deletions(-)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index d41644a..c0e55f4 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -48,19 +48,63 @@
 #include <map>
 namespace Opm
 {
+    namespace
+    {
+	/// Read the number of entries of a section.
+	int readCount(std::istream& is)
+	{
+	    int number = -1;
+	    if (!(is >> number) || number < 0) {
+		THROW("Failed to read number of entries in vag file");
+	    }
+	    return number;
+	}
+
+	/// Read a given number of values.
+	template <typename T>
+	void readValues(std::istream& is,std::size_t n,std::vector<T>& vec)
+	{
+	    vec.clear();
+	    for(std::size_t i=0;i< n;++i){
+		T value;
+		if (!(is >> value)) {
+		    THROW("Failed to read vector in vag file");
+		}
+		vec.push_back(value);
+	    }
+	}
+
+	/// Verify that a mapping has n entries with values in [lo, hi].
+	void checkPosStruct(const PosStruct& ps,int n,int lo,int hi)
+	{
+	    bool ok = int(ps.pos.size()) == n+1 && ps.pos[0] == 0;
+	    for(int i=0;ok && i< n;++i){
+		ok = ps.pos[i] <= ps.pos[i+1];
+	    }
+	    ok = ok && ps.pos[n] == int(ps.value.size());
+	    for(int i=0;ok && i< int(ps.value.size());++i){
+		ok = ps.value[i] >= lo && ps.value[i] <= hi;
+	    }
+	    if(!ok){
+		THROW("Inconsistent mapping in vag grid");
+	    }
+	}
+    }
+
     void readPosStruct(std::istream& is,int n,PosStruct& pos_struct){
 	using namespace std;
 	//PosStruct pos_struct;
-	pos_struct.pos.resize(n+1);
-	pos_struct.pos[0]=0;
+	pos_struct.pos.assign(1, 0);
+	pos_struct.value.clear();
 	for(int i=0;i< n;++i){
-	    int number;
-	    is >> number ;
+	    const int number = readCount(is);
 	    //cout <<number << endl;
-	    pos_struct.pos[i+1]=pos_struct.pos[i]+number;
+	    pos_struct.pos.push_back(pos_struct.pos[i]+number);
 	    for(int j=0;j< number;++j){
 		int value;
-		is >> value;
+		if (!(is >> value)) {
+		    THROW("Failed to read pos structure in vag file");
+		}
 		//	cout << value << " ";
 		pos_struct.value.push_back(value);
 	    }
@@ -93,9 +137,8 @@ namespace Opm
     void readVagGrid(std::istream& is,Opm::VAG& vag_grid){
 	using namespace std;
 	using namespace Opm;
-	while (!is.eof()) {
-	    string keyword;
-	    is >> keyword;	
+	string keyword;
+	while (is >> keyword) {
 	    //cout << keyword<< endl;
 	    if(keyword == "Number"){
 		string stmp;
@@ -104,8 +147,7 @@ namespace Opm
 		    string entity;
 		    is >> entity;
 		    getline(is,stmp);
-		    int number;
-		    is >> number;
+		    const int number = readCount(is);
 		    if(entity=="vertices"){
 			vag_grid.number_of_vertices=number;
 		    }else if((entity=="volumes") || (entity=="control")){
@@ -117,39 +159,32 @@ namespace Opm
 		    }	
 		    cout << "Found Number of: " << entity <<" " << number << endl;		
 		} else {
-		    cerr << "Wrong format: Not of after Number" << endl;
-		    return;
+		    THROW("Wrong format: Not of after Number");
 		}
 	    }else{
 		// read geometry defined by vertices
 		if(keyword=="Vertices"){
-		    int number;
-		    is >> number;	   	    
-		    vag_grid.vertices.resize(3*number);// assume 3d data
-		    readVector(is,vag_grid.vertices);
+		    const int number = readCount(is);
+		    readValues(is,3*std::size_t(number),vag_grid.vertices);// assume 3d data
 		}
 		// here starts the reding of all pos structures
 		else if(keyword=="Volumes->Faces" || keyword=="Volumes->faces"){
 		    //vag_grid.volumes_to_faces=
-		    int number;
-		    is >> number;	
+		    const int number = readCount(is);
 		    readPosStruct(is,number,vag_grid.volumes_to_faces);
 		    cout << "Volumes->Faces: Number of " << number << endl;
 		}else if(keyword=="Faces->edges" || keyword=="Faces->Edges" ||  keyword=="Faces->Edgess"){
-		    int number;
-		    is >> number;	   
+		    const int number = readCount(is);
 		    //vag_grid.volumes_to_faces=
 		    readPosStruct(is,number,vag_grid.faces_to_edges);
 		    cout << "Faces->edges: Number of " << number << endl;
 		}else if(keyword=="Faces->Vertices" || keyword=="Faces->vertices"){
-		    int number;
-		    is >> number;	   
+		    const int number = readCount(is);
 		    //vag_grid.volumes_to_faces=
 		    readPosStruct(is,number,vag_grid.faces_to_vertices);
 		    cout << "Faces->Vertices: Number of " << number << endl;   
 		}else if(keyword=="Volumes->Vertices" || keyword=="Volumes->Verticess"){
-		    int number;
-		    is >> number;	   
+		    const int number = readCount(is);
 		    //vag_grid.volumes_to_faces=
 		    readPosStruct(is,number,vag_grid.volumes_to_vertices);
 		    cout << "Volumes->Vertices: Number of " << number << endl;   
@@ -157,36 +192,33 @@ namespace Opm
 	    
 		//  read simple mappings
 		else if(keyword=="Edge" || keyword=="Edges"){
-		    int number;
-		    is >> number;	   	    
-		    vag_grid.edges.resize(2*number);
-		    readVector(is,vag_grid.edges);
+		    const int number = readCount(is);
+		    readValues(is,2*std::size_t(number),vag_grid.edges);
 		    cout << "Edges: Number of " << number << endl;
 		}else if(keyword=="Faces->Volumes" || keyword=="Faces->Control"){
-		    int number;
 		    if(keyword=="Faces->Control"){
 			string vol;
 			is >> vol;
 		    }
-		    is >> number;
-		    vag_grid.faces_to_volumes.resize(2*number);
-		    readVector(is,vag_grid.faces_to_volumes);
+		    const int number = readCount(is);
+		    readValues(is,2*std::size_t(number),vag_grid.faces_to_volumes);
 		    cout << "Faces->Volumes: Number of " << number << endl;   
 		}
 		// read material
 		else if(keyword=="Material"){
 		    string snum;
 		    is >> snum;
-		    int number;
-		    is >> number;
+		    const int number = readCount(is);
 		    cout << "Material number  " << number << endl;
 		    // we read all the rest into doubles		
-		    while(!is.eof()){
-			double value;
-			is >> value;
+		    double value;
+		    while(is >> value){
 			//cout << value << endl;
 			vag_grid.material.push_back(value);
 		    }
+		    if(!is.eof()){
+			THROW("Failed to read material in vag file");
+		    }
 		}else{
 		    //cout << "keyword;
 		}
@@ -200,6 +232,18 @@ namespace Opm
 	cout << "Converting grid" << endl;
         cout << "Warning:: orignial grid may not be edge confomal" << endl;
         cout << "          inverse mappings from edges will be wrong" << endl;
+	// verify that the description is complete and consistent
+	checkPosStruct(vag_grid.faces_to_vertices,vag_grid.number_of_faces,1,vag_grid.number_of_vertices);
+	checkPosStruct(vag_grid.volumes_to_faces,vag_grid.number_of_volumes,1,vag_grid.number_of_faces);
+	if(vag_grid.faces_to_volumes.size() != 2*std::vector<int>::size_type(vag_grid.number_of_faces)
+	   || vag_grid.vertices.size() != 3*std::vector<double>::size_type(vag_grid.number_of_vertices)){
+	    THROW("Inconsistent sizes in vag grid");
+	}
+	for(int i=0;i< int(vag_grid.faces_to_volumes.size());++i){
+	    if(vag_grid.faces_to_volumes[i] < 0 || vag_grid.faces_to_volumes[i] > vag_grid.number_of_volumes){
+		THROW("Invalid volume number in vag grid");
+	    }
+	}
 	grid.dimensions=3;
 	grid.number_of_cells=vag_grid.number_of_volumes;
 	grid.number_of_faces=vag_grid.number_of_faces;
@@ -228,6 +272,9 @@ namespace Opm
 	for(int i=0;i< int(vag_grid.vertices.size());++i){
 	    grid.node_coordinates[i] = vag_grid.vertices[i];
 	}
+	// the format has no face tags
+	free(grid.cell_facetag);
+	grid.cell_facetag = NULL;
 	// informations in edges, faces_to_eges, faces_to_vertices, volume_to_vertices and materials
 	// is not used
 	cout << "Computing geometry" << endl;
diff --git a/opm/core/io/vag/vag.hpp b/opm/core/io/vag/vag.hpp
index 4611de3..9968596 100644
--- a/opm/core/io/vag/vag.hpp
+++ b/opm/core/io/vag/vag.hpp
@@ -39,6 +39,7 @@
 
 
 #include <opm/core/grid.h>
+#include <opm/core/utility/ErrorMacros.hpp>
 #include <istream>
 #include <ostream>
 #include <string>
@@ -60,6 +61,10 @@ namespace Opm
       3D grids.
      */
     struct VAG{
+	VAG()
+	    : number_of_vertices(0), number_of_volumes(0), number_of_faces(0), number_of_edges(0)
+	{
+	}
 	int number_of_vertices;        
 	int number_of_volumes;
 	int number_of_faces;
@@ -109,7 +114,9 @@ namespace Opm
     void readVector(std::istream& is,std::vector<T>& vec){
 	using namespace std;
 	for(int i=0;i< int(vec.size());++i){
-	    is >> vec[i];
+	    if (!(is >> vec[i])) {
+		THROW("Failed to read vector in vag file");
+	    }
 	}
     }
     /**
-- 
2.43.0


From 18538845ecd892c1556cf8dd3f99b30cafa93b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:47 +0000
Subject: [PATCH 101/134] fix: CornerPointChopper: verify sizes, write full
 precision, report failed writes

---
 opm/core/io/eclipse/CornerpointChopper.hpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/opm/core/io/eclipse/CornerpointChopper.hpp b/opm/core/io/eclipse/CornerpointChopper.hpp
index a757f4e..9299099 100644
--- a/opm/core/io/eclipse/CornerpointChopper.hpp
+++ b/opm/core/io/eclipse/CornerpointChopper.hpp
@@ -42,8 +42,16 @@ namespace Opm
                 dims_[dd] = parser_.getSPECGRID().dimensions[dd];
             }
 
+            if (dims_[0] < 1 || dims_[1] < 1 || dims_[2] < 1) {
+                std::cerr << "Error! Invalid SPECGRID\n";
+                throw std::runtime_error("Invalid SPECGRID.");
+            }
             int layersz = 8*dims_[0]*dims_[1];
             const std::vector<double>& ZCORN = parser_.getFloatingPointValue("ZCORN");
+            if (double(ZCORN.size()) != 8.0*dims_[0]*dims_[1]*dims_[2]) {
+                std::cerr << "Error! ZCORN size (" << ZCORN.size() << ") not consistent with SPECGRID\n";
+                throw std::runtime_error("Inconsistent ZCORN and SPECGRID.");
+            }
             botmax_ = *std::max_element(ZCORN.begin(), ZCORN.begin() + layersz/2);
             topmin_ = *std::min_element(ZCORN.begin() + dims_[2]*layersz - layersz/2,
                                         ZCORN.begin() + dims_[2]*layersz);
@@ -129,6 +137,10 @@ namespace Opm
 
         void chop(int imin, int imax, int jmin, int jmax, double zmin, double zmax, bool resettoorigin=true)
         {
+            if (imin < 0 || imax > dims_[0] || imin >= imax || jmin < 0 || jmax > dims_[1] || jmin >= jmax) {
+                std::cerr << "Error! Subset not inside grid\n";
+                throw std::runtime_error("Inconsistent user input.");
+            }
             new_dims_[0] = imax - imin;
             new_dims_[1] = jmax - jmin;
 
@@ -281,6 +293,7 @@ namespace Opm
                 std::cerr << "Could not open file " << filename << "\n";
                 throw std::runtime_error("Could not open output file.");
             }
+            out.precision(17); // Read back unchanged.
             out << "SPECGRID\n" << new_dims_[0] << ' ' << new_dims_[1] << ' ' << new_dims_[2]
                 << " 1 F\n/\n\n";
             out << "COORD\n";
@@ -309,6 +322,11 @@ namespace Opm
             outputField(out, new_PERMY_, "PERMY");
             outputField(out, new_PERMZ_, "PERMZ");
             outputField(out, new_SATNUM_, "SATNUM");
+            out.close();
+            if (!out) {
+                std::cerr << "Could not write file " << filename << "\n";
+                throw std::runtime_error("Could not write output file.");
+            }
         }
 
     private:
@@ -387,6 +405,10 @@ namespace Opm
         void filterField(const std::vector<T>& field,
                                 std::vector<T>& output_field)
         {
+            if (int(field.size()) != dims_[0]*dims_[1]*dims_[2]) {
+                std::cerr << "Error! Field size (" << field.size() << ") not consistent with SPECGRID\n";
+                throw std::runtime_error("Inconsistent field and SPECGRID.");
+            }
             int sz = new_to_old_cell_.size();
             output_field.resize(sz);
             for (int i = 0; i < sz; ++i) {
-- 
2.43.0


From 3fb1e32750be3f0b22762176d36258d2991a829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 102/134] fix: deck readers: report ends of input inside a
 record, invalid strings and repeat counts

---
 .../io/eclipse/EclipseGridParserHelpers.hpp   | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 8c15121..476344c 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -75,6 +75,9 @@ namespace
 		is >> ignoreLine;
 	    }
 	}
+	if (!is) {
+	    THROW("Reached end of input inside a record. Missing slash?");
+	}
 	return is;
     }
 
@@ -117,10 +120,17 @@ namespace
     {
 	std::string string_candidate;
 	is >> ignoreWhitespaceAndComments >> string_candidate;
+        if (!is) {
+            THROW("Reached end of input while reading a string.");
+        }
         const char quote('\'');
-        int beg = string_candidate[0] == quote ? 1 : 0;
-        int len = string_candidate[0] == quote ? string_candidate.size() - 2 : string_candidate.size();
-        return string_candidate.substr(beg, len);
+        if (string_candidate[0] != quote) {
+            return string_candidate;
+        }
+        if (string_candidate.size() < 2) {
+            THROW("Encountered a single quote while reading a string.");
+        }
+        return string_candidate.substr(1, string_candidate.size() - 2);
     }
 
     // As readString(), but returns the given default for 1*.
@@ -143,7 +153,9 @@ namespace
 		is.clear(is.rdstate() & ~std::ios::failbit);
                 is >> ignoreWhitespace;
 		char dummy;
-		is >> dummy;
+		if (!(is >> dummy)) {
+		    break;      // End of input, reported below.
+		}
 		if (dummy == '/') {
                     is >> ignoreLine;
 		    break;
@@ -158,8 +170,14 @@ namespace
 	    } else {
 		if (is.peek() == int('*')) {
 		    is.ignore(); // ignore the '*'
+		    if (!(candidate >= 1 && candidate <= std::numeric_limits<int>::max())) {
+			THROW("Invalid repeat count while reading data values: " << candidate);
+		    }
 		    int multiplier = int(candidate);
 		    is >> candidate;
+		    if (!is) {
+			break;
+		    }
 		    data.insert(data.end(), multiplier, candidate);
 		} else {
 		    data.push_back(candidate);
@@ -259,7 +277,7 @@ namespace
 	    } else {
 		if (is.peek() == int('*')) {
 		    is.ignore(); // ignore the '*'
-		    if (!(candidate >= 1)) {
+		    if (!(candidate >= 1 && candidate <= std::numeric_limits<int>::max())) {
 			THROW("Invalid repeat count while reading data values: " << candidate);
 		    }
 		    const int multiplier = int(candidate);
-- 
2.43.0


From 71ece300bdfef0ae07e29c9bcc308f9bfa94fa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 103/134] fix: deck readers: report records that are too short
 or not a whole number of rows

---
 .../io/eclipse/EclipseGridParserHelpers.hpp    | 12 ++++++++++++
 opm/core/io/eclipse/SpecialEclipseFields.hpp   | 18 ++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 476344c..f68b5bb 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -381,6 +381,10 @@ namespace
 	while (!is.eof()) {
 	    record.clear();
 	    readVectorData(is, record);
+	    if (record.size() < 4 || record.size() % 3 != 1) {
+		THROW("Error reading " << field_name << ". Record with "
+		      << record.size() << " values.");
+	    }
 	    table.push_back(record);
 	    while (!is.eof()) {
 		is >> ignoreWhitespace;
@@ -429,6 +433,10 @@ namespace
 	while (!is.eof()) {
 	    record.clear();
 	    readVectorData(is, record);
+	    if (record.size() % ncol != 0) {
+		THROW("Error reading " << field_name << ". Table with "
+		      << record.size() << " values, not a multiple of " << ncol << ".");
+	    }
 	    const int rec_size = record.size()/ncol;
 	    for (int k=0; k<ncol; ++k) {
 		table[k].resize(rec_size);
@@ -506,6 +514,10 @@ namespace
 	while (!is.eof()) {
 	    record.clear();
 	    readRelPermTable(is, record);
+	    if (record.size() % ncol != 0) {
+		THROW("Error reading " << field_name << ". Table with "
+		      << record.size() << " values, not a multiple of " << ncol << ".");
+	    }
 	    const int rec_size = record.size()/ncol;
 	    for (int k=0; k<ncol; ++k) {
 		table[k].resize(rec_size);
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 31617d9..91c12ce 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -590,6 +590,9 @@ struct PVTW : public SpecialBase
             if (pvtw.size() == 4) {
                 pvtw.push_back(0.0); // Not used by frontsim
             }
+            if (pvtw.size() != 5) {
+                THROW("Error reading PVTW. Record with " << pvtw.size() << " values.");
+            }
             pvtw_.push_back(pvtw);
 
             int action = next_action(is); // 0:continue  1:return  2:throw
@@ -637,6 +640,9 @@ struct ROCK : public SpecialBase
         while (!is.eof()) {
             std::vector<double> rock;
             readVectorData(is, rock);
+            if (rock.size() < 2) {
+                THROW("Error reading ROCK. Record with " << rock.size() << " values.");
+            }
             rock_compressibilities_.push_back(rock);
 
             int action = next_action(is); // 0:continue  1:return  2:throw
@@ -1838,6 +1844,9 @@ struct PVCDO : public SpecialBase
             if (pvcdo.size() == 4) {
                 pvcdo.push_back(0.0);
             }
+            if (pvcdo.size() != 5) {
+                THROW("Error reading PVCDO. Record with " << pvcdo.size() << " values.");
+            }
             pvcdo_.push_back(pvcdo);
 
             int action = next_action(is); // 0:continue  1:return  2:throw
@@ -1970,6 +1979,9 @@ struct PLYVISC : public SpecialBase
         // Note. This function assumes that NTPVT = 1, and reads only one table.
         std::vector<double> plyvisc;
         readVectorData(is, plyvisc);
+        if (plyvisc.size() % 2 != 0) {
+            THROW("Error reading " << name() << ". Table with an odd number of values.");
+        }
         for (int i=0; i<(int)plyvisc.size(); i+=2) {
             concentration_.push_back(plyvisc[i]);
             factor_.push_back(plyvisc[i+1]);
@@ -2041,6 +2053,9 @@ struct PLYADS : public SpecialBase
         // Note. This function assumes that NTSFUN = 1, and reads only one table.
         std::vector<double> plyads;
         readVectorData(is, plyads);
+        if (plyads.size() % 2 != 0) {
+            THROW("Error reading " << name() << ". Table with an odd number of values.");
+        }
         for (int i=0; i<(int)plyads.size(); i+=2) {
             local_concentration_.push_back(plyads[i]);
             adsorbed_concentration_.push_back(plyads[i+1]);
@@ -2076,6 +2091,9 @@ struct PLYMAX : public SpecialBase
         // Note. This function assumes that NTMISC = 1, and reads only one line.
         plymax_.resize(2);
         readVectorData(is, plymax_);
+        if (plymax_.size() < 2) {
+            THROW("Error reading PLYMAX. Record with " << plymax_.size() << " values.");
+        }
     }
 
     virtual void write(std::ostream& os) const
-- 
2.43.0


From f74a8305b8b5d603068edd51b999a952de095531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:55 +0000
Subject: [PATCH 104/134] fix: deck readers: report integer items that are out
 of range

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 10 ++++++++++
 opm/core/io/eclipse/SpecialEclipseFields.hpp     | 16 ++++++++--------
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index f68b5bb..32feb7e 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -299,6 +299,16 @@ namespace
     }
 
 
+    // Converts an item read as a floating point number to an integer.
+    inline int integerItem(const double value)
+    {
+	if (!(value >= std::numeric_limits<int>::min() && value <= std::numeric_limits<int>::max())) {
+	    THROW("Expected an integer, got " << value);
+	}
+	return int(value);
+    }
+
+
     // Returns month number 1-12. Returns 0 if illegal month name. 
     inline int getMonthNumber(const std::string& month_name)
     {
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 91c12ce..2e393a0 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -831,8 +831,8 @@ struct WELSPECS : public SpecialBase
             std::vector<double> double_data(3,1.0);
             double_data[2] = -1.0;
             readDefaultedVectorData(is, double_data, 3);
-            welspecs_line.I_ = (int)double_data[0];
-            welspecs_line.J_ = (int)double_data[1];
+            welspecs_line.I_ = integerItem(double_data[0]);
+            welspecs_line.J_ = integerItem(double_data[1]);
             welspecs_line.datum_depth_BHP_ = double_data[2];
             welspecs_line.pref_phase_ = readString(is);
 
@@ -954,7 +954,7 @@ struct COMPDAT : public SpecialBase
             double_data[0] = -1;
             int num_to_read = 3;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
-            compdat_line.sat_table_number_ = (int)double_data[0];
+            compdat_line.sat_table_number_ = integerItem(double_data[0]);
             compdat_line.connect_trans_fac_ = double_data[1];
             compdat_line.diameter_ = double_data[2];
 
@@ -1169,7 +1169,7 @@ struct WCONINJE : public SpecialBase
             wconinje_line.reservoir_flow_max_rate_ = double_data[1];
             wconinje_line.BHP_limit_ = double_data[2];
             wconinje_line.THP_limit_ = double_data[3];
-            wconinje_line.VFP_table_number_ = (int)double_data[4];
+            wconinje_line.VFP_table_number_ = integerItem(double_data[4]);
             wconinje_line.concentration_ = double_data[5];
             // HACK! Ignore any further items
             if (num_read == num_to_read) {
@@ -1532,7 +1532,7 @@ struct WCONPROD : public SpecialBase
             wconprod_line.reservoir_flow_max_rate_ = double_data[4];
             wconprod_line.BHP_limit_ = double_data[5];
             wconprod_line.THP_limit_ = double_data[6];
-            wconprod_line.VFP_table_number_ = (int)double_data[7];
+            wconprod_line.VFP_table_number_ = integerItem(double_data[7]);
             wconprod_line.artif_lift_quantity_ = double_data[8];
             wconprod.push_back(wconprod_line);
 
@@ -1792,9 +1792,9 @@ struct EQUIL : public SpecialBase
         equil_line.oil_water_cap_pressure_  = data[3];
         equil_line.gas_oil_contact_depth_   = data[4];
         equil_line.gas_oil_cap_pressure_    = data[5];
-        equil_line.live_oil_table_index_    = int(data[6]);
-        equil_line.wet_gas_table_index_     = int(data[7]);
-        equil_line.N_                       = int(data[8]);
+        equil_line.live_oil_table_index_    = integerItem(data[6]);
+        equil_line.wet_gas_table_index_     = integerItem(data[7]);
+        equil_line.N_                       = integerItem(data[8]);
         equil.push_back(equil_line);
     }
 
-- 
2.43.0


From 0c60b931841c02ae1f7531ae9b98208a61d56860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 105/134] fix: EclipseGridParser: report files that include
 themselves

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 8 ++++++--
 opm/core/io/eclipse/EclipseGridParser.hpp | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 40ff589..5504e36 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -359,7 +359,7 @@ void EclipseGridParser::read(istream& is, bool convert_to_SI)
 }
 
 //---------------------------------------------------------------------------
-void EclipseGridParser::readImpl(istream& is)
+void EclipseGridParser::readImpl(istream& is, int include_depth)
 //---------------------------------------------------------------------------
 {
     if (!is) {
@@ -492,6 +492,10 @@ void EclipseGridParser::readImpl(istream& is)
                 break;
             }
             case Include: {
+                const int max_include_depth = 50;
+                if (include_depth >= max_include_depth) {
+                    THROW("Files are INCLUDEd more than " << max_include_depth << " levels deep. Does a file include itself?");
+                }
                 string include_filename = readString(is);
                 if (!directory_.empty()) {
                     include_filename = directory_ + '/' + include_filename;
@@ -500,7 +504,7 @@ void EclipseGridParser::readImpl(istream& is)
                 if (!include_is) {
                     THROW("Unable to open INCLUDEd file " << include_filename);
                 }
-                readImpl(include_is);
+                readImpl(include_is, include_depth + 1);
                 //              is >> ignoreSlashLine;
                 break;
             }
diff --git a/opm/core/io/eclipse/EclipseGridParser.hpp b/opm/core/io/eclipse/EclipseGridParser.hpp
index b781d05..ea047b0 100644
--- a/opm/core/io/eclipse/EclipseGridParser.hpp
+++ b/opm/core/io/eclipse/EclipseGridParser.hpp
@@ -245,7 +245,7 @@ private:
     SpecialFieldPtr createSpecialField(std::istream& is, const std::string& fieldname);
     SpecialFieldPtr cloneSpecialField(const std::string& fieldname,
                                       const std::tr1::shared_ptr<SpecialBase> original);
-    void readImpl(std::istream& is);
+    void readImpl(std::istream& is, int include_depth = 0);
     void getNumericErtFields(const std::string& filename);
 
 
-- 
2.43.0


From 0442cd5257a26f2b5d02b9fc9a837306ae0ec280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:11 +0000
Subject: [PATCH 106/134] fix: MonotCubicInterpolator: set the monotonicity
 flags of tables with one point

---
 opm/core/utility/MonotCubicInterpolator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 9b0d82c..29118e0 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -387,6 +387,15 @@ computeInternalFunctionData() const {
   
   /* The contents of this function is meaningless if there is only one datapoint */
   if (data.size() <= 1) {
+    ddata.clear();
+    strictlyMonotone = true;
+    monotone = true;
+    strictlyDecreasing = true;
+    decreasing = true;
+    strictlyIncreasing = true;
+    increasing = true;
+    strictlyMonotoneCached = true;
+    monotoneCached = true;
     return;
   }
   
-- 
2.43.0


From 1ed580f7fb5d13faa108bddd4d1a8daef6259994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 107/134] fix: parameters: report names, groups and files that
 are nested too deeply, XML files without a root element and names with
 separators

---
 .../utility/parameters/ParameterGroup.cpp     | 18 ++++++++++-
 opm/core/utility/parameters/ParameterXML.cpp  | 32 +++++++++++++------
 .../parameters/tinyxml/tinyxmlparser.cpp      | 11 +++++++
 3 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 39683ef..3aafc37 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -177,7 +177,11 @@ namespace Opm {
         {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    map_type::const_iterator it = map_.find(name_path.first);
-	    assert(name_path.second == "");
+	    if (name.find(ID_delimiter_path) != std::string::npos) {
+		std::cerr << "Error: The name '" << name << "' may not contain '"
+			  << ID_delimiter_path << "'.\n";
+		throw std::exception();
+	    }
 	    if (it == map_.end()) {
 		map_[name] = data;
 	    } else {
@@ -215,6 +219,18 @@ namespace Opm {
 		std::cerr << "Error: Cannot insert a parameter without a name ('" << name << "').\n";
 		throw std::exception();
 	    }
+	    const int max_depth = 100;
+	    int num_delimiters = 0;
+	    for (std::string::size_type pos = name.find(ID_delimiter_path);
+		 pos != std::string::npos;
+		 pos = name.find(ID_delimiter_path, pos + 1)) {
+		++num_delimiters;
+	    }
+	    if (num_delimiters > max_depth) {
+		std::cerr << "Error: Parameter name with more than " << max_depth
+			  << " nested groups.\n";
+		throw std::exception();
+	    }
 	    std::pair<std::string, std::string> name_path = split(name);
 	    while (name_path.first == "") {
 		name_path = split(name_path.second);
diff --git a/opm/core/utility/parameters/ParameterXML.cpp b/opm/core/utility/parameters/ParameterXML.cpp
index 60c7294..c7f502c 100644
--- a/opm/core/utility/parameters/ParameterXML.cpp
+++ b/opm/core/utility/parameters/ParameterXML.cpp
@@ -56,14 +56,19 @@ namespace Opm {
 	namespace tinyxml {
 	    std::string getProperty(const std::string& property,
                                     const TiXmlElement* node_ptr);
-	    void read_xml(ParameterGroup& pg, const std::string filename);
+	    void read_xml(ParameterGroup& pg, const std::string filename, int depth);
 	    void fill_tree(ParameterGroup& pg,
                            const TiXmlNode* root,
-                           const std::string& xml_file_path);
+                           const std::string& xml_file_path,
+                           int depth);
+
+	    // Files within files, and groups within groups, may not be
+	    // nested deeper than this.
+	    const int max_depth = 100;
 	}
 
 	void fill_xml(ParameterGroup& pg, const std::string filename) {
-	    tinyxml::read_xml(pg, filename);
+	    tinyxml::read_xml(pg, filename, 0);
 	}
 
 	namespace tinyxml {
@@ -75,7 +80,7 @@ namespace Opm {
 		return property_value;
 	    }
 
-	    void read_xml(ParameterGroup& pg, const std::string filename)
+	    void read_xml(ParameterGroup& pg, const std::string filename, int depth)
             {
                 TiXmlDocument doc(filename);
                 bool ok = doc.LoadFile();
@@ -84,14 +89,23 @@ namespace Opm {
 		    throw std::exception();
                 }
                 const TiXmlNode* root = doc.RootElement();
+                if (!root) {
+		    std::cerr << "ERROR: No root element in XML file '" << filename << "'\n";
+		    throw std::exception();
+                }
 		std::string xml_file_path = boost::filesystem::path(filename).branch_path().string();
-		fill_tree(pg, root, xml_file_path);
+		fill_tree(pg, root, xml_file_path, depth);
 	    }
 
 	    void fill_tree(ParameterGroup& pg,
                            const TiXmlNode* root,
-                           const std::string& xml_file_path)
+                           const std::string& xml_file_path,
+                           int depth)
             {
+		if (depth > max_depth) {
+		    std::cerr << "ERROR: XML input is nested too deeply. Does a file include itself?\n";
+		    throw std::exception();
+		}
 		//std::cout << "GROUP '" << value << "' BEGIN\n";
 		for (const TiXmlNode* cur = root->FirstChild(); cur; cur = cur->NextSibling()) {
                     const TiXmlElement* elem = cur->ToElement();
@@ -100,7 +114,7 @@ namespace Opm {
 			if (tag_name == ID_xmltag__file_params) {
 			    std::string relative_filename = getProperty(ID_xmlatt__value, elem);
 			    std::string filename = (boost::filesystem::path(xml_file_path) / relative_filename).string();
-			    fill_xml(pg, filename);
+			    read_xml(pg, filename, depth + 1);
 			    continue;
 			}
 			std::string name = getProperty(ID_xmlatt__name, elem);
@@ -116,13 +130,13 @@ namespace Opm {
 			} else if (tag_name == ID_xmltag__param_grp) {
 			    std::string child_path  = pg.path() + ID_delimiter_path + name;
 			    data.reset(new ParameterGroup(child_path, &pg));
-			    fill_tree(dynamic_cast<ParameterGroup&>(*data), elem, xml_file_path);
+			    fill_tree(dynamic_cast<ParameterGroup&>(*data), elem, xml_file_path, depth + 1);
 			} else if (tag_name == ID_xmltag__file_param_grp) {
 			    std::string child_path  = pg.path() + ID_delimiter_path + name;
 			    data.reset(new ParameterGroup(child_path, &pg));
 			    std::string relative_filename = getProperty(ID_xmlatt__value, elem);
 			    std::string filename = (boost::filesystem::path(xml_file_path) / relative_filename).string();
-			    fill_xml(dynamic_cast<ParameterGroup&>(*data), filename);
+			    read_xml(dynamic_cast<ParameterGroup&>(*data), filename, depth + 1);
 			} else {
 			    std::cerr << "ERROR: '" << tag_name << "' is an unknown xml tag.\n";
 			    throw std::exception();
diff --git a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
index 75df34e..27b5966 100644
--- a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
+++ b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
@@ -1064,6 +1064,17 @@ const char* TiXmlElement::Parse( const char* p, TiXmlParsingData* data, TiXmlEnc
 		return 0;
 	}
 
+	// Elements are parsed recursively: refuse those nested too deeply.
+	const int maxDepth = 200;
+	int depth = 0;
+	for ( const TiXmlNode* node = parent; node; node = node->Parent() )
+		++depth;
+	if ( depth > maxDepth )
+	{
+		if ( document ) document->SetError( TIXML_ERROR_PARSING_ELEMENT, p, data, encoding );
+		return 0;
+	}
+
 	p = SkipWhiteSpace( p+1, encoding );
 
 	// Read the name.
-- 
2.43.0


From 85cd7b978c07aeaa1cdfb9a0128d3576b52b942d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:53 +0000
Subject: [PATCH 108/134] fix: deck readers: report incomplete ENPTVD and
 ENKRVD tables, extend columns with one given value as constants

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 5 +++++
 opm/core/io/eclipse/SpecialEclipseFields.hpp     | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 32feb7e..3dc9c5e 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -500,6 +500,11 @@ namespace
                     for (int i=0; i<int(indx.size()); ++i) {
                         table[k][indx[i]] = defaultOut;
                     }
+                } else if (xv.size() == 1) {
+                    // A single value to extrapolate from.
+                    for (int i=0; i<int(indx.size()); ++i) {
+                        table[k][indx[i]] = yv[0];
+                    }
                 } else if (defaultInterpolation) {
                     // Interpolate
                     for (int i=0; i<int(indx.size()); ++i) {
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 2e393a0..515d28d 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -2376,6 +2376,9 @@ struct ENPTVD : public SpecialBase {
                 }
             }
         }
+        if (table_[0].empty() || !sub_table[0].empty()) {
+            THROW("Error reading ENPTVD data - none or incomplete table.");
+        }
         for (std::vector<std::vector<std::vector<double> > >::size_type i=1; i<table_.size(); ++i) {
             mask_.push_back(false);
             for (std::vector<std::vector<double> >::size_type j=0; j<table_[0].size(); ++j) {
@@ -2464,6 +2467,9 @@ struct ENKRVD : public SpecialBase {
                 }
             }
         }
+        if (table_[0].empty() || !sub_table[0].empty()) {
+            THROW("Error reading ENKRVD data - none or incomplete table.");
+        }
         for (std::vector<std::vector<std::vector<double> > >::size_type i=1; i<table_.size(); ++i) {
             mask_.push_back(false);
             for (std::vector<std::vector<double> >::size_type j=0; j<table_[0].size(); ++j) {
-- 
2.43.0


From ef5400027e7916184a9037ac87af3cfa1bbeab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 109/134] fix: readVagGrid: report structures with too many
 entries

---
 opm/core/io/vag/vag.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/io/vag/vag.cpp b/opm/core/io/vag/vag.cpp
index c0e55f4..e27b79c 100644
--- a/opm/core/io/vag/vag.cpp
+++ b/opm/core/io/vag/vag.cpp
@@ -43,6 +43,7 @@
 #include <stdlib.h>
 #include <cmath>
 #include <cassert>
+#include <limits>
 #include <set>
 #include <vector>
 #include <map>
@@ -99,6 +100,9 @@ namespace Opm
 	for(int i=0;i< n;++i){
 	    const int number = readCount(is);
 	    //cout <<number << endl;
+	    if (number > std::numeric_limits<int>::max() - pos_struct.pos[i]) {
+		THROW("Failed to read pos structure in vag file: too many entries");
+	    }
 	    pos_struct.pos.push_back(pos_struct.pos[i]+number);
 	    for(int j=0;j< number;++j){
 		int value;
-- 
2.43.0


From 3bedb705181f35205bd0027eb60e527df58d40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 110/134] fix: TiXmlBase::StringEqual: do not assert on
 truncated XML input

---
 opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
index 27b5966..ff96bd6 100644
--- a/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
+++ b/opm/core/utility/parameters/tinyxml/tinyxmlparser.cpp
@@ -541,8 +541,7 @@ bool TiXmlBase::StringEqual( const char* p,
 	assert( tag );
 	if ( !p || !*p )
 	{
-		assert( 0 );
-		return false;
+		return false;	// The end of the input equals no tag.
 	}
 
 	const char* q = p;
-- 
2.43.0


From 472b72d266d93ccc6376bf40544c538e0a09e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:40 +0000
Subject: [PATCH 111/134] fix: GravityColumnSolver: report failures of parallel
 column solves instead of terminating

---
 .../transport/implicit/GravityColumnSolver_impl.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
index 0bb43ca..6a82bb9 100644
--- a/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
+++ b/opm/core/transport/implicit/GravityColumnSolver_impl.hpp
@@ -90,11 +90,22 @@ namespace Opm
             //   std::map<int, std::vector<int> >::const_iterator it;
             //for (it = columns.begin(); it != columns.end(); ++it) {
             int size = columns.size();
+
+            // Exceptions must not leave the parallel region.
+            bool failed = false;
             
             #pragma omp parallel for schedule(dynamic)
             for(int i = 0; i < size; ++i) {
-		solveSingleColumn(columns[i], dt, s, increment);
+                try {
+                    solveSingleColumn(columns[i], dt, s, increment);
+                } catch (const std::exception&) {
+                    #pragma omp critical
+                    failed = true;
+                }
 	    }   
+            if (failed) {
+                THROW("Failed to solve for all columns.");
+            }
 
 	    for (int cell = 0; cell < grid_.number_of_cells; ++cell) {
 		sys.vector().writableSolution()[cell] += increment[cell];
-- 
2.43.0


From 22e7f1ee2d26ee4c61308b33d715cabdf3d75299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:56 +0000
Subject: [PATCH 112/134] fix: WellsManager: destroy the wells when
 construction from a deck fails

---
 opm/core/wells/WellsManager.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 1afae2d..410881b 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -210,6 +210,19 @@ namespace
         return wi;
     }
 
+    /// Destroys the wells when construction of their owner fails.
+    class WellsGuard
+    {
+    public:
+        explicit WellsGuard(Wells* w) : w_(w) {}
+        ~WellsGuard() { destroy_wells(w_); }
+        void release() { w_ = 0; }
+    private:
+        WellsGuard(const WellsGuard&);
+        WellsGuard& operator=(const WellsGuard&);
+        Wells* w_;
+    };
+
 } // anonymous namespace
 
 
@@ -431,6 +444,7 @@ namespace Opm
         if (!w_) {
             THROW("Failed creating Wells struct.");
         }
+        WellsGuard guard(w_);
 
         // Classify wells
         if (deck.hasField("WCONINJE")) {
@@ -826,6 +840,7 @@ namespace Opm
             }
         }
         well_collection_.applyGroupControls();
+        guard.release();
     }
 
 
-- 
2.43.0


From f5f6e2e55328a3ecf54227ea62ec2b73c9b0c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:46 +0000
Subject: [PATCH 113/134] fix: free the face-to-half-face map of the linearised
 compressible solver

---
 opm/core/pressure/tpfa/cfs_tpfa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa.c b/opm/core/pressure/tpfa/cfs_tpfa.c
index 528e1e9..cbc0b0e 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa.c
@@ -133,6 +133,7 @@ impl_deallocate(struct cfs_tpfa_impl *pimpl)
     if (pimpl != NULL) {
         free              (pimpl->ddata);
         deallocate_densrat(pimpl->ratio);
+        free              (pimpl->f2hf);
     }
 
     free(pimpl);
-- 
2.43.0


From 1712cab6e87caa664d743c42a96fe8d2c37d7f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 114/134] fix: wells: survive and clean up after allocation
 failure in create_wells() and add_well()

---
 opm/core/wells/wells.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index 24759f7..660516a 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -260,8 +260,9 @@ initialise_new_wells(int nwells, struct Wells *W)
     }
 
     if (! ok) {
-        for (; w < nwells; w++) {
-            W->ctrls[w] = NULL;
+        /* Capacity remains unchanged, so dispose of new control sets. */
+        for (; w > m->well_cpty; w--) {
+            well_controls_destroy(W->ctrls[w - 1]);
         }
     }
 
@@ -410,12 +411,15 @@ destroy_wells(struct Wells *W)
     if (W != NULL) {
         m = W->data;
 
-        for (w = 0; w < m->well_cpty; w++) {
-            well_controls_destroy(W->ctrls[w]);
-        }
+        /* NULL if called due to failure in create_wells() */
+        if (m != NULL) {
+            for (w = 0; w < m->well_cpty; w++) {
+                well_controls_destroy(W->ctrls[w]);
+            }
 
-        for (w = 0; w < m->well_cpty; w++) {
-            free(W->name[w]);
+            for (w = 0; w < m->well_cpty; w++) {
+                free(W->name[w]);
+            }
         }
 
         destroy_well_mgmt(m);
-- 
2.43.0


From 9c9453c6d53ae01110a8f962bd2eff4748bfadcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 115/134] fix: csrmatrix_new_count_nnz: do not free
 uninitialised pointers when out of memory

---
 opm/core/linalg/sparse_sys.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 62c7dce..f4a2a97 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -37,6 +37,8 @@ csrmatrix_new_count_nnz(size_t m)
 
     new = malloc(1 * sizeof *new);
     if (new != NULL) {
+        new->ja = NULL;
+        new->sa = NULL;
         new->ia = malloc((m + 1) * sizeof *new->ia);
 
         if (new->ia != NULL) {
@@ -44,9 +46,6 @@ csrmatrix_new_count_nnz(size_t m)
 
             new->m   = m;
             new->nnz = 0;
-
-            new->ja  = NULL;
-            new->sa  = NULL;
         } else {
             csrmatrix_delete(new);
             new = NULL;
-- 
2.43.0


From d7659c2ae541dd7888a0af9b0b2fcfc0f7ac78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 116/134] fix: compr_src: keep the collection valid when memory
 runs out while it grows

---
 opm/core/pressure/tpfa/compr_source.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_source.c b/opm/core/pressure/tpfa/compr_source.c
index e1b2e55..d689783 100644
--- a/opm/core/pressure/tpfa/compr_source.c
+++ b/opm/core/pressure/tpfa/compr_source.c
@@ -50,14 +50,16 @@ expand_source_tables(int alloc, struct compr_src *src)
     v = realloc(src->flux      , alloc * 1            * sizeof *v);
     s = realloc(src->saturation, alloc * src->nphases * sizeof *s);
 
-    if ((c == NULL) || (v == NULL) || (s == NULL)) {
-
-        free(s);  free(v);   free(c);
+    /* Arrays that were reallocated replace the existing ones even if
+     * others were not, since those may no longer be valid. */
+    if (c != NULL) { src->cell       = c; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
 
+    if ((c == NULL) || (v == NULL) || (s == NULL)) {
         alloc = 0;
     } else {
-        src->cell = c;  src->cpty       = alloc;
-        src->flux = v;  src->saturation = s;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From fa31a29c5c4b65bd574e6c8f26d4ebd9dc91cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 117/134] fix: compr_bc: keep the collection valid when memory
 runs out while it grows

---
 opm/core/pressure/tpfa/compr_bc.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index d50f112..77add8f 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -53,18 +53,19 @@ expand_source_tables(int alloc, struct compr_bc *bc)
     v = realloc(bc->flux      , alloc * 1           * sizeof *v);
     s = realloc(bc->saturation, alloc * bc->nphases * sizeof *s);
 
+    /* Arrays that were reallocated replace the existing ones even if
+     * others were not, since those may no longer be valid. */
+    if (t != NULL) { bc->type       = t; }
+    if (f != NULL) { bc->face       = f; }
+    if (p != NULL) { bc->press      = p; }
+    if (v != NULL) { bc->flux       = v; }
+    if (s != NULL) { bc->saturation = s; }
+
     if ((t == NULL) || (f == NULL) ||
         (p == NULL) || (v == NULL) || (s == NULL)) {
-
-        free(s);  free(v);  free(p);  free(f);  free(t);
-
         alloc = 0;
     } else {
-        bc->type       = t;  bc->face = f;
-        bc->press      = p;  bc->flux = v;
-        bc->saturation = s;
-
-        bc->cpty       = alloc;
+        bc->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 4e078ea1c8c0ad73671e8b6e6a5ea8a534a246f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 118/134] fix: transport_source: keep the collection valid when
 memory runs out while it grows

---
 opm/core/transport/implicit/transport_source.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/opm/core/transport/implicit/transport_source.c b/opm/core/transport/implicit/transport_source.c
index 8daf198..80a7e43 100644
--- a/opm/core/transport/implicit/transport_source.c
+++ b/opm/core/transport/implicit/transport_source.c
@@ -54,17 +54,20 @@ expand_source_tables(int alloc, struct TransportSource *src)
     s = realloc(src->saturation, alloc * src->nphase * sizeof *s);
     z = realloc(src->surfvolume, alloc * src->nphase * sizeof *z);
 
+    /* Arrays that were reallocated replace the existing ones even if
+     * others were not, since those may no longer be valid. */
+    if (c != NULL) { src->cell       = c; }
+    if (p != NULL) { src->pressure   = p; }
+    if (v != NULL) { src->flux       = v; }
+    if (s != NULL) { src->saturation = s; }
+    if (z != NULL) { src->surfvolume = z; }
+
     if ((c == NULL) ||
         (p == NULL) || (v == NULL) ||
         (s == NULL) || (z == NULL)) {
-
-        free(z);  free(s);  free(v);  free(p);   free(c);
-
         alloc = 0;
     } else {
-        src->cell       = c;  src->cpty       = alloc;
-        src->pressure   = p;  src->flux       = v;
-        src->saturation = s;  src->surfvolume = z;
+        src->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 24a4454582c4ff7c76aeec41168a3286207749ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:49 +0000
Subject: [PATCH 119/134] fix: read_grid: report failure to allocate the global
 cell map instead of dropping the map

---
 opm/core/grid/grid.c | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/opm/core/grid/grid.c b/opm/core/grid/grid.c
index 653382d..1c58f51 100644
--- a/opm/core/grid/grid.c
+++ b/opm/core/grid/grid.c
@@ -520,18 +520,11 @@ read_grid_cells(FILE *fp, size_t ncellfaces, int has_tag, int has_indexmap,
         if (has_indexmap) {
             i = 0;
 
-            if (G->global_cell != NULL) {
-                while ((i < nc) &&
-                       (fscanf(fp, " %d", & G->global_cell[ i ]) == 1)) {
-                    i += 1;
-                }
-            }
-            else {
-                int discard;
-
-                while ((i < nc) && (fscanf(fp, " %d", & discard) == 1)) {
-                    i += 1;
-                }
+            /* A grid without its map would be taken for another grid,
+             * so report failure if the map could not be allocated. */
+            while ((G->global_cell != NULL) && (i < nc) &&
+                   (fscanf(fp, " %d", & G->global_cell[ i ]) == 1)) {
+                i += 1;
             }
         }
         else {
-- 
2.43.0


From cbb8b8f0b57dac3c46263848f35bda176fd05c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 120/134] fix: coarse_topology_create: give back all memory and
 stop when a connection cannot be allocated

---
 opm/core/pressure/msmfem/coarse_conn.c | 28 ++++++++++++++++----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index 065bece..d3af982 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -219,6 +219,7 @@ block_neighbours_insert_neighbour(int b, int fconn, int expct_nconn,
 /* ---------------------------------------------------------------------- */
 {
     int i, j, p, t, nmove, ret;
+    struct block_neighbour *bn;
 
     assert (bns != NULL);
 
@@ -254,20 +255,21 @@ block_neighbours_insert_neighbour(int b, int fconn, int expct_nconn,
             }
 
             if (ret >= 0) {
-                if (i < bns->nneigh) {
-                    nmove = bns->nneigh - i;
+                bn = block_neighbour_allocate(expct_nconn);
 
-                    memmove(bns->neigh + i + 1, bns->neigh + i + 0,
-                            nmove * sizeof *bns->neigh);
-                }
+                if (bn != NULL) {
+                    if (i < bns->nneigh) {
+                        nmove = bns->nneigh - i;
 
-                bns->neigh[i] = block_neighbour_allocate(expct_nconn);
+                        memmove(bns->neigh + i + 1, bns->neigh + i + 0,
+                                nmove * sizeof *bns->neigh);
+                    }
 
-                if (bns->neigh[i] != NULL) {
-                    ret = block_neighbour_insert_fconn(fconn, bns->neigh[i]);
+                    ret = block_neighbour_insert_fconn(fconn, bn);
 
-                    bns->neigh[i]->b = b;
-                    bns->nneigh += 1;
+                    bn->b         = b;
+                    bns->neigh[i] = bn;
+                    bns->nneigh  += 1;
                 } else {
                     ret = -1;
                 }
@@ -590,7 +592,11 @@ coarse_topology_create(int nc, int nf, int expct_nconn,
         ncoarse_f = derive_block_faces(nf, nblocks, expct_nconn,
                                        p, neighbours, bns);
 
-        topo = coarse_topology_build(ncoarse_f, nblocks, bns);
+        if (ncoarse_f >= 0) {
+            topo = coarse_topology_build(ncoarse_f, nblocks, bns);
+        } else {
+            topo = NULL;
+        }
 
         for (b = 0; b < nblocks; b++) {
             block_neighbours_deallocate(bns[b]);
-- 
2.43.0


From 2711ec1a0636ba54b43d4e3e196efb45f427add4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 121/134] fix: hybsys_allocate_symm: do not free an
 uninitialised pointer when out of memory

---
 opm/core/pressure/mimetic/hybsys.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys.c b/opm/core/pressure/mimetic/hybsys.c
index 13da354..746dd73 100644
--- a/opm/core/pressure/mimetic/hybsys.c
+++ b/opm/core/pressure/mimetic/hybsys.c
@@ -49,14 +49,13 @@ hybsys_allocate_symm(int max_nconn, int nc, int nconn_tot)
         new->L   = malloc(nc                    * sizeof *new->L  );
         new->q   = malloc(nc                    * sizeof *new->q  );
         new->F1  = malloc(nconn_tot             * sizeof *new->F1 );
+        new->F2  = new->F1;
 
         if ((new->one == NULL) || (new->r == NULL) || (new->S  == NULL) ||
             (new->L   == NULL) || (new->q == NULL) || (new->F1 == NULL)) {
             hybsys_free(new);
 
             new = NULL;
-        } else {
-            new->F2 = new->F1;
         }
     }
 
-- 
2.43.0


From 534e37f48f0e21bbcc578715fd16810cea2c0f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 122/134] fix: hybsys_define_globconn: report failure to
 allocate well structures instead of dropping the wells

---
 opm/core/pressure/mimetic/hybsys_global.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/opm/core/pressure/mimetic/hybsys_global.c b/opm/core/pressure/mimetic/hybsys_global.c
index 784d7b3..901e2df 100644
--- a/opm/core/pressure/mimetic/hybsys_global.c
+++ b/opm/core/pressure/mimetic/hybsys_global.c
@@ -286,20 +286,22 @@ hybsys_define_globconn(struct UnstructuredGrid *G, well_t *W)
     ok = 1;
     nw = 0;
     wia = NULL;
-    if (W != NULL) {
+    if ((W != NULL) && (W->well_connpos[W->number_of_wells] > 0)) {
+        nw = W->number_of_wells;
+
         ok = allocate_cell_wells(G->number_of_cells, W, &cwell_pos, &cwells);
         if (ok) {
             derive_cell_wells(G->number_of_cells, W, cwell_pos, cwells);
-        }
-        nw = ok ? W->number_of_wells : 0;
 
-        if (nw > 0) {
             wia = allocate_well_dofset(G, W);
-            if (wia == NULL) { nw = 0; }
+            ok  = wia != NULL;
         }
     }
 
-    A = csrmatrix_new_count_nnz(G->number_of_faces + nw);
+    A = NULL;
+    if (ok) {
+        A = csrmatrix_new_count_nnz(G->number_of_faces + nw);
+    }
 
     if (A != NULL) {
         count_conn_per_row_grid(G, A);
-- 
2.43.0


From 40cd469c06adc30b51c22556706d54baa42ea964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:22 +0000
Subject: [PATCH 123/134] fix: coarse_topology_create: report failure to
 allocate the fine-scale constituents

---
 opm/core/pressure/msmfem/coarse_conn.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_conn.c b/opm/core/pressure/msmfem/coarse_conn.c
index d3af982..362bcfc 100644
--- a/opm/core/pressure/msmfem/coarse_conn.c
+++ b/opm/core/pressure/msmfem/coarse_conn.c
@@ -526,19 +526,21 @@ coarse_topology_build(int ncoarse_f, int nblk,
                 new->subfacepos = malloc((ncoarse_f + 1) * sizeof *new->subfacepos);
                 new->subfaces   = malloc(nsubf           * sizeof *new->subfaces);
 
-                if ((new->subfacepos == NULL) || (new->subfaces == NULL)) {
-                    free(new->subfaces);   new->subfaces   = NULL;
-                    free(new->subfacepos); new->subfacepos = NULL;
-                } else {
+                subface_valid = (new->subfacepos != NULL) &&
+                                (new->subfaces   != NULL);
+
+                if (subface_valid) {
                     for (i = 0; i < ncoarse_f + 1; i++) {
                         new->subfacepos[i] = 0;
                     }
                 }
+            } else {
+                subface_valid = 1;
             }
 
             new->blkfaces = malloc(nblkf * sizeof *new->blkfaces);
 
-            if (new->blkfaces == NULL) {
+            if ((new->blkfaces == NULL) || !subface_valid) {
                 coarse_topology_destroy(new);
                 new = NULL;
             } else {
-- 
2.43.0


From 58a2e00ecf584b8168e3d187bf31070dd17d44e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 124/134] fix: coarse_sys_construct: return no partially built
 coarse system when out of memory

---
 opm/core/pressure/msmfem/coarse_sys.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index 5297e6e..c5a8aa1 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -524,7 +524,10 @@ compute_fs_ip(struct UnstructuredGrid *g, const double *perm,
     Binv   = malloc(m->sum_ngconn2 * sizeof *Binv);
     htrans = malloc(g->cell_facepos[ nc ] * sizeof *htrans);
 
-    if ((Binv != NULL) && (htrans != NULL)) {
+    if ((Binv == NULL) || (htrans == NULL)) {
+        free(Binv);
+        Binv = NULL;
+    } else {
         tpfa_htrans_compute(g, perm, htrans);
 
         for (c = p2 = 0; c < nc; c++) {
@@ -726,6 +729,7 @@ blkdof_fill(struct coarse_topology *ct,
 
     assert(nb > 0);
 
+    sys->blkdof     = NULL;
     sys->blkdof_pos = malloc((nb + 1) * sizeof *sys->blkdof_pos);
 
     if (sys->blkdof_pos != NULL) {
@@ -829,6 +833,13 @@ coarse_sys_allocate(struct coarse_topology *ct,
 
         assert(nb > 0);
 
+        new->dof2conn    = NULL;        /* coarse_sys_destroy() is safe */
+        new->basis_pos   = NULL;
+        new->cell_ip_pos = NULL;
+        new->basis       = NULL;
+        new->cell_ip     = NULL;
+        new->Binv        = NULL;
+
         alloc_ok = blkdof_fill(ct, m, new);
 
         if (alloc_ok) {
@@ -1514,6 +1525,9 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
                                    Binv,
                                    m->pb2c, m->b2c,
                                    sys);
+    } else {
+        coarse_sys_destroy(sys);
+        sys = NULL;
     }
 
     bf_asm_data_deallocate(bf_asm);
-- 
2.43.0


From d7f635429fd50a542fbf09d297b38fee29435434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 125/134] fix: coarse_sys_compute_cell_ip: report failure to
 allocate work arrays

---
 opm/core/pressure/msmfem/coarse_sys.c | 34 +++++++++++++++++----------
 opm/core/pressure/msmfem/coarse_sys.h |  3 ++-
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/opm/core/pressure/msmfem/coarse_sys.c b/opm/core/pressure/msmfem/coarse_sys.c
index c5a8aa1..4654c45 100644
--- a/opm/core/pressure/msmfem/coarse_sys.c
+++ b/opm/core/pressure/msmfem/coarse_sys.c
@@ -1461,13 +1461,14 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
                      LocalSolver             linsolve)
 /* ---------------------------------------------------------------------- */
 {
-    int                     cf;
+    int                     cf, ok;
     size_t                  nlocf;
     double                 *Binv, *w;
     struct coarse_sys_meta *m;
     struct bf_asm_data     *bf_asm;
     struct coarse_sys      *sys;
 
+    ok  = 0;
     sys = NULL;  bf_asm = NULL;  Binv = NULL;  w = NULL;
 
     m = coarse_sys_meta_construct(g, p, ct);
@@ -1518,14 +1519,16 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
          * in coarse_sys_compute_Binv(). */
         Binv_unscale_mobility(g->number_of_cells, m, totmob, Binv);
 
-        coarse_sys_compute_cell_ip(g->number_of_cells,
-                                   m->max_ngconn,
-                                   ct->nblocks,
-                                   g->cell_facepos,
-                                   Binv,
-                                   m->pb2c, m->b2c,
-                                   sys);
-    } else {
+        ok = coarse_sys_compute_cell_ip(g->number_of_cells,
+                                        m->max_ngconn,
+                                        ct->nblocks,
+                                        g->cell_facepos,
+                                        Binv,
+                                        m->pb2c, m->b2c,
+                                        sys);
+    }
+
+    if (! ok) {
         coarse_sys_destroy(sys);
         sys = NULL;
     }
@@ -1571,9 +1574,11 @@ coarse_sys_destroy(struct coarse_sys *sys)
  * sys->cell_ip, a packed representation of the IP pairs (one col per
  * cell per block).
  *
- * Allocates work arrays and may fail.  Does currently not report failure.*/
+ * Allocates work arrays and may fail.
+ *
+ * Returns one (1) if successful, and zero (0) otherwise. */
 /* ---------------------------------------------------------------------- */
-void
+int
 coarse_sys_compute_cell_ip(int                nc,
                            int                max_nconn,
                            int                nb,
@@ -1584,7 +1589,7 @@ coarse_sys_compute_cell_ip(int                nc,
                            struct coarse_sys *sys)
 /* ---------------------------------------------------------------------- */
 {
-    int i, i1, i2, b, c, n, bf, *pconn2;
+    int i, i1, i2, b, c, n, bf, ret, *pconn2;
     int max_nbf, nbf, loc_nc;
 
     size_t p, nbf_pairs, bf_off, bf_sz;
@@ -1599,6 +1604,7 @@ coarse_sys_compute_cell_ip(int                nc,
 #endif
 
 
+    ret     = 0;
     max_nbf = max_diff(nb, sys->blkdof_pos);
 
     pconn2  = malloc((nc + 1) * sizeof *pconn2);
@@ -1723,9 +1729,13 @@ coarse_sys_compute_cell_ip(int                nc,
 #if DEBUG_OUTPUT
         fclose(fp);
 #endif
+
+        ret = 1;
     }
 
     free(work);  free(pconn2);
+
+    return ret;
 }
 
 
diff --git a/opm/core/pressure/msmfem/coarse_sys.h b/opm/core/pressure/msmfem/coarse_sys.h
index 146a7df..234981b 100644
--- a/opm/core/pressure/msmfem/coarse_sys.h
+++ b/opm/core/pressure/msmfem/coarse_sys.h
@@ -61,7 +61,8 @@ coarse_sys_construct(struct UnstructuredGrid *g, const int   *p,
 void
 coarse_sys_destroy(struct coarse_sys *sys);
 
-void
+/* Returns one (1) if successful and zero (0) if out of memory. */
+int
 coarse_sys_compute_cell_ip(int                nc,
                            int                max_nconn,
                            int                nb,
-- 
2.43.0


From fa9028b6fa0b4626aead3b959ddb994b1b8dc7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:37 +0000
Subject: [PATCH 126/134] fix: compute_geometry: compute the centroid of 2D
 cells, not the average of their vertices

---
 opm/core/grid/cpgpreprocess/geometry.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/opm/core/grid/cpgpreprocess/geometry.c b/opm/core/grid/cpgpreprocess/geometry.c
index 1dd6e68..f3f8af9 100644
--- a/opm/core/grid/cpgpreprocess/geometry.c
+++ b/opm/core/grid/cpgpreprocess/geometry.c
@@ -368,6 +368,9 @@ compute_cell_geometry_2d(
    double center_x;     /* x-coordinate for cell barycenter */
    double center_y;     /* y-coordinate for cell barycenter */
    double area;         /* (accumulated) cell area */
+   double sub_area;     /* area of triangle spanned by center and edge */
+   double moment_x;     /* (accumulated) first moments of the triangles, */
+   double moment_y;     /* relative to the center */
    int a_nod, b_nod;    /* node indices for edge start and end points */
    double a_x, a_y,
           b_x, b_y;     /* vectors from center to edge points */
@@ -395,13 +398,13 @@ compute_cell_geometry_2d(
       }
       center_x /= (double) num_nodes;
       center_y /= (double) num_nodes;
-      cell_centers[cell * num_dims + x_ofs] = center_x;
-      cell_centers[cell * num_dims + y_ofs] = center_y;
 
       /* triangulate the polygon by introducing the cell center and then new
        * internal edges from this center to the vertices. the total area of
        * the cell is the sum of area of these sub-triangles */
       area = 0.;
+      moment_x = 0.;
+      moment_y = 0.;
       for (edge_ndx = cell_edge_pos[cell];
            edge_ndx < cell_edge_pos[cell + 1]; ++edge_ndx)
       {
@@ -423,8 +426,25 @@ compute_cell_geometry_2d(
           * equal to the parallelogram spanned by the two vectors (but which
           * is a scalar). the sign tells us the orientation between the nodes
           * a and b, but we are not interested in that, just the area */
-         area += fabs(a_x * b_y - a_y * b_x);
+         sub_area = fabs(a_x * b_y - a_y * b_x);
+         area += sub_area;
+
+         /* centroid of the triangle is one third of the way along the sum
+          * of the two vectors, since the center itself is the third corner */
+         moment_x += sub_area * (a_x + b_x) / 3.;
+         moment_y += sub_area * (a_y + b_y) / 3.;
       }
+
+      /* the average of the vertices is not the centroid of the cell unless
+       * it is a triangle or has symmetry, so move it there */
+      if (area > 0.)
+      {
+         center_x += moment_x / area;
+         center_y += moment_y / area;
+      }
+      cell_centers[cell * num_dims + x_ofs] = center_x;
+      cell_centers[cell * num_dims + y_ofs] = center_y;
+
       /* we summed parallelograms which are twice the size of the triangles
        * that make up the cell; divide out the half for all terms here */
       area *= 0.5;
-- 
2.43.0


From 8bd2212eec16bf2c80f589cb87f3849e906b995b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 127/134] fix: IncompTpfa: do not take a NaN residual or
 increment for convergence

---
 opm/core/pressure/IncompTpfa.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index 4ee889a..5c41bb8 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -34,6 +34,7 @@
 #include <opm/core/utility/miscUtilities.hpp>
 #include <opm/core/wells.h>
 #include <iomanip>
+#include <limits>
 #include <cmath>
 #include <algorithm>
 
@@ -433,6 +434,10 @@ namespace Opm
         {
             double norm = 0.0;
             for (; beg != end; ++beg) {
+                if (*beg != *beg) {
+                    // NaN must not be mistaken for a small number.
+                    return std::numeric_limits<double>::infinity();
+                }
                 norm = std::max(norm, std::fabs(*beg));
             }
             return norm;
-- 
2.43.0


From ed32f34977dac4dce6ee3a329c5c8b249982e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:31 +0000
Subject: [PATCH 128/134] fix: WellState: do not read the first perforation of
 a well that has none

---
 opm/core/simulator/WellState.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opm/core/simulator/WellState.hpp b/opm/core/simulator/WellState.hpp
index f1edc5d..e1e8d80 100644
--- a/opm/core/simulator/WellState.hpp
+++ b/opm/core/simulator/WellState.hpp
@@ -39,14 +39,19 @@ namespace Opm
                 bhp_.resize(nw);
                 // Initialize bhp to be target pressure
                 // if bhp-controlled well, otherwise set
-                // to pressure in first perforation cell.
+                // to pressure in first perforation cell
+                // (zero if there are no perforations).
                 for (int w = 0; w < nw; ++w) {
                     const WellControls* ctrl = wells->ctrls[w];
 
                     if ((ctrl->current < 0) || // SHUT
                         (ctrl->type[ctrl->current] != BHP)) {
-                        const int cell = wells->well_cells[wells->well_connpos[w]];
-                        bhp_[w] = state.pressure()[cell];
+                        if (wells->well_connpos[w] == wells->well_connpos[w + 1]) {
+                            bhp_[w] = 0.0;
+                        } else {
+                            const int cell = wells->well_cells[wells->well_connpos[w]];
+                            bhp_[w] = state.pressure()[cell];
+                        }
                     }
                     else {
                         bhp_[w] = ctrl->target[ctrl->current];
-- 
2.43.0


From 35dbebe1e3ac3086298dc64423819e9afd4ef42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:31 +0000
Subject: [PATCH 129/134] fix: computeWDP: do not divide by zero if no well has
 a perforation

---
 opm/core/utility/miscUtilities.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index cecb706..3f2ad10 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -489,6 +489,11 @@ namespace Opm
                     std::vector<double>& wdp)
     {
         const int nw = wells.number_of_wells;
+        if (!per_grid_cell && wells.well_connpos[nw] == 0) {
+            // No perforations, no pressure differences.
+            wdp.clear();
+            return;
+        }
         const size_t np = per_grid_cell ?
             saturations.size()/grid.number_of_cells
             : saturations.size()/wells.well_connpos[nw];
-- 
2.43.0


From a22968bf577144f65ae509765a46e11a5e54a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:53 +0000
Subject: [PATCH 130/134] fix: pressure solvers: a shut well without
 perforations does not make the system singular

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c |  4 ++++
 opm/core/pressure/tpfa/ifs_tpfa.c          | 13 +++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 0e5e674..21dc64d 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -964,6 +964,10 @@ assemble_well_contrib(struct cfs_tpfa_res_wells   *wells ,
                 is_neumann = 0;
             }
         }
+        else if (W->well_connpos[w] == W->well_connpos[w + 1]) {
+            /* Shut, no connections: avoid a singular system. */
+            h->J->sa[ csrmatrix_elm_index(nc + w, nc + w, h->J) ] = 1.0;
+        }
     }
 
     return is_neumann;
diff --git a/opm/core/pressure/tpfa/ifs_tpfa.c b/opm/core/pressure/tpfa/ifs_tpfa.c
index 9c7a2ee..82a82ad 100644
--- a/opm/core/pressure/tpfa/ifs_tpfa.c
+++ b/opm/core/pressure/tpfa/ifs_tpfa.c
@@ -335,6 +335,12 @@ assemble_shut_well(int nc, int w,
         /* w<->w diagonal contribution from well, trivial eqn. */
         h->A->sa[ jw ] += trans;
     }
+
+    if (W->well_connpos[w] == W->well_connpos[w + 1]) {
+        /* No connections: avoid a singular system. */
+        h->A->sa[ jw ] = 1.0;
+    }
+
     h->b[ wdof ] = 0.0;
 }
 
@@ -621,8 +627,11 @@ assemble_incompressible(struct UnstructuredGrid      *G     ,
     res_is_neumann = 1;
     wells_are_rate = 1;
     if (F != NULL) {
-        if ((F->W != NULL) && (F->totmob != NULL) && (F->wdp != NULL)) {
-            /* Contributions from wells */
+        if ((F->W != NULL) && (F->totmob != NULL) &&
+            ((F->wdp != NULL) ||
+             (F->W->well_connpos[ F->W->number_of_wells ] == 0))) {
+            /* Contributions from wells (wdp is not needed if no
+             * well has a connection) */
 
             /* Ensure modicum of internal consistency. */
             assert (h->A->m ==
-- 
2.43.0


From 106acbd46c54b4a3f76c9033bce1321b99f988f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:34 +0000
Subject: [PATCH 131/134] fix: simulators: a step solved again with other well
 controls starts from its initial pressure

---
 opm/core/simulator/SimulatorCompressibleTwophase.cpp | 4 +++-
 opm/core/simulator/SimulatorIncompTwophase.cpp       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorCompressibleTwophase.cpp b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
index 3840d3f..1795d98 100644
--- a/opm/core/simulator/SimulatorCompressibleTwophase.cpp
+++ b/opm/core/simulator/SimulatorCompressibleTwophase.cpp
@@ -383,10 +383,10 @@ namespace Opm
             }
             bool well_control_passed = !check_well_controls_;
             int well_control_iteration = 0;
+            const std::vector<double> initial_pressure = state.pressure();
             do {
                 // Run solver.
                 pressure_timer.start();
-                std::vector<double> initial_pressure = state.pressure();
                 psolver_.solve(timer.currentStepLength(), state, well_state);
 
                 // Renormalize pressure if both fluids and rock are
@@ -439,6 +439,8 @@ namespace Opm
                     }
                     if (!well_control_passed) {
                         std::cout << "Well controls not passed, solving again." << std::endl;
+                        // The step is made again from its start.
+                        state.pressure() = initial_pressure;
                     } else {
                         std::cout << "Well conditions met." << std::endl;
                     }
diff --git a/opm/core/simulator/SimulatorIncompTwophase.cpp b/opm/core/simulator/SimulatorIncompTwophase.cpp
index a7e8edd..1ac7887 100644
--- a/opm/core/simulator/SimulatorIncompTwophase.cpp
+++ b/opm/core/simulator/SimulatorIncompTwophase.cpp
@@ -485,10 +485,10 @@ namespace Opm
             }
             bool well_control_passed = !check_well_controls_;
             int well_control_iteration = 0;
+            const std::vector<double> initial_pressure = state.pressure();
             do {
                 // Run solver.
                 pressure_timer.start();
-                std::vector<double> initial_pressure = state.pressure();
                 psolver_.solve(timer.currentStepLength(), state, well_state);
 
                 // Renormalize pressure if rock is incompressible, and
@@ -541,6 +541,8 @@ namespace Opm
                     }
                     if (!well_control_passed) {
                         std::cout << "Well controls not passed, solving again." << std::endl;
+                        // The step is made again from its start.
+                        state.pressure() = initial_pressure;
                     } else {
                         std::cout << "Well conditions met." << std::endl;
                     }
-- 
2.43.0


From ddc1a09b0596a688d02699332a643d37004c12a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:49 +0000
Subject: [PATCH 132/134] fix: WellsGroup: the worst offender of a production
 limit is an open producer

---
 opm/core/wells/WellsGroup.cpp | 21 +++++++++++++++------
 opm/core/wells/WellsGroup.hpp |  1 +
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index a750ed2..6c19d0c 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -380,11 +380,15 @@ namespace Opm
       
         if (production_violated) {
             switch (prodSpec().procedure_) {
-            case ProductionSpecification::WELL:
-                getWorstOffending(well_reservoirrates_phase,
-                                  well_surfacerates_phase,
-                                  production_mode_violated).first->shutWell();
+            case ProductionSpecification::WELL: {
+                WellNode* const worst = getWorstOffending(well_reservoirrates_phase,
+                                                          well_surfacerates_phase,
+                                                          production_mode_violated).first;
+                if (worst != NULL) {
+                    worst->shutWell();
+                }
                 return false;
+            }
             case ProductionSpecification::RATE:
                 std::cout << "Applying group control" << std::endl;
                 applyProdGroupControl(production_mode_violated, 
@@ -424,13 +428,14 @@ namespace Opm
                                                                const std::vector<double>& well_surfacerates_phase,
                                                                ProductionSpecification::ControlMode mode)
     {
-        std::pair<WellNode*, double> max;
+        std::pair<WellNode*, double> max(static_cast<WellNode*>(NULL), 0.0);
         for (size_t i = 0; i < children_.size(); i++) {
             std::pair<WellNode*, double> child_max = children_[i]->getWorstOffending(well_reservoirrates_phase,
                                                                                      well_surfacerates_phase,
                                                                                      mode);
             // Production rates are negative.
-            if (i == 0 || child_max.second < max.second) {
+            if (child_max.first != NULL
+                && (max.first == NULL || child_max.second < max.second)) {
                 max = child_max;
             }
         }
@@ -791,6 +796,10 @@ namespace Opm
                                                              const std::vector<double>& well_surfacerates_phase,
                                                              ProductionSpecification::ControlMode mode)
     {
+        if (wells_->type[self_index_] != PRODUCER || isShut()) {
+            // No production to shut.
+            return std::pair<WellNode*, double>(static_cast<WellNode*>(NULL), 0.0);
+        }
         const int np = phaseUsage().num_phases;
         const int index = self_index_*np;
         return std::pair<WellNode*, double>(this,
diff --git a/opm/core/wells/WellsGroup.hpp b/opm/core/wells/WellsGroup.hpp
index 8676779..145e40b 100644
--- a/opm/core/wells/WellsGroup.hpp
+++ b/opm/core/wells/WellsGroup.hpp
@@ -151,6 +151,7 @@ namespace Opm
         /// \param[in]   mode
         ///                         The relevant control mode to find the maximum over.
         /// \return first will be a pointer to the worst offending well, second will be the obtained value at that well.
+        ///         Only open producers are considered, first will be NULL if there are none.
         virtual std::pair<WellNode*, double> getWorstOffending(const std::vector<double>& well_reservoirrates_phase,
                                                                const std::vector<double>& well_surfacerates_phase,
                                                                ProductionSpecification::ControlMode mode) = 0;
-- 
2.43.0


From 48cd37b7d19374f2f135719ae61f8cc5258a9722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:17 +0000
Subject: [PATCH 133/134] fix: TwophaseState, BlackoilState: init with a single
 phase does not write past the saturations

---
 opm/core/simulator/BlackoilState.hpp | 3 ++-
 opm/core/simulator/TwophaseState.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/BlackoilState.hpp b/opm/core/simulator/BlackoilState.hpp
index eeaa442..911e2f9 100644
--- a/opm/core/simulator/BlackoilState.hpp
+++ b/opm/core/simulator/BlackoilState.hpp
@@ -45,7 +45,8 @@ namespace Opm
                 // gas in an oil-gas case.
                 // For proper initialization, one should not rely on this,
                 // but use available phase information instead.
-                sat_[num_phases*cell + 1] = 1.0;
+                // A single phase fills the cell.
+                sat_[num_phases*cell + (num_phases > 1 ? 1 : 0)] = 1.0;
             }
         }
 
diff --git a/opm/core/simulator/TwophaseState.hpp b/opm/core/simulator/TwophaseState.hpp
index 5487b6d..5f17d9c 100644
--- a/opm/core/simulator/TwophaseState.hpp
+++ b/opm/core/simulator/TwophaseState.hpp
@@ -45,7 +45,8 @@ namespace Opm
                 // gas in an oil-gas case.
                 // For proper initialization, one should not rely on this,
                 // but use available phase information instead.
-                sat_[num_phases_*cell + 1] = 1.0;
+                // A single phase fills the cell.
+                sat_[num_phases_*cell + (num_phases_ > 1 ? 1 : 0)] = 1.0;
             }
         }
 
-- 
2.43.0


From 80566c6195387090fbfcb6221f2ebf021594f0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:15 +0000
Subject: [PATCH 134/134] fix: groups know the parent of a node added in code

---
 opm/core/wells/WellsGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 6c19d0c..830db94 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -409,6 +409,7 @@ namespace Opm
     void WellsGroup::addChild(std::tr1::shared_ptr<WellsGroupInterface> child)
     {
         children_.push_back(child);
+        child->setParent(this);
     }
 
     
-- 
2.43.0

