From 0d2d04ef2a8eccec338229a7789e2a05f7ac8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:16 +0000
Subject: [PATCH 01/79] fix: transpose of a matrix without columns has row
 pointers

---
 CSR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 96bae24..03be1de 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -493,6 +493,9 @@ CSR *CSR::transpose() const
   }
 
   if (0 == n) {
+    AT->rowptr = MALLOC(int, 1);
+    assert(AT->rowptr);
+    AT->rowptr[0] = base;
     return AT;
   }
 
-- 
2.43.0


From 74b669f8a018976b8776f804db04cdaf7fe55d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 02/79] fix: permuteRows on 1-based matrices used 0-based row
 offsets

---
 Permute.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 7ed76ff..abba7ef 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -34,7 +34,7 @@ namespace SpMP
 
 void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 {
-  assert(isPerm(inversePerm, m));
+  assert(!inversePerm || isPerm(inversePerm, m));
 
   int base = getBase();
 
@@ -385,23 +385,23 @@ static void permuteRowsMain_(
 #pragma omp parallel
   {
     int iBegin, iEnd;
-    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr + BASE, m);
+    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr, m);
     iBegin += BASE;
     iEnd += BASE;
 
     for (int i = iBegin; i < iEnd; ++i) {
       int row = rowInversePerm ? rowInversePerm[i - BASE] + BASE : i;
       int begin = rowptr[row], end = rowptr[row + 1];
-      int newBegin = out->rowptr[i] - BASE;
+      int newBegin = out->rowptr[i - BASE] - BASE;
 
       if (values)
         memcpy(out->values + newBegin, values + begin, (end - begin)*sizeof(double));
       memcpy(out->colidx + newBegin, colidx + begin, (end - begin)*sizeof(int));
 
       if (diagptr)
-        out->diagptr[i] =
-          out->rowptr[i] + (diagptr[row] - rowptr[row]);
-      if (idiag) out->idiag[i] = idiag[row];
+        out->diagptr[i - BASE] =
+          out->rowptr[i - BASE] + (diagptr[row] - rowptr[row]);
+      if (idiag) out->idiag[i - BASE] = idiag[row];
     }
   }
 }
-- 
2.43.0


From 598d0ace04752347348e40ea24e4a158b3d70e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 03/79] fix: permuteColsInPlace on pattern-only and rectangular
 matrices

---
 Permute.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index abba7ef..e276e15 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -121,18 +121,19 @@ void permuteColsInPlace_(CSR *A, const int *perm)
   int *diagptr = A->diagptr ? A->diagptr - BASE : NULL;
 
   int *colidx = A->colidx - BASE;
-  T *values = A->values - BASE;
+  T *values = A->values ? A->values - BASE : NULL;
 
   int m = A->m;
+  int n = A->n;
 
 #pragma omp parallel for
   for (int i = BASE; i < m + BASE; ++i) {
     int diagCol = -1;
     for (int j = rowptr[i]; j < extptr[i]; ++j) {
       int c = colidx[j];
-      assert(c >= 0 && c < m);
+      assert(c >= BASE && c < n + BASE);
       colidx[j] = perm[c - BASE] + BASE;
-      assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < m);
+      assert(colidx[j] >= BASE && colidx[j] < n + BASE);
       if (c == i) diagCol = perm[c - BASE] + BASE;
     }
 
@@ -202,7 +203,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
         }
       }
     }
-    else {
+    else if (values) {
       for (int j = rowptr[i] + 1; j < extptr[i]; ++j) {
         int c = colidx[j];
         double v = values[j];
@@ -218,6 +219,9 @@ void permuteColsInPlace_(CSR *A, const int *perm)
         values[k + 1] = v;
       }
     }
+    else {
+      std::sort(colidx + rowptr[i], colidx + extptr[i]);
+    }
   } // for each row
 }
 
-- 
2.43.0


From 080f9ee285566dd1bac3bf66e2baf835da83ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 04/79] fix: sorted permute of pattern-only matrices

---
 Permute.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index e276e15..1f4905c 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -312,7 +312,7 @@ static void permuteMain_(
         if (in->extptr) {
           for (int j = end; j < rowptr[row + 1]; ++j, ++k) {
             newColidx[k] = colidx[j];
-            newValues[k] = values[j];
+            if (values) newValues[k] = values[j];
           }
         }
 
@@ -322,17 +322,17 @@ static void permuteMain_(
           // insertion sort
           for (int j = newBegin + 1; j < newExtptr[i]; ++j) {
             int c = newColidx[j];
-            double v = newValues[j];
+            double v = values ? newValues[j] : 0;
 
             int k = j - 1;
             while (k >= newBegin && newColidx[k] > c) {
               newColidx[k + 1] = newColidx[k];
-              newValues[k + 1] = newValues[k];
+              if (values) newValues[k + 1] = newValues[k];
               --k;
             }
 
             newColidx[k + 1] = c;
-            newValues[k + 1] = v;
+            if (values) newValues[k + 1] = v;
           }
         }
 
-- 
2.43.0


From be171f8687b35dc137a0665f554997a83d13f1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 05/79] fix: in-place SpMV copies all columns' entries of x

---
 SpMV.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 7017d85..d159c3b 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -161,10 +161,10 @@ void CSR::multiplyWithVector(
   // if x and w point to the same array, copy x to a temporary buffer
   // in order to avoid possible race condition in SpMV_
   if (w == x) {
-    tmp_x = MALLOC(double, m);
+    tmp_x = MALLOC(double, n);
  
     #pragma omp parallel for
-    for (int i=0; i<m; i++) {
+    for (int i=0; i<n; i++) {
       tmp_x[i] = x[i];
     }
   }
-- 
2.43.0


From 7ed09553c112dbfddffdd4bd3e30a93ac6cab712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 06/79] fix: strided dense-block product on 1-based matrices

---
 SpMV.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index d159c3b..9946205 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -199,9 +199,9 @@ static void SpMDM_(
   colidx -= base;
   values -= base;
 
-  W -= base;
-  X -= base;
-  Y -= base;
+  W -= base*wRowStride;
+  X -= base*xRowStride;
+  Y -= base*yRowStride;
 
 //#define MEASURE_LOAD_BALANCE
 #ifdef MEASURE_LOAD_BALANCE
-- 
2.43.0


From 668d836f846c49a8f8678717824ac0b1265658ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 07/79] fix: dense-block product with pattern-only matrices, as
 in SpMV

---
 SpMV.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 9946205..0de4fcd 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -197,7 +197,7 @@ static void SpMDM_(
 
   rowptr -= base;
   colidx -= base;
-  values -= base;
+  if (values) values -= base;
 
   W -= base*wRowStride;
   X -= base*xRowStride;
@@ -224,7 +224,7 @@ static void SpMDM_(
         }
         for (int i2 = rowptr[i1]; i2 < rowptr[i1 + 1]; ++i2) {
           for (int i3 = 0; i3 < k; ++i3) {
-            sum[i3] += values[i2]*X[colidx[i2] + i3*xColumnStride];
+            sum[i3] += (values ? values[i2] : 1)*X[colidx[i2] + i3*xColumnStride];
           }
         }
         for (int i3 = 0; i3 < k; ++i3) {
@@ -239,7 +239,7 @@ static void SpMDM_(
         }
         for (int i2 = rowptr[i1]; i2 < rowptr[i1 + 1]; ++i2) {
           for (int i3 = 0; i3 < k; ++i3) {
-            sum[i3] += values[i2]*X[colidx[i2]*xRowStride + i3*xColumnStride];
+            sum[i3] += (values ? values[i2] : 1)*X[colidx[i2]*xRowStride + i3*xColumnStride];
           }
         }
         for (int i3 = 0; i3 < k; ++i3) {
-- 
2.43.0


From f75b2e1dac49522a51fe72c2df660430457e177d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 08/79] fix: getSymmetricNnzPattern on 1-based matrices

---
 SymGS.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SymGS.cpp b/SymGS.cpp
index 956abaa..9d0df85 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -194,7 +194,7 @@ bool getSymmetricNnzPattern(
         for (int i = base; i < m + base; ++i) {
           (*symRowPtr)[i + 1] += (*symRowPtr)[i];
         }
-        *symColIdx = MALLOC(int, (*symRowPtr)[m]);
+        *symColIdx = MALLOC(int, (*symRowPtr)[m + base] - base);
         *symColIdx -= base;
 
         *symDiagPtr = MALLOC(int, m + 1);
@@ -204,6 +204,7 @@ bool getSymmetricNnzPattern(
           *symExtPtr -= base;
         }
         cnts = MALLOC(int, m);
+        cnts -= base;
       }
 
 #ifdef PRINT_TIME_BREAKDOWN
@@ -268,13 +269,16 @@ bool getSymmetricNnzPattern(
       }
 #undef PRINT_TIME_BREAKDOWN
 #endif
-
-      *symColIdx += base;
-      if (*symExtPtr) *symExtPtr += base;
     } // !isSymmetric
   } // omp parallel
 
   *symRowPtr += base;
+  if (!isSymmetric) {
+    *symColIdx += base;
+    *symDiagPtr += base;
+    if (A->extptr) *symExtPtr += base;
+    cnts += base;
+  }
 
   if (isSymmetric) {
     if (!A->useMemoryPool_()) {
-- 
2.43.0


From 0f65f92c3d311c83b5fe7bccce3f7b98ce6cf415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:31 +0000
Subject: [PATCH 09/79] fix: base switches also shift the external-column
 pointers

---
 CSR.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 03be1de..85e8fc2 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -415,6 +415,12 @@ void CSR::make0BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]--;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]--;
+  }
 }
 
 void CSR::make1BasedIndexing()
@@ -436,6 +442,12 @@ void CSR::make1BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]++;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]++;
+  }
 }
 
 void CSR::computeInverseDiag()
-- 
2.43.0


From a5496d5d47ddaae5ce93a23a59037e4c27b5b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 10/79] fix: 27-point Laplacian row sizes on grids with an
 extent of one

---
 Laplacian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Laplacian.cpp b/Laplacian.cpp
index feec43b..25eca61 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -66,11 +66,11 @@ void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   for (int iz = 0; iz < nz; ++iz) {
     int dz = (iz >= 1 && iz < nz - 1) ? 3 : (nz == 1 ? 1 : 2);
     for (int iy = 0; iy < ny; ++iy) {
-      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (nz == 1 ? 1 : 2))*dz;
+      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (ny == 1 ? 1 : 2))*dz;
       for (int ix = 0; ix < nx; ++ix) {
         int row = (iz*ny + iy)*nx + ix;
 
-        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nz == 1 ? 1 : 2);
+        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nx == 1 ? 1 : 2);
         idx += dx*dy;
         A->rowptr[row + 1] = idx;
       } // ix
-- 
2.43.0


From d468d692d4ea7d65f19d63a6e9f692410ffc98e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 11/79] fix: isSymmetric ignored the last column of 1-based
 matrices

---
 CSR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 85e8fc2..3132d10 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -191,7 +191,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
       for (int i = begin; i < end; ++i) {
         for (int j = rowptr[i]; j < extptr[i]; ++j) {
           int c = colidx[j];
-          if (c != i && c >= 0 && c < m) {
+          if (c != i && c >= base && c < m + base) {
             bool hasPair = false;
             for (int k = rowptr[c]; k < extptr[c]; ++k) {
               if (colidx[k] == i) {
@@ -217,7 +217,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
     for (int i = base; i < m + base; ++i) {
       for (int j = rowptr[i]; j < extptr[i]; ++j) {
         int c = colidx[j];
-        if (c != i && c >= 0 && c < m) {
+        if (c != i && c >= base && c < m + base) {
           bool hasPair = false;
           for (int k = rowptr[c]; k < extptr[c]; ++k) {
             if (colidx[k] == i) {
-- 
2.43.0


From 2a84f5ad57b9224e12f8ae8c519216e0115afe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 12/79] fix: isSymmetric compared values of pattern-only
 matrices

---
 CSR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CSR.cpp b/CSR.cpp
index 3132d10..2a94433 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -177,6 +177,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
   const int *extptr = this->extptr ? this->extptr - base : rowptr + 1;
   const int *colidx = this->colidx - base;
   const double *values = this->values ? this->values - base : NULL;
+  checkValues = checkValues && values;
 
   if (!printFirstNonSymmetry) {
     volatile bool isSymmetric = true;
-- 
2.43.0


From 11d2418aaf4f08082883b484f0fcd8d85a811670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 13/79] fix: hasZeroDiag on 1-based and pattern-only matrices

---
 CSR.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 2a94433..09a6010 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -249,6 +249,10 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
 bool CSR::hasZeroDiag() const
 {
   int base = getBase();
+  const int *rowptr = this->rowptr - base;
+  const int *colidx = this->colidx - base;
+  const double *values = this->values ? this->values - base : NULL;
+
   volatile bool hasZeroDiag = false;
 
 #pragma omp parallel
@@ -261,7 +265,7 @@ bool CSR::hasZeroDiag() const
     for (int i = iBegin; i < iEnd; ++i) {
       bool hasDiag = false;
       for (int j = rowptr[i]; j < rowptr[i + 1]; ++j) {
-        if (colidx[j] == i && values[j] != 0) {
+        if (colidx[j] == i && (!values || values[j] != 0)) {
           hasDiag = true;
           break;
         }
-- 
2.43.0


From 7ac39c2dd179495ba5578a133347ab858d07036f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 14/79] fix: bandwidth of a matrix without entries is zero

---
 CSR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 09a6010..1099caf 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -654,7 +654,7 @@ int CSR::getBandwidth() const
   const int *rowptr = this->rowptr - base;
   const int *colidx = this->colidx - base;
 
-  int bw = INT_MIN;
+  int bw = 0;
 #pragma omp parallel reduction(max:bw)
   {
     int iBegin, iEnd;
-- 
2.43.0


From 79ba117b2b5b13db782cb6b2801c7a41e991229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 15/79] fix: equals on pattern-only matrices

---
 CSR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 1099caf..0c259dc 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -755,7 +755,7 @@ bool CSR::equals(const CSR& A, bool print /*=false*/) const
         if (print) printf("colidx[%d:%d] differs %d vs. %d\n", i, j, colidx[j], A.colidx[j]);
         return false;
       }
-      if (values[j] != A.values[j]) {
+      if (values && A.values && values[j] != A.values[j]) {
         if (print) printf("values[%d:%d] differs %g vs. %g\n", i, j, values[j], A.values[j]);
         return false;
       }
-- 
2.43.0


From 42ad310010fbda8b390ae83da102e7c3d0b69c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 16/79] fix: misaligned pointer tables in level construction

---
 LevelSchedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index c40defe..7cd9c52 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -512,11 +512,12 @@ void findLevels_(
     // q : max(nthreads, n + nthreads - 1)*2
     // rowPtrs : max(nthreads, n + nthreads - 1)*2
 
-  int *nparents = tempBuffer; tempBuffer += n;
+  // arrays of pointers first to keep them aligned
   int **q = (int **)tempBuffer; tempBuffer += NUM_MAX_THREADS*(sizeof(int *)/sizeof(int));
-  int *qTail = tempBuffer; tempBuffer += NUM_MAX_THREADS*16;
   int **rowPtrs = (int **)tempBuffer; tempBuffer += NUM_MAX_THREADS*(sizeof(int *)/sizeof(int));
+  int *qTail = tempBuffer; tempBuffer += NUM_MAX_THREADS*16;
   int *nnzPrefixSum = tempBuffer; tempBuffer += NUM_MAX_THREADS*2;
+  int *nparents = tempBuffer; tempBuffer += n;
 
   nnzPrefixSum[0] = 0;
   nnzPrefixSum[nthreads + 1] = 0;
-- 
2.43.0


From 8aa107e88037b9178e6b03446913d451a9586913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 17/79] fix: rows of zero cost were left out of the schedule

---
 LevelSchedule.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 7cd9c52..b303f6e 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -634,7 +634,10 @@ void findLevels_(
     nnz = 0;
     int t;
     for (t = 0; t < nthreads; ++t) {
-      int newr = lower_bound(&b[r], &b[levelEnd], (t + 1)*nnzPerThread) - &b[0];
+      // the last thread takes all the remaining rows, including zero-cost ones
+      int newr = nthreads - 1 == t ?
+        levelEnd :
+        lower_bound(&b[r], &b[levelEnd], (t + 1)*nnzPerThread) - &b[0];
       if (aggregateForVectorization) {
         // make task size a multiple of 8 as much as possible
         if (0 == t) {
-- 
2.43.0


From a1132831df3483541b0842709688360c2e1e9b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 18/79] fix: memory-pool block freed when building without
 transitive reduction

---
 LevelSchedule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index b303f6e..27b5877 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1685,7 +1685,9 @@ void constructTaskGraph_(
         cForward += nparentsForward[i];
         cBackward += nparentsBackward[i];
       }
-      FREE(taskInvAdjacencyLengths);
+      if (!useMemoryPool) {
+        FREE(taskInvAdjacencyLengths);
+      }
 
       parentsBuf[0] = schedule->allocate<int>(cForward);
       parentsBuf[1] = schedule->allocate<int>(cBackward);
-- 
2.43.0


From 3c4c67170d8ebd451d9e77d88f9b0c1f35a75fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 19/79] fix: overlapping parent lists in the fused GS and SpMV
 schedule

---
 LevelSchedule.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 27b5877..af027c8 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1265,7 +1265,11 @@ void constructTaskGraph_(
     {
       FusedGSAndSpMVSchedule *fusedSchedule = schedule->fusedSchedule;
       fusedSchedule->parents = MALLOC(int *, ntasks);
-      fusedSchedule->parentsBuf = MALLOC(int, perThreadOrigRowPtrSum[nthreads] + 2*ntasks);
+      size_t nFusedParents = 0;
+      for (int task = 0; task < ntasks; ++task) {
+        nFusedParents += tempParents[task].size();
+      }
+      fusedSchedule->parentsBuf = MALLOC(int, nFusedParents);
 
       fusedSchedule->nparents = MALLOC(short, ntasks);
       memset((void *)fusedSchedule->nparents, 0, sizeof(short)*ntasks);
@@ -1275,7 +1279,7 @@ void constructTaskGraph_(
         fusedSchedule->parents[task] = fusedSchedule->parentsBuf + cnt;
         fusedSchedule->nparents[task] = tempParents[task].size();
         copy(tempParents[task].begin(), tempParents[task].end(), fusedSchedule->parents[task]);
-        cnt += taskInvAdjacencyLengths[task];
+        cnt += tempParents[task].size();
       }
 
       /*int cnt = 0;
-- 
2.43.0


From d539021258fe946979e3f5fdbbe6d177a66e993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 20/79] fix: wait lists of empty tasks overlapped those of the
 next task

---
 LevelSchedule.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index af027c8..3231548 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -938,7 +938,8 @@ void constructTaskGraph_(
   int origRowPtrCnt = 0, origInvRowPtrCnt = 0;
   for (int v1 = v1Begin; v1 < v1End; ++v1) {
     int size = 0;
-    int invSize = 0;
+    int invSize = taskBoundaries[v1] == taskBoundaries[v1 + 1] ? 1 : 0;
+      // empty tasks (useBarrier) also have an intra-thread edge
     for (int i1Perm = taskBoundaries[v1]; i1Perm < taskBoundaries[v1 + 1]; ++i1Perm) {
       int i1 = threadContToOrigPerm[i1Perm];
       size += extptr[i1] - diagptr[i1] - 1;
-- 
2.43.0


From a0aaaecba2cecd0102444571c1887cd5874656e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:56 +0000
Subject: [PATCH 21/79] fix: per-thread queues overflowed when few rows release
 many others

---
 LevelSchedule.cpp | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 3231548..81ada3c 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -187,6 +187,34 @@ void LevelSchedule::constructTaskGraph(
 
 #define NUM_MAX_THREADS (2048)
 
+/**
+ * Make sure q and rowPtr have enough space for all rows that can become ready
+ * after rows[begin:end-1] finish. Usually, the initial per-thread buffer is
+ * big enough. If not (e.g., a few rows release most of the others), switch to
+ * the buffers owned by this thread.
+ */
+static void reserveQueue_(
+  int *&q, int *&rowPtr, size_t& capacity,
+  vector<int>& ownQ, vector<int>& ownRowPtr,
+  const int *rows, int begin, int end,
+  const int *diagptr, const int *extptr, int m)
+{
+  size_t cnt = 0;
+  for (int i = begin; i < end; ++i) {
+    cnt += extptr[rows[i]] - diagptr[rows[i]] - 1;
+  }
+  cnt = min(cnt, (size_t)m) + 1;
+
+  if (cnt > capacity) {
+    ownQ.resize(cnt);
+    ownRowPtr.resize(cnt);
+
+    q = &ownQ[0];
+    rowPtr = &ownRowPtr[0];
+    capacity = cnt;
+  }
+}
+
 template<int BASE = 0>
 static
 void findLevels_(
@@ -216,6 +244,9 @@ void findLevels_(
   bool prevIterSerial = false;
   unsigned long long tTemp = __rdtsc();
 
+  size_t capacity = max(nthreads, m + nthreads - 1)/nthreads*2;
+  vector<int> ownQ, ownRowPtr;
+
   int end = 0;
 
   while (true) { // until all nodes are visited
@@ -314,6 +345,10 @@ void findLevels_(
       if (0 == tid) {
         tTemp = __rdtsc();
 
+        reserveQueue_(
+          q[tid], rowPtrs[tid], capacity, ownQ, ownRowPtr,
+          reversePerm, begin, end, diagptr, extptr, m);
+
         int *tailPtr = &reversePerm[end];
         int *rowPtr = rowPtrs[tid];
         *rowPtr = 0;
@@ -395,6 +430,10 @@ void findLevels_(
       if (0 == tid) tt5 += __rdtsc() - tTemp;
 
       tTemp = __rdtsc();
+      reserveQueue_(
+        q[tid], rowPtrs[tid], capacity, ownQ, ownRowPtr,
+        reversePerm, iBegin, iEnd, diagptr, extptr, m);
+
       int *tailPtr = q[tid];
       int *rowPtr = rowPtrs[tid];
       *rowPtr = 0;
-- 
2.43.0


From 8f07aa1e9442024fa6ca65469d7f7626bdc2ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:58 +0000
Subject: [PATCH 22/79] fix: LoadImba::deleteInstance was defined as
 Barrier::deleteInstance

---
 synk/loadimba.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index 50b1511..be3e4d5 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -112,9 +112,10 @@ LoadImba *LoadImba::getInstance()
     return instance;
 }
 
-void Barrier::deleteInstance()
+void LoadImba::deleteInstance()
 {
     delete instance;
+    instance = NULL;
 }
 
 /* constructor */
-- 
2.43.0


From 2b07ff82806cc007c272f4fbadd1f11db7147d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 23/79] fix: reducing barrier values overwritten by the next
 call

---
 synk/reduce.hpp | 66 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 25 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index bad5891..4d358fd 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -144,8 +144,9 @@ void ReduceBarrier<T>::init(int tid)
         core->sense = 1;
 
         core->threadRvals = MALLOC(volatile T, numThreadsPerCore);
-        core->myRvals = MALLOC(volatile T, lgNumCores);
-        core->partnerRvals = MALLOC(T *, lgNumCores);
+        /* as the flags, values are double buffered by parity */
+        core->myRvals = MALLOC(volatile T, 2*lgNumCores);
+        core->partnerRvals = MALLOC(T *, 2*lgNumCores);
 
         core->pseudoCore = NULL;
 
@@ -164,8 +165,8 @@ void ReduceBarrier<T>::init(int tid)
             pseudoCore->parity = 0;
             pseudoCore->sense = 1;
 
-            pseudoCore->myRvals = MALLOC(volatile T, lgNumCores);
-            pseudoCore->partnerRvals = MALLOC(T *, lgNumCores);
+            pseudoCore->myRvals = MALLOC(volatile T, 2*lgNumCores);
+            pseudoCore->partnerRvals = MALLOC(T *, 2*lgNumCores);
 
             core->pseudoCore = pseudoCore;
         }
@@ -186,54 +187,62 @@ void ReduceBarrier<T>::init(int tid)
     /* core thread 0 finishes setup */
     if (coreTid == 0) {
         for (int i = 0;  i < lgNumCores;  i++) {
-            core->myRvals[i] = (volatile T)NULL;
+            core->myRvals[i] = core->myRvals[lgNumCores + i] = (volatile T)NULL;
 
             /* find reduction partner and link */
             int reduceCid = (cid + (1 << i)) % nearestPow2Cores;
 
             /* is our reduction partner a real core? */
             if (reduceCid < numCores) {
-                core->partnerRvals[i] = (T *)&cores[reduceCid]->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j * lgNumCores + i] = (T *)
+                        &cores[reduceCid]->myRvals[j * lgNumCores + i];
                     core->partnerFlags[j][i] = (uint8_t *)
                         &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* no, it's a pseudo core */
             else {
                 reduceCid -= numCores;
-                core->partnerRvals[i] = (T *)
-                    &cores[reduceCid]->pseudoCore->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j * lgNumCores + i] = (T *)
+                        &cores[reduceCid]->
+                        pseudoCore->myRvals[j * lgNumCores + i];
                     core->partnerFlags[j][i] = (uint8_t *)
                         &cores[reduceCid]->
                         pseudoCore->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* if this is one of the cores that represents a pseudo
                core, we have to initialize and link its fields too */
             if (pseudoCore) {
-                pseudoCore->myRvals[i] = (volatile T)NULL;
+                pseudoCore->myRvals[i] =
+                    pseudoCore->myRvals[lgNumCores + i] = (volatile T)NULL;
 
                 reduceCid = (pseudoCore->coreId + (1 << i)) % nearestPow2Cores;
 
                 /* this pseudo core's reduction partner might be a real
                    core or a pseudo core */
                 if (reduceCid < numCores) {
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j * lgNumCores + i] = (T *)
+                            &cores[reduceCid]->myRvals[j * lgNumCores + i];
                         pseudoCore->partnerFlags[j][i] = (uint8_t *)
                             &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                    }
                 }
                 else {
                     reduceCid -= numCores;
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->pseudoCore->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j * lgNumCores + i] = (T *)
+                            &cores[reduceCid]->
+                            pseudoCore->myRvals[j * lgNumCores + i];
                         pseudoCore->partnerFlags[j][i] = (uint8_t *)
                             &cores[reduceCid]->
                             pseudoCore->myFlags[j][i * CacheLineSize];
+                    }
                 }
             }
         }
@@ -279,8 +288,11 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
            handle both */
         if (numThreadsPerCore == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                int ri = bar->parity * lgNumCores + i;
+                int pri = bar->pseudoCore->parity * lgNumCores + i;
+
+                *bar->partnerRvals[ri] = redVal;
+                *bar->pseudoCore->partnerRvals[pri] = zeroVal;
 
                 sfence();
 
@@ -295,8 +307,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[ri]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[pri]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -309,14 +321,16 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
         /* no pseudo core, only handle self */
         else {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
+                int ri = bar->parity * lgNumCores + i;
+
+                *bar->partnerRvals[ri] = redVal;
                 sfence();
                 *bar->partnerFlags[bar->parity][i] = bar->sense;
                 while (bar->myFlags[bar->parity][di] != bar->sense)
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[ri]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -334,7 +348,9 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
     else {
         if (coreTid == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                int pri = bar->pseudoCore->parity * lgNumCores + i;
+
+                *bar->pseudoCore->partnerRvals[pri] = zeroVal;
                 sfence();
                 *bar->pseudoCore->partnerFlags[bar->pseudoCore->parity][i]
                     = bar->pseudoCore->sense;
@@ -343,7 +359,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[pri]);
             }
             if (bar->pseudoCore->parity == 1)
                 bar->pseudoCore->sense = !bar->pseudoCore->sense;
-- 
2.43.0


From 24a2306b8c2b021c1a949b4e9f20983aa2d8f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:15 +0000
Subject: [PATCH 24/79] fix: reducing barrier of one core reduced its value
 with itself

---
 synk/reduce.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index 4d358fd..5d833d3 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -319,7 +319,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
         }
 
         /* no pseudo core, only handle self */
-        else {
+        else if (numCores > 1) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
                 int ri = bar->parity * lgNumCores + i;
 
-- 
2.43.0


From 3fcd5d5285615fb3933d4a202c8a67b4f3085989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 25/79] fix: concurrent unions of components could lose one of
 them

---
 reordering/ConnectedComponents.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 0c33f39..90bae79 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -167,8 +167,11 @@ void findConnectedComponents_(
           int p_r_x = old_p_r_x > old_p_r_y ? old_p_r_x : old_p_r_y;
           int p_r_y = old_p_r_x > old_p_r_y ? old_p_r_y : old_p_r_x;
 
-          if (p_r_x == r_x && __sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
-            break;
+          if (p_r_x == r_x) {
+            if (__sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) break;
+            // another thread has just linked this root; overwriting its link
+            // would lose that union
+            continue;
           }
           p[r_x] = p_r_y;
           r_x = p_r_x;
-- 
2.43.0


From 7166eafbfa28a2bb15067860860d1901f4b1a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 26/79] fix: connected components of an empty set of nodes

---
 reordering/ConnectedComponents.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 90bae79..0dbd012 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -275,7 +275,7 @@ void findConnectedComponents_(
   int cPerThread = (nComp + nthreads - 1)/nthreads;
   int cBegin = max(min(cPerThread*tid, nComp), 1);
   int cEnd = min(cBegin + cPerThread, nComp);
-  if (0 == tid) {
+  if (0 == tid && nComp > 0) {
     (*compSizes)[0] = (*compSizePrefixSum)[nComp*(nthreads - 1)];
   }
   for (int c = cBegin; c < cEnd; ++c) {
@@ -315,7 +315,7 @@ void findConnectedComponents_(
 
     for (int j = (*compSizePrefixSum)[i]; j < (*compSizePrefixSum)[i] + (*compSizes)[i]; ++j) {
       assert(p[(*nodesSortedByComp)[j]] == (*compToRoot)[i]);
-      if (j < (*compSizePrefixSum)[i + 1] - 1) {
+      if (j < (*compSizePrefixSum)[i] + (*compSizes)[i] - 1) {
         assert((*nodesSortedByComp)[j] < (*nodesSortedByComp)[j + 1]);
       }
     }
-- 
2.43.0


From 648de50c58c732d0cd4f9dd52ae6c9d8e51d4481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 27/79] fix: prefix sums of the last thread overflowed on
 path-like components

---
 reordering/RCM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 3672b64..1cd39d9 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -691,7 +691,7 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
 
   bfsAuxData aux(m);
   volatile int *write_offset = new int[(m + 1)*16];
-  int *prefixSum_array = new int[max(omp_get_max_threads()*PAR_THR, m) + 1];
+  int *prefixSum_array = new int[max(omp_get_max_threads()*(PAR_THR + 1), m + 1)];
 
   DegreeComparator comparator(rowptr);
 
-- 
2.43.0


From d3965e14bafcb9eeeb200211612792d8b5adc7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 28/79] fix: source candidates overflowed when threads queue
 the same nodes

---
 reordering/RCM.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 1cd39d9..7d35124 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -187,7 +187,8 @@ bfsAuxData::bfsAuxData(int m)
   rowptrs = new int[omp_get_max_threads()*m];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
-  candidates = new int[m];
+  // nodes may be queued by more than one thread
+  candidates = new int[m*omp_get_max_threads()];
 }
 
 bfsAuxData::~bfsAuxData()
-- 
2.43.0


From d2f587ab46c8d6df536d4f38c0bb95fd6b5ae791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 29/79] fix: BFS ordering of matrices with no or one row

---
 reordering/RCM.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 7d35124..d97fb75 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -184,7 +184,8 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  // at least two entries for the source
+  rowptrs = new int[omp_get_max_threads()*m + 1];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   // nodes may be queued by more than one thread
@@ -976,6 +977,8 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
   }
   assert(isSymmetric(false)); // check structural symmetry
 
+  if (0 == m) return;
+
   BitVector bv(m);
 
   bfsAuxData aux(m);
-- 
2.43.0


From 2173f63df05cf83bb6c501e7af92dbb98df4c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:06 +0000
Subject: [PATCH 30/79] fix: bipartite BFS prefix sums overflowed when one
 thread finds all nodes

---
 reordering/BFSBipartite.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index 31e393a..c1baca6 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -450,7 +450,8 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  // prefix sums of up to m nodes for each thread
+  rowptrs = new int[omp_get_max_threads()*(m + 1)];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
@@ -640,9 +641,9 @@ int bfs(
     }
     else {
       iBegin = upper_bound(
-          rowptrs + tBegin*max(A->m, A->n), rowptrs + tBegin*max(A->m, A->n) + qTail[1 - numLevels%2][tBegin],
+          rowptrs + tBegin*(max(A->m, A->n) + 1), rowptrs + tBegin*(max(A->m, A->n) + 1) + qTail[1 - numLevels%2][tBegin],
           nnzPerThread*tid - nnzPrefixSum[tBegin]) -
-        (rowptrs + tBegin*max(A->m, A->n)) - 1;
+        (rowptrs + tBegin*(max(A->m, A->n) + 1)) - 1;
     }
 
     if (tEnd == nthreads) {
@@ -650,9 +651,9 @@ int bfs(
     }
     else {
       iEnd = upper_bound(
-          rowptrs + tEnd*max(A->m, A->n), rowptrs + tEnd*max(A->m, A->n) + qTail[1 - numLevels%2][tEnd],
+          rowptrs + tEnd*(max(A->m, A->n) + 1), rowptrs + tEnd*(max(A->m, A->n) + 1) + qTail[1 - numLevels%2][tEnd],
           nnzPerThread*(tid + 1) - nnzPrefixSum[tEnd]) -
-        (rowptrs + tEnd*max(A->m, A->n)) - 1;
+        (rowptrs + tEnd*(max(A->m, A->n) + 1)) - 1;
     }
 
     memcpy(
@@ -663,7 +664,7 @@ int bfs(
     synk::Barrier::getInstance()->wait(tid);
 
     int *tailPtr = q[numLevels%2] + tid*max(A->m, A->n);
-    int *rowptr = rowptrs + tid*max(A->m, A->n);
+    int *rowptr = rowptrs + tid*(max(A->m, A->n) + 1);
     *rowptr = 0;
 
     for (int t = tBegin; t <= tEnd; ++t) {
-- 
2.43.0


From a4d6dbb3452af099d29091211c83f2cfae2ad60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 31/79] fix: prefix sums over zero components

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 0dbd012..15a3ee0 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -250,7 +250,7 @@ void findConnectedComponents_(
 #pragma omp barrier
 #pragma omp master
   {
-    for (int i = 1; i < nthreads; ++i) {
+    for (int i = 1; i < nthreads && nComp > 0; ++i) {
       int j0 = nComp*i - 1, j1 = nComp*(i + 1) - 1;
       int transpose_j0 = transpose_idx(j0, nthreads, nComp);
       int transpose_j1 = transpose_idx(j1, nthreads, nComp);
-- 
2.43.0


From 8526a78d3072e6bcfcd3997fa038b0450d09771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 32/79] fix: loading a general matrix into a COO that held a
 symmetric one

---
 COO.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/COO.cpp b/COO.cpp
index 70e3532..bd36cc0 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -229,6 +229,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     count = 2L*nnz;
   }
   else {
+    coo.isSymmetric = false;
     count = nnz;
   }
 
-- 
2.43.0


From 6d357250bb59d842c3f46cde165c0f59e4ba403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:02 +0000
Subject: [PATCH 33/79] fix: padding of symmetric and 0-based matrix files

---
 COO.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index bd36cc0..18c0ebb 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -246,7 +246,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   int *colidx_temp, *rowcnt = NULL;
   if (coo.isSymmetric) {
-    colidx_temp = MALLOC(int, count);
+    colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
@@ -281,13 +281,6 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     if (coo.isSymmetric) rowcnt[x]++;
       // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
   }
-  // padding for vectorization
-  for (int i = min(origM, origN); i < min(m, n); ++i) {
-    rowidx[count] = i + 1;
-    colidx[count] = i + 1;
-    values[count] = 1;
-    ++count;
-  }
   fclose(fp);
 
   if (0 == base) {
@@ -299,9 +292,19 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
       for (int i = m; i > 0; --i) {
         rowcnt[i] = rowcnt[i - 1];
       }
+      rowcnt[0] = 0;
     } 
   }
 
+  // padding for vectorization
+  for (int i = min(origM, origN); i < min(m, n); ++i) {
+    rowidx[count] = i + 1;
+    colidx[count] = i + 1;
+    values[count] = 1;
+    ++count;
+    if (coo.isSymmetric) rowcnt[i + 1]++;
+  }
+
   if (lines != nnz) {
     fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
             nnz, lines, file);
-- 
2.43.0


From 3d38b7acca5459376d3e6c4a531af4764d1dfcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 34/79] fix: out-of-range and surplus entries of matrix files
 overflowed arrays

---
 COO.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index 18c0ebb..aaa47c4 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -22,6 +22,7 @@ ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT LIABILITY, OR TORT
 SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 
+#include <climits>
 #include <cstring>
 #include <algorithm>
 
@@ -214,6 +215,16 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     fclose(fp);
     return false;
   }
+  if (m < 0 || n < 0 || nnz < 0 || m > INT_MAX - pad || n > INT_MAX - pad) {
+    fprintf(stderr, "Error: invalid matrix size %d x %d with %d non-zeros.\n", m, n, nnz);
+    fclose(fp);
+    return false;
+  }
+  if ((force_symmetric || mm_is_symmetric (matcode)) && m != n) {
+    fprintf(stderr, "Error: symmetric matrix is not square (%d x %d).\n", m, n);
+    fclose(fp);
+    return false;
+  }
   if (transpose) {
     assert(!force_symmetric);
     swap(m, n);
@@ -262,14 +273,22 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   int x, y;
   double real, imag;
   int base = 1;
+  int maxX = 0, maxY = 0;
   while (mm_read_mtx_crd_entry (fp, &x, &y, &real, &imag, matcode) == 0) {
     if (transpose) swap(x, y);
 
-    if (x > origM || y > origN) {
+    if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
       fclose(fp);
       return false;
     }
+    if (lines == nnz) {
+      fprintf(stderr, "Error: more entries than nnz (%d) specified in the header in file %s\n", nnz, file);
+      fclose(fp);
+      return false;
+    }
+    maxX = max(maxX, x);
+    maxY = max(maxY, y);
 
     rowidx[count] = x;
     colidx[count] = y;
@@ -283,6 +302,11 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   }
   fclose(fp);
 
+  if (0 == base && (maxX == origM || maxY == origN)) {
+    fprintf(stderr, "Error: coordinates are neither 0-based nor 1-based.\n");
+    return false;
+  }
+
   if (0 == base) {
     for (size_t i = 0; i < count; ++i) {
       rowidx[i]++;
-- 
2.43.0


From 62e33bdb27b3af8ea20a10ee989e5bb315a7167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 35/79] fix: COO::storeMatrixMarket left the file open

---
 COO.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index aaa47c4..436d493 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -53,12 +53,6 @@ void COO::dealloc()
 
 void COO::storeMatrixMarket(const char *fileName) const
 {
-  FILE *fp = fopen(fileName, "w");
-  if (NULL == fp) {
-    fprintf(stderr, "Fail to open file %s\n", fileName);
-    return;
-  }
-
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
-- 
2.43.0


From 2a881d6b99cb2cbe43dd62895529c8c86dca634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 36/79] fix: values lost their last digit when written to
 matrix files

---
 CSR.cpp   | 2 +-
 mm_io.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 0c259dc..8bb9534 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -301,7 +301,7 @@ void CSR::storeMatrixMarket(const char *fileName) const
   // print values
   for (int i = 0; i < m; ++i) {
     for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; ++j) {
-      fprintf(fp, "%d %d %20.16g\n", i + 1, colidx[j] - base + 1, values[j]);
+      fprintf(fp, "%d %d %20.17g\n", i + 1, colidx[j] - base + 1, values[j]);
     }
   }
 
diff --git a/mm_io.cpp b/mm_io.cpp
index 7aac638..3dae1ac 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -742,11 +742,11 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
     else
     if (mm_is_real(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g\n", I[i], J[i], val[i]);
+            fprintf(f, "%d %d %20.17g\n", I[i], J[i], val[i]);
     else
     if (mm_is_complex(matcode))
         for (i=0; i<nz; i++)
-            fprintf(f, "%d %d %20.16g %20.16g\n", I[i], J[i], val[2*i], 
+            fprintf(f, "%d %d %20.17g %20.17g\n", I[i], J[i], val[2*i], 
                         val[2*i+1]);
     else
     {
-- 
2.43.0


From 8f4e53b52b283d7b86cba23af1c91b145100d46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 37/79] fix: writing pattern-only matrices to matrix files

---
 COO.cpp |  7 ++++++-
 CSR.cpp | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 436d493..7b85a29 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -57,7 +57,12 @@ void COO::storeMatrixMarket(const char *fileName) const
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
   mm_set_sparse(&matcode);
-  mm_set_real(&matcode);
+  if (values) {
+    mm_set_real(&matcode);
+  }
+  else {
+    mm_set_pattern(&matcode);
+  }
 
   int err = mm_write_mtx_crd(
     (char *)fileName, m, n, nnz, rowidx, colidx, values, matcode);
diff --git a/CSR.cpp b/CSR.cpp
index 8bb9534..43c9054 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -289,7 +289,12 @@ void CSR::storeMatrixMarket(const char *fileName) const
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
   mm_set_sparse(&matcode);
-  mm_set_real(&matcode);
+  if (values) {
+    mm_set_real(&matcode);
+  }
+  else {
+    mm_set_pattern(&matcode);
+  }
 
   // print banner followed by typecode.
   fprintf(fp, "%s ", MatrixMarketBanner);
@@ -301,7 +306,12 @@ void CSR::storeMatrixMarket(const char *fileName) const
   // print values
   for (int i = 0; i < m; ++i) {
     for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; ++j) {
-      fprintf(fp, "%d %d %20.17g\n", i + 1, colidx[j] - base + 1, values[j]);
+      if (values) {
+        fprintf(fp, "%d %d %20.17g\n", i + 1, colidx[j] - base + 1, values[j]);
+      }
+      else {
+        fprintf(fp, "%d %d\n", i + 1, colidx[j] - base + 1);
+      }
     }
   }
 
-- 
2.43.0


From 8cd524c1c4c58280d56d152677c4671d9ead5542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 38/79] fix: header writers reported failure after writing

---
 mm_io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 3dae1ac..465010c 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -674,7 +674,7 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
 
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
-    if (ret_code !=2 )
+    if (ret_code < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -694,7 +694,7 @@ int mm_write_mtx_array_size(FILE *f, int M, int N)
     31 October 2008
 */
 {
-    if (fprintf(f, "%d %d\n", M, N) != 2)
+    if (fprintf(f, "%d %d\n", M, N) < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else 
         return 0;
@@ -779,7 +779,7 @@ int mm_write_mtx_crd_size ( FILE *f, int M, int N, int nz )
     Input, FILE *F, a pointer to the output file.
 */
 {
-  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) != 3 )
+  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) < 0 )
   {
     return MM_COULD_NOT_WRITE_FILE;
   }
-- 
2.43.0


From ea917c9cfb2944a1d12e624fd8cb670c74e8bcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 39/79] fix: long tokens of matrix file banners overflowed
 their buffers

---
 mm_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 465010c..0baeafb 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -83,7 +83,8 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) 
         return MM_PREMATURE_EOF;
 
-    if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type, 
+    /* widths are MM_MAX_TOKEN_LENGTH - 1 */
+    if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type, 
         storage_scheme) != 5)
         return MM_PREMATURE_EOF;
 
-- 
2.43.0


From d3499eda558052a991be0494fe3ead3e93fe3906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 40/79] fix: endless loop on non-numeric size lines of matrix
 files

---
 mm_io.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 0baeafb..58bdeee 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -212,7 +212,7 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
     do
     { 
       num_items_read = fscanf ( f, "%d %d", M, N ); 
-      if ( num_items_read == EOF ) 
+      if ( num_items_read == EOF || num_items_read == 0 ) 
       {
         return MM_PREMATURE_EOF;
       }
@@ -459,7 +459,7 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
     do
     { 
       num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
-      if (num_items_read == EOF) 
+      if (num_items_read == EOF || num_items_read == 0) 
       {
         return MM_PREMATURE_EOF;
       }
-- 
2.43.0


From 6f8eec0073c5e9712bd05f84481418fd12336b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 41/79] fix: mm_read_mtx_crd on integer matrices, bad counts
 and early failures

---
 mm_io.cpp | 66 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 34 insertions(+), 32 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 58bdeee..126e541 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -260,45 +260,47 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
         return MM_COULD_NOT_READ_FILE;
 
 
-    if ((ret_code = mm_read_banner(f, matcode)) != 0)
-        return ret_code;
+    *I = *J = NULL;
+    *val = NULL;
 
-    if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) && 
+    ret_code = mm_read_banner(f, matcode);
+    if (ret_code == 0 && !(mm_is_valid(*matcode) && mm_is_sparse(*matcode) && 
             mm_is_matrix(*matcode)))
-        return MM_UNSUPPORTED_TYPE;
-
-    if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
-        return ret_code;
-
+        ret_code = MM_UNSUPPORTED_TYPE;
 
-    *I = (int *)  malloc(*nz * sizeof(int));
-    *J = (int *)  malloc(*nz * sizeof(int));
-    *val = NULL;
-
-    if (mm_is_complex(*matcode))
-    {
-        *val = (double *) malloc(*nz * 2 * sizeof(double));
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
-                *matcode);
-        if (ret_code != 0) return ret_code;
-    }
-    else if (mm_is_real(*matcode))
-    {
-        *val = (double *) malloc(*nz * sizeof(double));
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
-                *matcode);
-        if (ret_code != 0) return ret_code;
-    }
+    if (ret_code == 0)
+        ret_code = mm_read_mtx_crd_size(f, M, N, nz);
+    if (ret_code == 0 && *nz < 0)
+        ret_code = MM_UNSUPPORTED_TYPE;
 
-    else if (mm_is_pattern(*matcode))
+    if (ret_code == 0)
     {
-        ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
-                *matcode);
-        if (ret_code != 0) return ret_code;
+        size_t n = *nz;
+        *I = (int *)  malloc(n * sizeof(int));
+        *J = (int *)  malloc(n * sizeof(int));
+        if (mm_is_complex(*matcode))
+            *val = (double *) malloc(n * 2 * sizeof(double));
+        else if (!mm_is_pattern(*matcode))
+            *val = (double *) malloc(n * sizeof(double));
+
+        if (n > 0 && (!*I || !*J || (!*val && !mm_is_pattern(*matcode))))
+            ret_code = MM_COULD_NOT_READ_FILE;
+        else
+            ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
+                    *matcode);
+
+        if (ret_code != 0)
+        {
+            free(*I);
+            free(*J);
+            free(*val);
+            *I = *J = NULL;
+            *val = NULL;
+        }
     }
 
     if (f != stdin) fclose(f);
-    return 0;
+    return ret_code;
 }
 /******************************************************************************/
 
@@ -331,7 +333,7 @@ int mm_read_mtx_crd_data(FILE *f, int M, int N, int nz, int I[], int J[],
             if (fscanf(f, "%d %d %lg %lg", &I[i], &J[i], &val[2*i], &val[2*i+1])
                 != 4) return MM_PREMATURE_EOF;
     }
-    else if (mm_is_real(matcode))
+    else if (mm_is_real(matcode) || mm_is_integer(matcode))
     {
         for (i=0; i<nz; i++)
         {
-- 
2.43.0


From 190f76af7c0ffaed37218059e9ae665685d13691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 42/79] fix: mm_read_unsymmetric_sparse on bad counts and
 truncated files

---
 mm_io.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 126e541..a6a864f 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -500,6 +500,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     {
         printf("mm_read_unsymetric: Could not process Matrix Market banner ");
         printf(" in file [%s]\n", fname);
+        fclose(f);
         return -1;
     }
  
@@ -511,6 +512,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
         fprintf(stderr, "Sorry, this application does not support ");
         fprintf(stderr, "Market Market type: [%s]\n",
                 mm_typecode_to_str(matcode));
+        fclose(f);
         return -1;
     }
  
@@ -518,9 +520,10 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
   find out size of sparse matrix: M, N, nz .... 
 */
  
-    if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0)
+    if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0 || nz < 0)
     {
         fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+        fclose(f);
         return -1;
     }
  
@@ -533,6 +536,15 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     I = (int *) malloc(nz * sizeof(int));
     J = (int *) malloc(nz * sizeof(int));
     val = (double *) malloc(nz * sizeof(double));
+    if (nz > 0 && (!I || !J || !val))
+    {
+        fprintf(stderr, "read_unsymmetric_sparse(): not enough memory.\n");
+        free(I);
+        free(J);
+        free(val);
+        fclose(f);
+        return -1;
+    }
  
     *val_ = val;
     *I_ = I;
@@ -545,7 +557,17 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
  
     for (i=0; i<nz; i++)
     {
-        fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        {
+            fprintf(stderr, "read_unsymmetric_sparse(): premature end of file.\n");
+            free(I);
+            free(J);
+            free(val);
+            *val_ = NULL;
+            *I_ = *J_ = NULL;
+            fclose(f);
+            return -1;
+        }
 /*
   Adjust from 1-based to 0-based.
 */
-- 
2.43.0


From 3a24eaa484f37d43665779611ce6480f36c3f55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 43/79] fix: array sizes of vector files (negative, zero
 columns, overflow)

---
 Vector.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index ceefd7f..fb55566 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -40,18 +40,22 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  *v = MALLOC(double, (*m)*(*n));
+  if (*m < 0 || *n < 0) {
+    fprintf(stderr, "Error: invalid array size %d x %d.\n", *m, *n);
+    fclose(fp);
+    return false;
+  }
 
-  for (int i = 0; i < *m; i++) {
-    for (int j = 0; j < *n - 1; j++) {
-      if (fscanf(fp, "%lg", *v + i*(*n) + j) != 1) {
-        fprintf(stderr, "Error: premature EOF.\n");
-        FREE(*v);
-        fclose(fp);
-        return false;
-      }
-    }
-    if (fscanf(fp, "%lg\n", *v + i*(*n) + (*n) - 1) != 1) {
+  size_t count = (size_t)(*m)*(*n);
+  *v = MALLOC(double, count);
+  if (!*v) {
+    fprintf(stderr, "Failed to allocate memory\n");
+    fclose(fp);
+    return false;
+  }
+
+  for (size_t i = 0; i < count; i++) {
+    if (fscanf(fp, "%lg", *v + i) != 1) {
       fprintf(stderr, "Error: premature EOF.\n");
       FREE(*v);
       fclose(fp);
-- 
2.43.0


From a22d50c753f244f46652170f09255e30035eadf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 44/79] fix: matrix of undefined shape when its file is
 rejected

---
 COO.cpp | 2 +-
 CSR.cpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index 7b85a29..de28144 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -35,7 +35,7 @@ using namespace std;
 namespace SpMP
 {
 
-COO::COO() : rowidx(NULL), colidx(NULL), values(NULL), isSymmetric(false)
+COO::COO() : m(0), n(0), nnz(0), rowidx(NULL), colidx(NULL), values(NULL), isSymmetric(false)
 {
 }
 
diff --git a/CSR.cpp b/CSR.cpp
index 43c9054..6af78ef 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -116,6 +116,7 @@ CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/,
   }
   else {
     COO Acoo;
+    // Acoo remains an empty matrix if this fails
     loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad);
 
     alloc(Acoo.m, Acoo.nnz);
-- 
2.43.0


From 27273bade5e77086f2c238f4a96f65bdbcaa19b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:16 +0000
Subject: [PATCH 45/79] fix: mm_read_unsymmetric_sparse accepted out-of-range
 indices

---
 mm_io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index a6a864f..634b86e 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -557,9 +557,10 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
  
     for (i=0; i<nz; i++)
     {
-        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3 ||
+            I[i] < 1 || I[i] > M || J[i] < 1 || J[i] > N)
         {
-            fprintf(stderr, "read_unsymmetric_sparse(): premature end of file.\n");
+            fprintf(stderr, "read_unsymmetric_sparse(): premature end of file or index out of range.\n");
             free(I);
             free(J);
             free(val);
-- 
2.43.0


From a155ecb1d18c10c5317da88a589344eb9659c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 46/79] fix: copies of a matrix lost its external-column
 pointers

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 6af78ef..b32be3c 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -89,6 +89,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (A.diagptr) diagptr = MALLOC(int, m);
   if (A.idiag) idiag = MALLOC(double, m);
   if (A.diag) diag = MALLOC(double, m);
+  if (A.extptr) extptr = MALLOC(int, m);
 
   copyVector(rowptr, A.rowptr, A.m + 1);
   copyVector(colidx, A.colidx, nnz);
@@ -96,6 +97,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (diagptr) copyVector(diagptr, A.diagptr, m);
   if (idiag) copyVector(idiag, A.idiag, m);
   if (diag) copyVector(diag, A.diag, m);
+  if (extptr) copyVector(extptr, A.extptr, m);
 }
 
 CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/, int pad /*=1*/)
-- 
2.43.0


From 50ba6b6ee28dcc87aa8143c946de19f799654a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 47/79] fix: external-column pointers of the user freed after
 loading a new matrix

---
 CSR.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index b32be3c..b4e17af 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -153,6 +153,13 @@ void CSR::dealloc()
       FREE(colidx);
       FREE(values);
     }
+    else {
+      // these belong to the user, who may go on using them
+      rowptr = NULL;
+      extptr = NULL;
+      colidx = NULL;
+      values = NULL;
+    }
 
     FREE(idiag);
     FREE(diag);
-- 
2.43.0


From bd54f2d5397e891f78704508c2f6c8ef9e4984e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 48/79] fix: storeBin changed the base of a matrix when its
 file cannot be opened

---
 CSR.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index b4e17af..60833dc 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -385,17 +385,17 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
 
 void CSR::storeBin(const char *fileName)
 {
-  bool was1Based = 1 == getBase();
-  if (was1Based) {
-    make0BasedIndexing();
-  }
-
   FILE *fp = fopen(fileName, "w");
   if (!fp) {
     fprintf(stderr, "Failed to open %s\n", fileName);
     return;
   }
 
+  bool was1Based = 1 == getBase();
+  if (was1Based) {
+    make0BasedIndexing();
+  }
+
   int id = MAT_FILE_CLASSID;
   fwrite(&id, sizeof(id), 1, fp);
 
-- 
2.43.0


From fb780c70e3cf36d4d3116bbc6feec4f5b5122aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 49/79] fix: storeBin of pattern-only matrices

---
 CSR.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 60833dc..40b9038 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -412,7 +412,16 @@ void CSR::storeBin(const char *fileName)
   free(rownnz);
 
   fwrite(colidx, sizeof(colidx[0]), nnz, fp);
-  fwrite(values, sizeof(values[0]), nnz, fp);
+  if (values) {
+    fwrite(values, sizeof(values[0]), nnz, fp);
+  }
+  else {
+    // as in pattern matrix files, entries without values are ones
+    const double one = 1;
+    for (int i = 0; i < nnz; ++i) {
+      fwrite(&one, sizeof(one), 1, fp);
+    }
+  }
 
   fclose(fp);
 
-- 
2.43.0


From c2bd677ba4b83e0f0120996cb9d2be0b09b6cd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 50/79] fix: memory damage by truncated or inconsistent binary
 files

---
 CSR.cpp | 78 ++++++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 61 insertions(+), 17 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 40b9038..ecd0a3d 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -330,6 +330,38 @@ void CSR::storeMatrixMarket(const char *fileName) const
 
 static const int MAT_FILE_CLASSID = 1211216;
 
+/**
+ * Read the header of a binary file and check it, also against the file size
+ */
+static bool readBinHeader(FILE *fp, int *m, int *n, int *nnz)
+{
+  int id;
+  if (fread(&id, sizeof(id), 1, fp) != 1 || MAT_FILE_CLASSID != id) {
+    fprintf(stderr, "Wrong file ID\n");
+    return false;
+  }
+
+  if (fread(m, sizeof(*m), 1, fp) != 1 ||
+      fread(n, sizeof(*n), 1, fp) != 1 ||
+      fread(nnz, sizeof(*nnz), 1, fp) != 1 ||
+      *m < 0 || *m == INT_MAX || *n < 0 || *nnz < 0) {
+    fprintf(stderr, "Wrong matrix size\n");
+    return false;
+  }
+
+  long begin = ftell(fp);
+  if (begin >= 0 && fseek(fp, 0, SEEK_END) == 0) {
+    size_t size = ftell(fp) - begin;
+    if (size < sizeof(int)*(size_t)*m + (sizeof(int) + sizeof(double))*(size_t)*nnz) {
+      fprintf(stderr, "File is truncated\n");
+      return false;
+    }
+    fseek(fp, begin, SEEK_SET);
+  }
+
+  return true;
+}
+
 void CSR::loadBin(const char *file_name, int base /*=0*/)
 {
   dealloc();
@@ -337,30 +369,42 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
   FILE *fp = fopen(file_name, "r");
   if (!fp) {
     fprintf(stderr, "Failed to open %s\n", file_name);
-    return;
   }
 
-  int id;
-  fread(&id, sizeof(id), 1, fp);
-  if (MAT_FILE_CLASSID != id) {
-    fprintf(stderr, "Wrong file ID (%d)\n", id);
-  }
+  int nnz = 0;
+  bool valid = fp && readBinHeader(fp, &m, &n, &nnz);
+  if (valid) {
+    alloc(m, nnz);
 
-  fread(&m, sizeof(m), 1, fp);
-  fread(&n, sizeof(n), 1, fp);
-  int nnz;
-  fread(&nnz, sizeof(nnz), 1, fp);
+    valid =
+      fread(rowptr + 1, sizeof(rowptr[0]), m, fp) == (size_t)m &&
+      fread(colidx, sizeof(colidx[0]), nnz, fp) == (size_t)nnz &&
+      fread(values, sizeof(values[0]), nnz, fp) == (size_t)nnz;
 
-  alloc(m, nnz);
+    rowptr[0] = 0;
+    for (int i = 0; i < m && valid; ++i) {
+      valid = rowptr[i + 1] >= 0 && rowptr[i + 1] <= nnz - rowptr[i];
+      if (valid) rowptr[i + 1] += rowptr[i];
+    }
+    valid = valid && rowptr[m] == nnz;
+    for (int i = 0; i < nnz && valid; ++i) {
+      valid = colidx[i] >= 0 && colidx[i] < n;
+    }
 
-  fread(rowptr + 1, sizeof(rowptr[0]), m, fp);
-  rowptr[0] = 0;
-  for (int i = 1; i < m; ++i) {
-    rowptr[i + 1] += rowptr[i];
+    if (!valid) {
+      fprintf(stderr, "%s is truncated or inconsistent\n", file_name);
+      dealloc();
+    }
   }
 
-  fread(colidx, sizeof(colidx[0]), nnz, fp);
-  fread(values, sizeof(values[0]), nnz, fp);
+  if (!valid) {
+    // an empty matrix
+    if (fp) fclose(fp);
+    m = n = 0;
+    alloc(0, 0);
+    rowptr[0] = base;
+    return;
+  }
 
 #pragma omp parallel for
   for (int i = 0; i < m; ++i) {
-- 
2.43.0


From e4cba30abbae6e994eaa67c0df82dc7e55156fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:13 +0000
Subject: [PATCH 51/79] fix: assigned matrices shared and twice freed their
 arrays

---
 CSR.cpp | 18 ++++++++++++++++++
 CSR.hpp |  1 +
 2 files changed, 19 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index ecd0a3d..b0d79cd 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -100,6 +100,24 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (extptr) copyVector(extptr, A.extptr, m);
 }
 
+CSR& CSR::operator=(const CSR& A)
+{
+  CSR copy(A);
+
+  swap(m, copy.m);
+  swap(n, copy.n);
+  swap(rowptr, copy.rowptr);
+  swap(colidx, copy.colidx);
+  swap(values, copy.values);
+  swap(idiag, copy.idiag);
+  swap(diag, copy.diag);
+  swap(diagptr, copy.diagptr);
+  swap(extptr, copy.extptr);
+  swap(ownData_, copy.ownData_);
+
+  return *this;
+}
+
 CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/, int pad /*=1*/)
  : rowptr(NULL), colidx(NULL), values(NULL), idiag(NULL), diag(NULL), diagptr(NULL), extptr(NULL), ownData_(true)
 {
diff --git a/CSR.hpp b/CSR.hpp
index c9722cd..3f640c7 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -53,6 +53,7 @@ public:
   CSR(const char *file, int base = 0, bool forceSymmetric = false, int pad = 1);
   CSR(int m, int n, int nnz);
   CSR(const CSR& A);
+  CSR& operator=(const CSR& A);
 
   // Following constructor will make CSR does not own the data
   CSR(int m, int n, int *rowptr, int *colidx, double *values);
-- 
2.43.0


From fbe4510190894bddd79b13df63ca896cd4feb300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 52/79] fix: thread partitions overflowed near the largest int

---
 Utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index d08cccf..f276648 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -39,10 +39,10 @@ void getSimpleThreadPartition(int* begin, int *end, int n)
   int nthreads = omp_get_num_threads();
   int tid = omp_get_thread_num();
 
-  int n_per_thread = (n + nthreads - 1)/nthreads;
+  int n_per_thread = ((long)n + nthreads - 1)/nthreads;
 
-  *begin = std::min(n_per_thread*tid, n);
-  *end = std::min(*begin + n_per_thread, n);
+  *begin = std::min((long)n_per_thread*tid, (long)n);
+  *end = std::min((long)*begin + n_per_thread, (long)n);
 }
 
 void getLoadBalancedPartition(int *begin, int *end, const int *prefixSum, int n)
@@ -50,9 +50,9 @@ void getLoadBalancedPartition(int *begin, int *end, const int *prefixSum, int n)
   int nthreads = omp_get_num_threads();
   int tid = omp_get_thread_num();
 
-  int base = prefixSum[0];
-  int total_work = prefixSum[n] - base;
-  int work_per_thread = (total_work + nthreads - 1)/nthreads;
+  long base = prefixSum[0];
+  long total_work = prefixSum[n] - base;
+  long work_per_thread = (total_work + nthreads - 1)/nthreads;
 
   *begin = tid == 0 ? 0 : lower_bound(prefixSum, prefixSum + n, work_per_thread*tid + base) - prefixSum;
   *end = tid == nthreads - 1 ? n : lower_bound(prefixSum, prefixSum + n, work_per_thread*(tid + 1) + base) - prefixSum;
-- 
2.43.0


From d696a73ae41f92a888dc4a6a61c3112d577c3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 53/79] fix: parMemset and parMemcpy on 2 GiB and more

---
 Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index f276648..66a7cef 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -70,8 +70,8 @@ void parMemset(void *ptr, int c, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = nCacheLineBegin*64L;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64L;
 
     memset((char *)ptr + nBegin, c, nEnd - nBegin);
   }
@@ -85,8 +85,8 @@ void parMemcpy(void *dst, const void *src, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = nCacheLineBegin*64L;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64L;
 
     memcpy((char *)dst + nBegin, (char *)src + nBegin, nEnd - nBegin);
   }
-- 
2.43.0


From aa2092b9e8fe8f73064b4114b4e19f7f76130e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 54/79] fix: isPerm accepted arrays with out-of-range entries

---
 Utils.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 66a7cef..973e946 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -105,22 +105,17 @@ bool isPerm(const int *perm, int n)
   int *temp = new int[n];
   memcpy(temp, perm, sizeof(int)*n);
   sort(temp, temp + n);
-  int *last = unique(temp, temp + n);
-  if (last != temp + n) {
-    memcpy(temp, perm, sizeof(int)*n);
-    sort(temp, temp + n);
-
-    for (int i = 0; i < n; ++i) {
+  for (int i = 0; i < n; ++i) {
+    if (temp[i] != i) {
       if (temp[i] == i - 1) {
         printf("%d duplicated\n", i - 1);
-        assert(false);
-        return false;
       }
-      else if (temp[i] != i) {
+      else {
         printf("%d missed\n", i);
-        assert(false);
-        return false;
       }
+      delete[] temp;
+      assert(false);
+      return false;
     }
   }
   delete[] temp;
-- 
2.43.0


From 79579b733a37495d3f296d63ee784d4277fc4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 55/79] fix: isInversePerm read outside of its array on
 out-of-range entries

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index 973e946..7b5881e 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -125,7 +125,7 @@ bool isPerm(const int *perm, int n)
 bool isInversePerm(const int *perm, const int *inversePerm, int len)
 {
   for (int i = 0; i < len; ++i) {
-    if (inversePerm[perm[i]] != i) return false;
+    if (perm[i] < 0 || perm[i] >= len || inversePerm[perm[i]] != i) return false;
   }
   return true;
 }
-- 
2.43.0


From 78cf3f10ad0e5eaf3d52334424c202fbf0408976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 56/79] fix: correctnessCheck accepted NaN

---
 Utils.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Utils.hpp b/Utils.hpp
index 088cec1..3f61668 100644
--- a/Utils.hpp
+++ b/Utils.hpp
@@ -44,9 +44,11 @@ bool correctnessCheck(
   int n,
   double tol = 1e-5, double ignoreSmallerThanThis = 0) {
   for (int i = 0; i < n; ++i) {
-    if (fabs(expected[i] - actual[i])/fabs(expected[i]) >= tol &&
-      (fabs(expected[i]) >= ignoreSmallerThanThis ||
-        fabs(actual[i]) >= ignoreSmallerThanThis)) {
+    // written so that a NaN is an error
+    if (expected[i] != actual[i] &&
+      !(fabs(expected[i] - actual[i])/fabs(expected[i]) < tol) &&
+      !(fabs(expected[i]) < ignoreSmallerThanThis &&
+        fabs(actual[i]) < ignoreSmallerThanThis)) {
       printf("Error at %d expected %g actual %g\n", i, expected[i], actual[i]);
       assert(false);
       return false;
-- 
2.43.0


From 6828878bf1235ce24a47c78b604b00c0d923798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:20 +0000
Subject: [PATCH 57/79] fix: alignment of memory-pool blocks

---
 MemoryPool.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 5c45180..b8b3a01 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -129,20 +129,22 @@ void *MemoryPool::allocate(size_t sz, int align /*=64*/)
   sz = (sz + align - 1)/align*align;
 
   if (tail_ >= head_) { // not wrapped around
-    if (tail_ + sz >= size_) { // wrap around
+    size_t begin = (tail_ + align - 1)/align*align;
+    if (begin + sz >= size_) { // wrap around
       tail_ = sz;
       assert(tail_ < head_); // check overflow
       return buffer_;
     }
     else {
-      tail_ += sz;
-      return buffer_ + (tail_ - sz);
+      tail_ = begin + sz;
+      return buffer_ + begin;
     }
   }
   else { // wrapped around
-    assert(tail_ + sz < head_); // check overflow
-    tail_ += sz;
-    return buffer_ + (tail_ - sz);
+    size_t begin = (tail_ + align - 1)/align*align;
+    assert(begin + sz < head_); // check overflow
+    tail_ = begin + sz;
+    return buffer_ + begin;
   }
 }
 
@@ -152,16 +154,17 @@ void *MemoryPool::allocateFront(size_t sz, int align /*=64*/)
 
   if (tail_ >= head_) { // not wrapped around
     if (head_ < sz) { // wrap around
-      head_ = size_ - sz;
+      head_ = (size_ - sz)/align*align;
       assert(head_ > tail_); // check overflow
     }
     else {
-      head_ -= sz;
+      head_ = (head_ - sz)/align*align;
     }
   }
   else { // wrapped around
     assert(head_ > tail_ + sz); // check overflow
-    head_ -= sz;
+    head_ = (head_ - sz)/align*align;
+    assert(head_ > tail_);
   }
 
   return buffer_ + head_;
-- 
2.43.0


From 7e3a817a1bacbf14ee6e15f31cfefeecfa24eb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:11 +0000
Subject: [PATCH 58/79] fix: flags signalled to barrier partners were not
 volatile

---
 synk/barrier.cpp |  4 ++--
 synk/barrier.hpp |  2 +-
 synk/reduce.hpp  | 32 ++++++++++++++++----------------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/synk/barrier.cpp b/synk/barrier.cpp
index 52a07c8..d6f7921 100644
--- a/synk/barrier.cpp
+++ b/synk/barrier.cpp
@@ -147,7 +147,7 @@ void Barrier::init(int tid)
                 _mm_malloc(lgNumCores * CacheLineSize, 64);
             for (int j = 0;  j < lgNumCores;  j++)
                 core->myFlags[i][j * CacheLineSize] = 0;
-            core->partnerFlags[i] = (uint8_t **)
+            core->partnerFlags[i] = (volatile uint8_t **)
                 _mm_malloc(lgNumCores * sizeof (uint8_t *), 64);
         }
         core->parity = 0;
@@ -172,7 +172,7 @@ void Barrier::init(int tid)
             /* find dissemination partner and link */
             int partnerCid = (cid + (1 << i)) % numCores;
             for (int j = 0;  j < 2;  j++)
-                core->partnerFlags[j][i] = (uint8_t *)
+                core->partnerFlags[j][i] =
                     &cores[partnerCid]->myFlags[j][i * CacheLineSize];
         }
     }
diff --git a/synk/barrier.hpp b/synk/barrier.hpp
index 7511a0c..9a5505a 100644
--- a/synk/barrier.hpp
+++ b/synk/barrier.hpp
@@ -45,7 +45,7 @@ struct CoreBarrier {
     volatile uint8_t    coreSense;
     volatile uint8_t    *threadSenses;
     volatile uint8_t    *myFlags[2];
-    uint8_t             **partnerFlags[2];
+    volatile uint8_t    **partnerFlags[2];
     uint8_t             parity;
     uint8_t             sense;
 };
diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index 5d833d3..824be82 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -53,12 +53,12 @@ template <typename T>
 struct PseudoCore {
     int8_t              coreId;
     volatile uint8_t    *myFlags[2];
-    uint8_t             **partnerFlags[2];
+    volatile uint8_t    **partnerFlags[2];
     uint8_t             parity;
     uint8_t             sense;
 
     volatile T          *myRvals;
-    T                   **partnerRvals;
+    volatile T          **partnerRvals;
 };
 
 
@@ -69,14 +69,14 @@ struct ReduceCoreBarrier {
     volatile uint8_t    coreSense;
     volatile uint8_t    *threadSenses;
     volatile uint8_t    *myFlags[2];
-    uint8_t             **partnerFlags[2];
+    volatile uint8_t    **partnerFlags[2];
     uint8_t             parity;
     uint8_t             sense;
 
     volatile T          rval;
     volatile T          *threadRvals;
     volatile T          *myRvals;
-    T                   **partnerRvals;
+    volatile T          **partnerRvals;
 
     PseudoCore<T>       *pseudoCore;
 };
@@ -138,7 +138,7 @@ void ReduceBarrier<T>::init(int tid)
             core->myFlags[i] = MALLOC(uint8_t, lgNumCores*CacheLineSize/sizeof(uint8_t));
             for (int j = 0;  j < lgNumCores;  j++)
                 core->myFlags[i][j * CacheLineSize] = 0;
-            core->partnerFlags[i] = MALLOC(uint8_t *, lgNumCores);
+            core->partnerFlags[i] = MALLOC(volatile uint8_t *, lgNumCores);
         }
         core->parity = 0;
         core->sense = 1;
@@ -146,7 +146,7 @@ void ReduceBarrier<T>::init(int tid)
         core->threadRvals = MALLOC(volatile T, numThreadsPerCore);
         /* as the flags, values are double buffered by parity */
         core->myRvals = MALLOC(volatile T, 2*lgNumCores);
-        core->partnerRvals = MALLOC(T *, 2*lgNumCores);
+        core->partnerRvals = MALLOC(volatile T *, 2*lgNumCores);
 
         core->pseudoCore = NULL;
 
@@ -160,13 +160,13 @@ void ReduceBarrier<T>::init(int tid)
                 pseudoCore->myFlags[i] = MALLOC(uint8_t, lgNumCores*CacheLineSize/sizeof(uint8_t));
                 for (int j = 0;  j < lgNumCores;  j++)
                     pseudoCore->myFlags[i][j * CacheLineSize] = 0;
-                pseudoCore->partnerFlags[i] = MALLOC(uint8_t *, lgNumCores);
+                pseudoCore->partnerFlags[i] = MALLOC(volatile uint8_t *, lgNumCores);
             }
             pseudoCore->parity = 0;
             pseudoCore->sense = 1;
 
             pseudoCore->myRvals = MALLOC(volatile T, 2*lgNumCores);
-            pseudoCore->partnerRvals = MALLOC(T *, 2*lgNumCores);
+            pseudoCore->partnerRvals = MALLOC(volatile T *, 2*lgNumCores);
 
             core->pseudoCore = pseudoCore;
         }
@@ -195,9 +195,9 @@ void ReduceBarrier<T>::init(int tid)
             /* is our reduction partner a real core? */
             if (reduceCid < numCores) {
                 for (int j = 0;  j < 2;  j++) {
-                    core->partnerRvals[j * lgNumCores + i] = (T *)
+                    core->partnerRvals[j * lgNumCores + i] =
                         &cores[reduceCid]->myRvals[j * lgNumCores + i];
-                    core->partnerFlags[j][i] = (uint8_t *)
+                    core->partnerFlags[j][i] =
                         &cores[reduceCid]->myFlags[j][i * CacheLineSize];
                 }
             }
@@ -206,10 +206,10 @@ void ReduceBarrier<T>::init(int tid)
             else {
                 reduceCid -= numCores;
                 for (int j = 0;  j < 2;  j++) {
-                    core->partnerRvals[j * lgNumCores + i] = (T *)
+                    core->partnerRvals[j * lgNumCores + i] =
                         &cores[reduceCid]->
                         pseudoCore->myRvals[j * lgNumCores + i];
-                    core->partnerFlags[j][i] = (uint8_t *)
+                    core->partnerFlags[j][i] =
                         &cores[reduceCid]->
                         pseudoCore->myFlags[j][i * CacheLineSize];
                 }
@@ -227,19 +227,19 @@ void ReduceBarrier<T>::init(int tid)
                    core or a pseudo core */
                 if (reduceCid < numCores) {
                     for (int j = 0;  j < 2;  j++) {
-                        pseudoCore->partnerRvals[j * lgNumCores + i] = (T *)
+                        pseudoCore->partnerRvals[j * lgNumCores + i] =
                             &cores[reduceCid]->myRvals[j * lgNumCores + i];
-                        pseudoCore->partnerFlags[j][i] = (uint8_t *)
+                        pseudoCore->partnerFlags[j][i] =
                             &cores[reduceCid]->myFlags[j][i * CacheLineSize];
                     }
                 }
                 else {
                     reduceCid -= numCores;
                     for (int j = 0;  j < 2;  j++) {
-                        pseudoCore->partnerRvals[j * lgNumCores + i] = (T *)
+                        pseudoCore->partnerRvals[j * lgNumCores + i] =
                             &cores[reduceCid]->
                             pseudoCore->myRvals[j * lgNumCores + i];
-                        pseudoCore->partnerFlags[j][i] = (uint8_t *)
+                        pseudoCore->partnerFlags[j][i] =
                             &cores[reduceCid]->
                             pseudoCore->myFlags[j][i * CacheLineSize];
                     }
-- 
2.43.0


From 5a9c12f6fb2734b271128f05054f6dbc17fb4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 59/79] fix: LoadImba::init did not wait for all threads

---
 synk/loadimba.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index be3e4d5..da335d6 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -138,14 +138,14 @@ void LoadImba::init(int tid, int numUses_)
     Barrier::init(tid);
     red->init(tid);
 
-    numUses = numUses_;
+    if (tid == 0) numUses = numUses_;
     lim = (ThreadLoadImba *)_mm_malloc(sizeof (ThreadLoadImba), 64);
-    lim->min = (uint64_t *)_mm_malloc(numUses * sizeof (uint64_t), 64);
-    lim->max = (uint64_t *)_mm_malloc(numUses * sizeof (uint64_t), 64);
-    lim->tot = (uint64_t *)_mm_malloc(numUses * sizeof (uint64_t), 64);
-    lim->cnt = (uint64_t *)_mm_malloc(numUses * sizeof (uint64_t), 64);
-    lim->bar = (uint64_t *)_mm_malloc(numUses * sizeof (uint64_t), 64);
-    for (int i = 0;  i < numUses;  i++) {
+    lim->min = (uint64_t *)_mm_malloc(numUses_ * sizeof (uint64_t), 64);
+    lim->max = (uint64_t *)_mm_malloc(numUses_ * sizeof (uint64_t), 64);
+    lim->tot = (uint64_t *)_mm_malloc(numUses_ * sizeof (uint64_t), 64);
+    lim->cnt = (uint64_t *)_mm_malloc(numUses_ * sizeof (uint64_t), 64);
+    lim->bar = (uint64_t *)_mm_malloc(numUses_ * sizeof (uint64_t), 64);
+    for (int i = 0;  i < numUses_;  i++) {
         lim->min[i] = 18446744073709551615ULL;
         lim->max[i] = 0;
         lim->tot[i] = 0;
@@ -157,8 +157,8 @@ void LoadImba::init(int tid, int numUses_)
     /* barrier to let all the allocations complete */
     if (atomic_dec_and_test(&threadsWaiting)) {
         atomic_set(&threadsWaiting, numThreads);
-        initState = 1;
-    } else while (initState == 0);
+        initState = 3;
+    } else while (initState == 2);
 }
 
 
-- 
2.43.0


From 9fba2ee5c218fcdbd9f755d2ad9ebcfb6c5c79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 60/79] fix: every thread wrote the end of the transposed row
 pointers

---
 CSR.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CSR.cpp b/CSR.cpp
index b0d79cd..2ef1191 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -717,6 +717,7 @@ CSR *CSR::transpose() const
   if (diagptr) {
 #pragma omp barrier
 
+#pragma omp single
     bucket[n + base] = nnz + base;
 
     int *AT_colidx = AT->colidx - base;
-- 
2.43.0


From fe6682e90fc9223ea552b60c802b210cd731cc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 61/79] fix: threads without rows wrote the end of the permuted
 row pointers

---
 Permute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Permute.cpp b/Permute.cpp
index 1f4905c..f33d121 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -45,7 +45,7 @@ void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
     int iBegin, iEnd;
     getSimpleThreadPartition(&iBegin, &iEnd, m);
 
-    ret->rowptr[iBegin] = 0;
+    if (iBegin < iEnd) ret->rowptr[iBegin] = 0;
     int i;
     for (i = iBegin; i < iEnd - 1; ++i) {
       int row = inversePerm ? inversePerm[i] : i;
-- 
2.43.0


From ba27d4818fb3a0d2c2c9f379eef69435e74df1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 62/79] fix: concurrent splices of component trees could lose a
 union

---
 reordering/ConnectedComponents.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 15a3ee0..d3157b0 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -173,7 +173,9 @@ void findConnectedComponents_(
             // would lose that union
             continue;
           }
-          p[r_x] = p_r_y;
+          // only if nobody else has moved r_x in between: a link that goes back
+          // to a larger parent can undo a union another thread relies on
+          __sync_bool_compare_and_swap(&p[r_x], p_r_x, p_r_y);
           r_x = p_r_x;
         } // while
       } // p[xx] != p[y]
-- 
2.43.0


From a6a029b7f0096fc7d8cb43676c095e0e29638824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 63/79] fix: two threads wrote the same component size

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index d3157b0..68a72a1 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -276,7 +276,7 @@ void findConnectedComponents_(
 
   int cPerThread = (nComp + nthreads - 1)/nthreads;
   int cBegin = max(min(cPerThread*tid, nComp), 1);
-  int cEnd = min(cBegin + cPerThread, nComp);
+  int cEnd = min(cPerThread*(tid + 1), nComp);
   if (0 == tid && nComp > 0) {
     (*compSizes)[0] = (*compSizePrefixSum)[nComp*(nthreads - 1)];
   }
-- 
2.43.0


From 1f0ec3e6c464e1c36dc1714592ceb2510637a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 64/79] fix: bit vector read without synchronisation

---
 reordering/BitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/BitVector.hpp b/reordering/BitVector.hpp
index 0349912..c980ec4 100644
--- a/reordering/BitVector.hpp
+++ b/reordering/BitVector.hpp
@@ -73,7 +73,7 @@ private :
   static int getBitIndexOf_(int i) { return i%sizeof(BitVectorType); }
   static BitVectorType getMaskOf_(int i) { return 1 << getBitIndexOf_(i); }
 
-  BitVectorType *bv_;
+  volatile BitVectorType *bv_; // read while other threads set bits
 };
 
 } // namespace SpMP
-- 
2.43.0


From 38e8f66edd1f90fd316181e55325ef30756ac8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 65/79] fix: connected components search leaked its union-find
 array

---
 reordering/ConnectedComponents.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 68a72a1..f4ff3be 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -326,6 +326,7 @@ void findConnectedComponents_(
 
   //printf("num of connected components = %d\n", (*numOfComponents));
 
+  delete[] p;
   delete[] rootToComp;
   if (nodesToFind) delete[] nodesToFind;
 }
-- 
2.43.0


From fa2efc94581df9415092a453592807140e412adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 66/79] fix: RCM and BFS orderings leaked the component lists

---
 reordering/RCM.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index d97fb75..a25821c 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -947,6 +947,11 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   delete[] write_offset;
   delete[] prefixSum_array;
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
   printf("connectedComponentTime = %f\n", timeConnectedComponents);
@@ -1112,6 +1117,11 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
 
   timeSecondPhase += omp_get_wtime();
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
   printf("connectedComponentTime = %f\n", timeConnectedComponents);
-- 
2.43.0


From d04020f56ab24715c0a7927691c39c3162051381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 67/79] fix: type names of matrix files were leaked

---
 CSR.cpp   | 4 +++-
 mm_io.cpp | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 2ef1191..b81adaa 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -326,7 +326,9 @@ void CSR::storeMatrixMarket(const char *fileName) const
 
   // print banner followed by typecode.
   fprintf(fp, "%s ", MatrixMarketBanner);
-  fprintf(fp, "%s\n", mm_typecode_to_str(matcode));
+  char *str = mm_typecode_to_str(matcode);
+  fprintf(fp, "%s\n", str);
+  free(str);
 
   // print matrix size and nonzeros.
   fprintf(fp, "%d %d %d\n", m, n, rowptr[m] - base);
diff --git a/mm_io.cpp b/mm_io.cpp
index 634b86e..9a98933 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -510,8 +510,9 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
             mm_is_sparse(matcode)))
     {
         fprintf(stderr, "Sorry, this application does not support ");
-        fprintf(stderr, "Market Market type: [%s]\n",
-                mm_typecode_to_str(matcode));
+        char *str = mm_typecode_to_str(matcode);
+        fprintf(stderr, "Market Market type: [%s]\n", str);
+        free(str);
         fclose(f);
         return -1;
     }
@@ -753,7 +754,9 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
   print banner followed by typecode.
 */
     fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    char *str = mm_typecode_to_str(matcode);
+    fprintf(f, "%s\n", str);
+    free(str);
 
 /*
   print matrix sizes and nonzeros.
-- 
2.43.0


From 856041c0a377495828f1a9032bb2b11e96ad683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 68/79] fix: arrays of rejected matrix files were leaked

---
 COO.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index de28144..b26d3ba 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -248,19 +248,21 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   double *values = MALLOC(double, count + extraCount);
   int *colidx = MALLOC(int, count + extraCount);
   int *rowidx = MALLOC(int, count + extraCount);
+  int *colidx_temp = NULL, *rowcnt = NULL;
   if (!values || !colidx || !rowidx) {
     fprintf(stderr, "Failed to allocate memory\n");
     fclose(fp);
+    FREE(values); FREE(colidx); FREE(rowidx); FREE(colidx_temp); FREE(rowcnt);
     return false;
   }
 
-  int *colidx_temp, *rowcnt = NULL;
   if (coo.isSymmetric) {
     colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
       fclose(fp);
+      FREE(values); FREE(colidx); FREE(rowidx); FREE(colidx_temp); FREE(rowcnt);
       return false;
     }
     memset(rowcnt, 0, sizeof(int)*(m + 1));
@@ -279,11 +281,13 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
       fclose(fp);
+      FREE(values); FREE(colidx); FREE(rowidx); FREE(colidx_temp); FREE(rowcnt);
       return false;
     }
     if (lines == nnz) {
       fprintf(stderr, "Error: more entries than nnz (%d) specified in the header in file %s\n", nnz, file);
       fclose(fp);
+      FREE(values); FREE(colidx); FREE(rowidx); FREE(colidx_temp); FREE(rowcnt);
       return false;
     }
     maxX = max(maxX, x);
@@ -303,6 +307,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   if (0 == base && (maxX == origM || maxY == origN)) {
     fprintf(stderr, "Error: coordinates are neither 0-based nor 1-based.\n");
+    FREE(values); FREE(colidx); FREE(rowidx); FREE(colidx_temp); FREE(rowcnt);
     return false;
   }
 
@@ -331,6 +336,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   if (lines != nnz) {
     fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
             nnz, lines, file);
+    FREE(values); FREE(colidx); FREE(rowidx); FREE(colidx_temp); FREE(rowcnt);
     return false;
   }
     
-- 
2.43.0


From 3b56e9a67db498c4f95443212cfc55fa17bbb7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 69/79] fix: task adjacency leaked without transitive reduction

---
 LevelSchedule.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 81ada3c..4b306b5 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1757,6 +1757,14 @@ void constructTaskGraph_(
         }
       }
 
+      if (!useMemoryPool) {
+        FREE(taskAdjacency.rowptr);
+        FREE(taskAdjacency.colidx);
+
+        FREE(taskInvAdjacency.rowptr);
+        FREE(taskInvAdjacency.colidx);
+      }
+
       taskAdjacency.~CSR();
       taskInvAdjacency.~CSR();
     } // omp single
-- 
2.43.0


From 6073d16e35d9cdd27bf815cd383703af86948625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 70/79] fix: LoadImba leaked its per-thread structures

---
 synk/loadimba.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index da335d6..5e21ec4 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -274,6 +274,7 @@ LoadImba::~LoadImba()
         _mm_free(limba[i]->tot);
         _mm_free(limba[i]->cnt);
         _mm_free(limba[i]->bar);
+        _mm_free(limba[i]);
     }
     _mm_free(limba);
 }
-- 
2.43.0


From 2dc5a9dccaa969ede1fe2d4f949de71e209461c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:57 +0000
Subject: [PATCH 71/79] fix: fused schedules leaked when using the memory pool

---
 LevelSchedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 4b306b5..0dca467 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -108,9 +108,10 @@ LevelSchedule::~LevelSchedule() {
     FREE(threadContToOrigPerm);
     FREE(parentsBuf[0]);
     FREE(parentsBuf[1]);
-
-    if (fusedSchedule) delete fusedSchedule;
   }
+
+  // never in the memory pool
+  if (fusedSchedule) delete fusedSchedule;
 }
 
 void LevelSchedule::init_()
-- 
2.43.0


From 285be8021d926023035932662fe4e42929ca1058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:54 +0000
Subject: [PATCH 72/79] fix: the total cost of a level overflowed

---
 LevelSchedule.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 0dca467..6d2bfed 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -650,24 +650,24 @@ void findLevels_(
   printf("\n");*/
 
   size_t bBufferBegin = memoryPool->getTail();
-  int *bBuffer = schedule->allocate<int>(n + nthreads);
+  long long *bBuffer = schedule->allocate<long long>(n + nthreads);
 
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
   for (int l = 0; l < levIndices.size() - 1; ++l) {
     int levelBegin = levIndices[l], levelEnd = levIndices[l + 1];
-    int *b = &bBuffer[0];
+    long long *b = &bBuffer[0];
 
     sort(&reversePerm[levelBegin], &reversePerm[levelEnd]);
 
     // partition this level.
-    int nnz = 0;
+    long long nnz = 0;
     for (int i = levelBegin; i < levelEnd; ++i) {
       b[i] = nnz;
       nnz += costFunction.getCostOf(reversePerm[i]);
     }
-    int nnzPerThread = (nnz + nthreads - 1)/nthreads;
+    long long nnzPerThread = (nnz + nthreads - 1)/nthreads;
 
     int prevEnd = levelBegin;
     int r = levelBegin;
-- 
2.43.0


From 29c9bb4fec2e387c7ededc728b0e49f5a57cd7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 73/79] fix: constructing a schedule again leaked its arrays
 and freed pool memory

---
 LevelSchedule.cpp | 12 ++++++++++--
 LevelSchedule.hpp |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 6d2bfed..2184bcd 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -95,6 +95,11 @@ LevelSchedule::LevelSchedule()
 }
 
 LevelSchedule::~LevelSchedule() {
+  dealloc_();
+}
+
+void LevelSchedule::dealloc_()
+{
   if (!useMemoryPool) {
     FREE(nparentsForward);
     FREE(nparentsBackward);
@@ -103,6 +108,7 @@ LevelSchedule::~LevelSchedule() {
 
     int *tempTaskFinished = (int *)taskFinished;
     FREE(tempTaskFinished);
+    taskFinished = NULL;
 
     FREE(origToThreadContPerm);
     FREE(threadContToOrigPerm);
@@ -112,6 +118,7 @@ LevelSchedule::~LevelSchedule() {
 
   // never in the memory pool
   if (fusedSchedule) delete fusedSchedule;
+  fusedSchedule = NULL;
 }
 
 void LevelSchedule::init_()
@@ -775,8 +782,6 @@ void findLevels_(
     threadBoundaries[tid + 1] += threadBoundaries[tid];
   }
 
-  FREE(schedule->origToThreadContPerm);
-  FREE(schedule->threadContToOrigPerm);
   schedule->origToThreadContPerm = schedule->allocate<int>(m + 64);
   schedule->threadContToOrigPerm = schedule->allocate<int>(m + 64);
   int *origToThreadContPerm = schedule->origToThreadContPerm;
@@ -1826,6 +1831,9 @@ void LevelSchedule::constructTaskGraph(
   const int *rowptr, const int *diagptr, const int *extptr, const int *colidx,
   const CostFunction& costFunction)
 {
+  // this schedule may have been constructed before
+  dealloc_();
+
   if (0 == rowptr[0]) {
     return constructTaskGraph_<0>(this, m, rowptr, diagptr, extptr, colidx, costFunction);
   }
diff --git a/LevelSchedule.hpp b/LevelSchedule.hpp
index d70f843..43bb40d 100644
--- a/LevelSchedule.hpp
+++ b/LevelSchedule.hpp
@@ -248,6 +248,7 @@ public :
 protected:
 
   void init_();
+  void dealloc_();
 };
 
 /**
-- 
2.43.0


From 1f3e5d44ce013779e3b2ed198953b8ee36061471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:52 +0000
Subject: [PATCH 74/79] fix: matrices from transpose, permute, splitLU, and the
 generator were never freed

---
 CSR.cpp       | 1 +
 CSR.hpp       | 5 ++++-
 Laplacian.cpp | 1 +
 Permute.cpp   | 1 +
 SymGS.cpp     | 1 +
 5 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index b81adaa..9137c18 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -588,6 +588,7 @@ CSR *CSR::transpose() const
   int nnz = getNnz();
 
   CSR *AT = new CSR();
+  AT->ownData_ = true;
 
   AT->m = n;
   AT->n = m;
diff --git a/CSR.hpp b/CSR.hpp
index 3f640c7..749caf7 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -190,7 +190,10 @@ public:
   }
 
 private:
-  bool ownData_;
+  friend void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base);
+  friend void splitLU(CSR& A, CSR *L, CSR *U);
+
+  bool ownData_; // true if rowptr, colidx, values, and extptr were allocated by the library
 }; // CSR
 
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base = 0);
diff --git a/Laplacian.cpp b/Laplacian.cpp
index 25eca61..1e78ea1 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -29,6 +29,7 @@ namespace SpMP
 
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   A->dealloc();
+  A->ownData_ = true;
 
   A->m = A->n = nx*ny*nz;
   A->rowptr = MALLOC(int, A->m + 1);
diff --git a/Permute.cpp b/Permute.cpp
index f33d121..e944d2f 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -81,6 +81,7 @@ void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 CSR *CSR::permuteRowptr(const int *inversePerm) const
 {
   CSR *ret = new CSR();
+  ret->ownData_ = true;
 
   ret->m = m;
   ret->n = n;
diff --git a/SymGS.cpp b/SymGS.cpp
index 9d0df85..0fe36d7 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -16,6 +16,7 @@ void splitLU(CSR& A, CSR *L, CSR *U)
 
   L->dealloc();
   U->dealloc();
+  L->ownData_ = U->ownData_ = true;
 
   L->m = U->m = A.m;
   L->n = U->n = A.n;
-- 
2.43.0


From 397ad9529d8beaeab5dec5cadef95f580382dac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:44 +0000
Subject: [PATCH 75/79] fix: debug check of symmetric patterns read a result
 that was not set

Without external columns symExtPtr is not written, but the check of
debug builds followed it.
---
 SymGS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SymGS.cpp b/SymGS.cpp
index 0fe36d7..252c7d5 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -304,7 +304,7 @@ bool getSymmetricNnzPattern(
     sym.rowptr = *symRowPtr;
     sym.colidx = *symColIdx;
     sym.diagptr = *symDiagPtr;
-    sym.extptr = *symExtPtr;
+    sym.extptr = A->extptr ? *symExtPtr : NULL;
 
     assert(sym.isSymmetric(false, true));
 
-- 
2.43.0


From 6c67c89e0ec11bb6cd9f336c182727f339617d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:58 +0000
Subject: [PATCH 76/79] fix: CSR::print handles a matrix without values

---
 CSR.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index 9137c18..7eaf905 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -865,7 +865,8 @@ void CSR::print() const
   int base = getBase();
   for (int i = 0; i < m; i++) {
     for (int j = rowptr[i] - base; j < rowptr[i + 1] - base; j++) {
-      printf("%d %d %g\n", i + base, colidx[j], values[j]);
+      if (values) printf("%d %d %g\n", i + base, colidx[j], values[j]);
+      else printf("%d %d\n", i + base, colidx[j]);
     }
   }
 }
-- 
2.43.0


From 00e3998cbb7065c2d6258f33e97ec54c6cf4aa51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:13 +0000
Subject: [PATCH 77/79] fix: LoadImba::printLoadImbalance wrapped around when
 more time was spent in the barrier than waiting

---
 synk/loadimba.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index 5e21ec4..7f60aa1 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -260,7 +260,7 @@ void LoadImba::printLoadImbalance(unsigned long long refTime) {
 
   printf(
     "Load imbalance = %f\n",
-    (double)(tot - bar)/numThreads/refTime);
+    ((double)tot - (double)bar)/numThreads/refTime);
 }
 
 
-- 
2.43.0


From 97f29b2a12a73668c39aa5938f1ba6860139f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:58 +0000
Subject: [PATCH 78/79] fix: arrays per level were one level short for paths
 ordered by all threads together

---
 reordering/RCM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index a25821c..5f360f4 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -692,8 +692,9 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   int singletonCnt = 0, twinCnt = 0;
 
   bfsAuxData aux(m);
-  volatile int *write_offset = new int[(m + 1)*16];
-  int *prefixSum_array = new int[max(omp_get_max_threads()*(PAR_THR + 1), m + 1)];
+  // bfs counts the empty level it ends with, so a path of m nodes has m + 1 levels
+  volatile int *write_offset = new int[(m + 2)*16];
+  int *prefixSum_array = new int[max(omp_get_max_threads()*(PAR_THR + 1), m + 2)];
 
   DegreeComparator comparator(rowptr);
 
-- 
2.43.0


From c947483650f8211937c5e2ff898fac987b35555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:22 +0000
Subject: [PATCH 79/79] fix: a size line without its numbers made the readers
 take entries for the size

---
 mm_io.cpp | 37 ++++++++-----------------------------
 1 file changed, 8 insertions(+), 29 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 9a98933..af2baea 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -203,23 +203,12 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 /* 
   line[] is either blank or has M,N, nz 
 */
-  if ( sscanf ( line, "%d %d", M, N ) == 2 )
+  num_items_read = sscanf ( line, "%d %d", M, N );
+  if ( num_items_read == EOF )
   {
-    return 0;
-  }
-  else
-  {
-    do
-    { 
-      num_items_read = fscanf ( f, "%d %d", M, N ); 
-      if ( num_items_read == EOF || num_items_read == 0 ) 
-      {
-        return MM_PREMATURE_EOF;
-      }
-    }
-    while ( num_items_read != 2 );
+    num_items_read = fscanf ( f, "%d %d", M, N );
   }
-  return 0;
+  return num_items_read == 2 ? 0 : MM_PREMATURE_EOF;
 }
 /******************************************************************************/
 
@@ -452,22 +441,12 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 /* 
   line[] is either blank or has M,N, nz 
 */
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
+  num_items_read = sscanf(line, "%d %d %d", M, N, nz);
+  if (num_items_read == EOF)
   {
-    return 0;
+    num_items_read = fscanf(f, "%d %d %d", M, N, nz);
   }
-  else
-  {
-    do
-    { 
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
-      if (num_items_read == EOF || num_items_read == 0) 
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
-  }
-  return 0;
+  return num_items_read == 3 ? 0 : MM_PREMATURE_EOF;
 }
 /******************************************************************************/
 
-- 
2.43.0

